"""Verification-condition generator: symbolic execution of the clang AST against contracts."""
import re, itertools
import z3
import cast
from cast import Ty, INT, UINT, LONG, ULONG, CHAR, REAL, VOID, FN
import spec
from spec import I, R, B, SpecError

class Unsupported(Exception):
    """The code uses something the verifier cannot translate: undecided, never a violation."""
class MapError(Unsupported):
    """A contract could not be attached to the current code."""

MULTI = set()          # structs that live in arrays (pointers to them carry an index)
GHOST = {}             # "Struct.$name" -> value sort ; ghost fields
def ghost_field(name, sort=I): GHOST[name] = sort

class Ptr:
    __slots__ = ("obj", "off")
    def __init__(s, obj, off=None): s.obj, s.off = obj, (z3.IntVal(0) if off is None else off)
    def __repr__(s): return "Ptr(%s,%s)" % (s.obj, s.off)
NULLP = Ptr(z3.IntVal(0))
ZERO = z3.IntVal(0)

LABELS = {}            # formula id -> (formula, label) : which specification clause an assumption came from
class State:
    __slots__ = ("vars", "heaps", "pc", "notes", "views", "facts", "ghost")
    def __init__(s): s.vars, s.heaps, s.pc, s.notes, s.views, s.facts, s.ghost = {}, {}, [], [], {}, set(), {}
    def clone(s):
        t = State(); t.vars = dict(s.vars); t.heaps = dict(s.heaps); t.pc = list(s.pc); t.notes = list(s.notes)
        t.views = dict(s.views); t.facts = set(s.facts); t.ghost = dict(s.ghost); return t
    def assume(s, f, label=None):
        if z3.is_true(f): return
        if label is not None: LABELS[f.get_id()] = (f, label)
        if f.get_id() in s.facts: return
        s.facts.add(f.get_id()); s.pc.append(f)

def label_matches(lab, pats): return any(lab == x[1:] if x.startswith("=") else x in lab for x in pats)
def forget(st, pats):
    if not pats: return
    st.pc = [f for f in st.pc if not (LABELS.get(f.get_id()) is not None and LABELS[f.get_id()][0].eq(f) and label_matches(LABELS[f.get_id()][1], pats))]
    st.facts = set(f.get_id() for f in st.pc)
class Loop:
    def __init__(s, inv=None, hints=None, decreases=None, ghost=None, hints_end=None, exit_hints=None, fold=None, entry_ghost=None, split=None, gkeys=(), forget=()):
        s.forget = forget          # labels of facts about earlier states that the loop does not need (fewer assumptions: always sound)
        s.inv, s.hints, s.decreases, s.ghost, s.hints_end, s.exit_hints, s.fold = inv, hints, decreases, ghost, hints_end, exit_hints, fold
        s.entry_ghost = entry_ghost
        s.gkeys = list(gkeys)      # ghost heaps the ghost update of the loop writes
        if ghost and not gkeys: raise ValueError('Loop.ghost needs gkeys')

class Contract:
    def __init__(s, file, name, requires=None, ensures=None, modifies=(), fresh=(), allocs=False, loops=None,
                 hints_exit=None, ghost_exit=None, hints_entry=None, opts=None, ghosts=None, nloops=None, inline_only=False,
                 call_hints=None, trusted=None, post_call=None, off_ok=(), arrays=(), ghost_params=None, call_ghosts=None, drop=None, call_set=None, reuse=None, call_forget=None):
        s.call_forget = call_forget or {}      # callee -> labels of facts about the state before the call not needed after it
        s.file, s.name = file, name
        s.drop = drop or {}     # goal label -> labels of clauses not needed for it (fewer assumptions: always sound)
        s.requires, s.ensures = requires or (lambda S: []), ensures or (lambda S: [])
        s.modifies, s.fresh, s.allocs = list(modifies), list(fresh), allocs
        s.loops = loops or {}
        s.hints_exit, s.ghost_exit, s.hints_entry = hints_exit, ghost_exit, hints_entry
        s.opts = dict(dict(overflow=True, uwrap="model", memsafe=True, fdiv=True, term=True), **(opts or {}))
        s.nloops = nloops
        s.call_hints = call_hints or {}
        s.trusted = trusted
        s.off_ok = set(off_ok)
        s.reuse = reuse         # lambda S, o: blocks of the caller that may be released and their storage used again
        s.ghost_params = ghost_params or {}    # name -> sort
        s.call_set = call_set or {}            # callee -> lambda S, callee view: {ghost heap: value}, applied after the call
        s.call_ghosts = call_ghosts or {}      # callee -> lambda S: {ghost: value}

class Obl:
    __slots__ = ("func", "kind", "label", "line", "assm", "goal", "path", "aux")
    def __init__(s, func, kind, label, line, assm, goal, path): s.func, s.kind, s.label, s.line, s.assm, s.goal, s.path = func, kind, label, line, assm, goal, path

def vsort(t):
    if t.k == "int" or t.k == "ptr": return I
    if t.k == "real": return R
    raise Unsupported("value of type %r" % t)
def irange(t):
    return (-(1 << (t.a - 1)), (1 << (t.a - 1)) - 1) if t.b else (0, (1 << t.a) - 1)
def in_range(v, t):
    lo, hi = irange(t); return z3.And(v >= lo, v <= hi)

def simp(t): return z3.simplify(t, arith_lhs=False, som=False, elim_to_real=False)

def numval(x):
    return x.as_long() if z3.is_int_value(x) else None

# ------------------------------------------------------------ block types
TAG = z3.Function("tag", I, I)      # declared type of a block: object numbers are abstract, each type draws from its own supply
def type_id(t):
    import zlib
    return z3.IntVal(zlib.crc32(("struct " + t.a if t.k == "struct" else repr(t)).encode()))
# ------------------------------------------------------------ heap helpers
def heap_sort(eng, name):
    if name == "$alloc": return z3.ArraySort(I, B)
    if name == "$len": return z3.ArraySort(I, I)
    if name in GHOST: return z3.ArraySort(I, GHOST[name])
    if name.startswith("[]"):
        return z3.ArraySort(I, z3.ArraySort(I, elem_sort_name(name[2:])))
    st, f = name.split(".", 1)
    ft = eng.tu.fields(st)[f]
    s = vsort(ft)
    return z3.ArraySort(I, z3.ArraySort(I, s)) if st in MULTI else z3.ArraySort(I, s)
def elem_sort_name(n): return R if n == "real" else I
def elem_heap(t): return "[]" + repr(t)

DEFS = {}      # frozen heap constant -> (const, term it abbreviates)
def sel(a, i):
    """select with light simplification through store chains and frozen heap names"""
    top = a
    while True:
        d = DEFS.get(a.get_id())
        if d is not None: a = d[1]; continue
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            arr, j, v = a.children()
            if j.eq(i): return v
            nj, ni = numval(j), numval(i)
            if nj is not None and ni is not None and nj != ni: a = arr; continue
            if is_fresh(j) and is_fresh(i): a = arr; continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY: return a.children()[0]
    return z3.Select(top, i)
def is_fresh(t): return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("new!")

# ------------------------------------------------------------ spec views
class P:
    """typed pointer value in a spec, bound to the state it is read in"""
    def __init__(s, view, elem, obj, off): s.__dict__.update(_v=view, _t=elem, o=obj, off=off)
    def __getattr__(s, f):
        if f.startswith("__"): raise AttributeError(f)
        v = s._v; t = s._t
        if t.k != "struct": raise SpecError("field %s of %r" % (f, t))
        if f.startswith("g_"):
            return z3.Select(v.heap("%s.$%s" % (t.a, f[2:])), s.o)
        fields = v._eng.tu.fields(t.a)
        if f not in fields: raise SpecError("struct %s has no field %s" % (t.a, f))
        h = v.heap("%s.%s" % (t.a, f))
        x = z3.Select(z3.Select(h, s.o), s.off) if t.a in MULTI else z3.Select(h, s.o)
        return v.wrap(fields[f], x)
    def __getitem__(s, i):
        v = s._v; t = s._t
        i = spec._i(i)
        idx = i if (numval(s.off) == 0) else s.off + i
        if t.k == "struct":
            if t.a in MULTI: return P(v, t, s.o, idx)
            raise SpecError("index into single struct " + t.a)
        return v.wrap(t, z3.Select(z3.Select(v.heap(elem_heap(t)), s.o), idx))
    @property
    def arr(s):
        """the block's content as an array term (offset must be 0)"""
        return z3.Select(s._v.heap(elem_heap(s._t)), s.o)
    def __eq__(s, q):
        if q is None or (isinstance(q, int) and q == 0): return s.o == 0
        if isinstance(q, P):
            return s.o == q.o if (numval(s.off) == 0 and numval(q.off) == 0) else z3.And(s.o == q.o, s.off == q.off)
        return s.o == q
    def __ne__(s, q): return z3.Not(s.__eq__(q))
    def __hash__(s): return hash((s.o.get_id(), s.off.get_id()))
    def alloc(s): return z3.Select(s._v.heap("$alloc"), s.o)
    def len(s): return z3.Select(s._v.heap("$len"), s.o)
    def typed(s):
        """the block was allocated with the type this pointer declares (so blocks of other types are different blocks)"""
        return TAG(s.o) == type_id(s._t)
    def at(s, view): return P(view, s._t, s.o, s.off)

class View:
    def __init__(s, eng, st, names, extra=None):
        s.__dict__.update(_eng=eng, _st=st, _names=names, _extra=extra or {})
    def heap(s, n): return s._eng.heap(s._st, n)
    def wrap(s, t, x):
        if t.k == "ptr":
            if isinstance(x, Ptr): return P(s, t.a, x.obj, x.off)
            return P(s, t.a, x, ZERO)
        return x
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        if n in s._extra:
            return s._extra[n]
        return s._var(n)
    def _var(s, n):
        r = s._names(n)
        if r is None: raise MapError("the specification names '%s', which the code no longer has" % n)
        t, v = r
        if isinstance(v, z3.BoolRef): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return s.wrap(t, v)
    def __getitem__(s, n): return s._var(n) if s._extra.get(n, 0) is None else s.__getattr__(n)
    def var(s, n): return s.__getattr__(n)
    def has(s, n):
        return n in s._extra or s._names(n) is not None
    def bind(s, p): return P(s, p._t, p.o, p.off)
    def ptr(s, tname, obj, off=ZERO):
        return P(s, Ty("struct", tname), obj, off)
    def f(s, name, o): return z3.Select(s.heap(name), o)

# ------------------------------------------------------------ engine
PURE_EXT = {"fabs", "floor", "ceil", "sqrt", "exp", "log", "pow", "abs", "log10", "lgamma", "gsl_sf_lngamma", "fmax", "fmin"}
TRACED = {"fprintf", "fputs", "fputc", "putc"}     # output calls recorded when a contract asks for it (opts trace)
NOEFFECT_EXT = {"printf", "fprintf", "fputs", "fputc", "putc", "perror", "fflush", "puts", "putchar", "gsl_rng_free"}
uf = {n: z3.Function("c_" + n, R, R) for n in ("exp", "log", "sqrt", "log10", "lgamma", "ceil")}
c_pow = z3.Function("c_pow", R, R, R)

def has_effects(eng, e):
    k = e.get("kind")
    if k in ("CompoundAssignOperator",): return True
    if k == "BinaryOperator" and e["opcode"] == "=": return True
    if k == "UnaryOperator" and e["opcode"] in ("++", "--"): return True
    if k == "CallExpr":
        n = callee_name(e)
        c = eng.contracts.get(n)
        if n in PURE_EXT: pass
        elif c is not None and not c.modifies and not c.fresh and not c.allocs and c.opts.get("pure"): pass
        else: return True
    return any(has_effects(eng, c) for c in e.get("inner", []) if isinstance(c, dict))

def callee_name(e):
    c = e["inner"][0]
    while c["kind"] in ("ImplicitCastExpr", "ParenExpr"): c = c["inner"][0]
    if c["kind"] == "DeclRefExpr": return c["referencedDecl"]["name"]
    return None
def strip(e):
    while e["kind"] in ("ParenExpr", "ConstantExpr") or (e["kind"] in ("ImplicitCastExpr",) and e.get("castKind") in ("LValueToRValue", "NoOp")): e = e["inner"][0]
    return e
def strip_casts(e):
    while e["kind"] in ("ParenExpr", "ConstantExpr", "ImplicitCastExpr", "CStyleCastExpr"): e = e["inner"][0]
    return e

class Frame:
    def __init__(s, fn, path): s.fn, s.path, s.names, s.ids, s.types, s.rets = fn, path, {}, {}, {}, []

class Engine:
    def __init__(self, contracts, fname, contract=None):
        self.contracts = contracts
        self.c = contract or contracts[fname]
        self.fname = fname
        self.tu = cast.load(self.c.file)
        if fname not in self.tu.funcs: raise MapError("function %s not found in %s" % (fname, self.c.file))
        self.fn = self.tu.funcs[fname]
        self.obls = []
        self.quiet = 0
        self.init_heaps = {}
        self.ctx = spec.reset_ctx()
        self.write_log = None
        self.frames = []
        self.max_paths = 4000
        self.nf = 0
        self.cover = []      # (label, assumptions) that must be satisfiable
        self.inlined = set()
        self.called = set()
        self.ext_used = set()
        self.loopmap = None
        self.rename = {}

    # -- infrastructure
    def fresh(self, base, sort):
        self.nf += 1
        return z3.Const("%s!%d" % (base, self.nf), sort)
    def heap(self, st, name):
        h = st.heaps.get(name)
        if h is None:
            if name not in self.init_heaps: self.init_heaps[name] = z3.Const("H0_" + name, heap_sort(self, name))
            h = self.init_heaps[name]
        return h
    def log_write(self, name, obj):
        if self.write_log is not None: self.write_log.append((name, obj))
    def oblige(self, st, kind, label, goal, line=None):
        if self.quiet: return
        goal = goal if z3.is_expr(goal) else z3.BoolVal(goal)
        if z3.is_true(goal): return
        if z3.is_true(simp(goal)): 
            goal = z3.BoolVal(True)
        pc = list(st.pc)
        for key, labs in self.c.drop.items():
            if key in label:
                def gone(f):
                    d = LABELS.get(f.get_id())
                    return d is not None and d[0].eq(f) and label_matches(d[1], labs)
                pc = [f for f in pc if not gone(f)]
        self.obls.append(Obl(self.fname, kind, label, line or self.line, pc, goal, "; ".join(st.notes[-12:])))
    def load_fact(self, st, t, v):
        if t.k == "int" and z3.is_expr(v) and not z3.is_int_value(v): st.assume(in_range(v, t))

    # -- names / loops
    def number_loops(self):
        """static pre-order numbering, following inlined calls"""
        out = []; self.skel = []
        def effects(n):
            if not isinstance(n, dict): return []
            l = [x for c in n.get("inner", []) for x in effects(c)]
            if n.get("kind") in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and n.get("opcode") in ("=", "+=", "-=", "*=", "/=", "++", "--"): l.append(n["opcode"][0] + ("=" if n["opcode"] == "=" else "+"))
            return l
        def walk(n, path, depth, nest=0, fn=""):
            if not isinstance(n, dict): return
            k = n.get("kind")
            if k in ("ForStmt", "WhileStmt", "DoStmt") and not self.trivial_loop(n):
                out.append((path, n["id"]))
                cond = n["inner"][2] if k == "ForStmt" else n["inner"][0 if k == "WhileStmt" else 1]
                self.skel.append("%s/%d %s %s %s" % (fn, nest, k[0], "".join(effects(cond)), "".join(effects(n["inner"][3])) if k == "ForStmt" else ""))
                nest += 1
            for c in n.get("inner", []): walk(c, path, depth, nest, fn)
            if k == "CallExpr":
                f = callee_name(n)
                if f in self.tu.funcs and f not in self.contracts and f not in SPECIAL and depth < 6:
                    walk(self.body(self.tu.funcs[f]), path + (n["id"],), depth + 1, nest, f)
        walk(self.body(self.fn), (), 0)
        return out
    def trivial_loop(self, n):
        if n["kind"] == "DoStmt":
            c = strip_casts(n["inner"][1])
            return c["kind"] == "IntegerLiteral" and int(c["value"]) == 0
        if n["kind"] == "WhileStmt":
            c = strip_casts(n["inner"][0])
            return c["kind"] == "IntegerLiteral" and int(c["value"]) == 0
        if n["kind"] == "ForStmt" and n["inner"][2]:
            c = strip_casts(n["inner"][2])
            return c.get("kind") == "IntegerLiteral" and int(c["value"]) == 0
        return False
    def body(self, fn):
        return [c for c in fn["inner"] if c["kind"] == "CompoundStmt"][0]
    def params(self, fn): return [c for c in fn.get("inner", []) if c["kind"] == "ParmVarDecl"]

    def resolve(self, st, name):
        """spec name -> (type, value) in the current frames"""
        name = self.rename.get(name, name)
        for fr in [self.frames[0]] + self.frames[:0:-1]:
            if name in fr.names:
                for key in reversed(fr.names[name]):
                    if key in st.vars: return fr.types[key], st.vars[key]
        for fr in reversed(getattr(self, "dead_frames", [])):
            if name in fr.names:
                for key in reversed(fr.names[name]):
                    if key in st.vars: return fr.types[key], st.vars[key]
        if name in self.tu.globals: return self.global_get(st, name)
        return None
    def freeze(self, st):
        """name every compound heap term, so that specifications range over constants"""
        for h in list(st.heaps):
            t = st.heaps[h]
            if z3.is_const(t): continue
            c = self.fresh("H_" + h, t.sort())
            DEFS[c.get_id()] = (c, t)
            st.heaps[h] = c; st.assume(c == t)
    def view(self, st, extra=None):
        self.freeze(st)
        snap = st.clone()
        for n, t in self.boxed_names(st): pass
        ex = {"old": self.entry_view, "L": None}
        ex.update(st.views); ex.update(st.ghost); ex.update(extra or {})
        frames0 = list(self.frames); dead = list(getattr(self, "dead_frames", []))
        def names(n):
            r = self.resolve(snap, n)
            if r is None: return None
            t, v = r
            if isinstance(v, Boxed): return t, self.load_raw(snap, elem_heap(t), v.ptr.obj, v.ptr.off, t)
            return r
        return View(self, snap, names, ex)
    def boxed_names(self, st): return []
    def load_raw(self, st, h, obj, off, t):
        x = sel(sel(self.heap(st, h), obj), off)
        return Ptr(x) if t.k == "ptr" else x

    # ---------------------------------------------------------------- verify one function
    def run(self):
        cast.annotate_lines(self.fn)
        for f in self.tu.funcs.values():
            if f.get("_ann") is None and f is not self.fn and f.get("loc", {}).get("includedFrom") is None: cast.annotate_lines(f); f["_ann"] = 1
        self.line = self.fn.get("_line")
        self.loops = self.number_loops()
        want = self.c.nloops if self.c.nloops is not None else (max(self.c.loops) + 1 if self.c.loops else None)
        if want is not None and len(self.loops) != want:
            raise MapError("%s: contract knows %d loops, code has %d" % (self.fname, want, len(self.loops)))
        st = State()
        fr = Frame(self.fn, ())
        self.frames = [fr]
        self.dead_frames = []
        addr = self.addr_taken(self.body(self.fn))
        entry_vals = {}
        for p in self.params(self.fn):
            t = self.tu.ty(p["type"]); n = p.get("name", "_")
            v = self.fresh_value(st, n, t)
            entry_vals[n] = (t, v)
            self.declare(st, fr, p, n, t, v, boxed=p["id"] in addr)
        entry = st.clone()
        for g, s in self.c.ghost_params.items():
            st.ghost[g] = entry.ghost[g] = z3.Const("gp_" + g, s)
        st.assume(z3.Not(sel(self.heap(st, "$alloc"), ZERO)))
        entry_names = lambda n: entry_vals.get(self.rename.get(n, n))
        self.entry_view = View(self, entry, entry_names, dict(st.ghost))
        pre = self.entry_view
        for lab, f in norm(self.c.requires(pre)): st.assume(f, lab)
        self.cover.append(("entry of " + self.fname, list(st.pc)))
        if self.c.hints_entry:
            self.hint(st, self.c.hints_entry(self.view(st)))
        outs = self.exec(self.body(self.fn), st)
        rt = self.tu.ty(self.fn["type"]["qualType"].split("(")[0].strip())
        n_exit = 0
        for (s, kind, val) in outs:
            if kind in ("break", "continue"): raise Unsupported("stray " + kind)
            if kind == "normal" : val = None
            n_exit += 1
            self.finish(s, rt, val, entry, entry_vals)
        self.n_exit = n_exit
        return self.obls

    def finish(self, s, rt, val, entry, entry_vals):
        fin = s.clone()
        ex = dict(self.c and {})
        if self.c.ghost_exit: self.apply_ghost(s, self.c.ghost_exit(self.view(s)))
        if self.c.hints_exit:
            v = self.view(s, dict(result=self.wrap_val(s, rt, val)) if val is not None else {})
            self.hint(s, self.c.hints_exit(v))
        ent = self.entry_view
        self.freeze(s)
        names = lambda n: entry_vals.get(self.rename.get(n, n))
        extra = {"old": ent}; extra.update(s.ghost)
        V = View(self, s, names, extra)
        if rt.k != "void":
            if val is None: 
                val = self.fresh_value(s, "noresult", rt)
            V._extra["result"] = V.wrap(rt, val if not isinstance(val, z3.BoolRef) else z3.If(val, z3.IntVal(1), ZERO))
        for lab, f in norm(self.c.ensures(V)):
            self.oblige(s, "post", lab, f, self.fn.get("_line"))
        # frames
        a0, a1 = self.heap(entry, "$alloc"), self.heap(s, "$alloc")
        for h in sorted(s.heaps):
            h0, h1 = self.heap(entry, h), s.heaps[h]
            if h0.eq(h1) or h in self.c.modifies: continue
            if h == "$alloc":
                if self.c.allocs == "any": continue
                if self.c.allocs == "free":
                    g = spec.forall(lambda o: z3.Implies(z3.Select(a1, o), z3.Select(a0, o)), pat=lambda o: [z3.Select(a1, o)])
                    self.oblige(s, "frame", "nothing new stays allocated", g)
                elif self.c.allocs == "grow":
                    g = spec.forall(lambda o: z3.Implies(z3.Select(a0, o), z3.Select(a1, o)), pat=lambda o: [z3.Select(a1, o)])
                    self.oblige(s, "frame", "no block of the caller is freed", g)
                else:
                    g = spec.forall(lambda o: z3.Select(a0, o) == z3.Select(a1, o), pat=lambda o: [z3.Select(a1, o)])
                    self.oblige(s, "frame", "allocation state unchanged (no leak, no stray free)", g)
                continue
            kept = (lambda o: z3.Not(self.c.reuse(ent, o))) if self.c.reuse else (lambda o: z3.BoolVal(True))
            if h == "$len" and self.c.allocs and self.c.allocs != "free":
                g = spec.forall(lambda o: z3.Implies(z3.And(z3.Select(a0, o), z3.Select(a1, o), kept(o)), z3.Select(h0, o) == z3.Select(h1, o)), pat=lambda o: [z3.Select(h1, o)])
            elif h in self.c.fresh:
                g = spec.forall(lambda o: z3.Implies(z3.And(z3.Select(a0, o), z3.Select(a1, o), kept(o)), z3.Select(h0, o) == z3.Select(h1, o)), pat=lambda o: [z3.Select(h1, o)])
            else:
                g = spec.forall(lambda o: z3.Implies(z3.Select(a1, o), z3.Select(h0, o) == z3.Select(h1, o)), pat=lambda o: [z3.Select(h1, o)])
            self.oblige(s, "frame", "only what the contract names is modified: " + h, g)

    def hint(self, s, hs):
        """lemma instances are assumed; (label, formula) pairs are intermediate assertions: proved, then assumed"""
        for h in hs:
            if isinstance(h, tuple):
                self.oblige(s, "assert", h[0], h[1]); s.assume(h[1], h[0])
            else: s.assume(h)

    def wrap_val(self, s, t, v):
        return View(self, s, lambda n: None).wrap(t, v)

    def apply_ghost(self, s, upd, ok_vars=True):
        """upd: dict heap -> array term | (ghost var name) -> value"""
        for h, t in upd.items():
            if h in GHOST:
                if isinstance(t, list):      # [(record, condition, k -> value)]: each record's map is replaced by a fresh one with that definition
                    cur = self.heap(s, h)
                    for obj, cnd, f in t:
                        A = self.fresh("A_" + h, GHOST[h])
                        s.assume(spec.forall(lambda k: z3.Select(A, k) == f(k), pat=lambda k: [z3.Select(A, k)])); cur = z3.If(cnd, z3.Store(cur, obj, A), cur)
                    t = cur
                if callable(t) and not z3.is_expr(t):      # record -> new value: a fresh map with that definition
                    G = self.fresh("G_" + h, z3.ArraySort(I, GHOST[h])); f = t
                    s.assume(spec.forall(lambda x: z3.Select(G, x) == f(x), pat=lambda x: [z3.Select(G, x)])); t = G
                s.heaps[h] = t; self.log_write(h, None)
            elif ok_vars: s.ghost[h] = t
            else: raise SpecError("ghost variable updated in a loop: " + h)

    def fresh_value(self, st, n, t):
        if t.k == "ptr":
            o = self.fresh(n, I)
            return Ptr(o)
        if t.k == "struct" or t.k == "arr": raise Unsupported("by-value %r" % t)
        v = self.fresh(n, vsort(t))
        self.load_fact(st, t, v)
        return v

    def addr_taken(self, n):
        acc = set()
        def w(x):
            if not isinstance(x, dict): return
            if x.get("kind") == "UnaryOperator" and x["opcode"] == "&":
                y = strip(x["inner"][0])
                if y["kind"] == "DeclRefExpr": acc.add(y["referencedDecl"]["id"])
            for c in x.get("inner", []): w(c)
        w(n)
        return acc

    def declare(self, st, fr, decl, name, t, v, boxed=False):
        self.nf += 1
        key = "%s#%d" % (name, self.nf) if True else name
        # a declaration inside a loop body keeps one key so that invariants can name it
        key = fr.ids.get(decl["id"]) or key
        fr.ids[decl["id"]] = key
        if key not in fr.names.setdefault(name, []): fr.names[name].append(key)
        fr.types[key] = t
        if t.k == "arr":
            st.vars[key] = self.alloc_block(st, t.a, z3.IntVal(t.b or 0), zero=False)
            fr.types[key] = Ty("ptr", t.a)
            fr.rets.append(st.vars[key])
        elif t.k == "struct":
            st.vars[key] = self.alloc_block(st, t, z3.IntVal(1), zero=False); fr.types[key] = Ty("ptr", t)
            fr.rets.append(st.vars[key])
        elif boxed:
            p = self.alloc_block(st, t, z3.IntVal(1), zero=False)
            st.vars[key] = Boxed(p, t)
            if v is not None: self.store(st, elem_heap(t), p.obj, p.off, self.tostore(st, t, v), t)
        else:
            st.vars[key] = v if v is not None else self.uninit(st, name, t)
        return key
    def uninit(self, st, n, t):
        return self.fresh_value(st, "uninit_" + n, t)

    # ---------------------------------------------------------------- heap access
    def check_access(self, st, obj, off, what, single):
        if not self.c.opts["memsafe"]: return
        a = sel(self.heap(st, "$alloc"), obj)
        self.oblige(st, "memory", "%s: block is live" % what, a)
        if not single:
            ln = sel(self.heap(st, "$len"), obj)
            self.oblige(st, "memory", "%s: index within block" % what, z3.And(off >= 0, off < ln))
    def hname(self, lv):
        pass
    def rd_field(self, st, sname, f, p, what):
        h = "%s.%s" % (sname, f); ft = self.tu.fields(sname)[f]
        if ft.k == "arr": raise Unsupported("array field %s" % h)
        if ft.k == "struct": raise Unsupported("struct field %s" % h)
        self.check_access(st, p.obj, p.off, what, sname not in MULTI)
        x = sel(self.heap(st, h), p.obj)
        if sname in MULTI: x = sel(x, p.off)
        self.load_fact(st, ft, x)
        return Ptr(x) if ft.k == "ptr" else x
    def rd_elem(self, st, t, p, what):
        if t.k in ("struct", "arr"): raise Unsupported("load of %r" % t)
        self.check_access(st, p.obj, p.off, what, False)
        x = sel(sel(self.heap(st, elem_heap(t)), p.obj), p.off)
        self.load_fact(st, t, x)
        return Ptr(x) if t.k == "ptr" else x
    def tostore(self, st, t, v):
        if isinstance(v, Ptr):
            if numval(simp(v.off)) != 0:
                self.oblige(st, "memory", "interior pointer stored", v.off == 0)
            return v.obj
        if isinstance(v, z3.BoolRef): v = z3.If(v, z3.IntVal(1), ZERO)
        return v
    def store(self, st, h, obj, off, x, t):
        H = self.heap(st, h)
        st.heaps[h] = z3.Store(H, obj, z3.Store(sel(H, obj), off, x)) if off is not None else z3.Store(H, obj, x)
        self.log_write(h, obj)
    def wr(self, st, lv, v, what):
        if lv[0] == "var":
            cur = st.vars.get(lv[1])
            if isinstance(v, z3.BoolRef): v = z3.If(v, z3.IntVal(1), ZERO)
            if isinstance(cur, Boxed): self.store(st, elem_heap(lv[2]), cur.ptr.obj, cur.ptr.off, self.tostore(st, lv[2], v), lv[2])
            else: st.vars[lv[1]] = v
        elif lv[0] == "field":
            _, sn, f, p, ft = lv
            self.check_access(st, p.obj, p.off, what, sn not in MULTI)
            self.store(st, "%s.%s" % (sn, f), p.obj, p.off if sn in MULTI else None, self.tostore(st, ft, v), ft)
        elif lv[0] == "elem":
            _, t, p = lv
            self.check_access(st, p.obj, p.off, what, False)
            self.store(st, elem_heap(t), p.obj, p.off, self.tostore(st, t, v), t)
        elif lv[0] == "global":
            st.vars["::" + lv[1]] = v
        else: raise Unsupported("store to " + lv[0])
    def rd(self, st, lv, what):
        if lv[0] == "var":
            v = st.vars.get(lv[1])
            if v is None: raise Unsupported("read of undeclared " + lv[1])
            if isinstance(v, Boxed): return self.load_raw(st, elem_heap(lv[2]), v.ptr.obj, v.ptr.off, lv[2])
            return v
        if lv[0] == "field": return self.rd_field(st, lv[1], lv[2], lv[3], what)
        if lv[0] == "elem": return self.rd_elem(st, lv[1], lv[2], what)
        if lv[0] == "global": return self.global_get(st, lv[1])[1]
        raise Unsupported("load " + lv[0])
    def global_get(self, st, name):
        t = self.tu.ty(self.tu.globals[name]["type"])
        k = "::" + name
        if k not in st.vars: st.vars[k] = self.fresh_value(st, "glob_" + name, t)
        return t, st.vars[k]

    def alloc_block(self, st, t, count, zero):
        o = self.fresh("new", I)
        al = self.heap(st, "$alloc")
        st.assume(o > 0); st.assume(z3.Not(z3.Select(al, o)))
        if t.k != "void": st.assume(TAG(o) == type_id(t))
        st.heaps["$alloc"] = z3.Store(al, o, z3.BoolVal(True)); self.log_write("$alloc", o)
        st.heaps["$len"] = z3.Store(self.heap(st, "$len"), o, count); self.log_write("$len", o)
        def init(h, vs, nested):
            H = self.heap(st, h)
            if nested:
                inner = z3.K(I, z3.RealVal(0) if vs == R else ZERO) if zero else self.fresh("cont", z3.ArraySort(I, vs))
            else:
                inner = (z3.RealVal(0) if vs == R else ZERO) if zero else self.fresh("cont", vs)
            st.heaps[h] = z3.Store(H, o, inner); self.log_write(h, o)
        if t.k == "struct":
            for f, ft in self.tu.fields(t.a).items():
                if ft.k in ("arr", "struct"): continue
                init("%s.%s" % (t.a, f), vsort(ft), t.a in MULTI)
                if not zero and ft.k == "int":
                    pass
        elif t.k in ("int", "real", "ptr"): init(elem_heap(t), vsort(t), True)
        elif t.k == "void": pass
        else: raise Unsupported("allocation of %r" % t)
        return Ptr(o)

    # ---------------------------------------------------------------- expressions
    def conv(self, st, v, ft, tt, explicit=False):
        if tt.k == "void": return None
        if tt.k == "int":
            if isinstance(v, z3.BoolRef): return v
            if isinstance(v, Ptr): raise Unsupported("pointer to integer cast")
            if ft.k == "real":
                if z3.is_int(v): return v
                r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                s = z3.simplify(r)
                if z3.is_int_value(s): return s
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL: r = v.children()[0]
                if self.c.opts["overflow"]: self.oblige(st, "overflow", "floating value fits the integer it is converted to", in_range(r, tt))
                st.assume(in_range(r, tt))
                return r
            lo, hi = irange(tt); fl, fh = irange(ft) if ft.k == "int" else (0, 1)
            if lo <= fl and fh <= hi: return v
            n = numval(v)
            m = 1 << tt.a
            if n is not None:
                n &= m - 1
                return z3.IntVal(n - m if (tt.b and n > hi) else n)
            if ft.k == "int" and tt.a >= ft.a and not tt.b: return z3.If(v >= 0, v, v + m)     # signed -> unsigned
            if ft.k == "int" and tt.a == ft.a and tt.b: return z3.If(v <= hi, v, v - m)         # unsigned -> signed
            r = self.fresh("trunc", I); q = self.fresh("truncq", I)
            st.assume(r == v - q * m); st.assume(in_range(r, tt))
            return r
        if tt.k == "real":
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            if z3.is_int(v): return z3.RealVal(v.as_long()) if z3.is_int_value(v) else z3.ToReal(v)
            return v
        if tt.k == "ptr":
            if isinstance(v, Ptr): return v
            if isinstance(v, Malloc):
                et = tt.a
                if et.k == "void": return v
                if v.count is None:
                    sz = self.tu.sizeof(et)
                    v_count = self.size_count(v.size, sz)
                else: v_count = v.count if v.elem == self.tu.sizeof(et) else self.size_count(v.count * v.elem, self.tu.sizeof(et))
                if et.k == "struct" and et.a not in MULTI:
                    if numval(simp(v_count)) != 1: raise Unsupported("array of struct %s (declared single)" % et.a)
                return self.alloc_block(v.st or st, et, v_count, v.zero)
            if z3.is_expr(v) and z3.is_int_value(v) and v.as_long() == 0: return NULLP
            raise Unsupported("integer to pointer cast")
        return v
    def size_count(self, size, k):
        s = simp(size)
        # size is a linear term; try exact division
        n = numval(s)
        if n is not None: return z3.IntVal(n // k)
        d = z3.simplify(z3.ToReal(size) / k)
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_MUL and s.num_args() == 2 and numval(s.children()[0]) is not None:
            c = numval(s.children()[0])
            if c % k == 0: return simp((c // k) * s.children()[1])
        return size / k

    def tobool(self, v, t=None):
        if isinstance(v, z3.BoolRef): return v
        if isinstance(v, Ptr): return z3.BoolVal(True) if is_fresh(v.obj) else v.obj != 0
        if z3.is_int(v):
            n = numval(v)
            if n is not None: return z3.BoolVal(n != 0)
        return v != 0
    def toint(self, v):
        if isinstance(v, z3.BoolRef): return z3.If(v, z3.IntVal(1), ZERO)
        return v

    def ety(self, e): return self.tu.ty(e["type"])

    def src(self, e):
        return "line %s" % (e.get("_line") or self.line)

    def lval(self, e, st):
        """-> [(st, lv)]"""
        if e.get("_line"): self.line = e["_line"]
        k = e["kind"]
        if k == "ParenExpr": return self.lval(e["inner"][0], st)
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            for fr in reversed(self.frames):
                if d["id"] in fr.ids: 
                    key = fr.ids[d["id"]]
                    return [(st, ("var", key, fr.types[key]))]
            if d["name"] in self.tu.globals: return [(st, ("global", d["name"], self.ety(e)))]
            raise Unsupported("variable " + d["name"])
        if k == "MemberExpr":
            base = e["inner"][0]
            f = e["name"]
            if e.get("isArrow"):
                res = self.ev(base, st)
                sn = self.ety(base).a.a
            else:
                sn = self.ety(base).a
                res = []
                for s, lv in self.lval(base, st):
                    if lv[0] == "elem" : res.append((s, lv[2]))
                    elif lv[0] == "var": res.append((s, st.vars[lv[1]]))
                    else: raise Unsupported("member of %s" % lv[0])
            out = []
            for s, p in res:
                if not isinstance(p, Ptr): raise Unsupported("member of non-pointer")
                if sn not in MULTI and numval(simp(p.off)) != 0:
                    self.oblige(s, "memory", "pointer to single object has offset 0", p.off == 0)
                out.append((s, ("field", sn, f, p, self.tu.fields(sn)[f])))
            return out
        if k == "ArraySubscriptExpr":
            a, b = e["inner"]
            if self.ety(a).k != "ptr": a, b = b, a
            out = []
            et = self.ety(a).a
            for s, p in self.ev(a, st):
                for s2, i in self.ev(b, s):
                    if not isinstance(p, Ptr): raise Unsupported("subscript of non-pointer")
                    i = self.toint(i)
                    out.append((s2, ("elem", et, Ptr(p.obj, add0(p.off, i)))))
            return out
        if k == "UnaryOperator" and e["opcode"] == "*":
            t = self.ety(e["inner"][0]).a
            return [(s, ("elem", t, p)) for s, p in self.ev(e["inner"][0], st)]
        raise Unsupported("lvalue " + k)

    def ev(self, e, st):
        if e.get("_line"): self.line = e["_line"]
        k = e["kind"]
        m = getattr(self, "ev_" + k, None)
        if m is None: raise Unsupported("expression " + k)
        return m(e, st)
    def ev_ParenExpr(self, e, st): return self.ev(e["inner"][0], st)
    ev_ConstantExpr = ev_ParenExpr
    def ev_IntegerLiteral(self, e, st): return [(st, z3.IntVal(int(e["value"])))]
    def ev_CharacterLiteral(self, e, st): return [(st, z3.IntVal(int(e["value"])))]
    def ev_FloatingLiteral(self, e, st):
        from fractions import Fraction
        fr = Fraction(float(e["value"]))
        return [(st, z3.RealVal("%d/%d" % (fr.numerator, fr.denominator)))]
    def ev_StringLiteral(self, e, st):
        return [(st, Ptr(self.fresh("str", I)))]
    def ev_UnaryExprOrTypeTraitExpr(self, e, st):
        if e["name"] != "sizeof": raise Unsupported(e["name"])
        t = self.tu.ty(e["argType"]) if "argType" in e else self.ety(e["inner"][0])
        return [(st, z3.IntVal(self.tu.sizeof(t)))]
    def ev_DeclRefExpr(self, e, st):
        if e["referencedDecl"]["kind"] == "EnumConstantDecl": return [(st, z3.IntVal(self.tu.enums[e["referencedDecl"]["name"]]))]
        if e["referencedDecl"]["kind"] == "FunctionDecl": return [(st, FnVal(e["referencedDecl"]["name"]))]
        return [(s, self.rd(s, lv, self.src(e))) for s, lv in self.lval(e, st)]
    def ev_MemberExpr(self, e, st):
        return [(s, self.rd(s, lv, self.src(e))) for s, lv in self.lval(e, st)]
    ev_ArraySubscriptExpr = ev_MemberExpr
    def ev_ImplicitCastExpr(self, e, st):
        ck = e["castKind"]; sub = e["inner"][0]
        if ck == "LValueToRValue":
            return [(s, self.rd(s, lv, self.src(e))) for s, lv in self.lval(sub, st)]
        if ck == "ArrayToPointerDecay":
            y = strip(sub)
            if y["kind"] == "StringLiteral": return self.ev(y, st)
            out = []
            for s, lv in self.lval(sub, st):
                if lv[0] == "var": out.append((s, s.vars[lv[1]]))
                else: raise Unsupported("array decay of %s" % lv[0])
            return out
        if ck == "FunctionToPointerDecay": return self.ev(sub, st)
        if ck == "NullToPointer": return [(st, NULLP)]
        if ck in ("NoOp",): return self.ev(sub, st)
        ft, tt = self.ety(sub), self.ety(e)
        out = []
        for s, v in self.ev(sub, st):
            if ck == "ToVoid": out.append((s, None)); continue
            if isinstance(v, Malloc): v.st = s
            if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "BitCast", "IntegralToPointer", "IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "PointerToIntegral"):
                if ck.endswith("ToBoolean"): out.append((s, self.tobool(v))); continue
                if ck == "BitCast" and isinstance(v, Ptr) and tt.a.k != "void" and ft.a.k not in ("void", tt.a.k) and not isinstance(v, Malloc):
                    raise Unsupported("pointer cast %r -> %r" % (ft, tt))
                out.append((s, self.conv(s, v, ft, tt)))
            else: raise Unsupported("cast " + ck)
        return out
    ev_CStyleCastExpr = ev_ImplicitCastExpr

    def arith(self, st, op, a, b, t, e):
        a, b = self.toint(a), self.toint(b)
        if t.k == "real":
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*":
                for u, v in ((a, b), (b, a)):
                    if z3.is_const(u) and u.decl().name().startswith("unif!"):     # a draw from [0,1) times v   (lemma unit_product)
                        spec.CTX.lemmas_used.add("mul"); st.assume(z3.Implies(v >= 0, z3.And(0 <= a * b, z3.Implies(v > 0, a * b < v))))
                return a * b
            if op == "/":
                nb = z3.simplify(b)
                if z3.is_rational_value(nb) and nb.numerator_as_long() == 0:
                    # deliberate +-infinity constant: an arbitrary real (over-approximation)
                    return self.fresh("inf", R)
                if self.c.opts["fdiv"] and not (z3.is_rational_value(nb)): self.oblige(st, "fdiv", "divisor is not zero", b != 0)
                return a / b
        if op in ("+", "-", "*"):
            r = a + b if op == "+" else a - b if op == "-" else (spec.Mul(a, b) if self.c.opts.get("nlmul") and numval(a) is None and numval(b) is None else a * b)
            n = numval(simp(r)) if (numval(a) is not None and numval(b) is not None) else None
            lo, hi = irange(t)
            if n is not None and lo <= n <= hi: return z3.IntVal(n)
            if t.b:
                if self.c.opts["overflow"]: self.oblige(st, "overflow", "no signed overflow in %s" % op, in_range(r, t))
                if self.c.opts["overflow"] is not None: st.assume(in_range(r, t))
                return r
            m = 1 << t.a
            if t.a == 64: 
                # size arithmetic: obligation instead of wrap model
                if self.c.opts["overflow"]: self.oblige(st, "overflow", "no 64-bit wrap-around in %s" % op, in_range(r, t))
                st.assume(in_range(r, t))
                return r
            if self.c.opts["uwrap"] == "check":
                self.oblige(st, "overflow", "no unsigned wrap-around in %s" % op, in_range(r, t))
                st.assume(in_range(r, t))
                return r
            if op == "+": return z3.If(r < m, r, r - m)
            if op == "-": return z3.If(r >= 0, r, r + m)
            q = self.fresh("mulw", I); w = self.fresh("mul", I)
            if self.c.opts["uwrap"] == "checkmul":
                self.oblige(st, "overflow", "no unsigned wrap-around in *", in_range(r, t)); st.assume(in_range(r, t)); return r
            st.assume(w == r - q * m); st.assume(in_range(w, t)); st.assume(q >= 0); st.assume(z3.Implies(in_range(r, t), q == 0))
            return w
        if op in ("/", "%"):
            if self.c.opts["memsafe"]: self.oblige(st, "overflow", "integer divisor is not zero", b != 0)
            if not t.b or (numval(b) is not None and numval(b) > 0 and z3.is_int_value(a) and numval(a) >= 0): return a / b if op == "/" else a % b
            # C truncates towards zero
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            return q if op == "/" else a - b * q
        if op in ("&", "|", "^", "<<", ">>"):
            na, nb = numval(a), numval(b)
            if op == "&" and nb == 1: return a % 2
            if op == "&" and na == 1: return b % 2
            if op == "<<" and nb is not None: return self.arith(st, "*", a, z3.IntVal(1 << nb), t, e)
            if op == ">>" and nb is not None and not t.b: return a / (1 << nb)
            r = self.fresh("bits", I); st.assume(in_range(r, t))
            if op == "&": st.assume(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(0 <= r, r <= a, r <= b)))
            return r
        raise Unsupported("operator " + op)

    def ptr_arith(self, st, p, i, sign):
        i = self.toint(i)
        return Ptr(p.obj, simp(p.off + i) if sign > 0 else simp(p.off - i))

    def ev_BinaryOperator(self, e, st):
        op = e["opcode"]; l, r = e["inner"]
        if op == "=": return self.assign(e, st)
        if op == ",":
            out = []
            for s, _ in self.ev(l, st): out += self.ev(r, s)
            return out
        if op in ("&&", "||"):
            out = []
            for s, a in self.ev(l, st):
                a = self.tobool(a)
                out += self.shortcircuit(s, a, r, op)
            return out
        out = []
        for s, a in self.ev(l, st):
            for s2, b in self.ev(r, s):
                out.append((s2, self.binop(s2, op, a, b, self.ety(l), self.ety(r), self.ety(e), e)))
        return out
    def shortcircuit(self, s, a, r, op):
        g = a if op == "&&" else z3.Not(a)
        if not has_effects(self, r):
            t = s.clone(); n0 = len(t.pc); t.assume(g)
            res = self.ev(r, t)
            if len(res) == 1 and res[0][0] is t:
                b = self.tobool(res[0][1])
                for f in t.pc[n0 + 1:]: s.assume(z3.Implies(g, f))
                return [(s, z3.And(a, b) if op == "&&" else z3.Or(a, b))]
        t = s.clone(); t.assume(g); s2 = s; s2.assume(z3.Not(g))
        out = [(s2, z3.BoolVal(op == "||"))]
        for x, b in self.ev(r, t): out.append((x, self.tobool(b)))
        return out
    def binop(self, st, op, a, b, lt, rt, t, e):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ("==", "!="):
                if not isinstance(a, Ptr): a = NULLP
                if not isinstance(b, Ptr): b = NULLP
                for x, y in ((a, b), (b, a)):
                    if numval(y.obj) == 0 and is_fresh(x.obj): return z3.BoolVal(op == "!=")      # a block just allocated
                if numval(a.off) == 0 and numval(b.off) == 0: q = a.obj == b.obj
                elif (numval(b.obj) == 0) : q = a.obj == 0
                elif (numval(a.obj) == 0) : q = b.obj == 0
                else: q = z3.And(a.obj == b.obj, a.off == b.off)
                return q if op == "==" else z3.Not(q)
            if op in ("+", "-") and isinstance(a, Ptr) and not isinstance(b, Ptr): return self.ptr_arith(st, a, b, 1 if op == "+" else -1)
            if op == "+" and isinstance(b, Ptr): return self.ptr_arith(st, b, a, 1)
            if op == "-" and isinstance(b, Ptr): return simp(a.off - b.off)
            if op in ("<", "<=", ">", ">="):
                x, y = a.off, b.off
                return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
            raise Unsupported("pointer " + op)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if op in ("==", "!=") and isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef):
                return (a == b) if op == "==" else (a != b)
            a, b = self.toint(a), self.toint(b)
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        return self.arith(st, op, a, b, t, e)
    def assign(self, e, st):
        l, r = e["inner"]
        out = []
        for s, v in self.ev(r, st):
            for s2, lv in self.lval(l, s):
                if isinstance(v, Malloc): v.st = s2; v = self.conv(s2, v, None, self.ety(l))
                if isinstance(v, StructVal) or self.ety(l).k == "struct":
                    self.copy_struct(s2, lv, v); out.append((s2, v)); continue
                self.wr(s2, lv, v, self.src(e))
                out.append((s2, v))
        return out
    def copy_struct(self, st, lv, v):
        raise Unsupported("struct assignment")
    def ev_CompoundAssignOperator(self, e, st):
        l, r = e["inner"]; op = e["opcode"][:-1]
        lt = self.ety(l)
        ct = self.tu.ty(e["computeResultType"]) if "computeResultType" in e else lt
        out = []
        for s, v in self.ev(r, st):
            for s2, lv in self.lval(l, s):
                cur = self.rd(s2, lv, self.src(e))
                if isinstance(cur, Ptr): nv = self.ptr_arith(s2, cur, v, 1 if op == "+" else -1)
                else:
                    a = self.conv(s2, cur, lt, ct)
                    b = self.conv(s2, v, self.ety(r), ct)
                    nv = self.conv(s2, self.arith(s2, op, a, b, ct, e), ct, lt)
                self.wr(s2, lv, nv, self.src(e))
                out.append((s2, nv))
        return out
    def ev_UnaryOperator(self, e, st):
        op = e["opcode"]; x = e["inner"][0]
        if op == "&":
            y = strip(x)
            if y["kind"] == "UnaryOperator" and y["opcode"] == "*": return self.ev(y["inner"][0], st)
            out = []
            for s, lv in self.lval(x, st):
                if lv[0] == "elem": out.append((s, lv[2]))
                elif lv[0] == "var":
                    v = s.vars[lv[1]]
                    if isinstance(v, Boxed): out.append((s, v.ptr))
                    elif isinstance(v, Ptr): out.append((s, v))
                    else: raise Unsupported("address of variable")
                else: raise Unsupported("address of " + lv[0])
            return out
        if op == "*":
            return [(s, self.rd(s, lv, self.src(e))) for s, lv in self.lval(e, st)]
        if op in ("++", "--"):
            out = []
            t = self.ety(x)
            for s, lv in self.lval(x, st):
                cur = self.rd(s, lv, self.src(e))
                if isinstance(cur, Ptr): nv = self.ptr_arith(s, cur, z3.IntVal(1), 1 if op == "++" else -1)
                else:
                    one = z3.IntVal(1) if t.k == "int" else z3.RealVal(1)
                    ct = INT if (t.k == "int" and t.a < 32) else t
                    nv = self.conv(s, self.arith(s, op[0], cur, one, ct, e), ct, t)
                self.wr(s, lv, nv, self.src(e))
                out.append((s, cur if e.get("isPostfix") else nv))
            return out
        out = []
        for s, v in self.ev(x, st):
            t = self.ety(e)
            if op == "!": out.append((s, z3.Not(self.tobool(v))))
            elif op == "-":
                if t.k == "real": out.append((s, -v))
                else: out.append((s, self.arith(s, "-", ZERO, v, t, e)))
            elif op == "+": out.append((s, v))
            elif op == "~": raise Unsupported("~")
            elif op == "__extension__": out.append((s, v))
            else: raise Unsupported("unary " + op)
        return out
    def ev_ConditionalOperator(self, e, st):
        c, a, b = e["inner"]
        out = []
        for s, cv in self.ev(c, st):
            cv = self.tobool(cv)
            sc = simp(cv)
            if z3.is_true(sc): out += self.ev(a, s); continue
            if z3.is_false(sc): out += self.ev(b, s); continue
            s1, s2 = s.clone(), s.clone()
            s1.assume(cv); s2.assume(z3.Not(cv))
            if not has_effects(self, a) and not has_effects(self, b):
                n1, n2 = len(s1.pc), len(s2.pc)
                r1, r2 = self.ev(a, s1), self.ev(b, s2)
                if len(r1) == 1 and len(r2) == 1 and r1[0][0] is s1 and r2[0][0] is s2:
                    x, y = r1[0][1], r2[0][1]
                    for f in s1.pc[n1:]: s.assume(z3.Implies(cv, f))
                    for f in s2.pc[n2:]: s.assume(z3.Implies(z3.Not(cv), f))
                    if isinstance(x, Ptr): v = Ptr(z3.If(cv, x.obj, y.obj), ZERO if numval(x.off) == 0 and numval(y.off) == 0 else z3.If(cv, x.off, y.off))
                    else: v = z3.If(cv, self.toint(x), self.toint(y))
                    out.append((s, v)); continue
                out += r1 + r2; continue
            out += self.ev(a, s1) + self.ev(b, s2)
        return out

    # ---------------------------------------------------------------- calls
    def ev_args(self, args, st):
        res = [(st, [])]
        for a in args:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(a, s): nxt.append((s2, vs + [v]))
            res = nxt
        return res
    def ev_CallExpr(self, e, st):
        f = callee_name(e)
        if f is None: raise Unsupported("indirect call")
        args = e["inner"][1:]
        if f in TRACED and self.c.opts.get("trace"):
            self.ext_used.add(f)
            return trace_out(self, f, args, st)
        if f in NOEFFECT_EXT:
            self.ext_used.add(f)
            out = [(st, [])]
            for a in args:
                if has_effects(self, a): out = [(s2, 0) for s, _ in out for s2, v in self.ev(a, s)]
                else:
                    try: 
                        for s, _ in out: self.ev(a, s)
                    except Unsupported: pass
            return [(s, self.fresh_value(s, f, INT)) for s, _ in out]
        if f in SPECIAL:
            self.ext_used.add(f)
            return SPECIAL[f](self, e, args, st)
        if f in self.contracts:
            c = self.contracts[f]
            out = []
            for s, vs in self.ev_args(args, st):
                out.append((s, self.call_contract(s, f, c, vs, e)))
            return out
        if f in self.tu.funcs: return self.inline(f, args, st, e)
        raise Unsupported("call to %s (no contract, no body)" % f)

    def call_contract(self, st, f, c, vs, e):
        self.called.add(f)
        fn = cast.load(c.file).funcs.get(f)
        if fn is None: raise MapError("callee %s not found" % f)
        ps = self.params(fn); ftu = cast.load(c.file)
        vals = {}
        for p, v in zip(ps, vs):
            t = ftu.ty(p["type"])
            if isinstance(v, Malloc): v = self.conv(st, v, None, t)
            if isinstance(v, z3.BoolRef): v = z3.If(v, z3.IntVal(1), ZERO)
            if isinstance(v, Ptr) and numval(simp(v.off)) != 0 and p.get("name") not in c.off_ok:
                self.oblige(st, "call", "%s: pointer argument %s is a block start" % (f, p.get("name")), v.off == 0)
            if isinstance(v, Ptr) and has_ite(v.obj):      # a name, so that the callee's quantifier patterns are legal
                o = self.fresh("arg", I); st.assume(o == v.obj); v = Ptr(o, v.off)
            vals[p.get("name", "_")] = (t, v)
        ren = RENAMES.get(f, {})
        names = lambda n: vals.get(ren.get(n, n))
        self.freeze(st)
        pre_st = st.clone()
        gh = {}
        if c.ghost_params:
            if f not in self.c.call_ghosts: raise SpecError("no ghost arguments for call of " + f)
            gh = self.c.call_ghosts[f](self.view(st))
        pre = View(self, pre_st, names, dict(gh))
        ch = self.c.call_hints.get(f)
        if ch:
            self.hint(st, ch(self.view(st), pre))
        for lab, g in norm(c.requires(pre)): self.oblige(st, "call", "precondition of %s: %s" % (f, lab), g, e.get("_line"))
        al0 = self.heap(st, "$alloc")
        kept = (lambda o: z3.Not(c.reuse(pre, o))) if c.reuse else (lambda o: z3.BoolVal(True))
        forget(st, self.c.call_forget.get(f, ()))
        for h in c.modifies:
            st.heaps[h] = self.fresh("H_" + h, heap_sort(self, h)); self.log_write(h, None)
        if c.allocs:
            st.heaps["$alloc"] = self.fresh("H_alloc", heap_sort(self, "$alloc")); self.log_write("$alloc", "FRESH" if c.allocs == "grow" else ("any",))
            ln0 = self.heap(st, "$len")
            if c.allocs != "free":
                st.heaps["$len"] = self.fresh("H_len", heap_sort(self, "$len")); self.log_write("$len", "FRESH")
            al1, ln1 = st.heaps["$alloc"], self.heap(st, "$len")
            st.assume(z3.Not(z3.Select(al1, ZERO)))
            if c.allocs == "free":
                st.assume(spec.forall(lambda o: z3.Implies(z3.Select(al1, o), z3.Select(al0, o)), pat=lambda o: [z3.Select(al0, o), z3.Select(al1, o)]))
            if c.allocs == "grow":
                st.assume(spec.forall(lambda o: z3.Implies(z3.Select(al0, o), z3.Select(al1, o)), pat=lambda o: [z3.Select(al0, o), z3.Select(al1, o)]))
            if c.allocs != "free": st.assume(spec.forall(lambda o: z3.Implies(z3.And(z3.Select(al0, o), z3.Select(al1, o), kept(o)), z3.Select(ln1, o) == z3.Select(ln0, o)), pat=lambda o: [z3.Select(ln1, o)]))
        else: al1 = al0
        for h in c.fresh:
            if h in c.modifies: continue
            h0 = self.heap(st, h); h1 = self.fresh("H_" + h, heap_sort(self, h))
            st.heaps[h] = h1; self.log_write(h, "FRESH")
            st.assume(spec.forall(lambda o: z3.Implies(z3.And(z3.Select(al0, o), z3.Select(al1, o), kept(o)), z3.Select(h1, o) == z3.Select(h0, o)), pat=lambda o: [z3.Select(h1, o)]))
        rt = ftu.ty(fn["type"]["qualType"].split("(")[0].strip())
        res = None if rt.k == "void" else self.fresh_value(st, f + "_res", rt)
        # ensures may read the old and the new state
        snap = st.clone()
        post = View(self, snap, names, dict(gh, old=pre))
        if res is not None: post._extra["result"] = post.wrap(rt, res)
        for lab, g in norm(c.ensures(post)): st.assume(g, lab)
        for h in snap.heaps:
            if h not in st.heaps: st.heaps[h] = snap.heaps[h]
        cs = self.c.call_set.get(f)
        if cs: self.apply_ghost(st, cs(self.view(st), post), False)
        pc = self.c.call_hints.get(f + "/after")
        if pc:
            self.hint(st, pc(self.view(st), post))
        return res

    def inline(self, f, args, st, e):
        if len(self.frames) > 5: raise Unsupported("inlining too deep at " + f)
        self.inlined.add(f)
        fn = self.tu.funcs[f]
        if fn.get("_ann") is None: cast.annotate_lines(fn); fn["_ann"] = 1
        out = []
        rt = self.tu.ty(fn["type"]["qualType"].split("(")[0].strip())
        for s, vs in self.ev_args(args, st):
            fr = Frame(fn, self.frames[-1].path + (e["id"],))
            addr = self.addr_taken(self.body(fn))
            self.frames.append(fr)
            for p, v in zip(self.params(fn), vs):
                t = self.tu.ty(p["type"])
                if isinstance(v, Malloc): v.st = s; v = self.conv(s, v, None, t)
                if isinstance(v, z3.BoolRef): v = z3.If(v, z3.IntVal(1), ZERO)
                self.declare(s, fr, p, p.get("name", "_"), t, v, boxed=p["id"] in addr)
            res = self.exec(self.body(fn), s)
            self.frames.pop()
            self.dead_frames.append(fr)
            for (s2, kind, val) in res:
                if rt.k != "void" and val is None: val = self.fresh_value(s2, f + "_res", rt)
                out.append((s2, val))
        return out

    # ---------------------------------------------------------------- statements
    def exec(self, n, st):
        """-> [(state, kind, value)] with kind in normal/break/continue/return"""
        if n.get("_line"): self.line = n["_line"]
        k = n["kind"]
        m = getattr(self, "ex_" + k, None)
        if m: return m(n, st)
        # expression statement
        return [(s, "normal", None) for s, v in self.ev(n, st)]
    def ex_NullStmt(self, n, st): return [(st, "normal", None)]
    def ex_CompoundStmt(self, n, st):
        cur = [(st, "normal", None)]
        done = []
        for c in n.get("inner", []):
            nxt = []
            for s, k, v in cur:
                for r in self.exec(c, s):
                    (nxt if r[1] == "normal" else done).append(r)
            cur = self.dedupe(nxt)
            if len(cur) + len(done) > self.max_paths: raise Unsupported("too many paths")
            if not cur: break
        return cur + done
    def dedupe(self, xs):
        return xs
    def ex_DeclStmt(self, n, st):
        sts = [st]
        for d in n["inner"]:
            if d["kind"] != "VarDecl": continue
            t = self.tu.ty(d["type"])
            fr = self.frames[-1]
            boxed = d["id"] in self.addr_taken(self.body(fr.fn))
            nxt = []
            for s in sts:
                if "init" in d and d.get("inner"):
                    ini = d["inner"][-1]
                    if t.k in ("arr", "struct"): raise Unsupported("aggregate initialiser")
                    for s2, v in self.ev(ini, s):
                        if isinstance(v, Malloc): v.st = s2; v = self.conv(s2, v, None, t)
                        if isinstance(v, z3.BoolRef): v = z3.If(v, z3.IntVal(1), ZERO)
                        self.declare(s2, fr, d, d["name"], t, v, boxed); nxt.append(s2)
                else:
                    self.declare(s, fr, d, d["name"], t, None, boxed); nxt.append(s)
            sts = nxt
        return [(s, "normal", None) for s in sts]
    def ex_ReturnStmt(self, n, st):
        if n.get("inner"):
            out = []
            for s, v in self.ev(n["inner"][0], st):
                if isinstance(v, Malloc):
                    rt = self.tu.ty(self.frames[-1].fn["type"]["qualType"].split("(")[0].strip()); v.st = s; v = self.conv(s, v, None, rt)
                out.append((s, "return", v))
            return out
        return [(st, "return", None)]
    def ex_BreakStmt(self, n, st): return [(st, "break", None)]
    def ex_ContinueStmt(self, n, st): return [(st, "continue", None)]
    def ex_IfStmt(self, n, st):
        inner = n["inner"]
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        out = []
        for s, cv in self.ev(cond, st):
            cv = self.tobool(cv); sc = simp(cv)
            if not z3.is_false(sc):
                t = s.clone(); t.assume(cv)
                if not z3.is_true(sc): t.notes.append("line %s: condition true" % cond.get("_line"))
                out += self.exec(then, t)
            if not z3.is_true(sc):
                t = s.clone() ; t.assume(z3.Not(cv))
                if not z3.is_false(sc): t.notes.append("line %s: condition false" % cond.get("_line"))
                out += self.exec(els, t) if els else [(t, "normal", None)]
        return self.maybe_merge(out)
    def maybe_merge(self, out):
        if not self.c.opts.get("merge"): return out
        norm_ = [o for o in out if o[1] == "normal"]; rest = [o for o in out if o[1] != "normal"]
        if len(norm_) < 2: return out
        m = norm_[0][0]
        for o in norm_[1:]: m = self.merge(m, o[0])
        return [(m, "normal", None)] + rest
    def merge(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]): n += 1
        ca, cb = a.pc[n:], b.pc[n:]
        r = State(); r.pc = a.pc[:n]; r.facts = set(f.get_id() for f in r.pc)
        sel_ = self.fresh("path", B)
        keep = self.c.opts["merge"] == "named"
        for g, fs in ((sel_, ca), (z3.Not(sel_), cb)):
            for f in fs:
                d = LABELS.get(f.get_id()) if keep else None
                r.assume(z3.Implies(g, f), d[1] if d is not None and d[0].eq(f) else None)
        for k in set(a.vars) & set(b.vars):
            x, y = a.vars[k], b.vars[k]
            if x is y: r.vars[k] = x
            elif isinstance(x, Ptr):
                if x.obj.eq(y.obj) and x.off.eq(y.off): r.vars[k] = x
                elif self.c.opts["merge"] == "named" and x.off.eq(y.off):
                    o = self.fresh("either", I); r.vars[k] = Ptr(o, x.off)
                    r.assume(z3.Implies(sel_, o == x.obj)); r.assume(z3.Implies(z3.Not(sel_), o == y.obj))
                else: r.vars[k] = Ptr(z3.If(sel_, x.obj, y.obj), x.off if x.off.eq(y.off) else z3.If(sel_, x.off, y.off))
            elif isinstance(x, Boxed): r.vars[k] = x
            else: r.vars[k] = x if x.eq(y) else z3.If(sel_, x, y)
        for h in set(a.heaps) | set(b.heaps):
            x, y = self.heap(a, h), self.heap(b, h)
            if x.eq(y): r.heaps[h] = x
            else:
                z = self.fresh("Hm_" + h, x.sort()); r.heaps[h] = z
                r.assume(z3.Implies(sel_, z == x)); r.assume(z3.Implies(z3.Not(sel_), z == y))
        r.views = dict(a.views); r.ghost = dict(a.ghost)
        i = 0
        r.notes = a.notes[:-1] if a.notes else []
        return r

    def ex_SwitchStmt(self, n, st):
        cond, body = n["inner"][0], n["inner"][-1]
        items = body.get("inner", [])
        # flatten case labels
        flat = []   # (label exprs or None for default) , stmt
        labels = []
        def add(stm, labs):
            if stm["kind"] == "CaseStmt":
                labs = labs + [stm["inner"][0]]; add(stm["inner"][-1], labs)
            elif stm["kind"] == "DefaultStmt":
                add(stm["inner"][-1], labs + [None])
            else: flat.append((labs, stm))
        for it in items: add(it, [])
        out = []
        for s, cv in self.ev(cond, st):
            allc = []
            for labs, _ in flat:
                for l in labs:
                    if l is not None: allc.append(cv == self.ev(l, s)[0][1])
            for i, (labs, _) in enumerate(flat):
                if not labs: continue
                cs = [z3.Not(z3.Or(*allc)) if (l is None and allc) else (z3.BoolVal(True) if l is None else cv == self.ev(l, s)[0][1]) for l in labs]
                t = s.clone(); t.assume(z3.Or(*cs) if len(cs) > 1 else cs[0]); t.notes.append("line %s: switch case" % n.get("_line"))
                cur = [t]
                for _, stm in flat[i:]:
                    nxt = []
                    for c in cur:
                        for r in self.exec(stm, c):
                            if r[1] == "normal": nxt.append(r[0])
                            elif r[1] == "break": out.append((r[0], "normal", None))
                            else: out.append(r)
                    cur = nxt
                out += [(c, "normal", None) for c in cur]
            if not any(None in labs for labs, _ in flat):
                t = s.clone()
                for c in allc: t.assume(z3.Not(c))
                out.append((t, "normal", None))
        return out

    # -------- loops
    def mod_vars(self, nodes):
        """declared-variable ids assigned in these nodes"""
        acc = set(); heaps = [False]
        def w(x):
            if not isinstance(x, dict): return
            k = x.get("kind")
            tgt = None
            if k == "BinaryOperator" and x["opcode"] == "=": tgt = x["inner"][0]
            elif k == "CompoundAssignOperator": tgt = x["inner"][0]
            elif k == "UnaryOperator" and x["opcode"] in ("++", "--"): tgt = x["inner"][0]
            if tgt is not None:
                y = tgt
                while y["kind"] == "ParenExpr": y = y["inner"][0]
                if y["kind"] == "DeclRefExpr": acc.add((y["referencedDecl"]["id"], y["referencedDecl"]["name"]))
            if k == "VarDecl": acc.add((x["id"], x.get("name")))
            for c in x.get("inner", []): w(c)
        for n in nodes: w(n)
        return acc

    def ex_ForStmt(self, n, st):
        init, _, cond, inc, body = n["inner"]
        sts = [st]
        if init:
            sts = [s for s, k, v in self.exec(init, st)]
        out = []
        for s in sts: out += self.loop(n, s, cond if cond else None, inc if inc else None, body, False)
        return out
    def ex_WhileStmt(self, n, st):
        return self.loop(n, st, n["inner"][0], None, n["inner"][1], False)
    def ex_DoStmt(self, n, st):
        if self.trivial_loop(n):
            return [(s, "normal" if k in ("break", "continue") else k, v) for s, k, v in self.exec(n["inner"][0], st)]
        return self.loop(n, st, n["inner"][1], None, n["inner"][0], True)

    def loop(self, n, st, cond, inc, body, post):
        if self.trivial_loop(n): return [(s, "normal", None) for s, v in self.ev(cond, st)]
        idx = self.loops.index((self.frames[-1].path, n["id"]))
        ann = self.c.loops.get(idx, Loop())
        tag = "loop %d (line %s)" % (idx, n.get("_line"))
        line = n.get("_line")
        lname = "L%d" % idx
        if ann.entry_ghost: self.apply_ghost(st, ann.entry_ghost(self.view(st)))
        outer = st.views.get("pre")
        pre_view = self.view(st)
        st.views[lname] = pre_view; st.views["pre"] = pre_view
        # 1. establish
        if ann.inv:
            for lab, g in norm(ann.inv(self.view(st))): self.oblige(st, "inv-entry", "%s invariant holds on entry: %s" % (tag, lab), g, line)
        mv = self.mod_vars([x for x in (cond, inc, body) if x])
        # 2. dry run to find what is written
        objs = self.dry_writes(st, cond, inc, body, post, mv, ann, st)
        h = self.havoc(st, mv, objs)
        forget(h, ann.forget)
        if ann.inv:
            for lab, g in norm(ann.inv(self.view(h))): h.assume(g, lab)
        if ann.hints:
            self.hint(h, ann.hints(self.view(h)))
        if not self.quiet: self.cover.append((tag, list(h.pc)))
        h.views["I%d" % idx] = self.view(h)
        h.notes.append("%s: arbitrary iteration" % tag)
        dec0 = ann.decreases(self.view(h)) if (ann.decreases and self.c.opts["term"]) else None
        exits, backs, rets = [], [], []
        if post:
            for s, k, v in self.exec(body, h):
                if k == "break": exits.append(s)
                elif k == "return": rets.append((s, k, v))
                else:
                    for s2, cv in (self.ev(cond, s) if cond else [(s, z3.BoolVal(True))]):
                        cv = self.tobool(cv)
                        if not z3.is_true(simp(cv)):
                            t = s2.clone(); t.assume(z3.Not(cv)); exits.append(t)
                        if not z3.is_false(simp(cv)):
                            s2.assume(cv); backs.append(s2)
        else:
            for s, cv in (self.ev(cond, h) if cond else [(h, z3.BoolVal(True))]):
                cv = self.tobool(cv)
                if not z3.is_true(simp(cv)):
                    t = s.clone(); t.assume(z3.Not(cv)); t.notes.append("%s: exit" % tag); exits.append(t)
                if z3.is_false(simp(cv)): continue
                s.assume(cv)
                for s2, k, v in self.exec(body, s):
                    if k == "break": exits.append(s2)
                    elif k == "return": rets.append((s2, k, v))
                    elif inc:
                        for s3, _ in self.ev(inc, s2): backs.append(s3)
                    else: backs.append(s2)
        for s in backs:
            s.views["pre"] = pre_view       # an inner loop leaves its own behind
            if ann.ghost:
                u = ann.ghost(self.view(s))
                if not set(u) <= set(ann.gkeys): raise SpecError("gkeys incomplete")
                self.apply_ghost(s, u, ok_vars=False)
            if ann.hints_end:
                self.hint(s, ann.hints_end(self.view(s)))
            if ann.inv:
                for lab, g in norm(ann.inv(self.view(s))): self.oblige(s, "inv-kept", "%s invariant kept by an iteration: %s" % (tag, lab), g, line)
            if dec0 is not None:
                d1 = ann.decreases(self.view(s))
                self.oblige(s, "term", "%s: variant decreases and is bounded below" % tag, z3.And(d1 < dec0, dec0 >= 0), line)
        for s in exits:
            s.views["pre"] = pre_view
            if ann.exit_hints:
                self.hint(s, ann.exit_hints(self.view(s)))
            s.views["pre"] = outer if outer is not None else pre_view
        return [(s, "normal", None) for s in exits] + rets

    def dry_writes(self, st, cond, inc, body, post, mv, ann, st0):
        saved = self.write_log
        self.write_log = []
        self.quiet += 1
        nob = len(self.obls); ncov = len(self.cover)
        try:
            # phase 1: which heaps can be written at all
            heaps = None
            for _ in range(4):
                h = self.havoc(st, mv, {k: None for k in heaps} if heaps else {})
                self.write_log = []
                self.dry_consts = self.nf
                self.dry_body(h, cond, inc, body, post)
                for g in ann.gkeys: self.log_write(g, None)
                w = set(x for x, _ in self.write_log)
                if heaps is not None and w <= heaps: break
                heaps = (heaps or set()) | w
            log = self.write_log
        finally:
            self.quiet -= 1
            self.write_log = saved
            del self.obls[nob:]; del self.cover[ncov:]
        # constants that exist before the loop
        pre_ids = self.pre_terms(st)
        out = {}
        frees = any(hn == "$alloc" and isinstance(o, tuple) for hn, o in log)
        for hn in heaps:
            objs = [o for x, o in log if x == hn]
            tgt = []; full = False; fresh = False
            for o in objs:
                if o is None: full = True
                elif isinstance(o, str): fresh = True
                elif isinstance(o, tuple): full = True
                elif self.loop_invariant(o, pre_ids):
                    if not any(o.eq(t) for t in tgt): tgt.append(o)
                elif is_fresh(o): fresh = True
                else: full = True
            if full or (fresh and frees): out[hn] = None
            else: out[hn] = (tgt, fresh)
        if saved is not None:
            for x, o in log: saved.append((x, o))
        return out
    def dry_body(self, h, cond, inc, body, post):
        if post:
            for s, k, v in self.exec(body, h):
                if cond: self.ev(cond, s)
        else:
            for s, cv in (self.ev(cond, h) if cond else [(h, None)]):
                for s2, k, v in self.exec(body, s):
                    if inc and k in ("normal", "continue"): self.ev(inc, s2)
    def pre_terms(self, st):
        """ids of constants known before the loop"""
        acc = []; seen = set()
        for v in st.vars.values():
            if isinstance(v, Ptr): spec._consts(v.obj, acc, seen); spec._consts(v.off, acc, seen)
            elif isinstance(v, Boxed): spec._consts(v.ptr.obj, acc, seen)
            elif z3.is_expr(v): spec._consts(v, acc, seen)
        for h in st.heaps.values(): spec._consts(h, acc, seen)
        for p in st.pc: spec._consts(p, acc, seen)
        ids = set(c.get_id() for c in acc)
        ids |= set(h.get_id() for h in self.init_heaps.values())
        self._keep = acc
        return ids
    def loop_invariant(self, o, ids):
        acc = []; spec._consts(o, acc, set())
        return all(c.get_id() in ids or z3.is_int_value(c) for c in acc)
    def havoc(self, st, mv, objs):
        h = st.clone()
        for did, nm in mv:
            for fr in self.frames:
                key = fr.ids.get(did)
                if key and key in h.vars:
                    if isinstance(h.vars[key], Boxed): continue
                    t = fr.types[key]
                    if t.k == "ptr":
                        o = self.fresh(nm, I)
                        # keep offset 0 for pointers to single structs
                        h.vars[key] = Ptr(o) if (t.a.k == "struct" and t.a.a not in MULTI) else Ptr(o, self.fresh(nm + "_off", I))
                    else: h.vars[key] = self.fresh_value(h, nm, t)
            if nm in self.tu.globals and ("::" + nm) in h.vars:
                h.vars["::" + nm] = self.fresh_value(h, nm, self.tu.ty(self.tu.globals[nm]["type"]))
        al0 = self.heap(st, "$alloc")
        for hn, info in (objs or {}).items():
            H0 = self.heap(st, hn); s = H0.sort()
            if info is None:
                h.heaps[hn] = self.fresh("Hl_" + hn, s); 
                if hn == "$alloc": h.assume(z3.Not(z3.Select(h.heaps[hn], ZERO)))
                continue
            tgt, fresh = info
            if fresh:
                H1 = self.fresh("Hl_" + hn, s)
                h.heaps[hn] = H1
                if hn == "$alloc":
                    h.assume(z3.Not(z3.Select(H1, ZERO)))
                    h.assume(spec.forall(lambda o: z3.Implies(z3.Select(H0, o), z3.Select(H1, o)), pat=lambda o: [z3.Select(H0, o), z3.Select(H1, o)]))
                else:
                    cond = lambda o: z3.And(z3.Select(al0, o), *[o != t for t in tgt])
                    h.assume(spec.forall(lambda o: z3.Implies(cond(o), z3.Select(H1, o) == z3.Select(H0, o)), pat=lambda o: [z3.Select(H1, o)]))
            else:
                cur = H0
                for t in tgt: cur = z3.Store(cur, t, self.fresh("Hl_" + hn, s.range()))
                h.heaps[hn] = cur
                if hn == "$alloc": h.assume(z3.Not(z3.Select(cur, ZERO)))
        return h

class Boxed:
    def __init__(s, ptr, t): s.ptr, s.t = ptr, t
class Malloc:
    def __init__(s, size=None, count=None, elem=None, zero=False): s.size, s.count, s.elem, s.zero, s.st = size, count, elem, zero, None
class FnVal:
    def __init__(s, name): s.name = name
class StructVal: pass
RENAMES = {}

def add0(a, b):
    if numval(a) == 0: return b
    if numval(b) == 0: return a
    return a + b

def norm(fs):
    out = []
    for i, f in enumerate(fs or []):
        if f is None: continue
        if isinstance(f, tuple):
            lab, g = f
            if isinstance(g, list): out += [("%s" % lab, x) for x in g]
            else: out.append((lab, g))
        elif isinstance(f, list): out += norm(f)
        else: out.append(("clause %d" % i, f))
    return [(l, g if z3.is_expr(g) else z3.BoolVal(g)) for l, g in out]

# ------------------------------------------------------------ external functions (trusted contracts)
def has_ite(e, n=400):
    todo = [e]
    while todo and n:
        x = todo.pop(); n -= 1
        if not z3.is_app(x): continue
        if x.decl().kind() == z3.Z3_OP_ITE: return True
        todo += x.children()
    return False
SPECIAL = {}
def special(*names):
    def d(f):
        for n in names: SPECIAL[n] = f
        return f
    return d
def sizeof_factor(eng, e):
    """if e is  x*sizeof(T)  or sizeof(T)*x  or sizeof(T): (x or None, size)"""
    y = strip_casts(e)
    if y["kind"] == "UnaryExprOrTypeTraitExpr": return None, eng.ev(y, State())[0][1].as_long()
    if y["kind"] == "BinaryOperator" and y["opcode"] == "*":
        for a, b in (y["inner"], y["inner"][::-1]):
            z = strip_casts(b)
            if z["kind"] == "UnaryExprOrTypeTraitExpr": return a, eng.ev(z, State())[0][1].as_long()
    return False, None
@special("malloc")
def _malloc(eng, e, args, st):
    x, sz = sizeof_factor(eng, args[0])
    if x is None: return [(st, Malloc(count=z3.IntVal(1), elem=sz))]
    if x is not False: return [(s, Malloc(count=eng.toint(v), elem=sz)) for s, v in eng.ev(x, st)]
    return [(s, Malloc(size=v)) for s, v in eng.ev(args[0], st)]
@special("calloc")
def _calloc(eng, e, args, st):
    out = []
    for s, (a, b) in eng.ev_args(args, st):
        if numval(b) is not None: out.append((s, Malloc(count=a, elem=numval(b), zero=True)))
        elif numval(a) is not None: out.append((s, Malloc(count=b, elem=numval(a), zero=True)))
        else: raise Unsupported("calloc")
    return out
@special("free")
def _free(eng, e, args, st):
    out = []
    for s, (p,) in eng.ev_args(args, st):
        if not isinstance(p, Ptr): raise Unsupported("free")
        al = eng.heap(s, "$alloc")
        if eng.c.opts["memsafe"]: eng.oblige(s, "memory", "free of a live block (or NULL)", z3.Or(p.obj == 0, z3.And(sel(al, p.obj), p.off == 0)))
        s.heaps["$alloc"] = z3.Store(al, p.obj, z3.BoolVal(False)); eng.log_write("$alloc", (p.obj,))
        out.append((s, None))
    return out
@special("gsl_rng_uniform", "gsl_rng_uniform_pos")
def _unif(eng, e, args, st):
    r = eng.fresh("unif", R); st.assume(r >= 0); st.assume(r < 1)
    if callee_name(e).endswith("pos"): st.assume(r > 0)
    return [(st, r)]
@special("gsl_rng_uniform_int")
def _unifi(eng, e, args, st):
    out = []
    for s, vs in eng.ev_args(args, st):
        r = eng.fresh("unifi", I)
        if eng.c.opts["memsafe"]: eng.oblige(s, "memory", "gsl_rng_uniform_int: positive bound", vs[1] > 0)
        s.assume(r >= 0); s.assume(r < vs[1]); out.append((s, r))
    return out
c_lnchoose = z3.Function("c_lnchoose", I, I, R); c_lnfact = z3.Function("c_lnfact", I, R)
@special("gsl_sf_lnchoose")
def _lnch(eng, e, args, st):
    out = []
    for s, (a, b) in eng.ev_args(args, st):
        if eng.c.opts["memsafe"]: eng.oblige(s, "external", "gsl_sf_lnchoose: 0 <= m <= n", z3.And(0 <= b, b <= a))
        out.append((s, c_lnchoose(a, b)))
    return out
@special("gsl_sf_lnfact")
def _lnf(eng, e, args, st): return [(s, c_lnfact(v)) for s, (v,) in eng.ev_args(args, st)]
@special("memset")
def _memset(eng, e, args, st):
    x, sz = sizeof_factor(eng, args[2]); out = []
    for s, p in eng.ev(args[0], st):
        for s2, v in eng.ev(args[1], s):
            if numval(v) != 0: raise Unsupported("memset with a value other than zero")
            et = eng.ety(strip_casts(args[0])).a
            if x is False or et.k not in ("int", "real") or eng.tu.sizeof(et) != sz: raise Unsupported("memset size")
            for s3, cnt in (eng.ev(x, s2) if x is not None else [(s2, z3.IntVal(1))]):
                cnt = eng.toint(cnt); h = elem_heap(et)
                eng.check_access(s3, p.obj, p.off, "memset", True)
                eng.oblige(s3, "memory", "memset: range within block", z3.And(cnt >= 0, p.off >= 0, p.off + cnt <= sel(eng.heap(s3, "$len"), p.obj)))
                old = sel(eng.heap(s3, h), p.obj); new = eng.fresh("set", z3.ArraySort(I, vsort(et))); zero = z3.RealVal(0) if et.k == "real" else ZERO
                s3.assume(spec.forall(lambda k: z3.Select(new, k) == z3.If(z3.And(p.off <= k, k < p.off + cnt), zero, z3.Select(old, k)), pat=lambda k: [z3.Select(new, k)]))
                s3.heaps[h] = z3.Store(eng.heap(s3, h), p.obj, new); eng.log_write(h, p.obj); out.append((s3, p))
    return out
# strings: the text held by a character block is a function of the block's content; text is an abstract value with a length
c_str = z3.Function("c_str", z3.ArraySort(I, I), I); c_slen = z3.Function("c_strlen", I, I); c_scmp = z3.Function("c_strcmp", I, I, I)
CH = elem_heap(CHAR)
def str_of(eng, s, p, what):
    if numval(simp(p.off)) != 0: raise Unsupported("string at an offset")
    if eng.c.opts["memsafe"]: eng.oblige(s, "memory", "%s: the string is a live block" % what, sel(eng.heap(s, "$alloc"), p.obj))
    t = c_str(sel(eng.heap(s, CH), p.obj)); s.assume(c_slen(t) >= 0); return t
@special("strcpy")
def _strcpy(eng, e, args, st):
    out = []
    for s, (d, x) in eng.ev_args(args, st):
        t = str_of(eng, s, x, "strcpy"); eng.check_access(s, d.obj, d.off, "strcpy", True)
        if numval(simp(d.off)) != 0: raise Unsupported("strcpy at an offset")
        if eng.c.opts["memsafe"]: eng.oblige(s, "memory", "strcpy: the text fits", c_slen(t) < sel(eng.heap(s, "$len"), d.obj))
        new = eng.fresh("text", z3.ArraySort(I, I)); s.assume(c_str(new) == t)
        s.heaps[CH] = z3.Store(eng.heap(s, CH), d.obj, new); eng.log_write(CH, d.obj); out.append((s, d))
    return out
@special("strcmp")
def _strcmp(eng, e, args, st):
    out = []
    for s, (a, b) in eng.ev_args(args, st):
        x, y = str_of(eng, s, a, "strcmp"), str_of(eng, s, b, "strcmp"); r = c_scmp(x, y)
        s.assume((r == 0) == (x == y)); s.assume(in_range(r, INT)); out.append((s, r))
    return out
@special("sprintf")
def _sprintf(eng, e, args, st):
    f = strip_casts(args[1])
    if f["kind"] != "StringLiteral": raise Unsupported("sprintf format")
    txt = f["value"].strip('"'); n = len(re.sub(r"%d|%i", "", txt)) + 11 * len(re.findall(r"%d|%i", txt))
    if "%" in re.sub(r"%d|%i", "", txt) or "\\" in txt: raise Unsupported("sprintf format " + txt)
    out = []
    for s, vs in eng.ev_args([args[0]] + args[2:], st):
        d = vs[0]; eng.check_access(s, d.obj, d.off, "sprintf", True)
        if numval(simp(d.off)) != 0: raise Unsupported("sprintf at an offset")
        if eng.c.opts["memsafe"]: eng.oblige(s, "memory", "sprintf: the text fits", sel(eng.heap(s, "$len"), d.obj) > n)
        t = z3.Function("c_fmt" + txt.replace("%i", "%d"), *([I] * len(vs)))(*[eng.toint(v) for v in vs[1:]]) if len(vs) > 1 else eng.fresh("fmt", I)
        new = eng.fresh("text", z3.ArraySort(I, I)); s.assume(z3.And(c_str(new) == t, 0 <= c_slen(t), c_slen(t) <= n))
        s.heaps[CH] = z3.Store(eng.heap(s, CH), d.obj, new); eng.log_write(CH, d.obj); out.append((s, eng.fresh("sprintf", I)))
    return out
ghost_field("out.$n"); ghost_field("out.$tok", z3.ArraySort(I, I))     # what was written to a stream: number of tokens, tokens
def tok(spec, v):
    """token of a formatted value (a literal character is the token of its code)"""
    return z3.Function("tok_" + spec, v.sort(), I)(v)
def tok_text(spec, text): return z3.Function("toks_" + spec, I, I)(text)
def tok_lit(spec, lit): return z3.Const("tokl_%s_%s" % (spec, lit), I)
def trace_out(eng, f, args, st):
    import ast
    lit = lambda a: ast.literal_eval(a["value"]) if a["kind"] == "StringLiteral" else None
    def text_toks(s, spec, a, v):
        l = lit(strip_casts(a))
        if l is not None: return [z3.IntVal(ord(c)) for c in l] if spec == "s" else [tok_lit(spec, l)]
        return [tok_text(spec, str_of(eng, s, v, f))]
    out = []
    if f == "fprintf":
        fm = lit(strip_casts(args[1]))
        if fm is None: raise Unsupported("fprintf format")
        parts = re.findall(r"%%|%[-+ #0-9.]*(?:l|ll|h|z)?[a-zA-Z]|[^%]", fm, re.S)
        if "".join(parts) != fm: raise Unsupported("fprintf format " + fm)
        n = sum(1 for p in parts if len(p) > 1 and p != "%%")
        if n != len(args) - 2: raise Unsupported("fprintf: number of values")
        lits = [strip_casts(a)["kind"] == "StringLiteral" for a in args[2:]]
        for s, vs in eng.ev_args([args[0]] + args[2:], st):
            d = vs[0]; ts = []; i = 0
            for p in parts:
                if len(p) == 1: ts.append(z3.IntVal(ord(p)))
                elif p == "%%": ts.append(z3.IntVal(ord("%")))
                else:
                    v = vs[i + 1]; a = args[i + 2]; i += 1; k = p[-1]
                    if k == "s": ts += text_toks(s, p[1:], a, v)
                    elif k in "diuc": ts += [eng.toint(v)] if p == "%c" else [tok(re.sub("l|h|z", "", p[1:]).replace("i", "d"), eng.toint(v))]
                    elif k in "fgeE" and z3.is_expr(v) and v.sort() == R: ts.append(tok(re.sub("l", "", p[1:]), v))
                    else: raise Unsupported("fprintf conversion " + p)
            out.append((emit(eng, s, d, ts), eng.fresh_value(s, f, INT)))
        return out
    for s, (v, d) in eng.ev_args(args, st):
        ts = [eng.toint(v)] if f in ("fputc", "putc") else text_toks(s, "s", args[0], v)
        out.append((emit(eng, s, d, ts), eng.fresh_value(s, f, INT)))
    return out
def emit(eng, s, d, ts):
    if not isinstance(d, Ptr): raise Unsupported("stream")
    N, K = eng.heap(s, "out.$n"), eng.heap(s, "out.$tok"); n = sel(N, d.obj); a = sel(K, d.obj)
    for i, t in enumerate(ts): a = z3.Store(a, add0(n, z3.IntVal(i)), t)
    s.heaps["out.$n"] = z3.Store(N, d.obj, n + len(ts)); s.heaps["out.$tok"] = z3.Store(K, d.obj, a)
    eng.log_write("out.$n", d.obj); eng.log_write("out.$tok", d.obj)
    return s
@special("floor")
def _floor(eng, e, args, st):
    return [(s, z3.ToReal(z3.ToInt(v))) for s, (v,) in eng.ev_args(args, st)]
@special("fabs")
def _fabs(eng, e, args, st):
    return [(s, z3.If(v >= 0, v, -v)) for s, (v,) in eng.ev_args(args, st)]
@special("abs")
def _abs(eng, e, args, st):
    out = []
    for s, (v,) in eng.ev_args(args, st):
        if eng.c.opts["overflow"]: eng.oblige(s, "overflow", "abs", v > irange(INT)[0])
        out.append((s, z3.If(v >= 0, v, -v)))
    return out
@special("sqrt")
def _sqrt(eng, e, args, st):
    out = []
    for s, (v,) in eng.ev_args(args, st):
        if eng.c.opts["fdiv"]: eng.oblige(s, "fdiv", "sqrt of a non-negative number", v >= 0)
        r = uf["sqrt"](v); s.assume(z3.Implies(v >= 0, z3.And(r >= 0, r * r == v))); out.append((s, r))
    return out
@special("exp")
def _exp(eng, e, args, st):
    out = []
    for s, (v,) in eng.ev_args(args, st):
        r = uf["exp"](v); s.assume(r > 0); out.append((s, r))
    return out
@special("log")
def _log(eng, e, args, st):
    return [(s, uf["log"](v)) for s, (v,) in eng.ev_args(args, st)]
@special("gsl_sf_lngamma", "lgamma")
def _lng(eng, e, args, st):
    return [(s, uf["lgamma"](v)) for s, (v,) in eng.ev_args(args, st)]
@special("ceil")
def _ceil(eng, e, args, st):
    return [(s, z3.ToReal(-z3.ToInt(-v))) for s, (v,) in eng.ev_args(args, st)]
@special("pow")
def _pow(eng, e, args, st):
    out = []
    for s, (a, b) in eng.ev_args(args, st):
        nb = z3.simplify(b)
        if z3.is_rational_value(nb) and nb.denominator_as_long() == 1 and 0 <= nb.numerator_as_long() <= 4:
            r = z3.RealVal(1)
            for _ in range(nb.numerator_as_long()): r = r * a if not z3.is_rational_value(r) else a
            out.append((s, r))
        else: out.append((s, c_pow(a, b)))
    return out
@special("exit", "abort")
def _exit(eng, e, args, st): return []
@special("__assert_fail")
def _af(eng, e, args, st):
    eng.oblige(st, "memory", "assertion", z3.BoolVal(False)); return []
@special("realloc")
def _realloc(eng, e, args, st):
    x, sz = sizeof_factor(eng, args[1])
    out = []
    for s, p in eng.ev(args[0], st):
        if x is False: raise Unsupported("realloc size")
        for s2, cnt in (eng.ev(x, s) if x is not None else [(s, z3.IntVal(1))]):
            a0 = strip_casts(args[0]); et = eng.ety(a0).a
            if eng.tu.sizeof(et) != sz: raise Unsupported("realloc size")
            al = eng.heap(s2, "$alloc")
            eng.oblige(s2, "memory", "realloc of a live block (or NULL)", z3.Or(p.obj == 0, z3.And(sel(al, p.obj), p.off == 0)))
            oldlen = sel(eng.heap(s2, "$len"), p.obj)
            if et.k == "struct":
                hs = [("%s.%s" % (et.a, f), vsort(ft)) for f, ft in eng.tu.fields(et.a).items() if ft.k in ("int", "real", "ptr")]
                if et.a not in MULTI: raise Unsupported("realloc of single struct")
            else: hs = [(elem_heap(et), vsort(et))]
            oldc = {h: sel(eng.heap(s2, h), p.obj) for h, _ in hs}
            q = eng.alloc_block(s2, et, eng.toint(cnt), False)
            for h, vs in hs:
                inner = sel(s2.heaps[h], q.obj)
                s2.assume(spec.forall(lambda k: z3.Implies(z3.And(p.obj != 0, k >= 0, k < oldlen, k < cnt), z3.Select(inner, k) == z3.Select(oldc[h], k)), pat=lambda k: [z3.Select(inner, k)]))
            s2.heaps["$alloc"] = z3.Store(s2.heaps["$alloc"], p.obj, z3.BoolVal(False)); eng.log_write("$alloc", (p.obj,))
            out.append((s2, q))
    return out
