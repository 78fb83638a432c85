"""Verify a set of functions; CLI for development:  prove.py FUNC..."""
import sys, os, time, importlib, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts"))
sys.setrecursionlimit(20000)
from concurrent.futures import ThreadPoolExecutor
import z3, vc, spec, solve, cast

CONTRACTS = {}
PROPS = {}      # property -> list of contract names
LEMMAS = {}     # property -> functions returning [(name, assm, goal)]

def load_contracts():
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(glob.glob(os.path.join(here, "*.py"))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        for c in getattr(m, "CONTRACTS", []): CONTRACTS[c.name] = c
        for k, v in getattr(m, "PROPS", {}).items(): PROPS.setdefault(k, []).extend(v)
        for k, v in getattr(m, "LEMMAS", {}).items(): LEMMAS.setdefault(k, []).extend(v)

def baseline_locals():
    import json
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "locals.json")
    try: return json.load(open(p))
    except Exception: return {}

def local_types(tu, fn):
    acc = []
    def w(x):
        if not isinstance(x, dict): return
        if x.get("kind") in ("VarDecl", "ParmVarDecl") and "name" in x: acc.append((x["name"], repr(tu.ty(x["type"]))))
        for c in x.get("inner", []): w(c)
    w(fn); return acc

def src_hash(tu, names):
    """hash of what the named functions say, independent of layout and comments"""
    import hashlib
    acc = []
    def w(x):
        if not isinstance(x, dict): return
        acc.append("(%s %s %s %s %s" % (x.get("kind"), x.get("name", ""), x.get("opcode", ""), x.get("value", ""), x.get("type", {}).get("qualType", "") if isinstance(x.get("type"), dict) else ""))
        r = x.get("referencedDecl")
        if r: acc.append("->" + str(r.get("name")))
        for c in x.get("inner", []): w(c)
        acc.append(")")
    for n in sorted(names):
        if n in tu.funcs: w(tu.funcs[n])
    for n in sorted(tu.structs): acc.append(n if not n.startswith("anon") else ""); [acc.append(c.get("name", "") + c.get("type", {}).get("qualType", "")) for c in tu.structs[n].get("inner", []) if c.get("kind") == "FieldDecl" and not n.startswith("anon")]
    return hashlib.md5("\n".join(acc).encode()).hexdigest()[:16]

def gen(name):
    """-> dict(name, status, texts=[(obl index, kind, label, line, path, smt2)], ...)"""
    c = CONTRACTS[name]
    t0 = time.time()
    try:
        tu = cast.load(c.file)
        cur = local_types(tu, tu.funcs[name]) if name in tu.funcs else []
        base = BASE.get(name)
        renames = [{}]
        if base:
            cn = dict(cur); bn = dict(map(tuple, base))
            miss = [n for n in bn if n not in cn]; new = [n for n in cn if n not in bn]
            if miss:
                # parameters are matched by position, locals by type and order
                m = {}; used = set()
                for x in miss:
                    for y in new:
                        if y not in used and cn[y] == bn[x]: m[x] = y; used.add(y); break
                renames = [m]
        eng = vc.Engine(CONTRACTS, name)
        eng.rename = renames[0]
        obls = eng.run()
        texts = []
        for i, o in enumerate(obls):
            for t in solve.build(o.assm, o.goal, eng.ctx, drop=o.kind != 'assert', split=c.opts.get('split', 2) if c.opts.get('merge') == 'named' else 0): texts.append((i, o.kind, o.label, o.line, o.path, t))
        cov = []
        for lab, a in eng.cover:
            cov.append((lab, solve.build(a, z3.BoolVal(False), eng.ctx)[0]))
        return dict(name=name, file=c.file, status="ok", texts=texts, cover=cov, nobl=len(obls), gen_s=time.time() - t0, exits=eng.n_exit,
                    src=src_hash(tu, {name} | set(eng.inlined)), called=sorted(eng.called), inlined=sorted(eng.inlined), ext=sorted(eng.ext_used), renamed=eng.rename, skel=eng.skel, line=eng.fn.get("_line"),
                    lemmas=sorted(eng.ctx.lemmas_used), trusted=c.trusted)
    except (vc.Unsupported, spec.SpecError, cast.FrontendError) as ex:
        return dict(name=name, file=c.file, status="unmapped", reason="%s: %s" % (type(ex).__name__, ex), texts=[], cover=[], nobl=0, gen_s=time.time() - t0, trusted=c.trusted)
    except (KeyError, AttributeError, IndexError, z3.Z3Exception, TypeError, RecursionError, AssertionError) as ex:
        import traceback
        return dict(name=name, file=c.file, status="unmapped", reason="%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1500:]), texts=[], cover=[], nobl=0, gen_s=time.time() - t0, trusted=c.trusted)
BASE = {}

def setup_renames():
    """parameter renames of callees (contracts name formals)"""
    for n, base in BASE.items():
        c = CONTRACTS.get(n)
        if c is None: continue
        try:
            tu = cast.load(c.file)
            if n not in tu.funcs: continue
            cur = [(p.get("name"), repr(tu.ty(p["type"]))) for p in tu.funcs[n].get("inner", []) if p["kind"] == "ParmVarDecl"]
        except cast.FrontendError: continue
        bp = base[:len(cur)]
        vc.RENAMES[n] = {b[0]: x[0] for b, x in zip(bp, cur) if b[0] != x[0] and b[1] == x[1]}

def skeleton(name):
    """the loops of a function and of the helpers inlined into it: nesting, kind, which of condition and step assign"""
    c = CONTRACTS[name]; eng = vc.Engine(CONTRACTS, name); eng.number_loops(); return eng.skel

def main():
    load_contracts()
    BASE.update(baseline_locals()); setup_renames()
    verbose = "-v" in sys.argv
    dump = "-d" in sys.argv
    names = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(CONTRACTS)
    ex = ThreadPoolExecutor(8)
    bad = 0
    for n in names:
        if n == "lemmas":
            r = dict(name="lemmas", status="ok", texts=[(0, "lemma", a, 0, "", t) for a, h, g in spec.sum_lemma_obligations() for t in solve.build(h, g, spec.reset_ctx(), unfold=False) ], cover=[], gen_s=0)
            # lemma proofs must not use the sum axioms themselves
            r["texts"] = []
            for a, h, g in spec.sum_lemma_obligations():
                s = z3.Solver(); s.add(*h); s.add(z3.Not(g)); r["texts"].append((0, "lemma", a, 0, "", s.to_smt2()))
        else: r = gen(n)
        if r["status"] != "ok": print("%-28s %s %s" % (n, r["status"], r["reason"])); bad += 1; continue
        t0 = time.time()
        res = list(ex.map(lambda t: solve.discharge(t[5], 10 if not "-l" in sys.argv else 30), r["texts"]))
        cov = list(ex.map(lambda t: solve.quick_unsat(t[1]), r["cover"]))
        fails = [(t, x) for t, x in zip(r["texts"], res) if x[0] != "proved"]
        vac = [t[0] for t, x in zip(r["cover"], cov) if x]
        mx = max([x[2] for x in res] or [0])
        print("%-28s %d obligations, %d queries, %d failed, gen %.1fs, solve %.1fs (max %.1f)%s" % (n, r.get("nobl", 0), len(res), len(fails), r["gen_s"], time.time() - t0, mx, "  VACUOUS: %s" % vac if vac else ""))
        for (t, x) in fails:
            print("    %-8s %s line %s [%s] %s %.1fs" % (x[0], t[1], t[3], t[2], x[1], x[2]))
            if verbose: print("        path:", t[4])
            if dump:
                fn = "/tmp/fail_%s_%d.smt2" % (n, r["texts"].index(t)); open(fn, "w").write(solve.HDR + t[5]); print("        ", fn)
        bad += len(fails)
        if "-s" in sys.argv:
            for t, x in sorted(zip(r["texts"], res), key=lambda p: -p[1][2])[:6]: print("     slow %.1f %s %s %s" % (x[2], x[1], t[1], t[2]))
    sys.exit(1 if bad else 0)
if __name__ == "__main__": main()
