"""Discharging obligations with external SMT solvers, in parallel."""
import os, subprocess, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
import itertools, z3, spec
from spec import SumI_, SumR_

def flatten_goal(g, assm, cx, depth=0):
    """split a goal into (extra assumptions, atomic goal) pairs; skolemise universals"""
    if z3.is_and(g):
        out = []
        for c in g.children(): out += flatten_goal(c, assm, cx, depth)
        return out
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES:
        a, b = g.children()
        return flatten_goal(b, assm + [a], cx, depth)
    if z3.is_quantifier(g) and g.is_forall():
        vs = []
        for i in range(g.num_vars()):
            cx.n += 1
            vs.append(z3.Const("sk_%s!%d" % (g.var_name(i).split("!")[0], cx.n), g.var_sort(i)))
        body = z3.substitute_vars(g.body(), *reversed(vs))
        return flatten_goal(body, assm, cx, depth)
    return [(assm, g)]

def has_var(t, cache):
    """does the term contain a de Bruijn variable?"""
    i = t.get_id()
    if i in cache: return cache[i][1]
    if z3.is_var(t): r = True
    elif z3.is_quantifier(t): r = has_var(t.body(), cache)
    else: r = any(has_var(c, cache) for c in t.children())
    cache[i] = (t, r)
    return r

def ground_sums(fs):
    out = {}; seen = set(); cache = {}
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().name() in ("SumI", "SumR") and not has_var(x, cache): out[x.get_id()] = x
            st.extend(x.children())
    return list(out.values())

def uses_sums(fs):
    seen = set(); st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().name() in ("SumI", "SumR"): return True
            st.extend(x.children())
    return False

_cache = {}
def _info(f):
    """(closure names, ground sum terms, mentions sums) of one formula, cached"""
    r = _cache.get(f.get_id())
    if r is None or not r[0].eq(f):
        acc = set(); clo_names(f, acc, set())
        us = uses_sums([f])
        r = (f, acc, ground_sums([f]) if us else [], us); _cache[f.get_id()] = r
    return r
def path_consts(assm):
    """the choice constants of the merges in this path condition, in order"""
    out = []
    for f in assm:
        if z3.is_implies(f) and z3.is_const(f.arg(0)) and f.arg(0).decl().name().startswith("path!") and not any(f.arg(0).eq(x) for x in out): out.append(f.arg(0))
    return out
def fix_path(fs, ps, vals):
    """the formulas in the case where the choice constants have the given values"""
    out = []
    for f in fs:
        keep = True
        for p, v in zip(ps, vals):
            if z3.is_implies(f):
                a = f.arg(0); neg = z3.is_not(a); a = a.arg(0) if neg else a
                if a.eq(p):
                    if v != neg: f = f.arg(1)
                    else: keep = False; break
        if keep: out.append(z3.substitute(f, *[(p, z3.BoolVal(v)) for p, v in zip(ps, vals)]))
    return out
def build(assm, goal, cx, unfold=True, drop=True, split=0):
    """-> list of smt2 texts (one per atomic goal, and per case of the last merges if asked for)"""
    if split:
        ps = path_consts(assm)[-split:]
        if ps:
            out = []; plain = []
            for extra, g in flatten_goal(goal, [], cx):
                if not _info(g)[3]: plain.append((extra, g)); continue
                for vals in itertools.product((True, False), repeat=len(ps)):
                    fs = fix_path(list(assm) + extra + [z3.Not(g)], ps, vals)
                    out += build(fs[:-1], fs[-1].arg(0) if z3.is_not(fs[-1]) else z3.Not(fs[-1]), cx, unfold, drop)
            for extra, g in plain: out += build(list(assm) + extra, g, cx, unfold, drop)
            return out
    out = []
    for extra, g in flatten_goal(goal, [], cx):
        fs = list(assm) + extra + [z3.Not(g)]
        if drop and not _info(g)[3] and not any(_info(x)[3] for x in extra): fs = [f for f in fs if not _info(f)[3]]
        acc = set()
        for f in fs: acc |= _info(f)[1]
        fs += relevant(cx.axioms, acc)
        if any(_info(f)[3] for f in fs):
            if unfold:
                seen = set(); un = []
                for f in fs:
                    for t in _info(f)[2]:
                        if t.get_id() in seen: continue
                        seen.add(t.get_id())
                        A, lo, hi = t.children()
                        if z3.is_int_value(hi) and z3.is_int_value(lo) and hi.as_long() <= lo.as_long(): continue
                        un.append(spec.sum_unfold(t.decl(), A, lo, hi))
                fs += un
            fs += SUMAX()
        s = z3.Solver()
        s.add(*fs)
        out.append(s.to_smt2())
    return out
_sa = []
def SUMAX():
    if not _sa: _sa.extend(spec.sum_axioms())
    return _sa

def clo_names(t, acc, seen):
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().name().startswith("clo!"): acc.add(x.decl().name())
            st.extend(x.children())
_ax = {}
def relevant(ax, acc):
    acc = set(acc); info = []
    for a in ax:
        r = _ax.get(a.get_id())
        if r is None or not r[0].eq(a):
            p = set(); clo_names(a.pattern(0), p, set())
            r = (a, _info(a)[1], next(iter(p))); _ax[a.get_id()] = r
        info.append(r)
    used = []; changed = True; done = set()
    while changed:
        changed = False
        for i, (a, s, d) in enumerate(info):
            if i not in done and d in acc:
                done.add(i); used.append(a); acc |= s; changed = True
    return used

Z3 = shutil.which("z3-new") or "z3"
CVC5 = shutil.which("cvc5"); Z3OLD = shutil.which("z3")
HDR = "(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n"
def run_z3(text, tmo, opts=HDR, exe=None, seed=None):
    return _run([exe or Z3, "-T:%d" % max(1, int(tmo)), "-in"] + (["smt.random_seed=%d" % seed, "sat.random_seed=%d" % seed] if seed else []), opts + text, tmo)
def run_cvc5(text, tmo):
    return _run([CVC5, "--lang=smt2", "--tlimit=%d" % int(tmo * 1000), "-q"], "(set-logic ALL)\n" + strip_logic(text), tmo)
def strip_logic(t): return "\n".join(l for l in t.splitlines() if not l.startswith("(set-logic") and not l.startswith("; ") and not l.startswith("(set-info"))
def _run(cmd, text, tmo):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=tmo + 5)
        o = p.stdout.strip().splitlines()
        r = o[0] if o else "error"
        if r not in ("sat", "unsat", "unknown", "timeout"): r = "timeout" if "timeout" in (p.stdout + p.stderr) or "interrupted" in (p.stdout + p.stderr) else "error"
    except subprocess.TimeoutExpired: r = "timeout"
    return r, time.time() - t0

def discharge(text, budget=20):
    """-> (status, backend, seconds); status in proved / failed / refuted / timeout"""
    tot = 0; sts = []
    st = {}
    for name, f in (("z3-4.8", lambda: run_z3(text, 1, exe=Z3OLD)),
                    ("z3", lambda: run_z3(text, 1)),
                    ("cvc5", lambda: run_cvc5(text, min(3, budget))),
                    ("z3-4.8", lambda: run_z3(text, 4, exe=Z3OLD, seed=1) if st["z3-4.8"] == "timeout" else ("skip", 0)),
                    ("z3", lambda: run_z3(text, 4, seed=1) if st["z3"] == "timeout" else ("skip", 0)),
                    ("cvc5", lambda: run_cvc5(text, min(10, budget)) if st["cvc5"] == "timeout" else ("skip", 0)),
                    ("z3-auto", lambda: run_z3(text, min(10, budget), "")),
                    ("z3-long", lambda: run_z3(text, budget, seed=7) if st["z3"] == "timeout" else ("skip", 0)),
                    ("z3-4.8-long", lambda: run_z3(text, budget, exe=Z3OLD, seed=3) if st["z3-4.8"] == "timeout" else ("skip", 0)),
                    ("cvc5-long", lambda: run_cvc5(text, budget) if st["cvc5"] == "timeout" else ("skip", 0))):
        r, t = f(); tot += t
        if r == "unsat": return "proved", name, tot
        if r != "skip": sts.append(r); st[name] = r
        if r == "sat": return "refuted", name, tot
    res = "failed" if "unknown" in (st["z3"], st["z3-4.8"]) else "timeout"
    return res, "+".join(sts), tot

def quick_unsat(text, tmo=3):
    r, t = run_z3(text, tmo)
    return r == "unsat"
