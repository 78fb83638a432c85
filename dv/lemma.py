"""Mathematical lemmas over contracts: a small proof script language.  Every step is an obligation for the solvers;
only proved steps become assumptions of later steps."""
import z3, spec
from spec import *

def unfold_all(f):
    """for every index: the sum f(i) unfolded at its upper end (definition of the sum)"""
    names = spec._bvars(f)
    vs = [spec.CTX.fresh("u_" + n, I) for n in names]
    spec.CTX.bound += vs
    try: t = f(*vs)
    finally: del spec.CTX.bound[len(spec.CTX.bound) - len(vs):]
    A, lo, hi = t.children(); ap = apI if t.decl().name() == "SumI" else apR
    h1 = z3.simplify(hi - 1, arith_lhs=False)
    return z3.ForAll(vs, z3.Implies(hi > lo, t == t.decl()(A, lo, h1) + ap(A, h1)), patterns=[t])

class Proof:
    def __init__(s, name, assume=()):
        s.name, s.cx = name, spec.reset_ctx(); s.assm = []; s.steps = []; s.proved = []
        for f in assume: s.assm.append(f)
    def given(s, *fs): s.assm += fs
    def facts(s, use):
        """assumptions of a step: the hypotheses, plus all earlier steps or (use given) only the named ones"""
        if use is None: return s.assm + [f for _, f in s.proved]
        out = [] if "-" in use else list(s.assm)
        for u in use:
            m = [f for n, f in s.proved if n.startswith(u)] if u != "-" else [1]
            if not m: raise SpecError("no step " + u)
            if u != "-": out += m
        return out
    def have(s, what, f, hints=(), use=None, keep=True):
        s.steps.append(("%s/%s" % (s.name, what), s.facts(use) + list(hints), f, s.cx))
        if keep: s.proved.append((what, f))
        return f
    def gen(s, what, f, hints=None, pat=None, sort=None, use=None):
        """for all i: f(i); proved for an arbitrary constant"""
        names = spec._bvars(f)
        cs = [spec.CTX.fresh("any_" + n, sort or I) for n in names]
        s.have(what, f(*cs), hints(*cs) if hints else (), keep=False, use=use)
        g = forall(f, pat=pat, sort=sort); s.proved.append((what, g)); return g
    def induct(s, what, f, lo, hi=None, hints=None, keep=True, use=None):
        """f(n) for all n >= lo (up to hi), by induction; only the instance f(hi) is kept (or the universal if hi is None)"""
        n = spec.CTX.fresh("ind", I)
        s.have(what + " (base)", f(lo), keep=False, use=use)
        s.have(what + " (step)", f(n + 1), [n >= lo, f(n)] + ([n < hi] if hi is not None else []) + list(hints(n) if hints else []), keep=False, use=use)
        if hi is not None: g = z3.Implies(hi >= lo, f(hi))
        else: raise SpecError("induct needs a bound")
        if keep: s.proved.append((what, g))
        return g
    def fubini(s, what, F, n, m, use=None):
        """Sum_{i<n} Sum_{j<m} F(i,j) == Sum_{j<m} Sum_{i<n} F(i,j)"""
        L = lambda h: SumR(0, h, lambda i: SumR(0, m, lambda j: F(i, j)))
        Rr = lambda h: SumR(0, m, lambda j: SumR(0, h, lambda i: F(i, j)))
        return s.induct(what, lambda h: L(h) == Rr(h), z3.IntVal(0), n,
            hints=lambda h: [unfold_all(lambda j: SumR(0, h + 1, lambda i: F(i, j))), sum_add(Rr(h + 1), Rr(h), SumR(0, m, lambda j: F(h, j)))], use=use)
