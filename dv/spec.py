"""Specification language: values, state views, quantifiers, finite sums, lemmas."""
import z3
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
Clo = z3.DeclareSort("Clo")
apI = z3.Function("apI", Clo, I, I); apR = z3.Function("apR", Clo, I, R)
SumI_ = z3.Function("SumI", Clo, I, I, I); SumR_ = z3.Function("SumR", Clo, I, I, R)

def imp(a, b): return z3.Implies(a, b)
And, Or, Not, If = z3.And, z3.Or, z3.Not, z3.If
def dbl(x):
    """the exact value of the machine double nearest to x"""
    from fractions import Fraction
    f = Fraction(x); return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
def conj(xs):
    xs = list(xs)
    return z3.And(*xs) if len(xs) != 1 else xs[0]

class SpecError(Exception): pass

class Ctx:
    """Per-function registry of lifted closures and quantifier scopes."""
    def __init__(self):
        self.clos = {}      # key -> (decl-name)
        self.axioms = []    # closure axioms, asserted with every obligation
        self.bound = []     # active bound constants
        self.n = 0
        self.lemmas_used = set()
    def fresh(self, base, sort):
        self.n += 1
        return z3.Const("%s!%d" % (base, self.n), sort)
CTX = Ctx()
def reset_ctx():
    global CTX
    CTX = Ctx(); return CTX
def ctx(): return CTX

def _bvars(f, sorts=None):
    names = f.__code__.co_varnames[:f.__code__.co_argcount]
    nd = len(f.__defaults__ or ())
    if nd: names = names[:-nd]
    return names

def forall(f, pat=None, sort=None, exists=False, name="q"):
    """forall(lambda i, j: body, pat=lambda i, j: [terms])"""
    names = _bvars(f)
    vs = [CTX.fresh("b_" + n, I if sort is None else sort) for i, n in enumerate(names)]
    CTX.bound += vs
    try:
        body = f(*vs)
        pats = []
        if pat is not None:
            for p in pat(*vs):
                pats.append(z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p)
    finally:
        del CTX.bound[len(CTX.bound) - len(vs):]
    if exists:      # stable names (by nesting inside the body only): equal formulas get equal terms
        d = _exdepth(body, {})
        cn = [z3.Const("ex%d_%d" % (d, i), v.sort()) for i, v in enumerate(vs)]
        return z3.Exists(cn, z3.substitute(body, *zip(vs, cn)))
    body = conj(body) if isinstance(body, (list, tuple)) else body
    import sys
    fr = sys._getframe(1)
    qid = "%s_%d" % (fr.f_code.co_name.strip("<>"), fr.f_lineno)
    return z3.ForAll(vs, body, patterns=pats, qid=qid) if pats else z3.ForAll(vs, body, qid=qid)
def exists(f): return forall(f, exists=True)

def _exdepth(e, memo):
    k = e.get_id()
    if k in memo: return memo[k]
    if z3.is_quantifier(e): r = _exdepth(e.body(), memo) + 1
    elif z3.is_app(e) and e.num_args(): r = max(_exdepth(c, memo) for c in e.children())
    else: r = 0
    memo[k] = r
    return r
def _consts(e, acc, seen):
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0: acc.append(x)
            else: st.extend(x.children())

def closure(f, sort):
    k = z3.Const("ck", I)
    depth = z3.Const("ck%d" % len(CTX.bound), I)
    k = CTX.fresh("k", I)
    CTX.bound.append(k)
    try: body = f(k)
    finally: CTX.bound.pop()
    if sort == R and z3.is_int(body): body = z3.ToReal(body)
    if not z3.is_expr(body): body = z3.RealVal(body) if sort == R else z3.IntVal(body)
    cs = []; _consts(body, cs, set())
    ids = {c.get_id() for c in cs}
    params = [b for b in CTX.bound if b.get_id() in ids]
    canon = z3.Const("ck", I)
    pc = [z3.Const("cp%d" % i, p.sort()) for i, p in enumerate(params)]
    nb = z3.substitute(body, (k, canon), *[(p, c) for p, c in zip(params, pc)])
    nb = z3.simplify(nb, arith_lhs=False, som=False)
    key = (nb.get_id(), str(sort))
    if key in CTX.clos: fn = CTX.clos[key][0]
    else:
        CTX.n += 1
        fn = z3.Function("clo!%d" % CTX.n, *([p.sort() for p in pc] + [Clo]))
        CTX.clos[key] = (fn, nb)      # keeps nb alive so the id stays unique
        ap = apR if sort == R else apI
        lhs = ap(fn(*pc), canon)
        CTX.axioms.append(z3.ForAll([canon] + pc, lhs == nb, patterns=[lhs], qid="ax_" + fn.name()))
    return fn(*params)

def _opaque(f, args, sort):
    names = _bvars(f)
    vs = [CTX.fresh("o_" + n, I) for n in names]
    CTX.bound += vs
    try: body = f(*vs)
    finally: del CTX.bound[len(CTX.bound) - len(vs):]
    if sort == R and z3.is_int(body): body = z3.ToReal(body)
    ids = {}; cs = []; _consts(body, cs, set())
    ids = {c.get_id() for c in cs}
    params = [b for b in CTX.bound if b.get_id() in ids]      # bound variables of enclosing quantifiers
    canon = [z3.Const("oq%d" % i, I) for i in range(len(vs))]; pc = [z3.Const("cp%d" % i, q.sort()) for i, q in enumerate(params)]
    nb = z3.substitute(body, *[(v, c) for v, c in zip(vs, canon)], *[(q, c) for q, c in zip(params, pc)])
    nb = z3.simplify(nb, arith_lhs=False, som=False)
    key = ("opaque", len(vs), nb.get_id(), str(sort))
    if key in CTX.clos: fn = CTX.clos[key][0]
    else:
        CTX.n += 1
        fn = z3.Function("opq!%d" % CTX.n, *([I] * len(vs) + [q.sort() for q in params] + [sort])); CTX.clos[key] = (fn, nb)
    args = [_i(a) for a in args]
    t = fn(*(args + params))
    d = z3.substitute(nb, *[(c, a) for c, a in zip(canon, args)], *[(c, q) for c, q in zip(pc, params)])
    return t, t == d
def opaque(f, *args, sort=None):
    """f(args) behind a name: the solver sees the definition only where reveal() is given as a hint"""
    return _opaque(f, args, R if sort is None else sort)[0]
def reveal(f, *args, sort=None): return _opaque(f, args, R if sort is None else sort)[1]

def SumR(lo, hi, f): return SumR_(closure(f, R), _i(lo), _i(hi))
def SumI(lo, hi, f): return SumI_(closure(f, I), _i(lo), _i(hi))
def Count(lo, hi, f): return SumI(lo, hi, lambda k: z3.If(f(k), z3.IntVal(1), z3.IntVal(0)))
def _i(x): return x if z3.is_expr(x) else z3.IntVal(x)

# ---------------------------------------------------------------- sum theory
Probe = z3.Function("Probe", I, B)
def probe(d):
    """marks an index: sums over the same range are compared assuming they differ at most there (Probe holds of everything)"""
    return Probe(_i(d))
def sum_axioms():
    A, Bc = z3.Consts("A B", Clo); lo, hi = z3.Ints("lo hi")
    out = []
    for S, ap, s in ((SumI_, apI, "I"), (SumR_, apR, "R")):
        out.append(z3.ForAll([A, lo, hi], z3.Implies(hi <= lo, S(A, lo, hi) == 0), patterns=[S(A, lo, hi)]))
        z = z3.Function("sd0" + s, Clo, I, I, I)(A, lo, hi)
        out.append(z3.ForAll([A, lo, hi], z3.Or(S(A, lo, hi) == 0, z3.And(lo <= z, z < hi, ap(A, z) != 0)), patterns=[S(A, lo, hi)]))
        d = z3.Function("sd1" + s, Clo, Clo, I, I, I); e = z3.Function("sd2" + s, Clo, Clo, I, I, I)
        D, E = d(A, Bc, lo, hi), e(A, Bc, lo, hi)
        out.append(z3.ForAll([A, Bc, lo, hi], z3.Or(S(Bc, lo, hi) == S(A, lo, hi),
            z3.And(lo <= D, D < hi, ap(A, D) != ap(Bc, D),
                   z3.Or(S(Bc, lo, hi) - S(A, lo, hi) == ap(Bc, D) - ap(A, D),
                         z3.And(lo <= E, E < hi, E != D, ap(A, E) != ap(Bc, E))))),
            patterns=[z3.MultiPattern(S(A, lo, hi), S(Bc, lo, hi))]))
        q = z3.Int("q"); F = z3.Function("sd3" + s, Clo, Clo, I, I, I, I)(A, Bc, lo, hi, q)
        out.append(z3.ForAll([A, Bc, lo, hi, q], z3.Or(S(Bc, lo, hi) - S(A, lo, hi) == z3.If(z3.And(lo <= q, q < hi), ap(Bc, q) - ap(A, q), 0),
            z3.And(lo <= F, F < hi, F != q, ap(A, F) != ap(Bc, F))), patterns=[z3.MultiPattern(S(A, lo, hi), S(Bc, lo, hi), Probe(q))]))
    return out

def sum_unfold(S, A, lo, hi):
    ap = apI if S.name() == "SumI" else apR
    h1 = z3.simplify(hi - 1, arith_lhs=False)
    return z3.Implies(hi > lo, S(A, lo, hi) == S(A, lo, h1) + ap(A, h1))
def sum_unfold_left(term):
    """lo<hi ==> Sum(lo,hi) = body(lo) + Sum(lo+1,hi)"""
    S = term.decl(); A, lo, hi = term.children(); ap = apI if S.name() == "SumI" else apR
    CTX.lemmas_used.add("sum_split")
    return z3.Implies(hi > lo, S(A, lo, hi) == S(A, z3.simplify(lo + 1, arith_lhs=False), hi) + ap(A, lo))
def sum_split(term, mid):
    S = term.decl(); A, lo, hi = term.children(); mid = _i(mid)
    CTX.lemmas_used.add("sum_split")
    return z3.Implies(z3.And(lo <= mid, mid <= hi), S(A, lo, hi) == S(A, lo, mid) + S(A, mid, hi))
def sum_ge0(term):
    S = term.decl(); A, lo, hi = term.children(); ap = apI if S.name() == "SumI" else apR
    CTX.lemmas_used.add("sum_nonneg")
    k = CTX.fresh("sk", I)
    return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), ap(A, k) >= 0), patterns=[ap(A, k)]), S(A, lo, hi) >= 0)
def sum_elem_le(term, k0):
    """all terms >=0 ==> body(k0) <= Sum"""
    S = term.decl(); A, lo, hi = term.children(); ap = apI if S.name() == "SumI" else apR; k0 = _i(k0)
    CTX.lemmas_used.add("sum_elem_le")
    k = CTX.fresh("sk", I)
    return z3.Implies(z3.And(lo <= k0, k0 < hi, z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), ap(A, k) >= 0), patterns=[ap(A, k)])), ap(A, k0) <= S(A, lo, hi))
def sum_two_le(term, k0, k1):
    """all terms >=0, k0 != k1 ==> body(k0)+body(k1) <= Sum"""
    S = term.decl(); A, lo, hi = term.children(); ap = apI if S.name() == "SumI" else apR; k0 = _i(k0); k1 = _i(k1)
    CTX.lemmas_used.add("sum_two_le")
    k = CTX.fresh("sk", I)
    return z3.Implies(z3.And(lo <= k0, k0 < hi, lo <= k1, k1 < hi, k0 != k1, z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), ap(A, k) >= 0), patterns=[ap(A, k)])), ap(A, k0) + ap(A, k1) <= S(A, lo, hi))
def sum_le(t1, t2):
    """pointwise <= ==> Sum <="""
    S = t1.decl(); A, lo, hi = t1.children(); C = t2.children()[0]; ap = apI if S.name() == "SumI" else apR
    CTX.lemmas_used.add("sum_mono")
    k = CTX.fresh("sk", I)
    return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), ap(A, k) <= ap(C, k)), patterns=[ap(A, k)]), S(A, lo, hi) <= S(C, lo, hi))
def sum_le_n(t):
    """all terms <= 1 ==> Sum <= hi - lo"""
    S = t.decl(); A, lo, hi = t.children(); ap = apI if S.name() == "SumI" else apR
    CTX.lemmas_used.add("sum_le_n")
    k = CTX.fresh("sk", I)
    return z3.Implies(z3.And(lo <= hi, z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), ap(A, k) <= 1), patterns=[ap(A, k)])), S(A, lo, hi) <= hi - lo)
def sum_all1(t):
    """all terms == 1 ==> Sum == hi - lo"""
    S = t.decl(); A, lo, hi = t.children(); ap = apI if S.name() == "SumI" else apR
    CTX.lemmas_used.add("sum_all1")
    k = CTX.fresh("sk", I)
    return z3.Implies(z3.And(lo <= hi, z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), ap(A, k) == 1), patterns=[ap(A, k)])), S(A, lo, hi) == hi - lo)
def sum_diff2(t1, t2, d1, d2):
    """the terms agree except at d1 and d2 ==> Sum2 - Sum1 is the change at these two"""
    S = t1.decl(); A, lo, hi = t1.children(); C, lo2, hi2 = t2.children(); ap = apI if S.name() == "SumI" else apR
    CTX.lemmas_used.add("sum_diff2")
    d1, d2 = _i(d1), _i(d2)
    k = CTX.fresh("sk", I)
    at = lambda d: z3.If(z3.And(lo <= d, d < hi), ap(C, d) - ap(A, d), 0)
    return z3.Implies(z3.And(lo == lo2, hi == hi2, z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi, k != d1, k != d2), ap(A, k) == ap(C, k)), patterns=[ap(A, k)])),
                      S(C, lo2, hi2) - S(A, lo, hi) == z3.If(d1 == d2, at(d1), at(d1) + at(d2)))
def sum_add(t, t1, t2, c1=1, c2=1):
    """pointwise A = c1*B + c2*C ==> Sum A = c1*Sum B + c2*Sum C   (c1, c2 independent of the index)"""
    S = t.decl(); A, lo, hi = t.children(); B1 = t1.children()[0]; C1 = t2.children()[0]; ap = apI if S.name() == "SumI" else apR
    CTX.lemmas_used.add("sum_add")
    k = CTX.fresh("sk", I)
    return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), ap(A, k) == c1 * ap(B1, k) + c2 * ap(C1, k)), patterns=[ap(A, k)]),
                      S(A, lo, hi) == c1 * S(B1, lo, hi) + c2 * S(C1, lo, hi))
def sum_scale(t, t1, c):
    S = t.decl(); A, lo, hi = t.children(); B1 = t1.children()[0]; ap = apI if S.name() == "SumI" else apR
    CTX.lemmas_used.add("sum_scale")
    k = CTX.fresh("sk", I)
    return z3.Implies(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), ap(A, k) == c * ap(B1, k)), patterns=[ap(A, k)]), S(A, lo, hi) == c * S(B1, lo, hi))

Mul = z3.Function("Mul", I, I, I)       # a product of two variables, where only the facts of mul_facts are wanted
def mul_facts(n):
    """Mul(n, .) for n >= 0: non-negative, grows by at least n per step, commutes   (lemma mul, proved below for the real product)"""
    CTX.lemmas_used.add("mul")
    a, b = CTX.fresh("ma", I), CTX.fresh("mb", I)
    return z3.Implies(n >= 0, z3.And(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b), Mul(n, a) + n <= Mul(n, b)), patterns=[z3.MultiPattern(Mul(n, a), Mul(n, b))]),
        z3.ForAll([a], z3.Implies(0 <= a, Mul(n, a) >= 0), patterns=[Mul(n, a)]), z3.ForAll([a], Mul(a, n) == Mul(n, a), patterns=[Mul(a, n)]), Mul(n, z3.IntVal(0)) == 0))
MulRow = z3.Function("MulRow", I, z3.ArraySort(I, I))      # the multiples of a number, as a sequence (a definition)
def mul_row(n):
    """MulRow(n)[k] = n*k, and the next multiple is n more   (lemma mul/next)"""
    CTX.lemmas_used.add("mul")
    k = CTX.fresh("mk", I); r = MulRow(n)
    return z3.And(z3.ForAll([k], z3.Select(r, k) == Mul(n, k), patterns=[z3.Select(r, k), Mul(n, k)]), z3.ForAll([k], z3.Select(r, k + 1) == z3.Select(r, k) + n, patterns=[z3.Select(r, k + 1)]), z3.Select(r, 0) == 0)
def sorted_steps(f, n):
    """f(k) <= f(k+1) for 0<=k<n  ==>  f(i) <= f(j) for 0<=i<=j<=n   (lemma monotone, proved by induction below)"""
    CTX.lemmas_used.add("monotone")
    return z3.Implies(forall(lambda k: z3.Implies(z3.And(0 <= k, k < n), f(k) <= f(k + 1)), pat=lambda k: [f(k), f(k + 1)]),
                      forall(lambda i, j: z3.Implies(z3.And(0 <= i, i <= j, j <= n), f(i) <= f(j)), pat=lambda i, j: [(f(i), f(j))]))
def cs_step(n, s1, s2, x):
    """n numbers with sum s1 and sum of squares s2: n*s2 >= s1^2 carries over to one number more   (lemma mul/squares)"""
    CTX.lemmas_used.add("mul")
    return z3.Implies(z3.And(n >= 0, s2 >= 0, n * s2 >= s1 * s1), z3.And((n + 1) * (s2 + x * x) >= (s1 + x) * (s1 + x), s2 + x * x >= 0))
def cs_var(n, s1, s2):
    """... so the mean of the squares is at least the square of the mean   (lemma mul/variance)"""
    CTX.lemmas_used.add("mul")
    return z3.Implies(z3.And(n >= 1, n * s2 >= s1 * s1), s2 / n - (s1 / n) * (s1 / n) >= 0)
def sum_lemma_obligations():
    """Each lemma above, proved by induction on the upper bound from the recursive definition.
    Returned as (name, assumptions, goal)."""
    out = []
    mn, ma, mb = z3.Ints("mn ma mb")
    out.append(("mul/step", [mn >= 0, 0 <= ma, ma < mb, mn * (mb - ma - 1) >= 0], mn * ma + mn <= mn * mb)); ur, vr = z3.Reals("ur vr"); out.append(("mul/unit_product", [0 <= ur, ur < 1, vr >= 0], z3.And(ur * vr >= 0, z3.Implies(vr > 0, ur * vr < vr)))); out.append(("mul/next", [], mn * (ma + 1) == mn * ma + mn)); out.append(("mul/factor", [mn >= 0, mb >= 0], mn * mb >= 0))
    n_r, a_r, b_r, x_r = z3.Reals("cs_n cs_a cs_b cs_x")
    out.append(("mul/squares", [n_r >= 0, b_r >= 0, n_r * b_r >= a_r * a_r, z3.Or(n_r == 0, n_r * (b_r + n_r * x_r * x_r - 2 * a_r * x_r) >= (a_r - n_r * x_r) * (a_r - n_r * x_r))], z3.And((n_r + 1) * (b_r + x_r * x_r) >= (a_r + x_r) * (a_r + x_r), b_r + x_r * x_r >= 0)))
    out.append(("mul/squares2", [n_r > 0, n_r * b_r >= a_r * a_r], n_r * (b_r + n_r * x_r * x_r - 2 * a_r * x_r) >= (a_r - n_r * x_r) * (a_r - n_r * x_r)))
    out.append(("mul/variance", [n_r >= 1, n_r * b_r >= a_r * a_r], b_r / n_r - (a_r / n_r) * (a_r / n_r) >= 0))
    F = z3.Function("mono_f", I, I); i_, j_, k_, n_ = z3.Ints("mi mj mk mn")
    step = z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < n_), F(k_) <= F(k_ + 1)), patterns=[F(k_)])
    MP = lambda j: z3.Implies(z3.And(0 <= i_, i_ <= j, j <= n_), F(i_) <= F(j))
    out.append(("monotone/base", [step, j_ == i_], MP(j_))); out.append(("monotone/step", [step, j_ >= i_, MP(j_)], MP(j_ + 1)))
    for S, ap, srt in ((SumI_, apI, I), (SumR_, apR, R)):
        t = S.name()
        A, Bc, Cc = z3.Consts("A B C", Clo); lo, n, d, m, k = z3.Ints("lo n d m k")
        k1 = z3.Int("k1"); c1, c2 = z3.Consts("c1 c2", srt)
        def df(X, hi): return z3.And(z3.Implies(hi <= lo, S(X, lo, hi) == 0), z3.Implies(hi > lo, S(X, lo, hi) == S(X, lo, hi - 1) + ap(X, hi - 1)))
        defs = lambda hi: [df(X, h) for X in (A, Bc, Cc) for h in (hi, hi + 1)]
        def all_(lo_, hi_, b): return z3.ForAll([k], z3.Implies(z3.And(lo_ <= k, k < hi_), b), patterns=[ap(A, k)])
        lem = {
          "sum_diff": lambda n: z3.Implies(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < n, k != d), ap(A, k) == ap(Bc, k)), patterns=[ap(A, k)]),
                                S(Bc, lo, n) - S(A, lo, n) == z3.If(z3.And(lo <= d, d < n), ap(Bc, d) - ap(A, d), 0)),
          "sum_diff2": lambda n: z3.Implies(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < n, k != d, k != k1), ap(A, k) == ap(Bc, k)), patterns=[ap(A, k)]),
                                S(Bc, lo, n) - S(A, lo, n) == z3.If(d == k1, z3.If(z3.And(lo <= d, d < n), ap(Bc, d) - ap(A, d), 0),
                                     z3.If(z3.And(lo <= d, d < n), ap(Bc, d) - ap(A, d), 0) + z3.If(z3.And(lo <= k1, k1 < n), ap(Bc, k1) - ap(A, k1), 0))),
          "sum_le_n": lambda n: z3.Implies(z3.And(lo <= n, all_(lo, n, ap(A, k) <= 1)), S(A, lo, n) <= n - lo),
          "sum_all1": lambda n: z3.Implies(z3.And(lo <= n, all_(lo, n, ap(A, k) == 1)), S(A, lo, n) == n - lo),
          "sum_zero": lambda n: z3.Implies(all_(lo, n, ap(A, k) == 0), S(A, lo, n) == 0),
          "sum_nonneg": lambda n: z3.Implies(all_(lo, n, ap(A, k) >= 0), S(A, lo, n) >= 0),
          "sum_mono": lambda n: z3.Implies(all_(lo, n, ap(A, k) <= ap(Bc, k)), S(A, lo, n) <= S(Bc, lo, n)),
          "sum_add": lambda n: z3.Implies(all_(lo, n, ap(A, k) == c1 * ap(Bc, k) + c2 * ap(Cc, k)), S(A, lo, n) == c1 * S(Bc, lo, n) + c2 * S(Cc, lo, n)),
          "sum_scale": lambda n: z3.Implies(all_(lo, n, ap(A, k) == c1 * ap(Bc, k)), S(A, lo, n) == c1 * S(Bc, lo, n)),
        }
        for nm, P in lem.items():
            out.append(("%s/%s/base" % (nm, t), defs(n) + [n <= lo], P(n)))
            out.append(("%s/%s/step" % (nm, t), defs(n) + [n >= lo, P(n), ap(A, n) == ap(A, n)], P(n + 1)))
        # elem_le uses nonneg for the prefix
        P = lambda n: z3.Implies(z3.And(lo <= d, d < n, all_(lo, n, ap(A, k) >= 0)), z3.And(S(A, lo, n) >= 0, ap(A, d) <= S(A, lo, n)))
        nn = lambda n: z3.Implies(all_(lo, n, ap(A, k) >= 0), S(A, lo, n) >= 0)
        out.append(("sum_elem_le/%s/base" % t, defs(n) + [n <= lo], P(n)))
        out.append(("sum_elem_le/%s/step" % t, defs(n) + [n >= lo, P(n), nn(n), ap(A, n) == ap(A, n)], P(n + 1)))
        Q = lambda n: z3.Implies(z3.And(lo <= d, d < n, lo <= k1, k1 < n, d != k1, all_(lo, n, ap(A, k) >= 0)), ap(A, d) + ap(A, k1) <= S(A, lo, n))
        P2 = lambda n, x: z3.Implies(z3.And(lo <= x, x < n, all_(lo, n, ap(A, k) >= 0)), ap(A, x) <= S(A, lo, n))
        out.append(("sum_two_le/%s/base" % t, defs(n) + [n <= lo], Q(n)))
        out.append(("sum_two_le/%s/step" % t, defs(n) + [n >= lo, Q(n), nn(n), P2(n, d), P2(n, k1), ap(A, n) == ap(A, n)], Q(n + 1)))
        # split: induction on hi = n, mid m fixed
        dm = lambda hi: z3.And(z3.Implies(hi <= m, S(A, m, hi) == 0), z3.Implies(hi > m, S(A, m, hi) == S(A, m, hi - 1) + ap(A, hi - 1)))
        SP = lambda n: z3.Implies(z3.And(lo <= m, m <= n), S(A, lo, n) == S(A, lo, m) + S(A, m, n))
        out.append(("sum_split/%s/base" % t, defs(n) + [dm(n), n <= m], SP(n)))
        out.append(("sum_split/%s/step" % t, defs(n) + [dm(n), dm(n + 1), n >= m, SP(n)], SP(n + 1)))
        # singleton (used by unfold_left): S(lo,lo+1)=ap(lo) is one unfolding
        out.append(("sum_single/%s" % t, [df(A, lo + 1), df(A, lo)], S(A, lo, lo + 1) == ap(A, lo)))
    return out
