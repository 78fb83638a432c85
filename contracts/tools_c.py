"""Vectors, matrices, statistics, tabulated functions (src/tools.c)"""
import z3
from vc import Contract, Loop, uf, c_lnchoose, c_lnfact
from cast import Ty, INT, REAL
from spec import *
from partition2_c import live, is_new
TF = "src/tools.c"; U31 = 1 << 31
H_I, H_D = "[]i32", "[]real"; H_PI, H_PD = "[]" + repr(Ty("ptr", INT)), "[]" + repr(Ty("ptr", REAL))
def vec_ens(S, n): r = S.result; return [("a new vector of that length", And(is_new(S, r.o), r.o != 0, r.len() == n, r.typed(), r.off == 0 if z3.is_expr(r.off) else True))]
def mat_ok(S, m, rows, cols, new=False):
    """a table of `rows` separate live rows of length cols"""
    return [("row table", And(m.o != 0, m.alloc(), m.len() >= rows, m.typed())),
            ("rows", forall(lambda i: imp(And(0 <= i, i < rows), And(m[i].alloc(), m[i].o != 0, m[i].len() >= cols, m[i].typed(), Not(live(S.old, m[i].o)) if new else True)), pat=lambda i: [m[i].o])),
            ("rows are separate", forall(lambda i, j: imp(And(0 <= i, i < j, j < rows), m[i].o != m[j].o), pat=lambda i, j: [(m[i].o, m[j].o)]))]
def alloc_mat(name, elem, zero):
    h, hp = (H_D, H_PD) if elem is REAL else (H_I, H_PI)
    z = lambda S, m, hi, c: [("rows are zero", forall(lambda i, j: imp(And(0 <= i, i < hi, 0 <= j, j < c), m[i][j] == 0), pat=lambda i, j: [m[i][j]]))] if zero else []
    return Contract(TF, name, requires=lambda S: [("sizes in range", And(0 <= S.nrows, 0 <= S.ncolumns))],
        ensures=lambda S: mat_ok(S, S.result, S.nrows, S.ncolumns, True) + [("the table is new", And(is_new(S, S.result.o), S.result.len() == S.nrows))] + z(S, S.result, S.nrows, S.ncolumns) +
            [("row lengths", forall(lambda i: imp(And(0 <= i, i < S.nrows), S.result[i].len() == S.ncolumns), pat=lambda i: [S.result[i].o]))],
        fresh=[h, hp], allocs="grow",
        loops={0: Loop(inv=lambda S: [("index", And(0 <= S.i, S.i <= S.nrows)), ("table", And(S.array.o == S.pre.array.o, S.array.alloc()))] + mat_ok(S, S.array, S.i, S.ncolumns, True)[1:] + z(S, S.array, S.i, S.ncolumns) +
            [("row lengths", forall(lambda i: imp(And(0 <= i, i < S.i), S.array[i].len() == S.ncolumns), pat=lambda i: [S.array[i].o]))], decreases=lambda S: S.nrows - S.i)})
def free_mat(name, elem):
    return Contract(TF, name, requires=lambda S: [("rows in range", 0 <= S.nrows)] + mat_ok(S, S.data, S.nrows, 0),
        ensures=lambda S: [("rows and table are released", And(Not(live(S, S.data.o)), forall(lambda i: imp(And(0 <= i, i < S.nrows), Not(live(S, S.data[i].o))), pat=lambda i: [S.data[i].o]))),
            ("nothing else is released", forall(lambda o: imp(And(live(S.old, o), o != S.data.o, forall(lambda i: imp(And(0 <= i, i < S.nrows), S.data[i].o != o), pat=lambda i: [S.data[i].o])), live(S, o)), pat=lambda o: [live(S, o)]))],
        allocs="free",
        loops={0: Loop(inv=lambda S: [("index", And(0 <= S.i, S.i <= S.nrows)), ("the table lives", S.data.alloc()), ("released so far", forall(lambda i: imp(And(0 <= i, i < S.nrows), live(S, S.data[i].o) == (i >= S.i)), pat=lambda i: [S.data[i].o])),
            ("nothing new", forall(lambda o: imp(live(S, o), live(S.old, o)), pat=lambda o: [live(S, o)])),
            ("others live", forall(lambda o: imp(And(live(S.old, o), forall(lambda i: imp(And(0 <= i, i < S.nrows), S.data[i].o != o), pat=lambda i: [S.data[i].o])), live(S, o)), pat=lambda o: [live(S, o)]))], decreases=lambda S: S.nrows - S.i)})
def one_release(S): return [("exactly the vector is released", forall(lambda o: live(S, o) == And(live(S.old, o), o != S.data.o), pat=lambda o: [live(S, o)]))]
CONTRACTS = [
    Contract(TF, "allocate_i_vec", requires=lambda S: [("length in range", 0 <= S.nelem)], ensures=lambda S: vec_ens(S, S.nelem), fresh=[H_I], allocs="grow"),
    Contract(TF, "allocate_d_vec", requires=lambda S: [("length in range", 0 <= S.nelem)], ensures=lambda S: vec_ens(S, S.nelem), fresh=[H_D], allocs="grow"),
    alloc_mat("allocate_i_mat", INT, False), alloc_mat("allocate_d_mat", REAL, True), free_mat("free_i_mat", INT), free_mat("free_d_mat", REAL),
    Contract(TF, "free_i_vec", requires=lambda S: [("a live vector", Or(S.data == 0, S.data.alloc()))], ensures=one_release, allocs="free"),
    Contract(TF, "free_d_vec", requires=lambda S: [("a live vector", Or(S.data == 0, S.data.alloc()))], ensures=one_release, allocs="free"),
]
# ---------------------------------------------------------------- statistics
def data_ok(S): return [("data", And(S.N >= 1, S.data.alloc(), S.data.len() >= S.N))]
def s1(S, hi): return SumR(0, hi, lambda k: S.data[k])
def s2(S, hi): return SumR(0, hi, lambda k: S.data[k] * S.data[k])
def ix(S, lo, hi): return ("index", And(lo <= S.i, S.i <= hi))
def ext(S, less):
    """result is an element, and no element is beyond it"""
    return [("no element is beyond it", forall(lambda k: imp(And(0 <= k, k < S.N), Not(less(S.result, S.data[k]))), pat=lambda k: [S.data[k]])), ("it is one of the elements", Or(S.data[0] == S.result, exists(lambda k: And(1 <= k, k < S.N, S.data[k] == S.result))))]
def ext_inv(S, less):
    return [ix(S, 1, S.N), ("no element so far is beyond it", forall(lambda k: imp(And(0 <= k, k < S.i), Not(less(S.m, S.data[k]))), pat=lambda k: [S.data[k]])), ("it is one of the elements so far", Or(S.data[0] == S.m, exists(lambda k: And(1 <= k, k < S.i, S.data[k] == S.m))))]
lt = lambda a, b: a < b
gt = lambda a, b: a > b
def var_of(S): n = z3.ToReal(S.N); m = s1(S, S.N) / n; return s2(S, S.N) / n - m * m
CONTRACTS += [
    Contract(TF, "mean", requires=data_ok, ensures=lambda S: [("the arithmetic mean", S.result == s1(S, S.N) / z3.ToReal(S.N))],
        loops={0: Loop(inv=lambda S: [ix(S, 0, S.N), ("sum so far", S.m == s1(S, S.i))], decreases=lambda S: S.N - S.i)}),
    Contract(TF, "stddev", requires=data_ok, ensures=lambda S: [("the square root of the mean square minus the squared mean", S.result == uf["sqrt"](If(var_of(S) > 0, var_of(S), 0)))],
        hints_exit=lambda S: [Or(uf["sqrt"](z3.RealVal(0)) == 0)],
        loops={0: Loop(inv=lambda S: [ix(S, 0, S.N), ("sum so far", S.m == s1(S, S.i)), ("sum of squares so far", S.m2 == s2(S, S.i))], decreases=lambda S: S.N - S.i)}),
    Contract(TF, "max", requires=data_ok, ensures=lambda S: ext(S, lt), loops={0: Loop(inv=lambda S: ext_inv(S, lt), decreases=lambda S: S.N - S.i)}),
    Contract(TF, "min", requires=data_ok, ensures=lambda S: ext(S, gt), loops={0: Loop(inv=lambda S: ext_inv(S, gt), decreases=lambda S: S.N - S.i)}),
]
# ---------------------------------------------------------------- factorial and binomial coefficient
import math
def fact_tab(a):
    t = z3.IntVal(math.factorial(20))
    for n in range(19, -1, -1): t = If(a == n, math.factorial(n), t)
    return t
CONTRACTS.append(Contract(TF, "fact", requires=lambda S: [("argument in range", And(0 <= S.a, S.a <= 20))], ensures=lambda S: [("the factorial", S.result == fact_tab(S.a))],
    hints_entry=lambda S: [("some argument", Or(*[S.a == n for n in range(21)]))],
    call_hints={"fact": lambda S, c: [("the recursion ends", And(0 <= c.a, c.a < S.a))], "fact/after": lambda S, c: [("one step", Or(*[And(c.a == n, c.result == math.factorial(n)) for n in range(20)]))]}))
FR = z3.Function("FactR", I, R); PAS = z3.Function("Pascal", I, I, I)     # n!, and Pascal's triangle
def fact_def(n): return And(FR(z3.IntVal(0)) == 1, imp(n >= 1, FR(n) == z3.ToReal(n) * FR(n - 1)))
def fact_pos(n): CTX_use("fact_pos"); return imp(n >= 0, FR(n) > 0)
def CTX_use(n): import spec; spec.CTX.lemmas_used.add(n)
def pascal_is(n, k): CTX_use("c19_pascal"); return imp(And(0 <= k, k <= n), z3.ToReal(PAS(n, k)) * FR(k) * FR(n - k) == FR(n))
def choose_inv(S):
    d = S.n - S.k
    return [("index", And(1 <= S.i, S.i <= S.k + 1)), ("partial product", S.accum * (FR(S.i - 1) * FR(d)) == FR(d + S.i - 1))]
CONTRACTS.append(Contract(TF, "Choose", requires=lambda S: [("arguments in range", And(0 <= S.n, 0 <= S.k, S.n < U31 - 1))],
    ensures=lambda S: [("the binomial coefficient", S.result == If(S.k > S.n, 0, z3.ToReal(PAS(S.n, S.k))))],
    loops={0: Loop(inv=choose_inv, decreases=lambda S: S.k + 1 - S.i,
        hints=lambda S: [fact_def(S.i), fact_def(S.n - S.k + S.i), fact_pos(S.i - 1), fact_pos(S.n - S.k)],
        exit_hints=lambda S: [fact_pos(S.k), fact_pos(S.n - S.k), pascal_is(S.n, S.old.k), ("whole product", S.accum * (FR(S.k) * FR(S.n - S.k)) == FR(S.n)),
            ("the same coefficient", z3.ToReal(PAS(S.n, S.old.k)) * (FR(S.k) * FR(S.n - S.k)) == FR(S.n)), ("an integer", S.accum == z3.ToReal(PAS(S.n, S.old.k)))],
        )}, hints_entry=lambda S: [fact_def(S.n)]))
# ---------------------------------------------------------------- tables
def tab_ok(S, p, n, f): return [("table", And(n >= 0, p.alloc(), p.len() >= n)), ("table values", forall(lambda i: imp(And(0 <= i, i < n), p[i] == f(i)), pat=lambda i: [p[i]]))]
def lg(i): return uf["log"](z3.ToReal(i))
def lgam(x): return lambda i: uf["lgamma"](z3.ToReal(i) + x)
def fast(name, tab, size, f):
    return Contract(TF, name, requires=lambda S: tab_ok(S, S[tab], S[size], f(S)) + [("argument", S.r >= 0)], ensures=lambda S: [("the direct value", S.result == f(S)(S.r))])
def init(name, arr, size, f, lo=0, req=()):
    return Contract(TF, name, requires=lambda S: [("size", S[size] >= (1 if lo else 0))], ensures=lambda S: tab_ok(S, S.result, S[size], f(S)) + [("a new table", And(is_new(S, S.result.o), S.result.typed()))], fresh=[H_D], allocs="grow",
        loops={0: Loop(inv=lambda S: [("index", And(lo <= S.i, S.i <= S[size])), ("table", And(S[arr].o == S.pre[arr].o, S[arr].off == S.pre[arr].off)), ("values so far", forall(lambda i: imp(And(0 <= i, i < S.i), S[arr][i] == f(S)(i)), pat=lambda i: [S[arr][i]]))], decreases=lambda S: S[size] - S.i)})
def rel(name, arr): return Contract(TF, name, requires=lambda S: [("a live table", Or(S[arr] == 0, S[arr].alloc()))], ensures=lambda S: [("exactly the table is released", forall(lambda o: live(S, o) == And(live(S.old, o), o != S[arr].o), pat=lambda o: [live(S, o)]))], allocs="free")
def chtab(S, m, n): return mat_ok(S, m, n, n) + [("entries are empty or right", forall(lambda i, j: imp(And(0 <= i, i < n, 0 <= j, j <= i), Or(m[i][j] < 0, m[i][j] == c_lnchoose(i, j))), pat=lambda i, j: [m[i][j]]))]
CONTRACTS += [
    fast("FastLog", "LogList", "LogListSize", lambda S: lg), fast("FastLogFact", "LogFactList", "LogFactListSize", lambda S: c_lnfact), fast("FastLogGamma", "LogGammaList", "LogGammaListSize", lambda S: lgam(S.x)),
    init("InitializeFastLog", "LogList", "LogListSize", lambda S: lg), init("InitializeFastLogFact", "LogFactList", "LogFactListSize", lambda S: c_lnfact), init("InitializeFastLogGamma", "LogGammaList", "LogGammaListSize", lambda S: lgam(S.x)),
    init("InitializeHarmonicList", "HarmonicList", "HarmonicListSize", lambda S: (lambda i: SumR(1, i + 1, lambda k: 1 / z3.ToReal(k))), lo=1),
    rel("FreeFastLog", "LogList"), rel("FreeFastLogFact", "LogFactList"), rel("FreeFastLogGamma", "LogGammaList"), rel("FreeHarmonicList", "HarmonicList"),
    Contract(TF, "LogChoose", requires=lambda S: [("arguments", And(0 <= S.b, S.b <= S.a))], ensures=lambda S: [("the direct value", S.result == c_lnchoose(S.a, S.b))]),
    Contract(TF, "InitializeFastLogChoose", requires=lambda S: [("size", S.LogChooseListSize >= 0)],
        ensures=lambda S: chtab(S, S.result, S.LogChooseListSize) + mat_ok(S, S.result, S.LogChooseListSize, S.LogChooseListSize, True)[1:2] + [("a new table", is_new(S, S.result.o))], fresh=[H_D, H_PD], allocs="grow",
        loops={0: Loop(inv=lambda S: [("index", And(0 <= S.i, S.i <= S.LogChooseListSize)), ("rows so far are empty", forall(lambda a, b: imp(And(0 <= a, a < S.i, 0 <= b, b < S.LogChooseListSize), S.LogChooseList[a][b] < 0), pat=lambda a, b: [S.LogChooseList[a][b]])),
                       ("only new blocks", forall(lambda o: imp(live(S.old, o), S.f(H_D, o) == S.old.f(H_D, o)), pat=lambda o: [S.f(H_D, o)]))], decreases=lambda S: S.LogChooseListSize - S.i),
               1: Loop(inv=lambda S: [("index", And(0 <= S.j, S.j <= S.LogChooseListSize)), ("entries so far are empty", forall(lambda b: imp(And(0 <= b, b < S.j), S.LogChooseList[S.i][b] < 0), pat=lambda b: [S.LogChooseList[S.i][b]])),
                       ("other rows", forall(lambda o: imp(o != S.LogChooseList[S.i].o, S.f(H_D, o) == S.pre.f(H_D, o)), pat=lambda o: [S.f(H_D, o)]))], decreases=lambda S: S.LogChooseListSize - S.j)}),
    Contract(TF, "FreeFastLogChoose", requires=lambda S: [("rows in range", 0 <= S.LogChooseListSize)] + mat_ok(S, S.LogChooseList, S.LogChooseListSize, 0),
        ensures=lambda S: [("rows and table are released", And(Not(live(S, S.LogChooseList.o)), forall(lambda i: imp(And(0 <= i, i < S.LogChooseListSize), Not(live(S, S.LogChooseList[i].o))), pat=lambda i: [S.LogChooseList[i].o])))], allocs="free"),
    Contract(TF, "FastLogChoose", requires=lambda S: chtab(S, S.LogChooseList, S.LogChooseListSize) + [("arguments", And(0 <= S.l, S.l <= S.r))],
        ensures=lambda S: [("the direct value", S.result == c_lnchoose(S.r, S.l))] + chtab(S, S.bind(S.LogChooseList), S.LogChooseListSize) +
            [("only this table changes", forall(lambda o: imp(S.f(H_D, o) != S.old.f(H_D, o), And(S.r < S.LogChooseListSize, o == S.LogChooseList[S.r].o)), pat=lambda o: [S.f(H_D, o)]))], modifies=[H_D]),
]
# ---------------------------------------------------------------- lemmas
def lem_choose():
    import lemma
    P = lemma.Proof("fact_pos"); n = z3.Int("n"); F = FR
    P.given(F(z3.IntVal(0)) == 1)
    P.induct("positive", lambda m: F(m) > 0, z3.IntVal(0), n, hints=lambda m: [F(m + 1) == z3.ToReal(m + 1) * F(m)])
    out = P.steps
    # Pascal's triangle counts n!/(k!(n-k)!): induction on n, for every k
    P = lemma.Proof("c19_pascal"); n, k = z3.Ints("n k")
    good = lambda n, k: imp(And(0 <= k, k <= n), z3.ToReal(PAS(n, k)) * F(k) * F(n - k) == F(n))
    P.given(F(z3.IntVal(0)) == 1)
    P.have("base", good(z3.IntVal(0), k), [PAS(z3.IntVal(0), z3.IntVal(0)) == 1], keep=False)
    edge = [PAS(n, z3.IntVal(0)) == 1, PAS(n, n) == 1]
    P.have("edges", And(imp(n >= 0, good(n, z3.IntVal(0))), imp(n >= 0, good(n, n))), edge, keep=False)
    a, b, fk, fk1, fnk, fnk1, fn, fn1, x, y = z3.Reals("a b fk fk1 fnk fnk1 fn fn1 x y")
    # a = Pas(n-1,k-1), b = Pas(n-1,k); fk = k!, fk1 = (k-1)!, fnk = (n-k)!, fnk1 = (n-1-k)!, fn = n!, fn1 = (n-1)!, x = k, y = n-k
    hyp = [a * fk1 * fnk == fn1, b * fk * fnk1 == fn1, fk == x * fk1, fnk == y * fnk1, fn == (x + y) * fn1]
    P.have("first part", a * fk * fnk == x * fn1, [a * fk1 * fnk == fn1, fk == x * fk1], keep=False)
    P.have("second part", b * fk * fnk == y * fn1, [b * fk * fnk1 == fn1, fnk == y * fnk1], keep=False)
    P.have("inner entries", (a + b) * fk * fnk == fn, [a * fk * fnk == x * fn1, b * fk * fnk == y * fn1, fn == (x + y) * fn1], keep=False)
    return out + P.steps
LEMMAS = {"C19": [lem_choose]}
PROPS = {"C18": ["allocate_d_vec", "allocate_d_mat", "free_d_vec", "free_d_mat", "FastLog", "FastLogFact", "FastLogGamma", "InitializeFastLog", "InitializeFastLogFact", "InitializeFastLogGamma", "FreeFastLog", "FreeFastLogFact", "FreeFastLogGamma", "LogChoose", "InitializeFastLogChoose", "FreeFastLogChoose", "FastLogChoose", "InitializeHarmonicList", "FreeHarmonicList"],
         "C19": ["mean", "stddev", "max", "min", "fact", "Choose"]}
