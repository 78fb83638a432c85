"""C04: from the gain formulas in the contracts to the difference of the defined modularity."""
import z3
from spec import *
from lemma import Proof, unfold_all
import partition_c as pc

F = lambda n, *s: z3.Function(n, *s)
def setting():
    d = dict(idx=F("m_idx", I, I), nbr=F("m_nbr", I, I), w=F("m_w", I, R), g=F("m_g", I, I), s=F("m_s", I, R), N=z3.Int("m_N"), n=z3.Int("m_n"), H=z3.Int("m_H"), G=z3.Int("m_G"))
    return d
def same(g, B, N):
    """the defined modularity: ordered pairs of different nodes in one group"""
    return SumR(0, N, lambda i: SumR(0, N, lambda j: If(And(i != j, g(i) == g(j)), B(i, j), 0)))
def network(P, d):
    idx, nbr, w, N, s = d["idx"], d["nbr"], d["w"], d["N"], d["s"]
    A = lambda i, j: SumR(idx(i), idx(i + 1), lambda k: If(nbr(k) == j, w(k), 0))
    B = z3.Function("m_B", I, I, R); AA = z3.Function("m_A", I, I, R)
    P.given(N >= 0,
        forall(lambda i: imp(And(0 <= i, i < N), And(idx(i) <= idx(i + 1))), pat=lambda i: [idx(i)]),
        forall(lambda i, k: imp(And(0 <= i, i < N, idx(i) <= k, k < idx(i + 1)), And(0 <= nbr(k), nbr(k) < N)), pat=lambda i, k: [(idx(i), nbr(k))]),
        forall(lambda i, j: AA(i, j) == A(i, j), pat=lambda i, j: [AA(i, j)]),              # definition of the weight of a pair
        forall(lambda i, j: imp(And(0 <= i, i < N, 0 <= j, j < N), AA(i, j) == AA(j, i)), pat=lambda i, j: [AA(i, j)]),     # undirected network
        forall(lambda i, j: B(i, j) == AA(i, j) - s(i) * s(j), pat=lambda i, j: [B(i, j)]))
    return A, AA, B
def by_group(P, d, what, i, c):
    """sum over the links of node i of c(neighbour) * weight == sum over nodes of c(node) * weight of the pair"""
    idx, nbr, w, N = d["idx"], d["nbr"], d["w"], d["N"]
    row = lambda j, h: SumR(idx(i), h, lambda k: If(nbr(k) == j, w(k), 0))
    return P.induct(what, lambda h: SumR(idx(i), h, lambda k: c(nbr(k), w(k))) == SumR(0, N, lambda j: c(j, row(j, h))), idx(i), idx(i + 1),
        hints=lambda h: [unfold_all(lambda j: row(j, h + 1)), probe(nbr(h)), 0 <= i, i < N, nbr(h) >= 0, nbr(h) < N], use=[])

def c04_move():
    P = Proof("moving a node"); d = setting()
    idx, nbr, w, g, s, N, n, H, G = (d[k] for k in "idx nbr w g s N n H G".split())
    A, AA, B = network(P, d)
    P.given(0 <= n, n < N, g(n) == G, G != H, AA(n, n) == 0)
    g2 = lambda x: If(x == n, H, g(x))
    by = lambda j, x: If(g(j) == G, -x, If(g(j) == H, x, 0))
    T = SumR(0, N, lambda j: If(j == n, 0, by(j, B(n, j))))
    r1 = lambda i: SumR(0, N, lambda j: If(And(i != j, g(i) == g(j)), B(i, j), 0))
    r2 = lambda i: SumR(0, N, lambda j: If(And(i != j, g2(i) == g2(j)), B(i, j), 0))
    base = list(P.assm)
    P.gen("other rows change at the moved node only", lambda i: imp(And(0 <= i, i < N, i != n), r2(i) - r1(i) == by(i, B(i, n))), hints=lambda i: [probe(n)], pat=lambda i: [r2(i)])
    P.have("row of the moved node", r2(n) - r1(n) == T, hints=[sum_add(T, r2(n), r1(n), 1, -1)], use=[])
    D = SumR(0, N, lambda i: If(i == n, T, by(i, B(i, n))))
    Q1, Q2 = same(g, B, N), same(g2, B, N)
    P.have("rows add up", Q2 == Q1 + D, hints=[sum_add(Q2, Q1, D)], use=["other rows", "row of the moved"])
    T2 = SumR(0, N, lambda i: If(i == n, 0, by(i, B(i, n))))
    P.have("column equals row", T2 == T, use=[])
    P.have("row and column", D == T + T2, hints=[probe(n)], use=[])
    P.have("change is twice the row", Q2 - Q1 == 2 * T, use=["rows add", "column equals", "row and column"])
    # the row in terms of links and strengths
    TA = SumR(0, N, lambda j: by(j, AA(n, j)))
    U = SumR(0, N, lambda j: by(j, s(j))); V = SumR(0, N, lambda j: If(j == n, 0, by(j, s(j)))); SV = SumR(0, N, lambda j: If(j == n, 0, by(j, s(n) * s(j))))
    P.have("links and strengths", T == TA - SV, hints=[sum_add(T, TA, SV, 1, -1)], use=[])
    P.have("own strength", U == V - s(n), hints=[probe(n)], use=[])
    P.have("factor", SV == s(n) * V, hints=[sum_scale(SV, V, s(n))], use=[])
    SG = SumR(0, N, lambda i: If(g(i) == G, s(i), 0)); SH = SumR(0, N, lambda i: If(g(i) == H, s(i), 0))
    P.have("strengths of the two groups", U == SH - SG, hints=[sum_add(U, SH, SG, 1, -1)], use=[])
    by_group(P, d, "links by group", n, by)
    row = lambda j: SumR(idx(n), idx(n + 1), lambda k: If(nbr(k) == j, w(k), 0))
    P.have("links by pair", SumR(0, N, lambda j: by(j, row(j))) == TA, use=[])
    P.have("row range", idx(n) <= idx(n + 1), use=[])
    P.have("strength part", SV == s(n) * (SH - SG + s(n)), use=["-", "own", "factor", "strengths of"])
    P.have("the gain formula is the change of the defined modularity",
        Q2 - Q1 == pc.move_gain(lambda i: idx(i), nbr, w, g, s, n, G, H, SG, SH), use=["-", "change is", "links and", "row range", "strength part", "links by group", "links by pair"])
    return P.steps
def c04_merge():
    P = Proof("merging two groups"); d = setting()
    idx, nbr, w, g, s, N = (d[k] for k in "idx nbr w g s N".split()); a, b = z3.Ints("m_a m_b")
    A, AA, B = network(P, d)
    P.given(a != b)
    g2 = lambda x: If(g(x) == a, b, g(x))
    r1 = lambda i: SumR(0, N, lambda j: If(And(i != j, g(i) == g(j)), B(i, j), 0))
    r2 = lambda i: SumR(0, N, lambda j: If(And(i != j, g2(i) == g2(j)), B(i, j), 0))
    across = lambda i, j: Or(And(g(i) == a, g(j) == b), And(g(i) == b, g(j) == a))
    X = lambda i: SumR(0, N, lambda j: If(across(i, j), B(i, j), 0))
    P.gen("each row gains the pairs across", lambda i: imp(And(0 <= i, i < N), r2(i) == r1(i) + X(i)), hints=lambda i: [sum_add(r2(i), r1(i), X(i))], pat=lambda i: [r2(i)], use=[])
    Q1, Q2 = same(g, B, N), same(g2, B, N); SX = SumR(0, N, lambda i: X(i))
    P.have("rows add up", Q2 == Q1 + SX, hints=[sum_add(Q2, Q1, SX)], use=["each row"])
    ab = lambda i, j: If(And(g(i) == a, g(j) == b), B(i, j), 0)
    ba = lambda i, j: If(And(g(i) == b, g(j) == a), B(i, j), 0)
    Rab = lambda i: SumR(0, N, lambda j: ab(i, j)); Rba = lambda i: SumR(0, N, lambda j: ba(i, j))
    P.gen("two directions in a row", lambda i: imp(And(0 <= i, i < N), X(i) == Rab(i) + Rba(i)), hints=lambda i: [sum_add(X(i), Rab(i), Rba(i))], pat=lambda i: [X(i)], use=[])
    Sab = SumR(0, N, lambda i: Rab(i)); Sba = SumR(0, N, lambda i: Rba(i))
    P.have("two directions", SX == Sab + Sba, hints=[sum_add(SX, Sab, Sba)], use=["two directions in"])
    P.fubini("exchange the order", ba, N, N, use=[])
    Cba = lambda j: SumR(0, N, lambda i: ba(i, j))
    P.gen("symmetric", lambda i: imp(And(0 <= i, i < N), Cba(i) == Rab(i)), pat=lambda i: [Cba(i)], use=[])
    P.have("symmetric sum", SumR(0, N, lambda j: Cba(j)) == Sab, use=["symmetric"])
    P.have("both directions agree", Sba == Sab, use=["-", "exchange", "symmetric sum"], hints=[N >= 0])
    P.have("change is twice one direction", Q2 - Q1 == 2 * Sab, use=["-", "rows add", "two directions", "both"])
    # one direction in terms of links and strengths
    Lb = lambda i: SumR(idx(i), idx(i + 1), lambda k: If(g(nbr(k)) == b, w(k), 0))
    c = lambda x, v: If(g(x) == b, v, 0)
    row = lambda i, j: SumR(idx(i), idx(i + 1), lambda k: If(nbr(k) == j, w(k), 0))
    RA = lambda i: SumR(0, N, lambda j: c(j, AA(i, j)))
    Sb = SumR(0, N, lambda j: If(g(j) == b, s(j), 0)); Sa = SumR(0, N, lambda j: If(g(j) == a, s(j), 0))
    i0 = z3.Int("m_i0"); given0 = list(P.assm)
    P.given(0 <= i0, i0 < N)
    by_group(P, d, "links by group", i0, c)
    P.have("links by pair", SumR(0, N, lambda j: c(j, row(i0, j))) == RA(i0), use=[])
    P.have("row range", idx(i0) <= idx(i0 + 1), use=[])
    P.have("links of one node", Lb(i0) == RA(i0), use=["-", "links by group", "links by pair", "row range"])
    RS = lambda i: SumR(0, N, lambda j: c(j, s(i) * s(j)))
    P.have("strengths of one node", RS(i0) == s(i0) * Sb, hints=[sum_scale(RS(i0), Sb, s(i0))], use=["-"])
    P.have("links minus strengths", imp(g(i0) == a, Rab(i0) == RA(i0) - RS(i0)), hints=[sum_add(Rab(i0), RA(i0), RS(i0), 1, -1)], use=[])
    P.have("not in the first group", imp(g(i0) != a, Rab(i0) == 0), use=["-"])
    P.have("row in links and strengths", Rab(i0) == If(g(i0) == a, Lb(i0) - s(i0) * Sb, 0), use=["-", "links of one", "strengths of one", "links minus", "not in"])
    row_f = lambda i: Rab(i) == If(g(i) == a, Lb(i) - s(i) * Sb, 0)
    P.assm = given0
    P.proved = [x for x in P.proved if x[0] in ("change is twice one direction",)] + [("rows", forall(lambda i: imp(And(0 <= i, i < N), row_f(i)), pat=lambda i: [Rab(i)]))]   # i0 was arbitrary
    bet = SumR(0, N, lambda i: If(g(i) == a, Lb(i), 0)); SS = SumR(0, N, lambda i: If(g(i) == a, s(i) * Sb, 0))
    P.have("sum of rows", Sab == bet - SS, hints=[sum_add(Sab, bet, SS, 1, -1)], use=["-", "rows"])
    P.have("strength factor", SS == Sb * Sa, hints=[sum_scale(SS, Sa, Sb)], use=["-"])
    P.have("the gain formula is the change of the defined modularity", Q2 - Q1 == 2 * (bet - Sa * Sb), use=["-", "change is", "sum of rows", "strength factor"])
    return P.steps
def c05_pairs():
    """pairs visited in list order, doubled, are all ordered pairs of different members"""
    P = Proof("ordered pairs"); N = z3.Int("m_N"); g, o = F("m_g", I, I), F("m_o", I, I); B = F("m_B", I, I, R)
    P.given(N >= 0, forall(lambda i, j: imp(And(0 <= i, i < N, 0 <= j, j < N), B(i, j) == B(j, i)), pat=lambda i, j: [B(i, j)]),
        forall(lambda i, j: imp(And(0 <= i, i < N, 0 <= j, j < N, i != j, g(i) == g(j)), o(i) != o(j)), pat=lambda i, j: [(o(i), o(j))]))
    lt = lambda i, j: If(And(g(i) == g(j), o(i) < o(j)), B(i, j), 0)
    gt = lambda i, j: If(And(g(i) == g(j), o(j) < o(i)), B(i, j), 0)
    Rl = lambda i: SumR(0, N, lambda j: lt(i, j)); Rg = lambda i: SumR(0, N, lambda j: gt(i, j)); Rq = lambda i: SumR(0, N, lambda j: If(And(i != j, g(i) == g(j)), B(i, j), 0))
    Sl = SumR(0, N, lambda i: Rl(i)); Sg = SumR(0, N, lambda i: Rg(i)); Q = same(g, B, N)
    P.gen("a row", lambda i: imp(And(0 <= i, i < N), Rq(i) == Rl(i) + Rg(i)), hints=lambda i: [sum_add(Rq(i), Rl(i), Rg(i))], pat=lambda i: [Rq(i)], use=[])
    P.have("rows", Q == Sl + Sg, hints=[sum_add(Q, Sl, Sg)], use=["a row"])
    P.fubini("exchange the order", gt, N, N, use=[])
    Cg = lambda j: SumR(0, N, lambda i: gt(i, j))
    P.gen("symmetric", lambda i: imp(And(0 <= i, i < N), Cg(i) == Rl(i)), pat=lambda i: [Cg(i)], use=[])
    P.have("symmetric sum", SumR(0, N, lambda j: Cg(j)) == Sl, use=["symmetric"])
    P.have("every unordered pair counts twice", Q == 2 * Sl, hints=[N >= 0], use=["-", "rows", "exchange", "symmetric sum"])
    R2 = lambda i: SumR(0, N, lambda j: If(And(g(i) == g(j), o(i) < o(j)), 2 * B(i, j), 0)); S2 = SumR(0, N, lambda i: R2(i))
    P.gen("doubled row", lambda i: R2(i) == 2 * Rl(i), hints=lambda i: [sum_scale(R2(i), Rl(i), 2)], pat=lambda i: [R2(i)], use=["-"])
    P.have("doubled rows", S2 == 2 * Sl, hints=[sum_scale(S2, Sl, 2)], use=["-", "doubled row"])
    P.have("the value returned is the defined modularity", S2 == Q, use=["-", "every", "doubled rows"])
    return P.steps
LEMMAS = {"C04": [c04_move, c04_merge], "C05": [c05_pairs]}
