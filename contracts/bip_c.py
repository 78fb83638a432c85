"""Two-mode networks (src/bipartite.c): two networks whose links lead into each other"""
import z3
from vc import Contract, Loop
from spec import *
from partition2_c import live, is_new
from graph_c import *
from modules_c import *
from tools_c import mat_ok
BF = "src/bipartite.c"
C = []
def ToR(x): return z3.ToReal(x)
def b(S, f, x): return S.f("binet." + f, x)
C.append(Contract(BF, "CreateBipart", ensures=lambda S: [("a new pair without networks", And(is_new(S, S.result.o), S.result.alloc(), S.result.net1.o == 0, S.result.net2.o == 0)), ("nothing else is allocated", forall(lambda o: imp(o != S.result.o, live(S, o) == live(S.old, o)), pat=lambda o: [live(S, o)]))],
    fresh=["binet.net1", "binet.net2"], allocs="grow"))
C.append(Contract(BF, "InvertBipart", requires=lambda S: [("a pair", S.net.alloc())], modifies=["binet.net1", "binet.net2"],
    ensures=lambda S: [("the same pair, its networks exchanged", And(S.result.o == S.net.o, b(S, "net1", S.net.o) == b(S.old, "net2", S.net.o), b(S, "net2", S.net.o) == b(S.old, "net1", S.net.o))),
        ("other pairs stay", And(same(S, "binet.net1", lambda o: o != S.net.o), same(S, "binet.net2", lambda o: o != S.net.o)))]))
# ---------------------------------------------------------------- common links
def shared(S, x, y, k): return lk(S, y, ref(S, nb(S, x, k))) != 0
def nshared(S, x, y, hi): return SumI(1, hi, lambda k: If(shared(S, x, y, k), 1, 0))
def wterm(S): return lambda x, y, k: If(shared(S, x, y, k), W(S, x, k) * W(S, y, lk(S, y, ref(S, nb(S, x, k)))), z3.RealVal(0))
def wshared(S, x, y, hi): return SumR(1, hi, lambda k: opaque(wterm(S), x, y, k))
def reached(S, y, e, hi): return And(lk(S, y, e) != 0, lk(S, y, e) <= hi)
C.append(Contract(BF, "NCommonLinksBipart", requires=lambda S: base(S) + [nodes(S, S.n1, S.n2)],
    ensures=lambda S: [("the number of nodes both are linked to", S.result == nshared(S, S.n1.o, S.n2.o, deg(S, S.n1.o) + 1)), ("in range", And(0 <= S.result, S.result <= deg(S, S.n1.o)))],
    loops={0: Loop(inv=lambda S: [("place", own(S, S.l1.o) == S.n1.o), ("counted so far", S.ncom == nshared(S, S.n1.o, S.n2.o, pos(S, S.l1.o) + 1)), ("in range", And(0 <= S.ncom, S.ncom <= pos(S, S.l1.o)))], decreases=lambda S: deg(S, S.n1.o) - pos(S, S.l1.o)),
           1: Loop(inv=lambda S: [("place", own(S, S.l2.o) == S.n2.o), ("counted so far", S.ncom == S.pre.ncom + If(reached(S, S.n2.o, ref(S, S.l1.o), pos(S, S.l2.o)), 1, 0))], decreases=lambda S: deg(S, S.n2.o) - pos(S, S.l2.o))}))
C.append(Contract(BF, "SumProductsOfCommonWeightsBipart", requires=lambda S: base(S) + [nodes(S, S.n1, S.n2)],
    ensures=lambda S: [("the sum over the nodes both are linked to of the product of the two weights", S.result == wshared(S, S.n1.o, S.n2.o, deg(S, S.n1.o) + 1))],
    loops={0: Loop(inv=lambda S: [("place", own(S, S.l1.o) == S.n1.o), ("summed so far", S.sww == wshared(S, S.n1.o, S.n2.o, pos(S, S.l1.o) + 1))], decreases=lambda S: deg(S, S.n1.o) - pos(S, S.l1.o), hints_end=lambda S: [reveal(wterm(S), S.n1.o, S.n2.o, pos(S, S.l1.o))]),
           1: Loop(inv=lambda S: [("place", own(S, S.l2.o) == S.n2.o), ("summed so far", S.sww == S.pre.sww + If(reached(S, S.n2.o, ref(S, S.l1.o), pos(S, S.l2.o)), S.w_ia * W(S, S.n2.o, lk(S, S.n2.o, ref(S, S.l1.o))), z3.RealVal(0)))], decreases=lambda S: deg(S, S.n2.o) - pos(S, S.l2.o))}))
def pair(S, p): return ("a pair of networks", And(p.alloc(), ishead(S, p.net1.o), ishead(S, p.net2.o)))
C.append(Contract(BF, "NLinksBipart", requires=lambda S: nets(S) + caches(S) + [pair(S, S.binet), few(S, S.binet.net1.o)], modifies=["node_gra.degree"],
    ensures=lambda S: [("each link is counted once, at its end in the first network", S.result == links(S, S.binet.net1.o, cnt(S, S.binet.net1.o) + 1)), ("not negative", S.result >= 0)] + caches(S),
    loops={0: Loop(inv=lambda S: [("place", net(S, S.p.o) == S.binet.net1.o), ("links so far", S.nlink == links(S, S.binet.net1.o, ix(S, S.p.o) + 1)), ("not negative", S.nlink >= 0)] + caches(S),
        hints=lambda S: (lambda h, k: [sum_split(links(S, h, cnt(S, h) + 1), k + 2), sum_ge0(SumI(k + 2, cnt(S, h) + 1, lambda j: deg(S, at(S, h, j)))),
            ("this node's share", imp(k < cnt(S, h), And(links(S, h, k + 2) < U31, links(S, h, k + 2) == S.nlink + deg(S, at(S, h, k + 1))))), ("sum-free", imp(k < cnt(S, h), S.nlink + deg(S, at(S, h, k + 1)) < U31))])(S.binet.net1.o, ix(S, S.p.o)),
        decreases=lambda S: cnt(S, S.binet.net1.o) - ix(S, S.p.o))}))
# ---------------------------------------------------------------- modularity
def size1(S, h, hi): return SumR(1, hi, lambda k: ToR(deg(S, at(S, h, k))))
def sqd(S, h): return lambda k: ToR(deg(S, at(S, h, k))) * ToR(deg(S, at(S, h, k)))
def size2(S, h, hi): return SumR(1, hi, lambda k: opaque(sqd(S, h), k))
def hardall(S, h): return ("members point at their nodes", forall(lambda c: imp(And(member(S, c), part(S, gown(S, c)) == h), ref(S, c) != 0), pat=lambda c: [ref(S, c)]))
def st1(S, h): return lambda k: wsum(S, at(S, h, k))
def st2(S, h): return lambda k: wsum(S, at(S, h, k)) * wsum(S, at(S, h, k))
def strg1(S, h, hi): return SumR(1, hi, lambda k: opaque(st1(S, h), k))
def strg2(S, h, hi): return SumR(1, hi, lambda k: opaque(st2(S, h), k))
def levels(S, term, of=None):
    """S: entry state; term(x, y): share of a pair of nodes"""
    h = S.part.o
    of = of or ref; pv = lambda k, i, j: opaque(term, of(S, mem(S, gat(S, h, k), i)), of(S, mem(S, gat(S, h, k), j)))
    row_to = lambda k, i, hi: SumR(i + 1, hi, lambda j: opaque(pv, k, i, j))
    row = lambda k, i: row_to(k, i, sz(S, gat(S, h, k)) + 1)
    grp_to = lambda k, hi: SumR(1, hi, lambda i: opaque(row, k, i))
    grp_ = lambda k: grp_to(k, sz(S, gat(S, h, k)) + 1)
    all_to = lambda hi: SumR(1, hi, lambda k: opaque(grp_, k))
    return pv, row_to, row, grp_to, grp_, all_to
def pairloops(L, K, inv1, inv2, inv3, rec, n=1):
    """loops over groups, members and later members"""
    I2, I3 = "I%d" % (n + 1), "I%d" % (n + 2)
    return {
            n: Loop(inv=inv1, decreases=lambda S: gcnt(S, S.old.part.o) - gix(S, S.part.o), hints=lambda S: [reveal(L(S)[3], K(S) + 1, 1), ("nothing yet", opaque(L(S)[3], K(S) + 1, 1) == 0)],
                hints_end=lambda S: [reveal(L(S)[4], K(S)), reveal(L(S)[3], K(S), sz(S, S.part.o) + 1), ("the group's part", opaque(L(S)[4], K(S)) == opaque(L(S)[3], K(S), sz(S, S.part.o) + 1))]),
            n + 1: Loop(inv=inv2, decreases=lambda S: sz(S, S.part.o) - gpos(S, S.n1.o), hints=lambda S: (lambda k, i: [reveal(L(S)[3], k, i + 1), reveal(L(S)[3], k, i + 2), ("one more member", imp(i >= 0, opaque(L(S)[3], k, i + 2) == opaque(L(S)[3], k, i + 1) + opaque(L(S)[2], k, i + 1))), reveal(L(S)[1], k, i + 1, i + 2), ("nothing yet", opaque(L(S)[1], k, i + 1, i + 2) == 0)])(K(S), gpos(S, S.n1.o)),
                hints_end=lambda S: (lambda k, i: [reveal(L(S)[2], k, i), reveal(L(S)[1], k, i, sz(S, S.part.o) + 1), ("all its pairs", S.bimod == getattr(S, I2).bimod + opaque(L(S)[1], k, i, sz(S, S.part.o) + 1)), ("next place", i == gpos(S, getattr(S, I2).n1.o) + 1), ("the member's part", opaque(L(S)[2], k, i) == opaque(L(S)[1], k, i, sz(S, S.part.o) + 1))])(K(S), gpos(S, S.n1.o))),
            n + 2: Loop(inv=inv3, decreases=lambda S: sz(S, S.part.o) - gpos(S, S.n2.o), hints=lambda S: (lambda k, i, j: [reveal(L(S)[1], k, i, j + 1), reveal(L(S)[1], k, i, j + 2), ("one more pair", imp(j >= i, opaque(L(S)[1], k, i, j + 2) == opaque(L(S)[1], k, i, j + 1) + opaque(L(S)[0], k, i, j + 1)))])(K(S), gpos(S, S.n1.o), gpos(S, S.n2.o)),
                hints_end=lambda S: (lambda k, i, j: rec(S, k, i, j) + [reveal(L(S)[0], k, i, j), ("this pair", S.bimod == getattr(S, I3).bimod + opaque(L(S)[0], k, i, j))])(K(S), gpos(S, S.n1.o), gpos(S, S.n2.o)))}
BS = z3.Function("BiShare", R, R, R, R, R, R)     # a pair's share: a/d - b*c/e
def bs_def(a, d, b_, c, e): return BS(a, d, b_, c, e) == a / d - b_ * c / e
def bimod(name, s1, s2, term, v1, v2, vv, sq, mod, extra, req, val, opts={}):
    h2 = lambda S: S.binet.net2.o; A1 = lambda T: s1(T, h2(T), cnt(T, h2(T)) + 1); A2 = lambda T: s2(T, h2(T), cnt(T, h2(T)) + 1)
    def L(S): T = S.old; return levels(T, term(T, A1(T), A2(T)))
    K = lambda S: gix(S, S.part.o)
    def pairs(S, i, j, k, a1, a2):
        T = S.old; x, y = ref(T, S.n1.o), ref(T, S.n2.o); u = val(S); w = val(T, x, y)
        return [("the records", And(mem(T, gat(T, T.part.o, k), i) == S.n1.o, mem(T, gat(T, T.part.o, k), j) == S.n2.o)), ("the values", And(*[a == b_ for a, b_ in zip(u, w)])), ("the divisors", And(S[v2] - S[v1] == a2 - a1, S[vv] == a1 * a1)),
            bs_def(u[0], S[v2] - S[v1], u[1], u[2], S[vv]), ("the summand", S.bimod == S.I3.bimod + BS(u[0], S[v2] - S[v1], u[1], u[2], S[vv])), reveal(term(T, a1, a2), x, y), ("the summand in terms of the nodes", S.bimod == S.I3.bimod + opaque(term(T, a1, a2), x, y))]
    ok = lambda S: [("divisors", And(S[v2] - S[v1] != 0, S[vv] != 0)), ("total", S[v1] == A1(S.old)), ("total of squares", S[v2] == A2(S.old)), ("squared total", S[vv] == S[v1] * S[v1])] + extra(S)
    def inv1(S): return [("place", part(S, S.part.o) == S.old.part.o), ("summed so far", S.bimod == L(S)[5](gix(S, S.part.o) + 1))] + ok(S)
    def inv2(S): return [("place", And(gown(S, S.n1.o) == S.part.o)), ("summed so far", S.bimod == S.pre.bimod + opaque(L(S)[3], K(S), gpos(S, S.n1.o) + 1))] + ok(S)
    def inv3(S): return [("place", And(gown(S, S.n2.o) == S.part.o, gpos(S, S.n2.o) >= gpos(S, S.n1.o))), ("summed so far", S.bimod == S.pre.bimod + opaque(L(S)[1], K(S), gpos(S, S.n1.o), gpos(S, S.n2.o) + 1))] + ok(S)
    return Contract(BF, name, requires=lambda S: okpart(S) + [pair(S, S.binet), phead(S, S.part), hardall(S, S.part.o), ("teams of several", And(A1(S) != 0, A2(S) != A1(S)))] + req(S),
        opts=opts, modifies=mod,
        ensures=lambda S: [("twice the sum over pairs of group members of their shared links less the expected number", S.result == 2 * L(S)[5](gcnt(S, S.old.part.o) + 1))] + extra(S),
        loops={0: Loop(inv=lambda S: [("place", net(S, S.p.o) == h2(S)), ("sizes so far", S[v1] == s1(S.old, h2(S), ix(S, S.p.o) + 1)), ("squares so far", S[v2] == s2(S.old, h2(S), ix(S, S.p.o) + 1))] + extra(S), decreases=lambda S: cnt(S, h2(S)) - ix(S, S.p.o),
                hints_end=lambda S: [reveal(f(S.old, h2(S)), ix(S, S.p.o)) for f in sq], exit_hints=lambda S: [("divisors", And(S[v2] - S[v1] != 0, S[v1] != 0))]),
            **pairloops(L, K, inv1, inv2, inv3, lambda S, k, i, j: pairs(S, i, j, k, A1(S.old), A2(S.old)))})
def dterm(T, s, q_): return lambda x, y: BS(ToR(nshared(T, x, y, deg(T, x) + 1)), q_ - s, ToR(deg(T, x)), ToR(deg(T, y)), s * s)
def wdterm(T, s, q_): return lambda x, y: BS(wshared(T, x, y, deg(T, x) + 1), q_ - s, wsum(T, x), wsum(T, y), s * s)
def dval(S, x=None, y=None): return (ToR(S.c12), ToR(S.t1), ToR(S.t2)) if x is None else (ToR(nshared(S, x, y, deg(S, x) + 1)), ToR(deg(S, x)), ToR(deg(S, y)))
def wdval(S, x=None, y=None): return (S.sww12, S.s1, S.s2) if x is None else (wshared(S, x, y, deg(S, x) + 1), wsum(S, x), wsum(S, y))
C.append(bimod("ModularityBipart", size1, size2, dterm, "sms", "sms2", "s2ms", [sqd], ["node_gra.degree"], caches, lambda S: [], dval))
def allcached(S): return [("cached strengths", forall(lambda x: imp(isnode(S, x), strength_cached(S, x)), pat=lambda x: [g(S, "strength", x)]))]
C.append(bimod("ModularityBipartWeighted", strg1, strg2, wdterm, "sWa", "sWa2", "s2Wa", [st1, st2], ["node_gra.strength"], allcached, allcached, wdval))
def fast():
    term = lambda T: (lambda a, c: T.swwmat[a][c])
    num = lambda S, c: l(S, "node", c)
    def L(S): T = S.old; return levels(T, term(T), num)
    K = lambda S: gix(S, S.part.o)
    def inv1(S): return [("place", part(S, S.part.o) == S.old.part.o), ("summed so far", S.bimod == L(S)[5](gix(S, S.part.o) + 1))]
    def inv2(S): return [("place", And(gown(S, S.n1.o) == S.part.o)), ("summed so far", S.bimod == S.pre.bimod + opaque(L(S)[3], K(S), gpos(S, S.n1.o) + 1))]
    def inv3(S): return [("place", And(gown(S, S.n2.o) == S.part.o, gpos(S, S.n2.o) >= gpos(S, S.n1.o))), ("summed so far", S.bimod == S.pre.bimod + opaque(L(S)[1], K(S), gpos(S, S.n1.o), gpos(S, S.n2.o) + 1))]
    def rec(S, k, i, j): T = S.old; return [("the records", And(mem(T, gat(T, T.part.o, k), i) == S.n1.o, mem(T, gat(T, T.part.o, k), j) == S.n2.o)), reveal(term(T), num(T, S.n1.o), num(T, S.n2.o))]
    lo = pairloops(L, K, inv1, inv2, inv3, rec, 0)
    return Contract(BF, "ModularityBipartWeightedFast", requires=lambda S: glists(S) + mlists(S) + [phead(S, S.part), ("members have numbers in the table", forall(lambda c: imp(And(member(S, c), part(S, gown(S, c)) == S.part.o), And(0 <= num(S, c), num(S, c) < S.n)), pat=lambda c: [num(S, c)]))] + mat_ok(S, S.swwmat, S.n, S.n), ghost_params={"n": I},
        ensures=lambda S: [("the sum over pairs of group members of their entry in the table", S.result == L(S)[5](gcnt(S, S.old.part.o) + 1))], loops=lo)
C.append(fast())
CONTRACTS = C
# ---------------------------------------------------------------- lemmas
def lem_sym():
    """the number of shared links does not depend on the order of the two nodes"""
    import lemma
    P = lemma.Proof("c17_symmetric"); F = z3.Function
    refA, refB, lkA, lkB = [F("bs_" + n, I, I) for n in ("refA", "refB", "lkA", "lkB")]; dA, dB = z3.Ints("bs_dA bs_dB")
    for r, k_, d in ((refA, lkA, dA), (refB, lkB, dB)):
        P.given(d >= 0, forall(lambda k: imp(And(1 <= k, k <= d), k_(r(k)) == k), pat=lambda k: [r(k)]), forall(lambda y: imp(k_(y) != 0, And(1 <= k_(y), k_(y) <= d, r(k_(y)) == y)), pat=lambda y: [k_(y)]))
    Lf = lambda h: SumI(1, dA + 1, lambda k: If(And(lkB(refA(k)) != 0, lkB(refA(k)) < h), 1, 0))
    Rf = lambda h: SumI(1, h, lambda j: If(lkA(refB(j)) != 0, 1, 0))
    P.induct("number of shared links", lambda h: Lf(h) == Rf(h), z3.IntVal(1), dB + 1, hints=lambda h: [sum_diff2(Lf(h), Lf(h + 1), lkA(refB(h)), lkA(refB(h))), h <= dB, h >= 1])
    P.have("symmetric", SumI(1, dA + 1, lambda k: If(lkB(refA(k)) != 0, 1, 0)) == Rf(dB + 1), [sum_add(Lf(dB + 1), SumI(1, dA + 1, lambda k: If(lkB(refA(k)) != 0, 1, 0)), SumI(1, dA + 1, lambda k: If(lkB(refA(k)) != 0, 1, 0)), 1, 0)])
    return P.steps
LEMMAS = {"C17": [lem_sym]}
PROPS = {"C17": [c.name for c in C] + ["NodeDegree"]}
