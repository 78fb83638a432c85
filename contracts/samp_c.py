"""Energies of block models and recommenders (src/missing.c, src/recommend.c)"""
import z3
from vc import Contract, Loop, c_lnchoose, c_lnfact, uf
from spec import *
from partition2_c import live, is_new
from graph_c import *
from modules_c import *
MI, RE = "src/missing.c", "src/recommend.c"
C = []
def ToR(x): return z3.ToReal(x)
lg = uf["log"]
# the links between two groups, inner links once
def between(S, a, b): f = SumI(1, sz(S, a) + 1, lambda k: nto(S, ref(S, mem(S, a, k)), q(S, "label", b))); return If(a == b, f / 2, f)
def wbetween(S, a, b, w): f = SumI(1, sz(S, a) + 1, lambda k: nwto(S, ref(S, mem(S, a, k)), q(S, "label", b), w)); return If(a == b, f / 2, f)
def bl(S): return lambda a, b: between(S, a, b)
def bw(S): return lambda a, b, w: wbetween(S, a, b, ToR(w))
def BL(S, a, b): return opaque(bl(S), a, b, sort=I)
def RL(S, a, b): return reveal(bl(S), a, b, sort=I)
def RW(S, a, b, w): return reveal(bw(S), a, b, w, sort=I)
def BW(S, a, b, w): return opaque(bw(S), a, b, w, sort=I)
LC = z3.Function("LogChooseTerm", I, I, R)     # log(r + 1) plus the log-binomial of l out of r
def lc_def(r, l_): return LC(r, l_) == lg(ToR(r) + 1) + c_lnchoose(r, l_)
def parts(S, *ps): return okpart(S) + [("partitions", And(*[isphead(S, p.o) for p in ps])), ("members point at their nodes", forall(lambda c: imp(And(member(S, c), Or(*[part(S, gown(S, c)) == p.o for p in ps])), ref(S, c) != 0), pat=lambda c: [ref(S, c)]))] + [fewm(S, p.o) for p in ps]
def Z(S, h, k): return q(S, "size", gat(S, h, k))
PAIRS = z3.Function("PossibleLinks", I, I, I)   # product of two sizes
def Sums(T, p, h1, h2, own_, pv, first):
    """own_(k): a group's own term; pv(k, m): a pair's term; first(k): where the second group starts"""
    rowto = lambda k, hi: SumR(first(k), hi, lambda m: opaque(pv, k, m))
    of = lambda k: If(p(T, h1, k), own_(k) + opaque(rowto, k, gcnt(T, h2) + 1), z3.RealVal(0))
    allto = lambda hi: SumR(1, hi, lambda k: opaque(of, k))
    return rowto, of, allto
def nlc(r, l_): return lg(ToR(r) + 1) + c_lnchoose(r, l_)
# ---------------------------------------------------------------- link prediction
def inner(T, h): return lambda k: nlc((Z(T, h, k) * (Z(T, h, k) - 1)) / 2, q(T, "inlinks", gat(T, h, k)))
def cross(T, h1, h2): return lambda k, m: If(Z(T, h2, m) > 0, nlc(Z(T, h1, k) * Z(T, h2, m), BL(T, gat(T, h1, k), gat(T, h2, m))), z3.RealVal(0))
def ph(T):
    h = T.part.o; pv = cross(T, h, h)
    return (pv,) + Sums(T, lambda T, h, k: Z(T, h, k) > 0, h, h, lambda k: opaque(inner(T, h), k), pv, lambda k: k + 1)
def ph_c():
    K = lambda S: gix(S, S.g1.o); M = lambda S: gix(S, S.g2.o)
    def base_(S): T = S.old; return T.linC * ToR(nonempty(T, T.part.o, gcnt(T, T.part.o) + 1))
    N = lambda S: gcnt(S.old, S.old.part.o)
    more = lambda S: [("counts", And(S.ng == nonempty(S, S.part.o, K(S) + 1))), ("sizes", S.nnod == psize(S, S.part.o, K(S) + 1)), ("in range", And(0 <= S.ng, S.ng <= S.nnod)), ("fewer than 2^31", S.ng <= K(S))]
    def inv0(S): return [("place", part(S, S.g1.o) == S.part.o), ("summed so far", S.H == base_(S) + ph(S.old)[3](K(S) + 1))] + more(S)
    def inv1(S): return [("place", And(part(S, S.g2.o) == S.part.o, M(S) >= K(S))), ("summed so far", S.H == S.pre.H + opaque(ph(S.old)[1], K(S), M(S) + 1))]
    def fits(S, h): return [("no more links than pairs of nodes", And(forall(lambda k: imp(And(1 <= k, k <= gcnt(S, h)), And(0 <= q(S, "inlinks", gat(S, h, k)), Z(S, h, k) * (Z(S, h, k) - 1) < U31, q(S, "inlinks", gat(S, h, k)) <= (Z(S, h, k) * (Z(S, h, k) - 1)) / 2)), pat=lambda k: [gat(S, h, k)]),
        forall(lambda x, y: imp(And(part(S, x) == h, part(S, y) == h, gix(S, x) >= 1, gix(S, x) < gix(S, y)), And(q(S, "size", x) * q(S, "size", y) < U31, BL(S, x, y) <= q(S, "size", x) * q(S, "size", y))), pat=lambda x, y: [BL(S, x, y), (gix(S, x), gix(S, y))])))]
    def here(S): T = S.old; h = T.part.o; k, m = K(S), M(S); return [("the groups", And(gat(T, h, k) == S.g1.o, gat(T, h, m) == S.g2.o)), RL(T, S.g1.o, S.g2.o)]
    return Contract(MI, "PartitionH", requires=lambda S: parts(S, S.part) + fits(S, S.part.o),
        ensures=lambda S: [("the number of non-empty groups times its cost, plus over groups and pairs of groups the log of the number of link counts and of arrangements, minus the log of the factorial of the free labels",
            S.result == base_(S) + ph(S.old)[3](N(S) + 1) - c_lnfact(psize(S.old, S.old.part.o, N(S) + 1) - nonempty(S.old, S.old.part.o, N(S) + 1)))],
        loops={0: Loop(inv=inv0, decreases=lambda S: N(S) - K(S), hints=lambda S: (lambda T, h, k: [("the next group", imp(k < gcnt(T, h), gat(T, h, k + 1) == gat(S, h, k + 1))), reveal(ph(T)[2], k + 1), reveal(inner(T, h), k + 1), reveal(ph(T)[1], k + 1, k + 2), ("nothing yet", opaque(ph(T)[1], k + 1, k + 2) == 0)] + psz(S, h, k))(S.old, S.old.part.o, K(S)),
                hints_end=lambda S: (lambda T, h, k: [("the group", gat(T, h, k) == S.g1.o)])(S.old, S.old.part.o, K(S))),
            1: Loop(inv=inv1, decreases=lambda S: N(S) - M(S), hints=lambda S: (lambda T, k, m: [("next pair", imp(m < N(S), (lambda y: And(BL(T, S.g1.o, y) <= S.g1.size * q(S, "size", y), S.g1.size * q(S, "size", y) < U31))(q(S, "next", S.g2.o)))), reveal(ph(T)[1], k, m + 1), reveal(ph(T)[1], k, m + 2), ("one more pair", imp(m >= k, opaque(ph(T)[1], k, m + 2) == opaque(ph(T)[1], k, m + 1) + opaque(ph(T)[0], k, m + 1)))])(S.old, K(S), M(S)),
                hints_end=lambda S: here(S) + [reveal(ph(S.old)[0], K(S), M(S)), ("this pair", S.H == S.I1.H + opaque(ph(S.old)[0], K(S), M(S)))])},
        call_hints={"NG2GLinks/after": lambda S, cv: [RL(S.old, S.g1.o, S.g2.o), ("the links between", cv.result == BL(S.old, S.g1.o, S.g2.o)), ("the groups", (lambda T, h: And(gat(T, h, K(S)) == S.g1.o, gat(T, h, M(S)) == S.g2.o, K(S) < M(S)))(S.old, S.old.part.o)), ("not more than the pairs of nodes", cv.result <= S.g1.size * S.g2.size)]})
def psz(S, h, k):
    return [sum_split(psize(S, h, gcnt(S, h) + 1), k + 2), sum_ge0(SumI(k + 2, gcnt(S, h) + 1, lambda j: q(S, "size", gat(S, h, j)))),
        ("this group's share", imp(k < gcnt(S, h), And(psize(S, h, k + 2) < U31, psize(S, h, k + 2) == psize(S, h, k + 1) + Z(S, h, k + 1)))), ("sum-free", imp(k < gcnt(S, h), S.nnod + Z(S, h, k + 1) < U31))]
C.append(ph_c())

# ---------------------------------------------------------------- recommenders and several kinds of links
def pairsum(name, file, pvof, two, only, inner_loop, firstm, extra_req, heads):
    """sum over pairs of groups; two: the second partition (or None); only: empty groups are skipped"""
    p1 = heads[0]; p2 = heads[-1]
    H1 = lambda T: T[p1].o; H2 = lambda T: T[p2].o
    n2 = lambda T: gcnt(T, H2(T))
    def sums(T):
        pv = pvof(T); first = (lambda k: k + (0 if firstm == "same" else 1)) if firstm else (lambda k: z3.IntVal(1))
        return (pv,) + Sums(T, (lambda T, h, k: Z(T, h, k) > 0) if only else (lambda T, h, k: z3.BoolVal(True)), H1(T), H2(T), lambda k: z3.RealVal(0), pv, first)
    K = lambda S: gix(S, S.g1.o); M = lambda S: gix(S, S.g2.o)
    N = lambda S: gcnt(S.old, H1(S.old))
    n_, ng_ = ("nnod1", "ng1") if two else ("nnod", "ng")
    HS = lambda S, hi: sums(S.old)[3](hi)
    cntz = lambda S, h, k, ng, nn: [("counts", S[ng] == nonempty(S, h, k + 1)), ("sizes", S[nn] == psize(S, h, k + 1)), ("in range", And(0 <= S[ng], S[ng] <= S[nn])), ("few groups", S[ng] <= k)]
    st1 = lambda S: z3.IntVal(0) if firstm is None else None
    def inv0(S): return [("place", part(S, S.g1.o) == H1(S.old)), ("summed so far", S.H == HS(S, K(S) + 1))] + cntz(S, H1(S.old), K(S), ng_, n_)
    def inv1(S): return [("place", And(part(S, S.g2.o) == H2(S.old), M(S) >= (K(S) - 1 if firstm == "same" else 0))), ("summed so far", S.H == S.pre.H + opaque(sums(S.old)[1], K(S), M(S) + 1))]
    lo = {0: Loop(inv=inv0, decreases=lambda S: N(S) - K(S), hints=lambda S: (lambda T, h, k: [reveal(sums(T)[2], k + 1), reveal(sums(T)[1], k + 1, (k + 1 if firstm == "same" else z3.IntVal(1))), ("nothing yet", opaque(sums(T)[1], k + 1, (k + 1 if firstm == "same" else z3.IntVal(1))) == 0)] + psz2(S, h, k, n_))(S.old, H1(S.old), K(S)),
            hints_end=lambda S: (lambda T, h, k: [("the group", gat(T, h, k) == S.g1.o)])(S.old, H1(S.old), K(S))),
        1: Loop(inv=inv1, decreases=lambda S: n2(S.old) - M(S), hints=lambda S: (lambda T, k, m: [reveal(sums(T)[1], k, m + 1), reveal(sums(T)[1], k, m + 2), ("one more pair", imp(m >= (k - 1 if firstm == "same" else 0), opaque(sums(T)[1], k, m + 2) == opaque(sums(T)[1], k, m + 1) + opaque(sums(T)[0], k, m + 1))),
                ("next group", imp(m < n2(T), gat(T, H2(T), m + 1) == q(T, "next", S.g2.o)))])(S.old, K(S), M(S)),
            hints_end=lambda S: inner_loop[1](S, K(S), M(S)) + [("the groups", And(gat(S.old, H1(S.old), K(S)) == S.g1.o, gat(S.old, H2(S.old), M(S)) == S.g2.o)), reveal(sums(S.old)[0], K(S), M(S)), ("this pair", S.H == S.I1.H + opaque(sums(S.old)[0], K(S), M(S)))])}
    nxt = 2
    if inner_loop[0]: lo[2] = inner_loop[0](K, M); nxt = 3
    val = lambda S: HS(S, N(S) + 1) - c_lnfact(psize(S.old, H1(S.old), N(S) + 1) - nonempty(S.old, H1(S.old), N(S) + 1))
    if two:
        lo[nxt] = Loop(inv=lambda S: [("place", part(S, S.g2.o) == H2(S.old))] + cntz(S, H2(S.old), M(S), "ng2", "nnod2"), decreases=lambda S: n2(S.old) - M(S), hints=lambda S: psz2(S, H2(S.old), M(S), "nnod2"))
        v1 = val; val = lambda S: HS(S, N(S) + 1) - (c_lnfact(psize(S.old, H1(S.old), N(S) + 1) - nonempty(S.old, H1(S.old), N(S) + 1)) + c_lnfact(psize(S.old, H2(S.old), n2(S.old) + 1) - nonempty(S.old, H2(S.old), n2(S.old) + 1)))
    def after(f, L_, R_, *w):
        return f
    return Contract(file, name, requires=lambda S: parts(S, *[S[h] for h in heads]) + ([("two partitions", S[p1].o != S[p2].o)] if two else []) + extra_req(S),
        ensures=lambda S: [("the sum of the pairs' energies less the logs of the factorials of the free labels", S.result == val(S))], loops=lo, call_hints=inner_loop[2])
def psz2(S, h, k, nn):
    return [sum_split(psize(S, h, gcnt(S, h) + 1), k + 2), sum_ge0(SumI(k + 2, gcnt(S, h) + 1, lambda j: q(S, "size", gat(S, h, j)))),
        ("this group's share", imp(k < gcnt(S, h), And(psize(S, h, k + 2) < U31, psize(S, h, k + 2) == psize(S, h, k + 1) + Z(S, h, k + 1)))), ("sum-free", imp(k < gcnt(S, h), S[nn] + Z(S, h, k + 1) < U31))]
# rating states of a pair of groups: ln (n + K - 1)! less the ln of the factorial of each rating's count
def kterms(T, a, b): return lambda c: c_lnfact(BW(T, a, b, c))
def kpair(T, a, b, hi): return SumR(0, hi, lambda c: opaque(kt(T), a, b, c))
def kt(T): return lambda a, b, c: c_lnfact(BW(T, a, b, c))
def kpv(h1, h2):
    def f(T):
        return lambda k, m: (lambda a, b: c_lnfact(BL(T, a, b) + T.K - 1) - kpair(T, a, b, T.K))(gat(T, T[h1].o, k), gat(T, T[h2].o, m))
    return f
def kloop(K, M):
    a = lambda S: S.g1.o; b = lambda S: S.g2.o
    return Loop(inv=lambda S: [("index", And(0 <= S.k, S.k <= S.K)), ("counted so far", S.H == S.pre.H - kpair(S.old, a(S), b(S), S.k))], decreases=lambda S: S.K - S.k,
        hints_end=lambda S: [reveal(kt(S.old), a(S), b(S), S.k - 1), ("this rating", S.H == S.I2.H - opaque(kt(S.old), a(S), b(S), S.k - 1))])
def links_hint(S, cv): return [RL(S.old, S.g1.o, S.g2.o), ("the links between", cv.result == BL(S.old, S.g1.o, S.g2.o))]
def wlinks_hint(S, cv): return [RW(S.old, S.g1.o, S.g2.o, S.k), ("the links of this kind between", cv.result == BW(S.old, S.g1.o, S.g2.o, S.k))]
def kreq(S): return [("kinds of links", And(1 <= S.K, S.K < U30))]
KH = {"NG2GLinks/after": links_hint, "NWeightG2GLinks/after": wlinks_hint}
C21 = [c.name for c in C] + ["LSHKState"]
C.append(pairsum("LSHKState", MI, kpv("part", "part"), False, False, (kloop, lambda S, k, m: [], KH), "same", lambda S: kreq(S) + [("few links between groups", forall(lambda a, b: BL(S, a, b) < U30, pat=lambda a, b: [BL(S, a, b)]))], ["part"]))
C.append(pairsum("HKState", RE, kpv("part1", "part2"), True, False, (kloop, lambda S, k, m: [], KH), None, kreq, ["part1", "part2"]))
def h2pv(T): return lambda k, m: (lambda a, b: If(q(T, "size", b) > 0, nlc(BL(T, a, b), BW(T, a, b, z3.IntVal(1))), z3.RealVal(0)))(gat(T, T.part1.o, k), gat(T, T.part2.o, m))
def h2after(S, cv): return [RW(S.old, S.g1.o, S.g2.o, z3.IntVal(1)), ("the ones between", cv.result == BW(S.old, S.g1.o, S.g2.o, z3.IntVal(1)))]
C.append(pairsum("H2State", RE, h2pv, True, True, (None, lambda S, k, m: [], {"NG2GLinks/after": links_hint, "NWeightG2GLinks/after": h2after}), None,
    lambda S: [("ones are among the links", forall(lambda a, b: imp(And(part(S, a) == S.part1.o, part(S, b) == S.part2.o, gix(S, a) >= 1, gix(S, b) >= 1), BW(S, a, b, z3.IntVal(1)) <= BL(S, a, b)), pat=lambda a, b: [BW(S, a, b, z3.IntVal(1))]))], ["part1", "part2"]))
# ---------------------------------------------------------------- queries
QF = ["query.n1", "query.n2", "query.score"]
def qq(S, f, o): return S.f("query." + f, o)
C.append(Contract(RE, "CreateQuery", fresh=QF, allocs="grow",
    ensures=lambda S: [("a new query for the two nodes, not scored yet", And(is_new(S, S.result.o), S.result.alloc(), S.result.n1.o == S.node1.o, S.result.n2.o == S.node2.o, S.result.score == -1)), ("nothing else is allocated", forall(lambda o: imp(o != S.result.o, live(S, o) == live(S.old, o)), pat=lambda o: [live(S, o)]))]))
C.append(Contract(RE, "FreeQuery", requires=lambda S: [("a query", And(S.q.alloc(), S.q.off == 0))], ensures=lambda S: [("only the query is released", forall(lambda o: live(S, o) == And(live(S.old, o), o != S.q.o), pat=lambda o: [live(S, o)]))], allocs="free"))
C.append(Contract(RE, "CountUnobserved", requires=lambda S: nets(S) + caches(S) + [pair(S, S.ratings, "ratings"), few(S, S.ratings.net1.o), ("few pairs", cnt(S, S.ratings.net1.o) * cnt(S, S.ratings.net2.o) < U31), ("not more links than pairs", links(S, S.ratings.net1.o, cnt(S, S.ratings.net1.o) + 1) <= cnt(S, S.ratings.net1.o) * cnt(S, S.ratings.net2.o))], modifies=["node_gra.degree"],
    ensures=lambda S: [("pairs of a node of each side less the links", S.result == cnt(S, S.ratings.net1.o) * cnt(S, S.ratings.net2.o) - links(S, S.ratings.net1.o, cnt(S, S.ratings.net1.o) + 1))] + caches(S)))
def pair(S, p, n): return ("a pair of networks", And(p.alloc(), ishead(S, p.net1.o), ishead(S, p.net2.o)))
# ---------------------------------------------------------------- ratings
def innet(S, h, x): return And(net(S, x) == h, ix(S, x) >= 1)
def twomode(S, h1, h2):
    """links lead from each half of the pair into the other, and every link is recorded at both ends"""
    return [("links of the first network lead into the second", forall(lambda c: imp(And(islink(S, c), net(S, own(S, c)) == h1), net(S, ref(S, c)) == h2), pat=lambda c: [ref(S, c)])),
        ("links of the second network lead into the first", forall(lambda c: imp(And(islink(S, c), net(S, own(S, c)) == h2), net(S, ref(S, c)) == h1), pat=lambda c: [ref(S, c)])),
        ("links are recorded at both ends", forall(lambda x, y: imp(And(innet(S, h1, x), innet(S, h2, y)), (lk(S, x, y) != 0) == (lk(S, y, x) != 0)), pat=lambda x, y: [lk(S, x, y)]))]
def rated(S, c, r): return l(S, "weight", c) == z3.ToReal(r)
def rr_kept(S, h1, h2, r):
    T = S.old
    return [("nothing is allocated", forall(lambda o: imp(live(S, o), live(T, o)), pat=lambda o: [live(S, o)])), ("records only disappear", forall(lambda c: Or(own(S, c) == own(T, c), And(own(S, c) == 0, islink(T, c), Or(And(net(T, own(T, c)) == h1, rated(T, c, r)), net(T, own(T, c)) == h2))), pat=lambda c: [own(S, c)])),
        ("heads stay heads", forall(lambda c: imp(own(S, c) != 0, (pos(S, c) >= 1) == (pos(T, c) >= 1)), pat=lambda c: [pos(S, c)]))]
C.append(Contract(RE, "RemoveRatings", requires=lambda S: okall(S) + [pair(S, S.ratings, "ratings"), ("two networks", S.ratings.net1.o != S.ratings.net2.o)] + twomode(S, S.ratings.net1.o, S.ratings.net2.o),
    modifies=["node_gra.degree", "node_gra.strength", "node_lis.next"] + GROWN[:5], allocs="free",
    ensures=lambda S: okall(S) + twomode(S, S.ratings.net1.o, S.ratings.net2.o) + [
        ("no rating has that value any more", forall(lambda c: imp(And(islink(S, c), net(S, own(S, c)) == S.ratings.net1.o), Not(rated(S, c, S.r))), pat=lambda c: [own(S, c)])),
        ("every other rating is kept", forall(lambda c: imp(And(islink(S.old, c), net(S, own(S.old, c)) == S.ratings.net1.o, Not(rated(S, c, S.r))), And(islink(S, c), own(S, c) == own(S.old, c))), pat=lambda c: [own(S, c)])),
        ("other networks keep their links", forall(lambda c: imp(And(own(S.old, c) != 0, net(S, own(S.old, c)) != S.ratings.net1.o, net(S, own(S.old, c)) != S.ratings.net2.o), own(S, c) == own(S.old, c)), pat=lambda c: [own(S, c)]))],
    loops={0: Loop(inv=lambda S: [("place", net(S, S.p.o) == S.ratings.net1.o)] + okall(S) + twomode(S, S.ratings.net1.o, S.ratings.net2.o) + rr_kept(S, S.ratings.net1.o, S.ratings.net2.o, S.r) + [
            ("removed so far", forall(lambda c: imp(And(islink(S, c), net(S, own(S, c)) == S.ratings.net1.o, ix(S, own(S, c)) <= ix(S, S.p.o)), Not(rated(S, c, S.r))), pat=lambda c: [own(S, c)]))],
            decreases=lambda S: cnt(S, S.ratings.net1.o) - ix(S, S.p.o)),
        1: Loop(inv=lambda S: [("place", And(own(S, S.m.o) == S.p.o))] + okall(S) + twomode(S, S.ratings.net1.o, S.ratings.net2.o) + rr_kept(S, S.ratings.net1.o, S.ratings.net2.o, S.r) + [
            ("removed so far", forall(lambda c: imp(And(islink(S, c), net(S, own(S, c)) == S.ratings.net1.o, Or(ix(S, own(S, c)) < ix(S, S.p.o), And(own(S, c) == S.p.o, pos(S, c) <= pos(S, S.m.o)))), Not(rated(S, c, S.r))), pat=lambda c: [own(S, c)]))],
            decreases=lambda S: deg(S, S.p.o) - pos(S, S.m.o))}))
CONTRACTS = C
PROPS = {"C21": C21 + ["NLinksToGroup", "NG2GLinks", "NWeightG2GLinks", "NNonEmptyGroups", "MoveNode", "LogChoose", "FastLogChoose", "FastLogFact"],
    "C28": ["H2State", "HKState", "CreateQuery", "FreeQuery", "CountUnobserved", "RemoveRatings", "RemoveLink", "NG2GLinks", "NWeightG2GLinks", "CountNodes", "NLinksBipart", "MoveNode"]}
