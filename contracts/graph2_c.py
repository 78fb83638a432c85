"""More questions about networks (src/graph.c)"""
import z3
from vc import Contract, Loop
from spec import *
from partition2_c import live, is_new
from graph_c import *
from graph_c import _V
C = []
def ToR(x): return z3.ToReal(x)
C.append(Contract(GF, "AverageDegree", requires=lambda S: nets(S) + caches(S) + [head(S, S.root), few(S, S.root.o), ("there are nodes", cnt(S, S.root.o) >= 1)], modifies=["node_gra.degree"],
    ensures=lambda S: [("links per node (twice for undirected links)", S.result == ToR(If(S.symmetric_sw == 0, links(S, S.root.o, cnt(S, S.root.o) + 1), 2 * (links(S, S.root.o, cnt(S, S.root.o) + 1) / 2))) / ToR(cnt(S, S.root.o)))] + caches(S),
    call_hints={"TotalNLinks/after": lambda S, pre: [sum_ge0(links(S, S.root.o, cnt(S, S.root.o) + 1)), ("not many", And(pre.result >= 0, pre.result < U31, imp(S.symmetric_sw != 0, pre.result < U30)))]}))
def sq(S, h, hi): return SumI(1, hi, lambda k: deg(S, at(S, h, k)) * deg(S, at(S, h, k)))
C.append(Contract(GF, "AverageSquaredDegree", requires=lambda S: nets(S) + caches(S) + [head(S, S.root), ("there are nodes", cnt(S, S.root.o) >= 1)], modifies=["node_gra.degree"], opts=dict(overflow=False),
    ensures=lambda S: [("the mean of the squared degrees", S.result == ToR(sq(S, S.root.o, cnt(S, S.root.o) + 1)) / ToR(cnt(S, S.root.o)))] + caches(S),
    loops={0: Loop(inv=lambda S: [("place", And(net(S, S.p.o) == S.root.o, S.nnod == ix(S, S.p.o))), ("sum so far", S.k2sum == sq(S, S.root.o, ix(S, S.p.o) + 1))] + caches(S), decreases=lambda S: cnt(S, S.root.o) - ix(S, S.p.o))}))
def ncom(S, a, b, hi): return SumI(1, hi, lambda k: If(lk(S, ref(S, nb(S, a, k)), b) != 0, 1, 0))
C.append(Contract(GF, "CommonNeighbors", requires=lambda S: base(S) + [nodes(S, S.n1, S.n2)],
    ensures=lambda S: [("the number of neighbours of the first that are linked to the second", S.result == ncom(S, S.n1.o, S.n2.o, deg(S, S.n1.o) + 1))],
    loops={0: Loop(inv=lambda S: [("place", own(S, S.p.o) == S.n1.o), ("counted so far", S.ncom == ncom(S, S.n1.o, S.n2.o, pos(S, S.p.o) + 1)), ("in range", And(0 <= S.ncom, S.ncom <= pos(S, S.p.o)))], decreases=lambda S: deg(S, S.n1.o) - pos(S, S.p.o))}))
def mark(S, a, hi): return SumI(1, hi, lambda k: If(g(S, "state", ref(S, nb(S, a, k))) == 1, 1, 0))
C.append(Contract(GF, "SumCommonLinks", requires=lambda S: base(S) + [nodes(S, S.node)],
    ensures=lambda S: [("the number of links to marked nodes", S.result == mark(S, S.node.o, deg(S, S.node.o) + 1)), ("in range", And(0 <= S.result, S.result <= deg(S, S.node.o)))],
    loops={0: Loop(inv=lambda S: [("place", own(S, S.p.o) == S.node.o), ("counted so far", S.sum == mark(S, S.node.o, pos(S, S.p.o) + 1)), ("in range", And(0 <= S.sum, S.sum <= pos(S, S.p.o)))], decreases=lambda S: deg(S, S.node.o) - pos(S, S.p.o))}))
def knn(S, a, hi): return SumI(1, hi, lambda k: deg(S, ref(S, nb(S, a, k))))
C.append(Contract(GF, "CalculateKnn", requires=lambda S: base(S) + caches(S) + [nodes(S, S.node), ("it has links", deg(S, S.node.o) >= 1), ("fewer than 2^31 links", knn(S, S.node.o, deg(S, S.node.o) + 1) < U31)], modifies=["node_gra.degree"],
    ensures=lambda S: [("the mean degree of the neighbours", S.result == ToR(knn(S, S.node.o, deg(S, S.node.o) + 1)) / ToR(deg(S, S.node.o)))] + caches(S),
    loops={0: Loop(inv=lambda S: [("place", own(S, S.p.o) == S.node.o), ("counted so far", S.totdeg == knn(S, S.node.o, pos(S, S.p.o) + 1)), ("not negative", S.totdeg >= 0), ("links so far", S.nneig == pos(S, S.p.o))] + caches(S), decreases=lambda S: deg(S, S.node.o) - pos(S, S.p.o),
        hints=lambda S: (lambda T, x, k: [sum_split(T, k + 2), sum_ge0(SumI(k + 2, deg(S, x) + 1, lambda q: deg(S, ref(S, nb(S, x, q))))), ("this link's share", imp(k < deg(S, x), And(knn(S, x, k + 2) < U31, knn(S, x, k + 2) == S.totdeg + deg(S, ref(S, nb(S, x, k + 1)))))), ("sum-free", imp(k < deg(S, x), S.totdeg + deg(S, ref(S, nb(S, x, k + 1))) < U31))])(knn(S, S.node.o, deg(S, S.node.o) + 1), S.node.o, pos(S, S.p.o)))}))
def jac(S, a, b, hi): return SumI(1, hi, lambda k: If(And(ref(S, nb(S, a, k)) != b, lk(S, ref(S, nb(S, a, k)), b) != 0), 1, 0))
def jac_ens(S):
    a, b = S.n1.o, S.n2.o; c = jac(S, a, b, deg(S, a) + 1); un = deg(S, a) + deg(S, b) - If(lk(S, a, b) != 0, 2, 0) - c
    return [("shared neighbours over all neighbours, the two nodes not counted", S.result == If(c == 0, z3.RealVal(0), ToR(c) / ToR(un)))] + caches(S)
C.append(Contract(GF, "JaccardIndex", requires=lambda S: base(S) + caches(S) + [nodes(S, S.n1, S.n2)], modifies=["node_gra.degree"], ensures=jac_ens, opts=dict(fdiv=False),
    loops={0: Loop(inv=lambda S: [("place", own(S, S.p.o) == S.n1.o), ("counted so far", S.ncom == jac(S, S.n1.o, S.n2.o, pos(S, S.p.o) + 1)), ("in range", And(0 <= S.ncom, S.ncom <= pos(S, S.p.o))),
        ("degrees without the common link", And(S.k1 == deg(S, S.n1.o) - If(And(lk(S, S.n1.o, S.n2.o) != 0, lk(S, S.n1.o, S.n2.o) <= pos(S, S.p.o)), 1, 0), S.k2 == deg(S, S.n2.o) - If(And(lk(S, S.n1.o, S.n2.o) != 0, lk(S, S.n1.o, S.n2.o) <= pos(S, S.p.o)), 1, 0)))], decreases=lambda S: deg(S, S.n1.o) - pos(S, S.p.o))}))
CONTRACTS = C
PROPS = {"C25": ["CommonNeighbors", "SumCommonLinks", "CalculateKnn", "JaccardIndex"], "C13": ["AverageDegree", "AverageSquaredDegree"]}
