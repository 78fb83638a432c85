"""Networks as linked lists (src/graph.c): nodes in a list, each with a list of links; and the matrices of src/matrix.c"""
import z3
from vc import Contract, Loop, ghost_field, uf, c_str, c_slen, CH, TAG, type_id
from cast import Ty, INT, REAL
from spec import *
from partition2_c import live, is_new
GF = "src/graph.c"; U30 = 1 << 30; U31 = 1 << 31
AII = z3.ArraySort(I, I)
for n in ("net", "ix", "cnt", "deg"): ghost_field("node_gra.$" + n)     # network (its header), position in it; of a header: number of nodes; of a node: number of links
for n in ("at", "nb", "lk"): ghost_field("node_gra.$" + n, AII)         # header: position -> node; node: position -> link record; node: other node -> position of the link to it, 0 if none
for n in ("own", "pos"): ghost_field("node_lis.$" + n)                  # node whose list the record is in, position there (0: list head)
ghost_field("chr.$own")                                                 # record a text block belongs to
sel = z3.Select
def g(S, f, x): return S.f("node_gra." + f, x)
def l(S, f, c): return S.f("node_lis." + f, c)
def net(S, x): return g(S, "$net", x)
def ix(S, x): return g(S, "$ix", x)
def cnt(S, h): return g(S, "$cnt", h)
def at(S, h, k): return sel(g(S, "$at", h), k)
def deg(S, x): return g(S, "$deg", x)
def nb(S, x, k): return sel(g(S, "$nb", x), k)
def lk(S, x, y): return sel(g(S, "$lk", x), y)
def own(S, c): return l(S, "$own", c)
def pos(S, c): return l(S, "$pos", c)
def ref(S, c): return l(S, "ref", c)
def W(S, x, k): return l(S, "weight", nb(S, x, k))
def isnode(S, x): return And(net(S, x) != 0, ix(S, x) >= 1)
def islink(S, c): return And(own(S, c) != 0, pos(S, c) >= 1)
def ishead(S, h): return And(h != 0, net(S, h) == h)
def text(S, b): return c_str(S.f(CH, b))
GRA, LIS = type_id(Ty("struct", "node_gra")), type_id(Ty("struct", "node_lis"))
CHT = Ty("int", 8, True)
def nets(S):
    """every network in memory is a list of nodes, each with a list of links; nothing is shared"""
    return [
        ("node lists", forall(lambda x: imp(net(S, x) != 0, And(x != 0, live(S, x), TAG(x) == GRA, ishead(S, net(S, x)), 0 <= ix(S, x), ix(S, x) <= cnt(S, net(S, x)), at(S, net(S, x), ix(S, x)) == x,
            g(S, "next", x) == If(ix(S, x) < cnt(S, net(S, x)), at(S, net(S, x), ix(S, x) + 1), 0))), pat=lambda x: [g(S, "next", x), net(S, x)])),
        ("positions in node lists", forall(lambda h, k: imp(And(ishead(S, h), 0 <= k, k <= cnt(S, h)), And(net(S, at(S, h, k)) == h, ix(S, at(S, h, k)) == k, at(S, h, k) != 0)), pat=lambda h, k: [at(S, h, k)])),
        ("headers", forall(lambda h: imp(ishead(S, h), And(ix(S, h) == 0, at(S, h, 0) == h, cnt(S, h) >= 0, cnt(S, h) < U30)), pat=lambda h: [cnt(S, h)])),
        ("link lists start at the head", forall(lambda x: imp(isnode(S, x), And(g(S, "neig", x) == nb(S, x, 0), deg(S, x) >= 0, deg(S, x) < U30)), pat=lambda x: [g(S, "neig", x), deg(S, x)])),
        ("positions in link lists", forall(lambda x, k: imp(And(isnode(S, x), 0 <= k, k <= deg(S, x)), And(own(S, nb(S, x, k)) == x, pos(S, nb(S, x, k)) == k, nb(S, x, k) != 0)), pat=lambda x, k: [nb(S, x, k)])),
        ("link lists", forall(lambda c: imp(own(S, c) != 0, And(c != 0, live(S, c), TAG(c) == LIS, isnode(S, own(S, c)), 0 <= pos(S, c), pos(S, c) <= deg(S, own(S, c)), nb(S, own(S, c), pos(S, c)) == c,
            l(S, "next", c) == If(pos(S, c) < deg(S, own(S, c)), nb(S, own(S, c), pos(S, c) + 1), 0))), pat=lambda c: [l(S, "next", c), own(S, c)])),
    ]
def ends(S):
    """links lead to nodes (of the same network, or of the other half of a two-mode network), at most one to each"""
    return [
        ("links lead to nodes", forall(lambda c: imp(islink(S, c), And(isnode(S, ref(S, c)), lk(S, own(S, c), ref(S, c)) == pos(S, c))), pat=lambda c: [ref(S, c)])),
        ("each link is found", forall(lambda x, y: imp(And(isnode(S, x), lk(S, x, y) != 0), And(1 <= lk(S, x, y), lk(S, x, y) <= deg(S, x), ref(S, nb(S, x, lk(S, x, y))) == y)), pat=lambda x, y: [lk(S, x, y)])),
    ]
def closed(S, h): return ("links lead to nodes of the network", forall(lambda c: imp(And(islink(S, c), net(S, own(S, c)) == h), net(S, ref(S, c)) == h), pat=lambda c: [ref(S, c)]))
def labels(S):
    return [("labels", forall(lambda x: imp(isnode(S, x), And(g(S, "label", x) != 0, live(S, g(S, "label", x)), TAG(g(S, "label", x)) == type_id(CHT), S.f("chr.$own", g(S, "label", x)) == x, c_slen(text(S, g(S, "label", x))) < 100)), pat=lambda x: [g(S, "label", x)])),
            ("link labels", forall(lambda c: imp(islink(S, c), And(l(S, "nodeLabel", c) != 0, live(S, l(S, "nodeLabel", c)), TAG(l(S, "nodeLabel", c)) == type_id(CHT), S.f("chr.$own", l(S, "nodeLabel", c)) == c)), pat=lambda c: [l(S, "nodeLabel", c)])),
            ("list heads have no label", forall(lambda c: imp(And(own(S, c) != 0, pos(S, c) == 0), l(S, "nodeLabel", c) == 0), pat=lambda c: [l(S, "nodeLabel", c)]))]
def caches(S): return [("cached degrees", forall(lambda x: imp(isnode(S, x), Or(g(S, "degree", x) == 0, g(S, "degree", x) == deg(S, x))), pat=lambda x: [g(S, "degree", x)]))]
def wsum(S, x): return SumR(1, deg(S, x) + 1, lambda k: W(S, x, k))
def strength_cached(S, x): return Or(g(S, "strength", x) == 0, g(S, "strength", x) == wsum(S, x))
def numbered(S, h): return ("nodes are numbered in list order", forall(lambda x: imp(And(net(S, x) == h, ix(S, x) >= 1), g(S, "num", x) == ix(S, x) - 1), pat=lambda x: [g(S, "num", x)]))
def linknums(S, h): return ("link numbers agree", forall(lambda c: imp(And(islink(S, c), net(S, own(S, c)) == h), l(S, "node", c) == g(S, "num", ref(S, c))), pat=lambda c: [l(S, "node", c)]))
def base(S): return nets(S) + ends(S)
def head(S, p): return ("a network", ishead(S, p.o))
def nodes(S, *ps): return ("nodes", And(*[isnode(S, p.o) for p in ps]))
def same(S, h, but=None, T=None):
    T = T or S.old
    return forall(lambda o: imp(but(o) if but else True, S.f(h, o) == T.f(h, o)), pat=lambda o: [S.f(h, o)])

# ---------------------------------------------------------------- questions
C = []
C.append(Contract(GF, "CountNodes", requires=lambda S: nets(S) + [head(S, S.p)], ensures=lambda S: [("the number of nodes", S.result == cnt(S, S.p.o))],
    loops={0: Loop(inv=lambda S: [("place", And(net(S, S.p.o) == S.old.p.o, S.nodes == ix(S, S.p.o)))], decreases=lambda S: cnt(S, S.old.p.o) - ix(S, S.p.o))}))
C.append(Contract(GF, "NodeDegree", requires=lambda S: nets(S) + caches(S) + [nodes(S, S.node)], modifies=["node_gra.degree"],
    ensures=lambda S: [("the number of links", S.result == deg(S, S.node.o)), ("only this cache changes", same(S, "node_gra.degree", lambda o: o != S.node.o))] + caches(S),
    loops={0: Loop(inv=lambda S: [("place", And(own(S, S.p.o) == S.node.o, S.bind(S.node).degree == pos(S, S.p.o))), ("other caches", same(S, "node_gra.degree", lambda o: o != S.node.o))], decreases=lambda S: deg(S, S.node.o) - pos(S, S.p.o))}))
C.append(Contract(GF, "NodeStrength", requires=lambda S: nets(S) + [nodes(S, S.node), ("cached strength", strength_cached(S, S.node.o))], modifies=["node_gra.strength"],
    ensures=lambda S: [("the sum of the link weights", S.result == wsum(S, S.node.o)), ("cached strength", strength_cached(S, S.node.o)), ("only this cache changes", same(S, "node_gra.strength", lambda o: o != S.node.o))],
    loops={0: Loop(inv=lambda S: [("place", own(S, S.p.o) == S.node.o), ("sum so far", S.bind(S.node).strength == SumR(1, pos(S, S.p.o) + 1, lambda k: W(S, S.node.o, k))), ("other caches", same(S, "node_gra.strength", lambda o: o != S.node.o))], decreases=lambda S: deg(S, S.node.o) - pos(S, S.p.o))}))
def links(S, h, hi): return SumI(1, hi, lambda k: deg(S, at(S, h, k)))
def few(S, h): return ("fewer than 2^31 links", links(S, h, cnt(S, h) + 1) < U31)
C.append(Contract(GF, "TotalNLinks", requires=lambda S: nets(S) + caches(S) + [head(S, S.p), few(S, S.p.o)], modifies=["node_gra.degree"],
    ensures=lambda S: [("the number of links (half the link ends of an undirected network)", S.result == If(S.symmetric_sw == 0, links(S, S.p.o, cnt(S, S.p.o) + 1), links(S, S.p.o, cnt(S, S.p.o) + 1) / 2))] + caches(S),
    loops={0: Loop(inv=lambda S: [("place", net(S, S.p.o) == S.old.p.o), ("links so far", And(S.total >= 0, S.total == links(S, S.old.p.o, ix(S, S.p.o) + 1)))] + caches(S),
        hints=lambda S: [sum_split(links(S, S.old.p.o, cnt(S, S.old.p.o) + 1), ix(S, S.p.o) + 2), sum_ge0(SumI(ix(S, S.p.o) + 2, cnt(S, S.old.p.o) + 1, lambda k: deg(S, at(S, S.old.p.o, k)))), 
            ("this node's share", imp(ix(S, S.p.o) < cnt(S, S.old.p.o), And(links(S, S.old.p.o, ix(S, S.p.o) + 2) < U31, links(S, S.old.p.o, ix(S, S.p.o) + 2) == S.total + deg(S, at(S, S.old.p.o, ix(S, S.p.o) + 1)))))],
        hints_end=lambda S: [("links so far", S.total == links(S, S.old.p.o, ix(S, S.p.o) + 1)), ("not negative", S.total >= 0)], decreases=lambda S: cnt(S, S.old.p.o) - ix(S, S.p.o))}))
C.append(Contract(GF, "IsThereLink", requires=lambda S: base(S) + [nodes(S, S.n1, S.n2)], ensures=lambda S: [("whether the link is present", S.result == If(lk(S, S.n1.o, S.n2.o) != 0, 1, 0))],
    loops={0: Loop(inv=lambda S: [("place", own(S, S.n1n.o) == S.n1.o), ("not among the links so far", Or(lk(S, S.n1.o, S.n2.o) == 0, lk(S, S.n1.o, S.n2.o) > pos(S, S.n1n.o)))], decreases=lambda S: deg(S, S.n1.o) - pos(S, S.n1n.o))}))
def links_to(S, x, n): return exists(lambda k: And(1 <= k, k <= deg(S, x), l(S, "node", nb(S, x, k)) == n))
C.append(Contract(GF, "IsThereLinkSoft", requires=lambda S: nets(S) + [nodes(S, S.n1)],
    ensures=lambda S: [("no link has this number", imp(S.result == 0, forall(lambda k: imp(And(1 <= k, k <= deg(S, S.n1.o)), l(S, "node", nb(S, S.n1.o, k)) != S.n2_num), pat=lambda k: [nb(S, S.n1.o, k)]))),
                       ("some link has this number", imp(S.result != 0, exists(lambda c: And(islink(S, c), own(S, c) == S.n1.o, l(S, "node", c) == S.n2_num)))), ("yes or no", Or(S.result == 0, S.result == 1))],
    loops={0: Loop(inv=lambda S: [("place", own(S, S.pn.o) == S.n1.o), ("not among the links so far", forall(lambda k: imp(And(1 <= k, k <= pos(S, S.pn.o)), l(S, "node", nb(S, S.n1.o, k)) != S.n2_num), pat=lambda k: [nb(S, S.n1.o, k)]))], decreases=lambda S: deg(S, S.n1.o) - pos(S, S.pn.o))}))
C.append(Contract(GF, "GetLink", requires=lambda S: nets(S) + [nodes(S, S.n1), ("there is such a link", And(S.w >= 1, S.w <= deg(S, S.n1.o), l(S, "node", nb(S, S.n1.o, S.w)) == S.n2))], ghost_params={"w": I},
    ensures=lambda S: [("the first link with this number", And(islink(S, S.result.o), own(S, S.result.o) == S.n1.o, S.result.node == S.n2, forall(lambda k: imp(And(1 <= k, k < pos(S, S.result.o)), l(S, "node", nb(S, S.n1.o, k)) != S.n2), pat=lambda k: [nb(S, S.n1.o, k)])))],
    loops={0: Loop(inv=lambda S: [("place", And(own(S, S.pn.o) == S.n1.o, pos(S, S.pn.o) < S.w)), ("not among the links so far", forall(lambda k: imp(And(1 <= k, k <= pos(S, S.pn.o)), l(S, "node", nb(S, S.n1.o, k)) != S.n2), pat=lambda k: [nb(S, S.n1.o, k)]))], decreases=lambda S: deg(S, S.n1.o) - pos(S, S.pn.o),
        hints=lambda S: [nb(S, S.n1.o, S.w) == nb(S, S.n1.o, S.w)])}))
C.append(Contract(GF, "GetNode", requires=lambda S: nets(S) + [head(S, S.p), ("there is such a node", And(S.w >= 1, S.w <= cnt(S, S.p.o), g(S, "num", at(S, S.p.o, S.w)) == S.num))], ghost_params={"w": I},
    ensures=lambda S: [("the first node with this number", And(isnode(S, S.result.o), net(S, S.result.o) == S.p.o, S.result.num == S.num, forall(lambda k: imp(And(1 <= k, k < ix(S, S.result.o)), g(S, "num", at(S, S.p.o, k)) != S.num), pat=lambda k: [at(S, S.p.o, k)])))],
    loops={0: Loop(inv=lambda S: [("place", And(net(S, S.p.o) == S.old.p.o, ix(S, S.p.o) < S.w)), ("not among the nodes so far", forall(lambda k: imp(And(1 <= k, k <= ix(S, S.p.o)), g(S, "num", at(S, S.old.p.o, k)) != S.num), pat=lambda k: [at(S, S.old.p.o, k)]))], decreases=lambda S: cnt(S, S.old.p.o) - ix(S, S.p.o))}))
C.append(Contract(GF, "ResetNodesState", requires=lambda S: nets(S) + [head(S, S.p)], modifies=["node_gra.state"],
    ensures=lambda S: [("every node of the network is reset, no other", forall(lambda x: g(S, "state", x) == If(And(net(S, x) == S.p.o, ix(S, x) >= 1), 0, g(S.old, "state", x)), pat=lambda x: [g(S, "state", x)]))],
    loops={0: Loop(inv=lambda S: [("place", net(S, S.p.o) == S.old.p.o), ("reset so far", forall(lambda x: g(S, "state", x) == If(And(net(S, x) == S.old.p.o, ix(S, x) >= 1, ix(S, x) <= ix(S, S.p.o)), 0, g(S.old, "state", x)), pat=lambda x: [g(S, "state", x)]))], decreases=lambda S: cnt(S, S.old.p.o) - ix(S, S.p.o))}))
def renum(S, hi): return ("renumbered so far", forall(lambda x: g(S, "num", x) == If(And(net(S, x) == S.net.o, ix(S, x) >= 1, ix(S, x) <= hi), ix(S, x) - 1, g(S.old, "num", x)), pat=lambda x: [g(S, "num", x)]))
C.append(Contract(GF, "RenumberNodes", requires=lambda S: base(S) + [head(S, S.net)], modifies=["node_gra.num", "node_lis.node"],
    ensures=lambda S: [numbered(S, S.net.o), linknums(S, S.net.o), ("other networks keep their numbers", And(same(S, "node_gra.num", lambda x: Or(net(S, x) != S.net.o, ix(S, x) == 0)), same(S, "node_lis.node", lambda c: Or(Not(islink(S, c)), net(S, own(S, c)) != S.net.o))))],
    loops={0: Loop(inv=lambda S: [("place", And(net(S, S.p.o) == S.net.o, S.count == ix(S, S.p.o))), renum(S, ix(S, S.p.o))], decreases=lambda S: cnt(S, S.net.o) - ix(S, S.p.o)),
           1: Loop(inv=lambda S: [("place", net(S, S.p.o) == S.net.o), ("links so far", forall(lambda c: imp(And(islink(S, c), net(S, own(S, c)) == S.net.o, ix(S, own(S, c)) <= ix(S, S.p.o)), l(S, "node", c) == g(S, "num", ref(S, c))), pat=lambda c: [l(S, "node", c)])),
               ("other links", same(S, "node_lis.node", lambda c: Or(Not(islink(S, c)), net(S, own(S, c)) != S.net.o)))], decreases=lambda S: cnt(S, S.net.o) - ix(S, S.p.o)),
           2: Loop(inv=lambda S: [("place", own(S, S.n.o) == S.p.o), ("links so far", forall(lambda c: imp(And(islink(S, c), net(S, own(S, c)) == S.net.o, Or(ix(S, own(S, c)) < ix(S, S.p.o), And(own(S, c) == S.p.o, pos(S, c) <= pos(S, S.n.o)))), l(S, "node", c) == g(S, "num", ref(S, c))), pat=lambda c: [l(S, "node", c)])),
               ("other links", same(S, "node_lis.node", lambda c: Or(Not(islink(S, c)), net(S, own(S, c)) != S.net.o)))], decreases=lambda S: deg(S, S.p.o) - pos(S, S.n.o))}))
# ---------------------------------------------------------------- changes
LF = ["node_lis." + f for f in ("node", "nodeLabel", "status", "ref", "btw")]
GROWN = ["node_gra.$deg", "node_gra.$nb", "node_gra.$lk", "node_lis.$own", "node_lis.$pos", "chr.$own"]
def okall(S): return base(S) + labels(S) + caches(S)
def st(S, h, o, v): return z3.Store(S.heap(h), o, v)
def cond_upd(S, c, ups): return {h: If(c, t, S.heap(h)) for h, t in ups.items()}
def add_new(S):
    """a link is created"""
    T = S.old; return And(lk(T, S.node1.o, S.node2.o) == 0, Or(S.node1.o != S.node2.o, S.auto_link_sw != 0))
def add_none(S): return And(S.node1.o == S.node2.o, S.auto_link_sw == 0)
def add_ghost(S):
    T = S.old; a, b = S.old.node1.o, S.old.node2.o; d = deg(T, a); c = l(S, "next", nb(T, a, d))
    return cond_upd(S, add_new(_V(S)), {"node_gra.$deg": st(S, "node_gra.$deg", a, d + 1), "node_gra.$nb": st(S, "node_gra.$nb", a, z3.Store(g(T, "$nb", a), d + 1, c)), "node_gra.$lk": st(S, "node_gra.$lk", a, z3.Store(g(T, "$lk", a), b, d + 1)),
        "node_lis.$own": st(S, "node_lis.$own", c, a), "node_lis.$pos": st(S, "node_lis.$pos", c, d + 1), "chr.$own": st(S, "chr.$own", l(S, "nodeLabel", c), c)})
class _V:
    """parameters as they were at entry, ghost state as it was at entry"""
    def __init__(s, S): s.old = S.old; s.node1, s.node2, s.auto_link_sw = S.old.node1, S.old.node2, S.old.auto_link_sw
def add_ens(S):
    T = S.old; a, b = S.node1.o, S.node2.o; d = deg(T, a); new = add_new(S); none = add_none(S); c = nb(S, a, d + 1); w = nb(T, a, lk(T, a, b))
    had = And(lk(T, a, b) != 0, Not(none))
    return okall(S) + [
        ("a node is not linked to itself unless allowed: nothing changes", imp(none, And(S.result == 0, deg(S, a) == d, lk(S, a, b) == lk(T, a, b)))),
        ("an existing link is not repeated", imp(had, And(S.result == If(S.add_weight_sw != 0, 1, 0), deg(S, a) == d, lk(S, a, b) == lk(T, a, b)))),
        ("a new link is appended", imp(new, And(S.result == 1, deg(S, a) == d + 1, lk(S, a, b) == d + 1, l(S, "weight", c) == S.weight, l(S, "status", c) == S.status, l(S, "node", c) == g(T, "num", b), Not(live(T, c)), own(T, c) == 0,
            text(S, l(S, "nodeLabel", c)) == text(T, g(T, "label", b)), Not(live(T, l(S, "nodeLabel", c)))))),
        ("weights", forall(lambda e: imp(Or(own(T, e) != 0, live(T, e)), l(S, "weight", e) == If(And(had, S.add_weight_sw != 0, e == w), l(T, "weight", e) + S.weight, l(T, "weight", e))), pat=lambda e: [l(S, "weight", e)])),
        ("links so far stay", forall(lambda k: imp(And(0 <= k, k <= d), nb(S, a, k) == nb(T, a, k)), pat=lambda k: [nb(S, a, k)])),
        ("other links of the node", forall(lambda y: imp(y != b, lk(S, a, y) == lk(T, a, y)), pat=lambda y: [lk(S, a, y)])),
        ("other nodes", And(*[same(S, "node_gra." + f, lambda o: o != a) for f in ("$deg", "$nb", "$lk")])),
        ("records", forall(lambda e: imp(Or(Not(new), e != c), And(own(S, e) == own(T, e), pos(S, e) == pos(T, e))), pat=lambda e: [own(S, e), pos(S, e)])),
        ("other records stay in place", forall(lambda e: imp(And(live(T, e), Or(Not(new), e != nb(T, a, d))), l(S, "next", e) == l(T, "next", e)), pat=lambda e: [l(S, "next", e)])),
        ("caches are cleared", And(forall(lambda x: g(S, "degree", x) == If(And(Not(none), Or(x == a, x == b)), 0, g(T, "degree", x)), pat=lambda x: [g(S, "degree", x)]), forall(lambda x: g(S, "strength", x) == If(And(Not(none), Or(x == a, x == b)), 0, g(T, "strength", x)), pat=lambda x: [g(S, "strength", x)]))),
        ("other texts", forall(lambda o: imp(live(T, o), S.f("chr.$own", o) == T.f("chr.$own", o)), pat=lambda o: [S.f("chr.$own", o)])),
    ]
C.append(Contract(GF, "AddAdjacency", requires=lambda S: okall(S) + [nodes(S, S.node1, S.node2), ("room for a link", deg(S, S.node1.o) < U30 - 1)], ensures=add_ens, ghost_exit=add_ghost,
    modifies=["node_gra.degree", "node_gra.strength", "node_lis.next", "node_lis.weight"] + GROWN, fresh=LF + [CH], allocs="grow",
    loops={0: Loop(inv=lambda S: [("place", own(S, S.adja.o) == S.node1.o), ("not among the links so far", Or(lk(S, S.node1.o, S.node2.o) == 0, lk(S, S.node1.o, S.node2.o) > pos(S, S.adja.o))), ("weights", S.heap("node_lis.weight") == S.old.heap("node_lis.weight"))], decreases=lambda S: deg(S, S.node1.o) - pos(S, S.adja.o))}))
def soft(S):
    """link lists whose entries carry labels but may lead nowhere yet"""
    return nets(S) + labels(S)
def lab(S, x, k): return text(S, l(S, "nodeLabel", nb(S, x, k)))
def soft_ghost(S):
    T = S.old; a = S.old.node1.o; d = deg(T, a); c = l(S, "next", nb(T, a, d)); new = c != 0
    return cond_upd(S, new, {"node_gra.$deg": st(S, "node_gra.$deg", a, d + 1), "node_gra.$nb": st(S, "node_gra.$nb", a, z3.Store(g(T, "$nb", a), d + 1, c)),
        "node_lis.$own": st(S, "node_lis.$own", c, a), "node_lis.$pos": st(S, "node_lis.$pos", c, d + 1), "chr.$own": st(S, "chr.$own", l(S, "nodeLabel", c), c)})
def soft_ens(S):
    T = S.old; a = S.node1.o; d = deg(T, a); t = text(T, S.node2Label.o); self_ = And(text(T, g(T, "label", a)) == t, S.auto_link_sw == 0); c = nb(S, a, d + 1); new = deg(S, a) == d + 1
    return soft(S) + [
        ("a node is not linked to itself unless allowed: nothing changes", imp(self_, And(S.result == 0, deg(S, a) == d))),
        ("an existing link is not repeated", imp(And(Not(self_), deg(S, a) == d), And(S.result == If(S.add_weight_sw != 0, 1, 0), exists(lambda e: And(islink(T, e), own(T, e) == a, text(T, l(T, "nodeLabel", e)) == t, l(S, "weight", e) == l(T, "weight", e) + If(S.add_weight_sw != 0, S.weight, z3.RealVal(0))))))),
        ("one link more, or none", Or(deg(S, a) == d, new)),
        ("a new link is appended, only for a new label", imp(new, And(S.result == 1, l(S, "weight", c) == S.weight, l(S, "status", c) == S.status, ref(S, c) == 0, lab(S, a, d + 1) == t, Not(live(T, c)), own(T, c) == 0, forall(lambda k: imp(And(1 <= k, k <= d), lab(T, a, k) != t), pat=lambda k: [nb(T, a, k)])))),
        ("weights of other links", forall(lambda e: imp(And(own(T, e) != 0, Or(own(T, e) != a, new, S.add_weight_sw == 0, text(T, l(T, "nodeLabel", e)) != t)), l(S, "weight", e) == l(T, "weight", e)), pat=lambda e: [l(S, "weight", e)])),
        ("links so far stay", forall(lambda k: imp(And(0 <= k, k <= d), nb(S, a, k) == nb(T, a, k)), pat=lambda k: [nb(S, a, k)])),
        ("other nodes", And(*[same(S, "node_gra." + f, lambda o: o != a) for f in ("$deg", "$nb")])),
        ("records", forall(lambda e: imp(Or(Not(new), e != c), And(own(S, e) == own(T, e), pos(S, e) == pos(T, e))), pat=lambda e: [own(S, e), pos(S, e)])),
        ("other texts", forall(lambda o: imp(live(T, o), And(S.f("chr.$own", o) == T.f("chr.$own", o), text(S, o) == text(T, o))), pat=lambda o: [S.f("chr.$own", o)])),
    ]
C.append(Contract(GF, "AddAdjacencySoft", requires=lambda S: soft(S) + [nodes(S, S.node1), ("room for a link", deg(S, S.node1.o) < U30 - 1), ("label", And(live(S, S.node2Label.o), c_slen(text(S, S.node2Label.o)) < 100))], ensures=soft_ens, ghost_exit=soft_ghost,
    modifies=["node_lis.next", "node_lis.weight"] + [h for h in GROWN if h != "node_gra.$lk"], fresh=LF + [CH], allocs="grow",
    loops={0: Loop(inv=lambda S: [("place", own(S, S.adja.o) == S.node1.o), ("not among the links so far", forall(lambda k: imp(And(1 <= k, k <= pos(S, S.adja.o)), lab(S, S.node1.o, k) != text(S, S.node2Label.o)), pat=lambda k: [nb(S, S.node1.o, k)])), ("weights", S.heap("node_lis.weight") == S.old.heap("node_lis.weight"))], decreases=lambda S: deg(S, S.node1.o) - pos(S, S.adja.o))}))
def copied_one(S, a, b, k): return And(lab(S, b, k) == lab(S, a, k), W(S, b, k) == W(S, a, k), l(S, "status", nb(S, b, k)) == l(S, "status", nb(S, a, k)), ref(S, nb(S, b, k)) == 0)
def copied(S, a, b, hi):
    """a: the node copied from, b: the copy"""
    return forall(lambda k: imp(And(1 <= k, k <= hi), copied_one(S, a, b, k)), pat=lambda k: [nb(S, b, k), nb(S, a, k)])
def copy_frame(S):
    T = S.old; b = S.ndes.o
    return [("other nodes", And(*[same(S, "node_gra." + f, lambda o: o != b) for f in ("$deg", "$nb")])), ("other links keep their weights", forall(lambda e: imp(And(own(T, e) != 0, own(T, e) != b), l(S, "weight", e) == l(T, "weight", e)), pat=lambda e: [l(S, "weight", e)])),
        ("other records", forall(lambda e: imp(And(own(T, e) != 0), And(own(S, e) == own(T, e), pos(S, e) == pos(T, e))), pat=lambda e: [own(S, e), pos(S, e)])),
        ("other texts", forall(lambda o: imp(live(T, o), And(live(S, o), S.f("chr.$own", o) == T.f("chr.$own", o), text(S, o) == text(T, o))), pat=lambda o: [S.f("chr.$own", o)]))]
C.append(Contract(GF, "CopyAdjacencyList", requires=lambda S: soft(S) + [nodes(S, S.nori, S.ndes), ("a node and its copy, which has no links yet", And(S.nori.o != S.ndes.o, deg(S, S.ndes.o) == 0)),
        ("short labels", forall(lambda c: imp(And(islink(S, c), own(S, c) == S.nori.o), c_slen(text(S, l(S, "nodeLabel", c))) < 100), pat=lambda c: [l(S, "nodeLabel", c)])),
        ("links have different labels", forall(lambda c, d: imp(And(islink(S, c), islink(S, d), own(S, c) == S.nori.o, own(S, d) == S.nori.o, c != d), text(S, l(S, "nodeLabel", c)) != text(S, l(S, "nodeLabel", d))), pat=lambda c, d: [z3.MultiPattern(l(S, "nodeLabel", c), l(S, "nodeLabel", d))]))],
    ensures=lambda S: soft(S) + [("the same number of links", deg(S, S.ndes.o) == deg(S, S.nori.o)), ("the same links in the same order, leading nowhere yet", copied(S, S.nori.o, S.ndes.o, deg(S, S.nori.o)))] + copy_frame(S),
    modifies=["node_lis.next", "node_lis.weight"] + [h for h in GROWN if h != "node_gra.$lk"], fresh=LF + [CH], allocs="grow",
    loops={0: Loop(inv=lambda S: soft(S) + [("place", own(S, S.pori.o) == S.nori.o), ("copied so far", And(deg(S, S.ndes.o) == pos(S, S.pori.o), copied(S, S.nori.o, S.ndes.o, pos(S, S.pori.o))))] + copy_frame(S), decreases=lambda S: deg(S, S.nori.o) - pos(S, S.pori.o),
        hints=lambda S: (lambda a, b, j: [("labels of the links", imp(j < deg(S, a), forall(lambda k: imp(And(1 <= k, k <= j), lab(S, a, k) != lab(S, a, j + 1)), pat=lambda k: [nb(S, a, k)]))), ("not copied yet", imp(j < deg(S, a), forall(lambda e: imp(And(islink(S, e), own(S, e) == b), text(S, l(S, "nodeLabel", e)) != lab(S, a, j + 1)), pat=lambda e: [own(S, e)])))])(S.nori.o, S.ndes.o, pos(S, S.pori.o)),
        hints_end=lambda S: [("one link more", deg(S, S.ndes.o) == pos(S, S.pori.o)), ("this one", copied_one(S, S.nori.o, S.ndes.o, pos(S, S.pori.o))), ("the earlier ones", copied(S, S.nori.o, S.ndes.o, pos(S, S.pori.o) - 1))])}))
def rem_ghost(S):
    T = S.old; a, b = T.n1.o, T.n2.o; both = And(T.symmetric_sw != 0, a != b); ra, rb = lk(T, a, b), lk(T, b, a); ca, cb = nb(T, a, ra), nb(T, b, rb)
    sh = lambda x, r: (lambda k: If(k < r, nb(T, x, k), nb(T, x, k + 1)))
    lkn = lambda x, y0, r: (lambda y: If(y == y0, 0, If(lk(T, x, y) > r, lk(T, x, y) - 1, lk(T, x, y))))
    tr = z3.BoolVal(True)
    return {"node_gra.$nb": [(a, tr, sh(a, ra)), (b, both, sh(b, rb))], "node_gra.$lk": [(a, tr, lkn(a, b, ra)), (b, both, lkn(b, a, rb))],
        "node_gra.$deg": If(both, z3.Store(z3.Store(S.heap("node_gra.$deg"), a, deg(T, a) - 1), b, deg(T, b) - 1), z3.Store(S.heap("node_gra.$deg"), a, deg(T, a) - 1)),
        "node_lis.$own": If(both, z3.Store(z3.Store(S.heap("node_lis.$own"), ca, 0), cb, 0), z3.Store(S.heap("node_lis.$own"), ca, 0)),
        "node_lis.$pos": lambda c: If(Or(And(own(T, c) == a, pos(T, c) > ra), And(both, own(T, c) == b, pos(T, c) > rb)), pos(T, c) - 1, pos(T, c))}
def rem_ens(S):
    T = S.old; a, b = S.n1.o, S.n2.o; both = And(S.symmetric_sw != 0, a != b); ca, cb = nb(T, a, lk(T, a, b)), nb(T, b, lk(T, b, a))
    gone = lambda c: Or(c == ca, And(both, c == cb))
    return okall(S) + [
        ("the link is gone", And(lk(S, a, b) == 0, deg(S, a) == deg(T, a) - 1, imp(both, And(lk(S, b, a) == 0, deg(S, b) == deg(T, b) - 1)), imp(And(Not(both), a != b), deg(S, b) == deg(T, b)))),
        ("every other link stays", forall(lambda x, y: imp(And(isnode(S, x), Not(And(x == a, y == b)), Not(And(both, x == b, y == a))), (lk(S, x, y) != 0) == (lk(T, x, y) != 0)), pat=lambda x, y: [lk(S, x, y)])),
        ("records of the other links stay", forall(lambda c: own(S, c) == If(gone(c), 0, own(T, c)), pat=lambda c: [own(S, c)])),
        ("later links move up one place", forall(lambda c: pos(S, c) == If(Or(And(own(T, c) == a, pos(T, c) > lk(T, a, b)), And(both, own(T, c) == b, pos(T, c) > lk(T, b, a))), pos(T, c) - 1, pos(T, c)), pat=lambda c: [pos(S, c)])),
        ("other nodes", And(same(S, "node_gra.$deg", lambda o: And(o != a, o != b)), same(S, "node_gra.$nb", lambda o: And(o != a, o != b)), same(S, "node_gra.$lk", lambda o: And(o != a, o != b)))),
        ("caches are cleared", And(forall(lambda x: g(S, "degree", x) == If(Or(x == a, x == b), 0, g(T, "degree", x)), pat=lambda x: [g(S, "degree", x)]), forall(lambda x: g(S, "strength", x) == If(Or(x == a, x == b), 0, g(T, "strength", x)), pat=lambda x: [g(S, "strength", x)]))),
        ("exactly the records of the link are released", forall(lambda o: live(S, o) == And(live(T, o), Not(gone(o)), o != l(T, "nodeLabel", ca), Not(And(both, o == l(T, "nodeLabel", cb)))), pat=lambda o: [live(S, o)])),
    ]
C.append(Contract(GF, "RemoveLink", requires=lambda S: okall(S) + [nodes(S, S.n1, S.n2), ("the link is there", And(lk(S, S.n1.o, S.n2.o) != 0, imp(S.symmetric_sw != 0, lk(S, S.n2.o, S.n1.o) != 0)))], ensures=rem_ens, ghost_exit=rem_ghost,
    modifies=["node_gra.degree", "node_gra.strength", "node_lis.next"] + GROWN[:5], allocs="free",
    loops={0: Loop(inv=lambda S: [("place", And(own(S, S.nn1.o) == S.n1.o, pos(S, S.nn1.o) < lk(S, S.n1.o, S.n2.o)))], decreases=lambda S: deg(S, S.n1.o) - pos(S, S.nn1.o)),
           1: Loop(inv=lambda S: [("place", And(own(S, S.nn2.o) == S.n2.o, pos(S, S.nn2.o) < lk(S, S.n2.o, S.n1.o)))], decreases=lambda S: deg(S, S.n2.o) - pos(S, S.nn2.o))}))
def hdr_ghost(S):
    h = S.temp.o
    return {"node_gra.$net": st(S, "node_gra.$net", h, h), "node_gra.$ix": st(S, "node_gra.$ix", h, 0), "node_gra.$cnt": st(S, "node_gra.$cnt", h, 0), "node_gra.$at": st(S, "node_gra.$at", h, z3.Store(g(S, "$at", h), 0, h))}
NODEF = ["node_gra." + f for f in ("label", "num", "coorX", "coorY", "coorZ", "state", "neig", "inGroup", "ivar1", "dvar1", "trans", "degree", "strength")]
NETG = ["node_gra.$net", "node_gra.$ix", "node_gra.$cnt", "node_gra.$at"]
C.append(Contract(GF, "CreateHeaderGraph", requires=okall, ghost_exit=hdr_ghost, modifies=NETG, fresh=NODEF + ["node_gra.next"], allocs="grow",
    ensures=lambda S: okall(S) + [("a new empty network", And(ishead(S, S.result.o), cnt(S, S.result.o) == 0, is_new(S, S.result.o), S.result.num == -1)),
        ("other networks", And(*[same(S, h, lambda o: o != S.result.o) for h in NETG])), ("nothing else is allocated", forall(lambda o: imp(o != S.result.o, live(S, o) == live(S.old, o)), pat=lambda o: [live(S, o)]))]))
def node_ghost(S):
    T = S.old; h = net(T, T.p.o); k = cnt(T, h); last = at(T, h, k); x = g(S, "next", last); c = g(S, "neig", x)
    return {"node_gra.$net": st(S, "node_gra.$net", x, h), "node_gra.$ix": st(S, "node_gra.$ix", x, k + 1), "node_gra.$cnt": st(S, "node_gra.$cnt", h, k + 1), "node_gra.$at": st(S, "node_gra.$at", h, z3.Store(g(T, "$at", h), k + 1, x)),
        "node_gra.$deg": st(S, "node_gra.$deg", x, 0), "node_gra.$nb": st(S, "node_gra.$nb", x, z3.Store(g(S, "$nb", x), 0, c)), "node_gra.$lk": st(S, "node_gra.$lk", x, z3.K(I, z3.IntVal(0))),
        "node_lis.$own": st(S, "node_lis.$own", c, x), "node_lis.$pos": st(S, "node_lis.$pos", c, 0), "chr.$own": st(S, "chr.$own", g(S, "label", x), x)}
def node_ens(S):
    T = S.old; h = net(T, S.p.o); k = cnt(T, h); x = S.result.o
    return okall(S) + [
        ("a new node at the end", And(isnode(S, x), net(S, x) == h, cnt(S, h) == k + 1, at(S, h, k + 1) == x, deg(S, x) == 0, S.result.num == g(T, "num", at(T, h, k)) + 1, is_new(S, x), S.result.state == 0, S.result.inGroup == -1, S.result.degree == 0, S.result.strength == 0)),
        ("other places", same(S, "node_gra.next", lambda o: And(o != x, o != at(T, h, k)))), ("storage of its own", And(Not(live(T, g(S, "label", x))), Not(live(T, nb(S, x, 0))))), ("link records stay", And(same(S, "node_lis.next", lambda o: live(T, o)), same(S, "node_lis.weight", lambda o: live(T, o)))),
        ("its label", text(S, g(S, "label", x)) == text(T, S.label.o)), ("no links from it", forall(lambda y: lk(S, x, y) == 0, pat=lambda y: [lk(S, x, y)])), ("no links to it", forall(lambda y: imp(isnode(S, y), lk(S, y, x) == 0), pat=lambda y: [lk(S, y, x)])),
        ("the other nodes stay in place", forall(lambda j: imp(And(0 <= j, j <= k), at(S, h, j) == at(T, h, j)), pat=lambda j: [at(S, h, j)])),
        ("other nodes and networks", And(same(S, "node_gra.$net", lambda o: o != x), same(S, "node_gra.$ix", lambda o: o != x), same(S, "node_gra.$cnt", lambda o: o != h), same(S, "node_gra.$at", lambda o: o != h), same(S, "node_gra.$deg", lambda o: o != x), same(S, "node_gra.$nb", lambda o: o != x), same(S, "node_gra.$lk", lambda o: o != x),
            forall(lambda c: imp(live(T, c), And(own(S, c) == own(T, c), pos(S, c) == pos(T, c))), pat=lambda c: [own(S, c), pos(S, c)]), forall(lambda c: imp(islink(S, c), islink(T, c)), pat=lambda c: [own(S, c)]))),
        ("other texts", forall(lambda o: imp(live(T, o), S.f("chr.$own", o) == T.f("chr.$own", o)), pat=lambda o: [S.f("chr.$own", o)])),
    ]
C.append(Contract(GF, "CreateNodeGraph", requires=lambda S: okall(S) + [("a place in a network", net(S, S.p.o) != 0), ("room for a node", And(cnt(S, net(S, S.p.o)) < U30 - 1, g(S, "num", at(S, net(S, S.p.o), cnt(S, net(S, S.p.o)))) < U31 - 1)), ("label", And(live(S, S.label.o), c_slen(text(S, S.label.o)) < 100))],
    ensures=node_ens, ghost_exit=node_ghost, modifies=["node_gra.next"] + NETG + GROWN, fresh=NODEF + LF + ["node_lis.next", "node_lis.weight", CH], allocs="grow",
    loops={0: Loop(inv=lambda S: [("place", net(S, S.p.o) == net(S, S.old.p.o))], decreases=lambda S: cnt(S, net(S, S.p.o)) - ix(S, S.p.o))}))
CONTRACTS = C
PROPS = {"C12": ["AddAdjacency", "RemoveLink", "IsThereLink", "IsThereLinkSoft", "GetLink", "NodeDegree", "NodeStrength"],
    "C13": ["CountNodes", "TotalNLinks", "RenumberNodes", "CreateHeaderGraph", "CreateNodeGraph", "GetNode", "AddAdjacencySoft", "CopyAdjacencyList"],
    "C14": ["CountNodes", "ResetNodesState", "GetNode", "CreateHeaderGraph", "CreateNodeGraph"]}
