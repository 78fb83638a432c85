"""Moving, merging and compressing groups; modularity, roles and agreement of partitions (src/modules.c)"""
import z3
from vc import Contract, Loop, uf, CH, TAG, type_id
from spec import *
from partition2_c import live, is_new
from graph_c import *
from graph_c import st
from modules_c import *
from modules_c import keep
C = []
def ToR(x): return z3.ToReal(x)
# ---------------------------------------------------------------- moving
MOVED = ["group.size", "node_lis.next", "node_gra.inGroup"] + MEMG
def onto(S, T, a, b, x, r):
    """member x (at place r) of a moved to the end of b"""
    d = sz(T, b)
    return [("one member fewer, one more", And(sz(S, a) == sz(T, a) - 1, sz(S, b) == d + 1, inn(S, a, x) == 0, inn(S, b, x) == d + 1, ref(S, mem(S, b, d + 1)) == x)),
        ("the other members stay, in order", And(forall(lambda k: imp(And(1 <= k, k <= sz(S, a)), ref(S, mem(S, a, k)) == ref(T, mem(T, a, If(k < r, k, k + 1)))), pat=lambda k: [mem(S, a, k)]),
            forall(lambda k: imp(And(1 <= k, k <= d), ref(S, mem(S, b, k)) == ref(T, mem(T, b, k))), pat=lambda k: [mem(S, b, k)])))]
def moved(counts):
    def en(S):
        T = S.old; a, b, x = S._var("old").o, S.new.o, S.node.o; r = inn(T, a, x); had = r != 0
        e = okpart(S) + [("answers whether the node was a member", S.result == If(had, 1, 0))]
        e += [(n, imp(had, f)) for n, f in onto(S, T, a, b, x, r)]
        e += [("the heads stay", And(mem(S, a, 0) == mem(T, a, 0), mem(S, b, 0) == mem(T, b, 0))),
            ("nothing moves otherwise", imp(Not(had), And(sz(S, a) == sz(T, a), sz(S, b) == sz(T, b), forall(lambda k: imp(And(1 <= k, k <= sz(T, a)), mem(S, a, k) == mem(T, a, k)), pat=lambda k: [mem(S, a, k)]), forall(lambda k: imp(And(1 <= k, k <= sz(T, b)), mem(S, b, k) == mem(T, b, k)), pat=lambda k: [mem(S, b, k)])))),
            ("the other nodes stay members or not", forall(lambda y: imp(y != x, And((inn(S, a, y) != 0) == (inn(T, a, y) != 0), inn(S, b, y) == inn(T, b, y))), pat=lambda y: [inn(S, a, y), inn(S, b, y)])),
            ("records still in the old group", forall(lambda k: imp(And(1 <= k, k <= sz(S, a)), mem(S, a, k) == mem(T, a, If(And(had, k >= r), k + 1, k))), pat=lambda k: [mem(S, a, k)])),
            ("only the member's record is released", forall(lambda o: imp(And(live(T, o), Not(moved_record(T, o))), live(S, o)), pat=lambda o: [live(S, o)])),
            ("other groups", And(*[same(S, h, lambda o: And(o != a, o != b)) for h in ("group.$sz", "group.$mem", "group.$in", "group.size")])),
            ("records of other groups stay", forall(lambda d: imp(And(gown(T, d) != 0, gown(T, d) != a), gown(S, d) == gown(T, d)), pat=lambda d: [gown(S, d)])),
            ("the node names its new group, other nodes keep theirs", forall(lambda y: g(S, "inGroup", y) == If(And(had, y == x), q(T, "label", b), g(T, "inGroup", y)), pat=lambda y: [g(S, "inGroup", y)]))]
        if counts: e += [("counts of other groups", And(*[same(S, h, lambda o: And(o != a, o != b)) for h in COUNTS])), ("other strengths", same(S, "node_gra.strength", lambda o: o != x)), ("cached strength", strength_cached(S, x))]
        return e
    return en
def move(name, counts):
    return Contract(MF, name, requires=lambda S: okpart(S) + [grp(S, S._var("old"), S.new), nodes(S, S.node), hard(S, S._var("old")), ("two groups", S._var("old").o != S.new.o), ("not in the new group yet", inn(S, S.new.o, S.node.o) == 0), ("room for a member", sz(S, S.new.o) < U30 - 1)] + ([("cached strength", strength_cached(S, S.node.o))] if counts else []),
        ensures=moved(counts), modifies=MOVED + (COUNTS + ["node_gra.degree", "node_gra.strength"] if counts else []), fresh=LF + ["node_lis.weight", CH], allocs="any", reuse=moved_record, opts=dict(overflow=False) if counts else {})
def moved_record(S, o): c = mem(S, S._var("old").o, inn(S, S._var("old").o, S.node.o)); return And(inn(S, S._var("old").o, S.node.o) != 0, Or(o == c, o == l(S, "nodeLabel", c)))
C += [move("MoveNode", True), move("MoveNodeFast", False)]
# ---------------------------------------------------------------- merging
def rec_of(T, a, c): return And(gown(T, c) == a, gpos(T, c) >= 1)
def merged_record(S, o): return Or(rec_of(S, S.g1.o, o), And(TAG(o) == type_id(CHT), rec_of(S, S.g1.o, S.f("chr.$own", o)), l(S, "nodeLabel", S.f("chr.$own", o)) == o))
KEPT = ["node_lis." + f for f in ("ref", "node", "nodeLabel", "status", "btw", "weight")] + [CH, "$len"]
def merging(S, T, a, b, counts):
    d, n = sz(T, b), sz(T, a); j = n - sz(S, a)
    return [("records still to move", forall(lambda k: imp(And(1 <= k, k <= sz(S, a)), And(mem(S, a, k) == mem(T, a, k + j), l(S, "nodeLabel", mem(S, a, k)) == l(T, "nodeLabel", mem(T, a, k + j)))), pat=lambda k: [mem(S, a, k)])), ("how far", And(0 <= sz(S, a), sz(S, a) <= n, sz(S, b) == d + j)),
        ("members still to move", forall(lambda k: imp(And(1 <= k, k <= sz(S, a)), ref(S, mem(S, a, k)) == ref(T, mem(T, a, k + j))), pat=lambda k: [mem(S, a, k)])),
        ("the members there were stay first", forall(lambda k: imp(And(1 <= k, k <= d), ref(S, mem(S, b, k)) == ref(T, mem(T, b, k))), pat=lambda k: [mem(S, b, k)])),
        ("then come the moved ones, in order", forall(lambda k: imp(And(d < k, k <= d + j), ref(S, mem(S, b, k)) == ref(T, mem(T, a, k - d))), pat=lambda k: [mem(S, b, k)])),
        ("who names which group", forall(lambda y: g(S, "inGroup", y) == If(And(inn(T, a, y) != 0, inn(T, a, y) <= j), q(T, "label", b), g(T, "inGroup", y)), pat=lambda y: [g(S, "inGroup", y)])),
        ("only records of its members are released", forall(lambda o: imp(And(live(T, o), Not(merged_record(T, o))), live(S, o)), pat=lambda o: [live(S, o)])),
        ("other groups", And(*[same(S, h, lambda o: And(o != a, o != b), T) for h in ["group.$sz", "group.$mem", "group.$in", "group.size"] + (COUNTS if counts else [])])),
        ("records of other groups stay", forall(lambda c: imp(And(gown(T, c) != 0, gown(T, c) != a), gown(S, c) == gown(T, c)), pat=lambda c: [gown(S, c)]))]
def disjoint(S, a, b): return ("no node is in both groups", forall(lambda x: imp(inn(S, a, x) != 0, inn(S, b, x) == 0), pat=lambda x: [inn(S, a, x)]))
def allcached(S): return ("cached strengths", forall(lambda x: imp(isnode(S, x), strength_cached(S, x)), pat=lambda x: [g(S, "strength", x)]))
def merge(name, counts):
    def inv(S):
        T = S.old; a, b = T.g1.o, T.g2.o
        return okpart(S) + [("place", S.p.o == mem(S, a, 0)), hard(S, S.bind(T.g1)), disjoint(S, a, b)] + merging(S, T, a, b, counts) + ([allcached(S)] if counts else []) + \
            [("kept: " + h, forall(lambda o: imp(And(live(T, o), live(S, o), Not(merged_record(T, o))), S.f(h, o) == T.f(h, o)), pat=lambda o: [S.f(h, o)])) for h in KEPT]
    return Contract(MF, name, requires=lambda S: okpart(S) + [grp(S, S.g1, S.g2), hard(S, S.g1), ("two groups", S.g1.o != S.g2.o), disjoint(S, S.g1.o, S.g2.o), ("room for the members", sz(S, S.g1.o) + sz(S, S.g2.o) < U30)] + ([allcached(S)] if counts else []),
        ensures=lambda S: okpart(S) + [("the first group is left empty", And(sz(S, S.g1.o) == 0, S.g1.size == 0))] + merging(S, S.old, S.g1.o, S.g2.o, counts) + ([allcached(S)] if counts else []),
        modifies=MOVED + (COUNTS + ["node_gra.degree", "node_gra.strength"] if counts else []), fresh=LF + ["node_lis.weight", CH], allocs="any", reuse=merged_record, opts=dict(overflow=False) if counts else {},
        loops={0: Loop(inv=inv, decreases=lambda S: sz(S, S.old.g1.o), hints=lambda S: [("this one", imp(sz(S, S.old.g1.o) > 0, And(inn(S, S.old.g1.o, ref(S, mem(S, S.old.g1.o, 1))) == 1, inn(S.old, S.old.g1.o, ref(S, mem(S, S.old.g1.o, 1))) == sz(S.old, S.old.g1.o) - sz(S, S.old.g1.o) + 1)))])})
C += [merge("MergeGroups", True), merge("MergeGroupsFast", False)]
C.append(Contract(GF, "FreeNodeLis", requires=lambda S: [("a record", S.p.alloc()), ("its label", Or(S.p.nodeLabel.o == 0, And(S.p.nodeLabel.alloc(), S.p.nodeLabel.off == 0))), ("two blocks", S.p.o != S.p.nodeLabel.o)],
    ensures=lambda S: [("the record and its label are released", forall(lambda o: live(S, o) == And(live(S.old, o), o != S.p.o, o != l(S, "nodeLabel", S.p.o)), pat=lambda o: [live(S, o)]))], allocs="free"))
# ---------------------------------------------------------------- dropping empty groups
def emptyhead(S, o): return And(gown(S, o) != 0, gpos(S, o) == 0, sz(S, gown(S, o)) == 0)
def dropped(S, T, h, k0):
    """the groups at the first k0 places (of the current list) have been looked at"""
    d = gcnt(T, h) - gcnt(S, h)
    kept_ = lambda x: And(part(T, x) == h, gix(T, x) >= 1, Or(sz(T, x) != 0, gix(T, x) > k0 + d))
    return [("groups not empty stay, empty ones leave the list", forall(lambda x: imp(And(part(T, x) == h, gix(T, x) >= 1), part(S, x) == If(kept_(x), h, 0)), pat=lambda x: [part(S, x), part(T, x)])),
        ("other partitions", forall(lambda x: imp(Or(part(T, x) != h, gix(T, x) == 0), And(part(S, x) == part(T, x), gix(S, x) == gix(T, x))), pat=lambda x: [part(S, x), gix(S, x)])),
        ("the order stays", forall(lambda i, j: imp(And(1 <= i, i < j, j <= gcnt(S, h)), gix(T, gat(S, h, i)) < gix(T, gat(S, h, j))), pat=lambda i, j: [(gat(S, h, i), gat(S, h, j))])),
        ("places not looked at", And(d >= 0, forall(lambda x: imp(And(part(T, x) == h, gix(T, x) > k0 + d), gix(S, x) == gix(T, x) - d), pat=lambda x: [gix(S, x), gix(T, x)]))),
        ("list counts of others", And(same(S, "group.$gcnt", lambda o: o != h, T), same(S, "group.$gat", lambda o: o != h, T))),
        ("records of groups that stay", forall(lambda c: imp(gown(T, c) != 0, gown(S, c) == If(part(S, gown(T, c)) == 0, 0, gown(T, c))), pat=lambda c: [gown(S, c)])),
        ("exactly the empty groups are released", forall(lambda o: live(S, o) == And(live(T, o), Not(And(part(T, o) == h, part(S, o) == 0)), Not(And(gown(T, o) != 0, gown(S, o) == 0))), pat=lambda o: [live(S, o)]))]
def drop_step(S):
    T = S; h = S.old.part.o; k = gix(T, S.g1.o); x = gat(T, h, k + 1); tr = And(k < gcnt(T, h), q(T, "size", x) == 0); c = mem(T, x, 0)
    return tr, h, k, x, c
def comp_ghost(S):
    """S: after the iteration; the state before it is S.I0"""
    T = S.I0; h = S.old.part.o; k = gix(T, T.g1.o); x = gat(T, h, k + 1); tr = sz(T, x) == 0; c = mem(T, x, 0)
    f = lambda o: And(tr, part(T, o) == h, gix(T, o) > k + 1)
    return {"group.$part": If(tr, st(S, "group.$part", x, 0), S.heap("group.$part")), "group.$gix": lambda o: If(And(tr, o == x), 0, If(f(o), gix(T, o) - 1, gix(T, o))),
        "group.$gcnt": If(tr, st(S, "group.$gcnt", h, gcnt(T, h) - 1), S.heap("group.$gcnt")), "group.$gat": [(h, tr, lambda j: If(j <= k, gat(T, h, j), gat(T, h, j + 1)))],
        "node_lis.$gown": If(tr, st(S, "node_lis.$gown", c, 0), S.heap("node_lis.$gown"))}
C.append(Contract(MF, "CompressPart", requires=lambda S: okpart(S) + [phead(S, S.part)], modifies=["group.next"] + PARTG + ["node_lis.$gown"], allocs="free",
    ensures=lambda S: okpart(S) + [("the partition is returned", S.result.o == S.part.o), ("no group is empty", forall(lambda k: imp(And(1 <= k, k <= gcnt(S, S.part.o)), sz(S, gat(S, S.part.o, k)) != 0), pat=lambda k: [gat(S, S.part.o, k)]))] + dropped(S, S.old, S.part.o, gcnt(S, S.part.o)),
    loops={0: Loop(inv=lambda S: okpart(S) + [("place", part(S, S.g1.o) == S.part.o), ("no empty group so far", forall(lambda k: imp(And(1 <= k, k <= gix(S, S.g1.o)), sz(S, gat(S, S.part.o, k)) != 0), pat=lambda k: [gat(S, S.part.o, k)]))] + dropped(S, S.old, S.part.o, gix(S, S.g1.o)),
        decreases=lambda S: gcnt(S, S.part.o) - gix(S, S.g1.o), ghost=comp_ghost, gkeys=PARTG + ["node_lis.$gown"])}))
C15 = [c.name for c in C]
# ---------------------------------------------------------------- modularity
def at2(S, x): return q(S, "totlinks", x) + q(S, "inlinks", x)
def at2w(S, x): return q(S, "totlinksW", x) + q(S, "inlinksW", x)
def L2(S, h, hi): return SumI(1, hi, lambda k: at2(S, gat(S, h, k)))
def L2w(S, h, hi): return SumR(1, hi, lambda k: at2w(S, gat(S, h, k)))
def qterm(S, x, L): return ToR(2 * q(S, "inlinks", x)) / ToR(L) - (ToR(at2(S, x)) * ToR(at2(S, x))) / (ToR(L) * ToR(L))
def qtermw(S, x, L): return 2 * q(S, "inlinksW", x) / L - (at2w(S, x) * at2w(S, x)) / (L * L)
def modul(name, L, term, what):
    tot = lambda S: L(S, S.old.part.o, gcnt(S, S.old.part.o) + 1)
    hold = lambda S, hi: SumR(1, hi, lambda k: opaque(lambda k: term(S, gat(S, S.old.part.o, k), tot(S)), k))
    tt = lambda S: (lambda k: term(S, gat(S, S.old.part.o, k), tot(S)))
    return Contract(MF, name, requires=lambda S: glists(S) + [phead(S, S.part), ("there are links", L(S, S.part.o, gcnt(S, S.part.o) + 1) != 0)], opts=dict(overflow=False),
        ensures=lambda S: [("the sum over the groups of the share of links inside minus the square of the share of link ends", S.result == hold(S, gcnt(S, S.part.o) + 1))],
        loops={0: Loop(inv=lambda S: [("place", part(S, S.g.o) == S.part.o), ("link ends so far", S.links2 == L(S, S.part.o, gix(S, S.g.o) + 1))], decreases=lambda S: gcnt(S, S.part.o) - gix(S, S.g.o), exit_hints=lambda S: [("not zero", S.links2 != 0)]),
            1: Loop(inv=lambda S: [("place", part(S, S.g.o) == S.part.o), ("all link ends", S.links2 == tot(S)), ("not zero", S.links2 != 0), ("summed so far", S.modul == hold(S, gix(S, S.g.o) + 1))], decreases=lambda S: gcnt(S, S.part.o) - gix(S, S.g.o), hints=lambda S: [reveal(tt(S), gix(S, S.g.o) + 1)])})
C += [modul("Modularity", L2, qterm, ""), modul("ModularityWeight", L2w, qtermw, "")]
# ---------------------------------------------------------------- roles
def share(S, x, k): return ToR(nto(S, x, g(S, "inGroup", ref(S, nb(S, x, k))))) / (ToR(deg(S, x)) * ToR(deg(S, x)))
def shr(T): return lambda k: share(T, T.node.o, k)
def pcoef(S, x, hi): return SumR(1, hi, lambda k: opaque(shr(S), k))
C.append(Contract(MF, "ParticipationCoefficient", requires=lambda S: base(S) + caches(S) + [nodes(S, S.node)], modifies=["node_gra.degree"],
    ensures=lambda S: [("one minus the sum of the squared shares of its links (each link contributes the share of its group over the number of links)", S.result == If(deg(S, S.node.o) == 0, z3.RealVal(0), 1 - pcoef(S.old, S.node.o, deg(S.old, S.node.o) + 1)))] + caches(S),
    loops={0: Loop(inv=lambda S: [("place", own(S, S.nei.o) == S.node.o), ("links", And(S.nlink == deg(S, S.node.o), S.nlink != 0)), ("summed so far", S.P == pcoef(S.old, S.node.o, pos(S, S.nei.o) + 1))], decreases=lambda S: deg(S, S.node.o) - pos(S, S.nei.o), hints=lambda S: [reveal(shr(S.old), pos(S, S.nei.o) + 1)])}))
def wshare(S, x, h, k): return (wto(S, x, q(S, "label", gat(S, h, k))) * wto(S, x, q(S, "label", gat(S, h, k)))) / (wsum(S, x) * wsum(S, x))
def wshr(T): return lambda k: wshare(T, T.node.o, T.part.o, k)
def wpcoef(S, hi): return SumR(1, hi, lambda k: opaque(wshr(S), k))
C.append(Contract(MF, "WeightedParticipationCoefficient", requires=lambda S: base(S) + glists(S) + caches(S) + [nodes(S, S.node), phead(S, S.part), ("cached strength", strength_cached(S, S.node.o)), ("a node with links has strength", Or(deg(S, S.node.o) == 0, wsum(S, S.node.o) != 0))], modifies=["node_gra.degree", "node_gra.strength"],
    ensures=lambda S: [("one minus the sum over the groups of the squared share of the link weight", S.result == If(deg(S, S.node.o) == 0, z3.RealVal(0), 1 - wpcoef(S.old, gcnt(S, S.part.o) + 1)))] + caches(S),
    call_hints={"NodeStrength/after": lambda S, c: [("strength", c.result == wsum(S.old, S.node.o)), ("strength is not zero", imp(deg(S, S.node.o) != 0, c.result != 0))],
        "StrengthToGroup/after": lambda S, c: [reveal(wshr(S.old), gix(S, S.group.o)), ("this group", And(c.result == wto(S.old, S.node.o, q(S, "label", S.group.o)), gat(S, S.part.o, gix(S, S.group.o)) == S.group.o)), ("its share", opaque(wshr(S.old), gix(S, S.group.o)) == c.result * c.result / S.squared_st)]},
    loops={0: Loop(inv=lambda S: [("place", part(S, S.group.o) == S.part.o), ("strength", S.squared_st == wsum(S.old, S.node.o) * wsum(S.old, S.node.o)), ("not zero", And(S.squared_st != 0, S.nlink != 0, S.nlink == deg(S, S.node.o))), ("summed so far", S.P == wpcoef(S.old, gix(S, S.group.o) + 1))], decreases=lambda S: gcnt(S, S.part.o) - gix(S, S.group.o), hints=lambda S: [reveal(wshr(S.old), gix(S, S.group.o) + 1)])}))
def inner(name, per, conv, acc, clamp):
    x = lambda T, k: conv(per(T, ref(T, mem(T, GR(T), k)), g(T, "inGroup", T.node.o)))
    GR = lambda T: gat(T, T.part.o, T.where)
    f1 = lambda T: (lambda k: x(T, k)); f2 = lambda T: (lambda k: x(T, k) * x(T, k))
    s1 = lambda T, hi: SumR(1, hi, lambda k: opaque(f1(T), k)); s2 = lambda T, hi: SumR(1, hi, lambda k: opaque(f2(T), k))
    def ens(S):
        T = S.old; n = sz(T, GR(T)); mu = s1(T, n + 1) / ToR(n); m2 = s2(T, n + 1) / ToR(n); var = m2 - mu * mu
        sd = If(var > 0, uf["sqrt"](var), 0) if clamp else uf["sqrt"](var)
        return [("how far the node is from the mean of its group, in standard deviations (zero if all are the same)", S.result == If(sd == 0, z3.RealVal(0), (conv(per(T, T.node.o, g(T, "inGroup", T.node.o))) - mu) / sd))]
    return Contract(MF, name, ghost_params={"where": I}, requires=lambda S: base(S) + glists(S) + mlists(S) + refs(S) + [nodes(S, S.node), phead(S, S.part), ("the group of the node", And(0 <= S.where, S.where <= gcnt(S, S.part.o), isgroup(S, GR(S)), q(S, "label", GR(S)) == g(S, "inGroup", S.node.o))),
            ("no group before it has its name", forall(lambda k: imp(And(0 <= k, k < S.where), q(S, "label", gat(S, S.part.o, k)) != g(S, "inGroup", S.node.o)), pat=lambda k: [gat(S, S.part.o, k)])), hard(S, S.ptr("group", GR(S))), ("members", sz(S, GR(S)) >= 1)],
        ensures=ens, opts=dict(fdiv=True), call_hints=None if clamp else {"NLinksToGroup/after": lambda S, c: [("this member", imp(S.p.o != 0, And(ToR(c.result) == opaque(f1(S.old), gpos(S, S.p.o)), ToR(c.result) * ToR(c.result) == opaque(f2(S.old), gpos(S, S.p.o))))), cs_step(ToR(gpos(S, S.p.o) - 1), S.kmean, S.k2mean, ToR(c.result)),
            ("growing", imp(S.p.o != 0, And(ToR(gpos(S, S.p.o)) * (S.k2mean + ToR(c.result) * ToR(c.result)) >= (S.kmean + ToR(c.result)) * (S.kmean + ToR(c.result)), S.k2mean + ToR(c.result) * ToR(c.result) >= 0))), ("mean", imp(S.p.o == 0, S.kmean == s1(S.old, sz(S.old, GR(S.old)) + 1) / ToR(sz(S.old, GR(S.old))))), ("mean square", imp(S.p.o == 0, S.k2mean == s2(S.old, sz(S.old, GR(S.old)) + 1) / ToR(sz(S.old, GR(S.old))))),
            ("deviation", imp(S.p.o == 0, S.kstd == uf["sqrt"](S.k2mean - S.kmean * S.kmean))), ("its own links", imp(S.p.o == 0, c.result == nto(S.old, S.node.o, g(S, "inGroup", S.node.o))))]},
        loops={0: Loop(inv=lambda S: [("place", And(part(S, S.group.o) == S.part.o, gix(S, S.group.o) <= S.where))], decreases=lambda S: S.where - gix(S, S.group.o)),
            1: Loop(inv=lambda S: [("group", S.group.o == GR(S)), ("place", gown(S, S.p.o) == GR(S)), ("sum so far", S.kmean == s1(S.old, gpos(S, S.p.o) + 1)), ("squares so far", S.k2mean == s2(S.old, gpos(S, S.p.o) + 1))] + ([] if clamp else [("a mean square is no less than a squared mean", And(ToR(gpos(S, S.p.o)) * S.k2mean >= S.kmean * S.kmean, S.k2mean >= 0))]), decreases=lambda S: sz(S, GR(S)) - gpos(S, S.p.o),
                exit_hints=None if clamp else (lambda S: [cs_var(ToR(sz(S, GR(S))), S.kmean, S.k2mean), ("variance is not negative", S.k2mean / ToR(sz(S, GR(S))) - (S.kmean / ToR(sz(S, GR(S)))) * (S.kmean / ToR(sz(S, GR(S)))) >= 0)]),
                hints=lambda S: [reveal(f1(S.old), gpos(S, S.p.o) + 1), reveal(f2(S.old), gpos(S, S.p.o) + 1)])})
C += [inner("WithinModuleRelativeDegree", nto, ToR, "inDegree", False), inner("WithinModuleRelativeStrength", wto, lambda v: v, "inStrength", True)]
ROLE = ["WithinModuleRelativeDegree", "WithinModuleRelativeStrength", "ParticipationCoefficient", "WeightedParticipationCoefficient"]
# ---------------------------------------------------------------- agreement of two partitions
def alike(S, c, d): return Or(And(S.label_sw == 0, l(S, "node", c) == l(S, "node", d)), And(S.label_sw == 1, text(S, l(S, "nodeLabel", c)) == text(S, l(S, "nodeLabel", d))))
def G1(T, i): return gat(T, T.part1.o, i)
def G2(T, j): return gat(T, T.part2.o, j)
def found(T): return lambda i, j, k: If(exists(lambda m: And(1 <= m, m <= sz(T, G2(T, j)), alike(T, mem(T, G1(T, i), k), mem(T, G2(T, j), m)))), 1, 0)
def o_f(T): return lambda i, j, hi: SumI(1, hi, lambda k: opaque(found(T), i, j, k, sort=I))
def overlap(T, i, j, hi): return opaque(o_f(T), i, j, hi, sort=I)
def entr(T, x, N): return If(q(T, "size", x) > 0, ToR(q(T, "size", x)) * uf["log"](ToR(q(T, "size", x)) / ToR(N)), 0)
def NN(T): return psize(T, T.part1.o, gcnt(T, T.part1.o) + 1)
def ent_f(T, h): return lambda k: entr(T, gat(T, h, k), NN(T))
def ent(T, h, hi): return SumR(1, hi, lambda k: opaque(ent_f(T, h), k))
def ov_f(T): return lambda i, j: overlap(T, i, j, sz(T, G1(T, i)) + 1)
def ov(T, i, j): return opaque(ov_f(T), i, j, sort=I)
def jlog(o, n, a, b): return ToR(o) * uf["log"]((ToR(o) * ToR(n)) / (ToR(a) * ToR(b)))
def jt_f(T):
    def jterm(i, j):
        a, b = q(T, "size", G1(T, i)), q(T, "size", G2(T, j)); o = ov(T, i, j)
        return If(And(a > 0, b > 0, o > 0), opaque(jlog, o, NN(T), a, b), 0)
    return jterm
def jw_f(T): return lambda i, hi: SumR(1, hi, lambda j: opaque(jt_f(T), i, j))
def jrow(T, i, hi): return opaque(jw_f(T), i, hi)
def jr_f(T): return lambda i: jrow(T, i, gcnt(T, T.part2.o) + 1)
def joint(T, hi): return SumR(1, hi, lambda i: opaque(jr_f(T), i))
def mi_ens(S):
    T = S.old; H1 = ent(T, T.part1.o, gcnt(T, T.part1.o) + 1); H2 = ent(T, T.part2.o, gcnt(T, T.part2.o) + 1)
    return [("twice the information shared over the sum of the entropies", S.result == -2 * joint(T, gcnt(T, T.part1.o) + 1) / (H1 + H2))]
def entloop(v, acc, p, only):
    return Loop(inv=lambda S: [("place", part(S, S[v].o) == S["part%d" % p].o), ("nodes", S.S == NN(S.old)), ("sum-free nodes", S.S > 0), ("summed so far", S[acc] == ent(S.old, S["part%d" % p].o, gix(S, S[v].o) + 1))] + (only(S) if only else []), decreases=lambda S: gcnt(S, S["part%d" % p].o) - gix(S, S[v].o), hints=lambda S: [reveal(ent_f(S.old, S["part%d" % p].o), gix(S, S[v].o) + 1)])
def H(S): return [("first entropy", S.H1 == ent(S.old, S.part1.o, gcnt(S, S.part1.o) + 1))]
def HH(S): return H(S) + [("second entropy", S.H2 == ent(S.old, S.part2.o, gcnt(S, S.part2.o) + 1)), ("nodes", S.S == NN(S.old)), ("sum-free nodes", S.S > 0)]
def i1(S): return gix(S, S.g1.o)
def i2(S): return gix(S, S.g2.o)
def g1in(S): return [("place", And(part(S, S.g1.o) == S.part1.o, gix(S, S.g1.o) >= 1, S.S1 == q(S, "size", S.g1.o), S.S1 > 0))]
def g2in(S): return [("place 2", And(part(S, S.g2.o) == S.part2.o, gix(S, S.g2.o) >= 1, S.S2 == q(S, "size", S.g2.o), S.S2 > 0))]
C.append(Contract(MF, "MutualInformation", requires=lambda S: glists(S) + mlists(S) + mlabels(S) + [phead(S, S.part1), phead(S, S.part2), fewm(S, S.part1.o), fewm(S, S.part2.o), ("there are nodes", NN(S) > 0), ("one way of matching nodes", Or(S.label_sw == 0, S.label_sw == 1)),
        ("not all in one group", ent(S, S.part1.o, gcnt(S, S.part1.o) + 1) + ent(S, S.part2.o, gcnt(S, S.part2.o) + 1) != 0)],
    ensures=mi_ens, opts=dict(fdiv=True), call_hints={"PartitionSize/after": lambda S, c: [("nodes", imp(c.part.o == S.part1.o, And(c.result == NN(S.old), c.result > 0))), ("positive", imp(c.part.o == S.part1.o, c.result > 0))]},
    loops={0: entloop("g1", "H1", 1, None), 1: entloop("g2", "H2", 2, H),
        2: Loop(inv=lambda S: HH(S) + [("place", part(S, S.g1.o) == S.part1.o), ("joint so far", S.H12 == joint(S.old, gix(S, S.g1.o) + 1))], decreases=lambda S: gcnt(S, S.part1.o) - gix(S, S.g1.o), hints=lambda S: [reveal(jr_f(S.old), gix(S, S.g1.o) + 1), reveal(jw_f(S.old), gix(S, S.g1.o) + 1, gcnt(S, S.part2.o) + 1), reveal(jw_f(S.old), gix(S, S.g1.o) + 1, 1),
                imp(q(S, "size", gat(S, S.part1.o, gix(S, S.g1.o) + 1)) <= 0, forall(lambda j: reveal(jt_f(S.old), gix(S, S.g1.o) + 1, j), pat=lambda j: [opaque(jt_f(S.old), gix(S, S.g1.o) + 1, j)])), sum_scale(jw_f(S.old)(gix(S, S.g1.o) + 1, gcnt(S, S.part2.o) + 1), jw_f(S.old)(gix(S, S.g1.o) + 1, gcnt(S, S.part2.o) + 1), z3.RealVal(0)),
                ("an empty group adds nothing", imp(And(gix(S, S.g1.o) < gcnt(S, S.part1.o), q(S, "size", gat(S, S.part1.o, gix(S, S.g1.o) + 1)) <= 0), opaque(jr_f(S.old), gix(S, S.g1.o) + 1) == 0))], exit_hints=lambda S: [("not zero", S.H1 + S.H2 != 0)]),
        3: Loop(inv=lambda S: HH(S) + g1in(S) + [("place 2", part(S, S.g2.o) == S.part2.o), ("row so far", S.H12 == joint(S.old, i1(S)) + jrow(S.old, i1(S), i2(S) + 1))], decreases=lambda S: gcnt(S, S.part2.o) - gix(S, S.g2.o), hints=lambda S: [reveal(jt_f(S.old), i1(S), i2(S) + 1), reveal(jw_f(S.old), i1(S), i2(S) + 1), reveal(jw_f(S.old), i1(S), i2(S) + 2), ("one more", imp(i2(S) < gcnt(S, S.part2.o), jrow(S.old, i1(S), i2(S) + 2) == jrow(S.old, i1(S), i2(S) + 1) + opaque(jt_f(S.old), i1(S), i2(S) + 1))), reveal(o_f(S.old), i1(S), i2(S) + 1, 1, sort=I), ("none yet", overlap(S.old, i1(S), i2(S) + 1, 1) == 0)]),
        4: Loop(inv=lambda S: HH(S) + g1in(S) + g2in(S) + [("member", gown(S, S.n1.o) == S.g1.o), ("overlap so far", S.S12 == overlap(S.old, i1(S), i2(S), gpos(S, S.n1.o) + 1)), ("in range", And(0 <= S.S12, S.S12 <= gpos(S, S.n1.o)))], decreases=lambda S: sz(S, S.g1.o) - gpos(S, S.n1.o), hints=lambda S: (lambda k: [reveal(found(S.old), i1(S), i2(S), k + 1, sort=I), reveal(o_f(S.old), i1(S), i2(S), k + 1, sort=I), reveal(o_f(S.old), i1(S), i2(S), k + 2, sort=I), ("one more", imp(k < sz(S, S.g1.o), overlap(S.old, i1(S), i2(S), k + 2) == overlap(S.old, i1(S), i2(S), k + 1) + opaque(found(S.old), i1(S), i2(S), k + 1, sort=I)))])(gpos(S, S.n1.o)),
            exit_hints=lambda S: [reveal(ov_f(S.old), i1(S), i2(S), sort=I), ("all of the overlap", S.S12 == ov(S.old, i1(S), i2(S))), reveal(jt_f(S.old), i1(S), i2(S)), ("this term", opaque(jt_f(S.old), i1(S), i2(S)) == If(S.S12 > 0, opaque(jlog, S.S12, NN(S.old), S.S1, S.S2), 0)), reveal(jlog, S.S12, NN(S.old), S.S1, S.S2)]),
        5: Loop(inv=lambda S: HH(S) + g1in(S) + g2in(S) + [("member", And(gown(S, S.n1.o) == S.g1.o, gpos(S, S.n1.o) >= 1)), ("member 2", gown(S, S.n2.o) == S.g2.o), ("overlap so far", S.S12 == overlap(S.old, i1(S), i2(S), gpos(S, S.n1.o))), ("in range", And(0 <= S.S12, S.S12 < gpos(S, S.n1.o))), ("none so far", forall(lambda j: imp(And(1 <= j, j <= gpos(S, S.n2.o)), Not(alike(S, S.n1.o, mem(S, S.g2.o, j)))), pat=lambda j: [mem(S, S.g2.o, j)]))], decreases=lambda S: sz(S, S.g2.o) - gpos(S, S.n2.o))}))
CONTRACTS = C
PROPS = {"C15": C15, "C16": ["Modularity", "ModularityWeight"], "C09": ROLE, "C24": ["MutualInformation"]}
