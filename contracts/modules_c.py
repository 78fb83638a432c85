"""Groups of nodes (src/modules.c): groups in a list, each with a list of members"""
import z3
from vc import Contract, Loop, ghost_field, uf, c_str, c_slen, CH, TAG, type_id
from cast import Ty, INT, REAL
from spec import *
from partition2_c import live, is_new
from graph_c import *
from graph_c import st
MF = "src/modules.c"
for n in ("part", "gix", "gcnt", "sz"): ghost_field("group.$" + n)      # header of the list, position in it; of a header: number of groups; number of members
for n in ("gat", "mem", "in"): ghost_field("group.$" + n, AII)          # header: position -> group; group: position -> member record; group: node -> position of its record, 0 if none
for n in ("gown", "gpos"): ghost_field("node_lis.$" + n)                # group whose member list the record is in, position there (0: list head)
def q(S, f, x): return S.f("group." + f, x)
def part(S, x): return q(S, "$part", x)
def gix(S, x): return q(S, "$gix", x)
def gcnt(S, h): return q(S, "$gcnt", h)
def gat(S, h, k): return sel(q(S, "$gat", h), k)
def sz(S, x): return q(S, "$sz", x)
def mem(S, x, k): return sel(q(S, "$mem", x), k)
def inn(S, x, y): return sel(q(S, "$in", x), y)
def gown(S, c): return l(S, "$gown", c)
def gpos(S, c): return l(S, "$gpos", c)
def isgroup(S, x): return And(part(S, x) != 0, gix(S, x) >= 1)
def isphead(S, h): return And(h != 0, part(S, h) == h)
def member(S, c): return And(gown(S, c) != 0, gpos(S, c) >= 1)
GRP = type_id(Ty("struct", "group"))
def glists(S):
    return [
        ("group lists", forall(lambda x: imp(part(S, x) != 0, And(x != 0, live(S, x), TAG(x) == GRP, isphead(S, part(S, x)), 0 <= gix(S, x), gix(S, x) <= gcnt(S, part(S, x)), gat(S, part(S, x), gix(S, x)) == x,
            q(S, "next", x) == If(gix(S, x) < gcnt(S, part(S, x)), gat(S, part(S, x), gix(S, x) + 1), 0))), pat=lambda x: [q(S, "next", x), part(S, x)])),
        ("positions in group lists", forall(lambda h, k: imp(And(isphead(S, h), 0 <= k, k <= gcnt(S, h)), And(part(S, gat(S, h, k)) == h, gix(S, gat(S, h, k)) == k, gat(S, h, k) != 0)), pat=lambda h, k: [gat(S, h, k)])),
        ("partition headers", forall(lambda h: imp(isphead(S, h), And(gix(S, h) == 0, gat(S, h, 0) == h, gcnt(S, h) >= 0, gcnt(S, h) < U30)), pat=lambda h: [gcnt(S, h)]))]
def mlists(S):
    return [
        ("member lists start at the head", forall(lambda x: imp(isgroup(S, x), And(q(S, "nodeList", x) == mem(S, x, 0), sz(S, x) >= 0, sz(S, x) < U30, q(S, "size", x) == sz(S, x))), pat=lambda x: [q(S, "nodeList", x), sz(S, x), q(S, "size", x)])),
        ("positions in member lists", forall(lambda x, k: imp(And(isgroup(S, x), 0 <= k, k <= sz(S, x)), And(gown(S, mem(S, x, k)) == x, gpos(S, mem(S, x, k)) == k, mem(S, x, k) != 0)), pat=lambda x, k: [mem(S, x, k)])),
        ("member lists", forall(lambda c: imp(gown(S, c) != 0, And(c != 0, live(S, c), TAG(c) == LIS, own(S, c) == 0, isgroup(S, gown(S, c)), 0 <= gpos(S, c), gpos(S, c) <= sz(S, gown(S, c)), mem(S, gown(S, c), gpos(S, c)) == c,
            l(S, "next", c) == If(gpos(S, c) < sz(S, gown(S, c)), mem(S, gown(S, c), gpos(S, c) + 1), 0))), pat=lambda c: [l(S, "next", c), gown(S, c)]))]
def refs(S):
    """members are nodes, each listed at most once in a group"""
    return [
        ("members are nodes", forall(lambda c: imp(And(member(S, c), ref(S, c) != 0), And(isnode(S, ref(S, c)), inn(S, gown(S, c), ref(S, c)) == gpos(S, c))), pat=lambda c: [ref(S, c)])),
        ("each member is found", forall(lambda x, y: imp(And(isgroup(S, x), inn(S, x, y) != 0), And(1 <= inn(S, x, y), inn(S, x, y) <= sz(S, x), ref(S, mem(S, x, inn(S, x, y))) == y)), pat=lambda x, y: [inn(S, x, y)]))]
def hard(S, p): return ("members point at their nodes", forall(lambda k: imp(And(1 <= k, k <= sz(S, p.o)), ref(S, mem(S, p.o, k)) != 0), pat=lambda k: [mem(S, p.o, k)]))
def mlabels(S):
    return [("member labels", forall(lambda c: imp(member(S, c), And(l(S, "nodeLabel", c) != 0, live(S, l(S, "nodeLabel", c)), TAG(l(S, "nodeLabel", c)) == type_id(CHT), S.f("chr.$own", l(S, "nodeLabel", c)) == c)), pat=lambda c: [l(S, "nodeLabel", c)])),
        ("member list heads have no label", forall(lambda c: imp(And(gown(S, c) != 0, gpos(S, c) == 0), l(S, "nodeLabel", c) == 0), pat=lambda c: [l(S, "nodeLabel", c)]))]
def phead(S, p): return ("a partition", isphead(S, p.o))
def grp(S, *ps): return ("groups", And(*[isgroup(S, p.o) for p in ps]))
C = []
# ---------------------------------------------------------------- counting links to a group
def cnt_links(name, cond, lab, grp=True):
    f = lambda S, hi: SumI(1, hi, lambda k: If(cond(S, nb(S, S.node.o, k)), 1, 0))
    return Contract(MF, name, requires=lambda S: base(S) + [nodes(S, S.node)] + ([("a group", S.g.alloc())] if grp else []), ensures=lambda S: [(lab, S.result == f(S, deg(S, S.node.o) + 1)), ("in range", And(0 <= S.result, S.result <= deg(S, S.node.o)))],
        loops={0: Loop(inv=lambda S: [("place", own(S, S.nei.o) == S.node.o), ("counted so far", S.inlink == f(S, pos(S, S.nei.o) + 1)), ("in range", And(0 <= S.inlink, S.inlink <= pos(S, S.nei.o)))], decreases=lambda S: deg(S, S.node.o) - pos(S, S.nei.o))})
def str_links(name, cond, lab, grp=True):
    f = lambda S, hi: SumR(1, hi, lambda k: If(cond(S, nb(S, S.node.o, k)), l(S, "weight", nb(S, S.node.o, k)), 0))
    return Contract(MF, name, requires=lambda S: base(S) + [nodes(S, S.node)] + ([("a group", S.g.alloc())] if grp else []), ensures=lambda S: [(lab, S.result == f(S, deg(S, S.node.o) + 1))],
        loops={0: Loop(inv=lambda S: [("place", own(S, S.nei.o) == S.node.o), ("summed so far", S.inlink == f(S, pos(S, S.nei.o) + 1))], decreases=lambda S: deg(S, S.node.o) - pos(S, S.nei.o))})
def by_label(S, c): return g(S, "inGroup", ref(S, c)) == q(S, "label", S.g.o)
def by_num(S, c): return g(S, "inGroup", ref(S, c)) == S.gLabel
C += [cnt_links("NLinksToGroup", by_label, "the number of links to members of the group"), cnt_links("NLinksToGroupByNum", by_num, "the number of links to members of the group", False),
    cnt_links("NWeightLinksToGroup", lambda S, c: And(l(S, "weight", c) == S.w, by_label(S, c)), "the number of links of that weight to members of the group"),
    str_links("StrengthToGroup", by_label, "the weight of the links to members of the group"), str_links("StrengthToGroupByNum", by_num, "the weight of the links to members of the group", False)]
def nto(S, x, lab): return SumI(1, deg(S, x) + 1, lambda k: If(g(S, "inGroup", ref(S, nb(S, x, k))) == lab, 1, 0))
def wto(S, x, lab): return SumR(1, deg(S, x) + 1, lambda k: If(g(S, "inGroup", ref(S, nb(S, x, k))) == lab, l(S, "weight", nb(S, x, k)), 0))
# ---------------------------------------------------------------- questions about partitions
def glist_loop(inv, v="part"): return {0: Loop(inv=lambda S: [("place", part(S, S[v].o) == S.old.part.o)] + inv(S), decreases=lambda S: gcnt(S, S.old.part.o) - gix(S, S[v].o))}
C.append(Contract(MF, "NGroups", requires=lambda S: glists(S) + [phead(S, S.part)], ensures=lambda S: [("the number of groups", S.result == gcnt(S, S.part.o))], loops=glist_loop(lambda S: [("count", S.ngroup == gix(S, S.part.o))])))
def nonempty(S, h, hi): return SumI(1, hi, lambda k: If(q(S, "size", gat(S, h, k)) > 0, 1, 0))
C.append(Contract(MF, "NNonEmptyGroups", requires=lambda S: glists(S) + [phead(S, S.part)], ensures=lambda S: [("the number of groups that are not empty", S.result == nonempty(S, S.part.o, gcnt(S, S.part.o) + 1)), ("in range", And(0 <= S.result, S.result <= gcnt(S, S.part.o)))],
    loops=glist_loop(lambda S: [("count", S.ngroup == nonempty(S, S.old.part.o, gix(S, S.part.o) + 1)), ("in range", And(0 <= S.ngroup, S.ngroup <= gix(S, S.part.o)))])))
def psize(S, h, hi): return SumI(1, hi, lambda k: q(S, "size", gat(S, h, k)))
def fewm(S, h): return ("fewer than 2^31 members in all", psize(S, h, gcnt(S, h) + 1) < U31)
def psize_loop(v, acc, f, per):
    return {0: Loop(inv=lambda S: [("place", part(S, S[v].o) == S.old.part.o), ("so far", S[acc] == f(S, S.old.part.o, gix(S, S[v].o) + 1)), ("not negative", S[acc] >= 0)],
        hints=lambda S: [sum_split(f(S, S.old.part.o, gcnt(S, S.old.part.o) + 1), gix(S, S[v].o) + 2), sum_ge0(SumI(gix(S, S[v].o) + 2, gcnt(S, S.old.part.o) + 1, lambda k: per(S, S.old.part.o, k))),
            ("this group's share", imp(gix(S, S[v].o) < gcnt(S, S.old.part.o), And(f(S, S.old.part.o, gix(S, S[v].o) + 2) < U31, f(S, S.old.part.o, gix(S, S[v].o) + 2) == S[acc] + per(S, S.old.part.o, gix(S, S[v].o) + 1)))), ("sum-free", imp(gix(S, S[v].o) < gcnt(S, S.old.part.o), S[acc] + per(S, S.old.part.o, gix(S, S[v].o) + 1) < U31))],
        hints_end=lambda S: [("so far", S[acc] == f(S, S.old.part.o, gix(S, S[v].o) + 1)), ("not negative", S[acc] >= 0)], decreases=lambda S: gcnt(S, S.old.part.o) - gix(S, S[v].o))}
C.append(Contract(MF, "PartitionSize", requires=lambda S: glists(S) + mlists(S) + [phead(S, S.part), fewm(S, S.part.o)], ensures=lambda S: [("the number of members in all", S.result == psize(S, S.part.o, gcnt(S, S.part.o) + 1))],
    loops=psize_loop("part", "nnod", psize, lambda S, h, k: q(S, "size", gat(S, h, k)))))
def first_group(name, cond):
    return Contract(MF, name, requires=lambda S: glists(S) + [phead(S, S.part)],
        ensures=lambda S: [("none if there is no such group", imp(S.result.o == 0, forall(lambda k: imp(And(1 <= k, k <= gcnt(S, S.part.o)), Not(cond(S, gat(S, S.part.o, k)))), pat=lambda k: [gat(S, S.part.o, k)]))),
            ("the first such group", imp(S.result.o != 0, And(isgroup(S, S.result.o), part(S, S.result.o) == S.part.o, cond(S, S.result.o), forall(lambda k: imp(And(1 <= k, k < gix(S, S.result.o)), Not(cond(S, gat(S, S.part.o, k)))), pat=lambda k: [gat(S, S.part.o, k)]))))],
        loops={0: Loop(inv=lambda S: [("place", part(S, S.g.o) == S.part.o), ("not among the groups so far", forall(lambda k: imp(And(1 <= k, k <= gix(S, S.g.o)), Not(cond(S, gat(S, S.part.o, k)))), pat=lambda k: [gat(S, S.part.o, k)]))], decreases=lambda S: gcnt(S, S.part.o) - gix(S, S.g.o))})
C += [first_group("GetGroup", lambda S, x: q(S, "label", x) == S.label), first_group("GetEmptyGroup", lambda S, x: q(S, "size", x) == 0)]
C.append(Contract(MF, "ResetNetGroup", requires=lambda S: nets(S) + [head(S, S.net)], modifies=["node_gra.inGroup"],
    ensures=lambda S: [("every node of the network is in no group, others stay", forall(lambda x: g(S, "inGroup", x) == If(And(net(S, x) == S.net.o, ix(S, x) >= 1), -1, g(S.old, "inGroup", x)), pat=lambda x: [g(S, "inGroup", x)]))],
    loops={0: Loop(inv=lambda S: [("place", net(S, S.net.o) == S.old.net.o), ("reset so far", forall(lambda x: g(S, "inGroup", x) == If(And(net(S, x) == S.old.net.o, ix(S, x) >= 1, ix(S, x) <= ix(S, S.net.o)), -1, g(S.old, "inGroup", x)), pat=lambda x: [g(S, "inGroup", x)]))], decreases=lambda S: cnt(S, S.old.net.o) - ix(S, S.net.o))}))
# ---------------------------------------------------------------- links between groups
def g2g(name, per, acc, ty, lab, half, ens_rng=False):
    Sm = SumI if ty == "i" else SumR
    f = lambda S, hi: Sm(1, hi, lambda k: per(S, ref(S, mem(S, S.g1.o, k))))
    inv = lambda S: [("place", gown(S, S.p.o) == S.g1.o), ("so far", S[acc] == f(S, gpos(S, S.p.o) + 1))] + ([("not negative", S[acc] >= 0)] if ty == "i" else [])
    kw = {}
    return Contract(MF, name, requires=lambda S: base(S) + glists(S) + mlists(S) + refs(S) + [grp(S, S.g1, S.g2), hard(S, S.g1)],
        ensures=lambda S: [(lab, S.result == If(S.g1.o == S.g2.o, half(f(S, sz(S, S.g1.o) + 1)), f(S, sz(S, S.g1.o) + 1)))] + ([("not negative", S.result >= 0)] if ty == "i" else []), opts=dict(overflow=False) if ty == "i" else {},
        loops={0: Loop(inv=inv, decreases=lambda S: sz(S, S.g1.o) - gpos(S, S.p.o), **kw)})
def nwto(S, x, lab, w): return SumI(1, deg(S, x) + 1, lambda k: If(And(l(S, "weight", nb(S, x, k)) == w, g(S, "inGroup", ref(S, nb(S, x, k))) == lab), 1, 0))
C += [g2g("NG2GLinks", lambda S, x: nto(S, x, q(S, "label", S.g2.o)), "nlink", "i", "the links from members of the first to members of the second (each inner link once)", lambda v: v / 2),
    g2g("NWeightG2GLinks", lambda S, x: nwto(S, x, q(S, "label", S.g2.o), S.w), "nlink", "i", "the links of that weight from members of the first to members of the second (each inner link once)", lambda v: v / 2),
    g2g("NG2GLinksWeight", lambda S, x: wto(S, x, q(S, "label", S.g2.o)), "nlink", "r", "the weight of the links from members of the first to members of the second (each inner link once)", lambda v: v / 2)]
# ---------------------------------------------------------------- creation and membership
PARTG = ["group.$part", "group.$gix", "group.$gcnt", "group.$gat"]
MEMG = ["group.$sz", "group.$mem", "group.$in", "node_lis.$gown", "node_lis.$gpos", "chr.$own"]
GFIELDS = ["group." + f for f in ("label", "size", "totlinks", "inlinks", "outlinks", "totlinksW", "inlinksW", "outlinksW", "coorX", "coorY", "coorZ", "nodeList", "offspr")]
COUNTS = ["group." + f for f in ("totlinks", "inlinks", "outlinks", "totlinksW", "inlinksW", "outlinksW")]
def world(S): return base(S) + glists(S) + mlists(S)
def okpart(S): return okall(S) + glists(S) + mlists(S) + refs(S) + mlabels(S)
def keep(S, h, but): return same(S, h, lambda o: And(live(S.old, o), but(o)))
def phdr_ghost(S):
    h = S.temp.o
    return {"group.$part": st(S, "group.$part", h, h), "group.$gix": st(S, "group.$gix", h, 0), "group.$gcnt": st(S, "group.$gcnt", h, 0), "group.$gat": st(S, "group.$gat", h, z3.Store(q(S, "$gat", h), 0, h))}
C.append(Contract(MF, "CreateHeaderGroup", requires=okpart, ghost_exit=phdr_ghost, modifies=PARTG, fresh=GFIELDS + ["group.next"], allocs="grow",
    ensures=lambda S: okpart(S) + [("a new partition without groups", And(isphead(S, S.result.o), gcnt(S, S.result.o) == 0, is_new(S, S.result.o), S.result.label == -1)),
        ("other partitions", And(*[same(S, h, lambda o: o != S.result.o) for h in PARTG])), ("nothing else is allocated", forall(lambda o: imp(o != S.result.o, live(S, o) == live(S.old, o)), pat=lambda o: [live(S, o)]))]))
def grp_ghost(S):
    T = S.old; h = part(T, T.part.o); k = gcnt(T, h); x = q(S, "next", gat(T, h, k)); c = q(S, "nodeList", x)
    return {"group.$part": st(S, "group.$part", x, h), "group.$gix": st(S, "group.$gix", x, k + 1), "group.$gcnt": st(S, "group.$gcnt", h, k + 1), "group.$gat": st(S, "group.$gat", h, z3.Store(q(T, "$gat", h), k + 1, x)),
        "group.$sz": st(S, "group.$sz", x, 0), "group.$mem": st(S, "group.$mem", x, z3.Store(q(S, "$mem", x), 0, c)), "group.$in": st(S, "group.$in", x, z3.K(I, z3.IntVal(0))),
        "node_lis.$gown": st(S, "node_lis.$gown", c, x), "node_lis.$gpos": st(S, "node_lis.$gpos", c, 0)}
def grp_ens(S):
    T = S.old; h = part(T, S.part.o); k = gcnt(T, h); x = S.result.o
    return okpart(S) + [("a new empty group at the end", And(isgroup(S, x), part(S, x) == h, gcnt(S, h) == k + 1, gat(S, h, k + 1) == x, gix(S, x) == k + 1, sz(S, x) == 0, is_new(S, x), S.result.label == S.label, S.result.size == 0)),
        ("its counts are zero", And(*[q(S, f[6:], x) == 0 for f in COUNTS])), ("no members", forall(lambda y: inn(S, x, y) == 0, pat=lambda y: [inn(S, x, y)])),
        ("storage of its own", Not(live(T, mem(S, x, 0)))), ("other places", same(S, "group.next", lambda o: And(o != x, o != gat(T, h, k)))), ("member records stay", same(S, "node_lis.next", lambda o: live(T, o))),
        ("the other groups stay in place", forall(lambda j: imp(And(0 <= j, j <= k), gat(S, h, j) == gat(T, h, j)), pat=lambda j: [gat(S, h, j)])),
        ("other groups and partitions", And(same(S, "group.$part", lambda o: o != x), same(S, "group.$gix", lambda o: o != x), same(S, "group.$gcnt", lambda o: o != h), same(S, "group.$gat", lambda o: o != h), same(S, "group.$sz", lambda o: o != x), same(S, "group.$mem", lambda o: o != x), same(S, "group.$in", lambda o: o != x),
            forall(lambda c: imp(live(T, c), And(gown(S, c) == gown(T, c), gpos(S, c) == gpos(T, c))), pat=lambda c: [gown(S, c), gpos(S, c)]), forall(lambda c: imp(member(S, c), member(T, c)), pat=lambda c: [gown(S, c)]))),
        ("other texts", forall(lambda o: imp(live(T, o), S.f("chr.$own", o) == T.f("chr.$own", o)), pat=lambda o: [S.f("chr.$own", o)]))]
C.append(Contract(MF, "CreateGroup", requires=lambda S: okpart(S) + [("a place in a partition", part(S, S.part.o) != 0), ("room for a group", gcnt(S, part(S, S.part.o)) < U30 - 1)], ensures=grp_ens, ghost_exit=grp_ghost,
    modifies=["group.next"] + PARTG + MEMG, fresh=GFIELDS + LF + ["node_lis.next", "node_lis.weight", CH], allocs="grow",
    loops={0: Loop(inv=lambda S: [("place", part(S, S.part.o) == part(S, S.old.part.o))], decreases=lambda S: gcnt(S, part(S, S.part.o)) - gix(S, S.part.o))}))
def addm_ghost(hard):
    def gh(S):
        T = S.old; a = T.g.o; d = sz(T, a); c = l(S, "next", mem(T, a, d))
        r = {"group.$sz": st(S, "group.$sz", a, d + 1), "group.$mem": st(S, "group.$mem", a, z3.Store(q(T, "$mem", a), d + 1, c)), "node_lis.$gown": st(S, "node_lis.$gown", c, a), "node_lis.$gpos": st(S, "node_lis.$gpos", c, d + 1), "chr.$own": st(S, "chr.$own", l(S, "nodeLabel", c), c)}
        if hard: r["group.$in"] = st(S, "group.$in", a, z3.Store(q(T, "$in", a), T.node.o, d + 1))
        return r
    return gh
def addm_ens(hard, counts):
    def en(S):
        T = S.old; a = S.g.o; d = sz(T, a); c = S.result.o; x = S.node.o if hard else None
        r = okpart(S) + [("the member is listed last", And(sz(S, a) == d + 1, mem(S, a, d + 1) == c, gown(S, c) == a, gpos(S, c) == d + 1, is_new(S, c), Not(live(T, l(S, "nodeLabel", c))))),
            ("the members so far stay", forall(lambda k: imp(And(0 <= k, k <= d), mem(S, a, k) == mem(T, a, k)), pat=lambda k: [mem(S, a, k)])),
            ("other groups", And(*[same(S, h, lambda o: o != a) for h in ("group.$sz", "group.$mem", "group.$in", "group.size")])),
            ("other records", forall(lambda e: imp(live(T, e), And(gown(S, e) == gown(T, e), gpos(S, e) == gpos(T, e))), pat=lambda e: [gown(S, e), gpos(S, e)])), ("members elsewhere are the old ones", forall(lambda e: imp(And(member(S, e), e != c), member(T, e)), pat=lambda e: [gown(S, e)])),
            ("other records stay in place", forall(lambda e: imp(And(live(T, e), e != mem(T, a, d)), l(S, "next", e) == l(T, "next", e)), pat=lambda e: [l(S, "next", e)])),
            ("link weights stay", same(S, "node_lis.weight", lambda e: live(T, e))),
            ("other texts", forall(lambda o: imp(live(T, o), S.f("chr.$own", o) == T.f("chr.$own", o)), pat=lambda o: [S.f("chr.$own", o)]))]
        if hard:
            r += [("the record points at the node", And(ref(S, c) == x, l(S, "node", c) == g(S, "num", x), inn(S, a, x) == d + 1, text(S, l(S, "nodeLabel", c)) == text(T, g(T, "label", x)))),
                ("places of the other members", forall(lambda y: imp(y != x, inn(S, a, y) == inn(T, a, y)), pat=lambda y: [inn(S, a, y)])),
                ("the node names the group, other nodes keep theirs", forall(lambda y: g(S, "inGroup", y) == If(y == x, q(T, "label", a), g(T, "inGroup", y)), pat=lambda y: [g(S, "inGroup", y)]))]
        else: r += [("only the label is recorded", And(ref(S, c) == 0, text(S, l(S, "nodeLabel", c)) == text(T, S.label.o)))]
        if counts:
            lab = q(T, "label", a); i, w = nto(T, x, lab), wto(T, x, lab)
            r += [("link counts grow by the links to members and to others", And(q(S, "inlinks", a) == q(T, "inlinks", a) + i, q(S, "totlinks", a) == q(T, "totlinks", a) + deg(T, x) - i, q(S, "outlinks", a) == q(S, "totlinks", a) - q(S, "inlinks", a))),
                ("link weights grow by the weight of the links to members and to others", And(q(S, "inlinksW", a) == q(T, "inlinksW", a) + w, q(S, "totlinksW", a) == q(T, "totlinksW", a) + wsum(T, x) - w, q(S, "outlinksW", a) == q(S, "totlinksW", a) - q(S, "inlinksW", a))),
                ("counts of other groups", And(*[same(S, h, lambda o: o != a) for h in COUNTS])), ("other strengths", same(S, "node_gra.strength", lambda o: o != x)), ("cached strength", strength_cached(S, x))]
        return r
    return en
def addm(name, hard, counts):
    return Contract(MF, name, requires=lambda S: okpart(S) + [grp(S, S.g), ("room for a member", sz(S, S.g.o) < U30 - 1)] + ([nodes(S, S.node), ("not a member yet", inn(S, S.g.o, S.node.o) == 0)] if hard else [("label", And(live(S, S.label.o), c_slen(text(S, S.label.o)) < 100))]) + ([("cached strength", strength_cached(S, S.node.o))] if counts else []),
        ensures=addm_ens(hard, counts), ghost_exit=addm_ghost(hard), modifies=["group.size", "node_lis.next"] + (["node_gra.inGroup"] if hard else []) + (COUNTS + ["node_gra.degree", "node_gra.strength"] if counts else []) + [h for h in MEMG if hard or h != "group.$in"],
        fresh=LF + ["node_lis.weight", CH], allocs="grow", opts=dict(overflow=False) if counts else {},
        loops={0: Loop(inv=lambda S: [("place", gown(S, S.p.o) == S.g.o)], decreases=lambda S: sz(S, S.g.o) - gpos(S, S.p.o))})
C += [addm("AddNodeToGroup", True, True), addm("AddNodeToGroupFast", True, False), addm("AddNodeToGroupSoft", False, False)]
def remm_ghost(S):
    T = S.old; a, x = T.g.o, T.node.o; r = inn(T, a, x); c = mem(T, a, r); tr = r != 0
    return {"group.$mem": [(a, tr, lambda k: If(k < r, mem(T, a, k), mem(T, a, k + 1)))], "group.$in": [(a, tr, lambda y: If(y == x, 0, If(inn(T, a, y) > r, inn(T, a, y) - 1, inn(T, a, y))))],
        "group.$sz": If(tr, st(S, "group.$sz", a, sz(T, a) - 1), S.heap("group.$sz")), "node_lis.$gown": If(tr, st(S, "node_lis.$gown", c, 0), S.heap("node_lis.$gown")),
        "node_lis.$gpos": lambda e: If(And(tr, gown(T, e) == a, gpos(T, e) > r), gpos(T, e) - 1, gpos(T, e))}
def remm_ens(counts):
    def en(S):
        T = S.old; a, x = S.g.o, S.node.o; r = inn(T, a, x); c = mem(T, a, r); had = r != 0
        e = okpart(S) + [("answers whether the node was a member", S.result == If(had, 1, 0)), ("one member fewer", And(sz(S, a) == sz(T, a) - If(had, 1, 0), inn(S, a, x) == 0)),
            ("the other members stay, in order", forall(lambda k: imp(And(0 <= k, k <= sz(S, a)), mem(S, a, k) == If(And(had, k >= r), mem(T, a, k + 1), mem(T, a, k))), pat=lambda k: [mem(S, a, k)])),
            ("the other nodes stay members or not", forall(lambda y: imp(y != x, inn(S, a, y) == If(And(had, inn(T, a, y) > r), inn(T, a, y) - 1, inn(T, a, y))), pat=lambda y: [inn(S, a, y)])),
            ("other groups", And(*[same(S, h, lambda o: o != a) for h in ("group.$sz", "group.$mem", "group.$in", "group.size")])),
            ("records of the other members stay", forall(lambda d: imp(gown(T, d) != 0, gown(S, d) == If(And(had, d == c), 0, gown(T, d))), pat=lambda d: [gown(S, d)])),
            ("exactly the member's record is released", forall(lambda o: live(S, o) == And(live(T, o), Not(And(had, Or(o == c, o == l(T, "nodeLabel", c))))), pat=lambda o: [live(S, o)])),
            ("the node names no group, other nodes keep theirs", forall(lambda y: g(S, "inGroup", y) == If(And(had, y == x), -1, g(T, "inGroup", y)), pat=lambda y: [g(S, "inGroup", y)]))]
        if counts:
            lab = q(T, "label", a); i, w = nto(T, x, lab), wto(T, x, lab)
            e += [("link counts shrink by the links to members and to others", imp(had, And(q(S, "inlinks", a) == q(T, "inlinks", a) - i, q(S, "totlinks", a) == q(T, "totlinks", a) - (deg(T, x) - i), q(S, "outlinks", a) == q(S, "totlinks", a) - q(S, "inlinks", a)))),
                ("link weights shrink by the weight of the links to members and to others", imp(had, And(q(S, "inlinksW", a) == q(T, "inlinksW", a) - w, q(S, "totlinksW", a) == q(T, "totlinksW", a) - (wsum(T, x) - w), q(S, "outlinksW", a) == q(S, "totlinksW", a) - q(S, "inlinksW", a)))),
                ("counts of other groups", And(*[same(S, h, lambda o: Or(o != a, Not(had))) for h in COUNTS])), ("other strengths", same(S, "node_gra.strength", lambda o: o != x)), ("cached strength", strength_cached(S, x))]
        return e
    return en
def remm(name, counts):
    return Contract(MF, name, requires=lambda S: okpart(S) + [grp(S, S.g), nodes(S, S.node), hard(S, S.g)] + ([("cached strength", strength_cached(S, S.node.o))] if counts else []), ensures=remm_ens(counts), ghost_exit=remm_ghost,
        modifies=["group.size", "node_lis.next", "node_gra.inGroup"] + (COUNTS + ["node_gra.degree", "node_gra.strength"] if counts else []) + MEMG[:5], allocs="free", opts=dict(overflow=False) if counts else {},
        loops={0: Loop(inv=lambda S: [("place", gown(S, S.p.o) == S.g.o), ("not among the members so far", Or(inn(S, S.g.o, S.node.o) == 0, inn(S, S.g.o, S.node.o) > gpos(S, S.p.o)))], decreases=lambda S: sz(S, S.g.o) - gpos(S, S.p.o))})
C += [remm("RemoveNodeFromGroup", True), remm("RemoveNodeFromGroupFast", False)]
CONTRACTS = C
PROPS = {"C15": [c.name for c in C]}
