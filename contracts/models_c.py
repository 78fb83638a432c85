"""Random network generators (src/models.c)"""
import z3
from vc import Contract, Loop
from spec import *
from partition2_c import live, is_new
from graph_c import *
from graph_c import _V
MO = "src/models.c"
DEC = z3.Function("c_fmt%d", I, I)      # the text sprintf("%d") gives
C = []
def nolink(S, x): return forall(lambda y: lk(S, x, y) == 0, pat=lambda y: [lk(S, x, y)])
def made(S, h, hi, labels=True):
    """nodes 1..hi of the new network h: numbered, labelled by their position"""
    return [("the new network", And(ishead(S, h), cnt(S, h) == hi, g(S, "num", h) == -1, Not(live(S.old, h)))),
        ("its nodes", forall(lambda k: imp(And(1 <= k, k <= hi), And(g(S, "num", at(S, h, k)) == k - 1, Not(live(S.old, at(S, h, k))))), pat=lambda k: [at(S, h, k)])),
        ("their labels", forall(lambda k: imp(And(1 <= k, k <= hi), text(S, g(S, "label", at(S, h, k))) == DEC(k)), pat=lambda k: [at(S, h, k)]))]
def unlinked(S, h, hi): return ("no links", forall(lambda k: imp(And(1 <= k, k <= hi), And(deg(S, at(S, h, k)) == 0)), pat=lambda k: [at(S, h, k)]))
def apart(S): return ("the label buffer is no node's label", forall(lambda x: imp(isnode(S, x), g(S, "label", x) != S.label.o), pat=lambda x: [g(S, "label", x)]))
def older(S): return ("older nodes stay", And(*[same(S, h, lambda o: live(S.old, o)) for h in ("node_gra.next", "node_lis.next", "node_lis.weight")], forall(lambda c: imp(And(own(S, c) != 0, net(S, own(S, c)) == S.root.o), Not(live(S.old, c))), pat=lambda c: [own(S, c)])))
def buf(S): return ("the label buffer is there", And(S.label.o == S.pre.label.o, live(S, S.label.o)))
def listed(S, hi): return ("node list", And(S.nodeList.o == S.pre.nodeList.o, S.nodeList.off == 0, live(S, S.nodeList.o), Not(live(S.old, S.nodeList.o)), forall(lambda k: imp(And(0 <= k, k < hi), S.nodeList[k].o == at(S, S.root.o, k + 1)), pat=lambda k: [S.nodeList[k].o, at(S, S.root.o, k + 1)])))
C.append(Contract(MO, "EmptyGraph", requires=lambda S: okall(S) + [("size", And(0 <= S.S, S.S < U30 - 1))],
    ensures=lambda S: okall(S) + made(S, S.result.o, S.S) + [unlinked(S, S.result.o, S.S)], modifies=NETG + GROWN, fresh=NODEF + LF + ["node_gra.next", "node_lis.next", "node_lis.weight", CH], allocs="grow",
    loops={0: Loop(inv=lambda S: okall(S) + [("index", And(0 <= S.node1, S.node1 <= S.S)), ("last", S.last.o == at(S, S.root.o, S.node1))] + made(S, S.root.o, S.node1) + [unlinked(S, S.root.o, S.node1), apart(S), buf(S), older(S)], decreases=lambda S: S.S - S.node1)}))
def links_inv(S, done, room, pr=lambda S, i, j: S.p):
    """links only between pairs already drawn, always in both directions, as the extremes of the probability demand"""
    h = S.root.o; n = S.S; rg = lambda i, j: And(1 <= i, i <= n, 1 <= j, j <= n); J = lambda i, j: lk(S, at(S, h, i), at(S, h, j)) != 0
    pt = lambda i, j: [lk(S, at(S, h, i), at(S, h, j))]; done_ = lambda i, j: done(S, i - 1, j - 1)
    return [("links only between drawn pairs", forall(lambda i, j: imp(And(rg(i, j), J(i, j)), Or(done_(i, j), done_(j, i))), pat=pt)),
        ("links in both directions", forall(lambda i, j: imp(rg(i, j), J(i, j) == J(j, i)), pat=pt)),
        ("probability 0 joins nothing", forall(lambda i, j: imp(And(rg(i, j), i < j, pr(S, i, j) <= 0), Not(J(i, j))), pat=pt)),
        ("probability 1 joins every pair", forall(lambda i, j: imp(And(rg(i, j), i < j, pr(S, i, j) >= 1, done_(i, j)), J(i, j)), pat=pt)),
        ("room for links", forall(lambda k: imp(And(1 <= k, k <= n), deg(S, at(S, h, k)) <= room(k - 1)), pat=lambda k: [deg(S, at(S, h, k)), at(S, h, k)]))]
def er_ens(S):
    h = S.result.o; n = S.S; rg = lambda i, j: And(1 <= i, i <= n, 1 <= j, j <= n); J = lambda i, j: lk(S, at(S, h, i), at(S, h, j)) != 0; pt = lambda i, j: [lk(S, at(S, h, i), at(S, h, j))]
    return okall(S) + made(S, h, n) + [("links in both directions, none from a node to itself", forall(lambda i, j: imp(rg(i, j), And(J(i, j) == J(j, i), imp(i == j, Not(J(i, j))))), pat=pt)),
        ("probability 0 gives no link, probability 1 every link", forall(lambda i, j: imp(rg(i, j), And(imp(S.p <= 0, Not(J(i, j))), imp(And(S.p >= 1, i != j), J(i, j)))), pat=pt))]
ERM = dict(modifies=NETG + GROWN + ["node_gra.degree", "node_gra.strength"], fresh=NODEF + LF + ["node_gra.next", "node_lis.next", "node_lis.weight", CH, "[]*node_gra"], allocs="grow")
def pairs(S, i, j): return And(i < j, Or(i < S.node1, And(i == S.node1, j < S.node2)))
def pairs0(S, i, j): return And(i < j, i < S.node1)
def er_base(S): return okall(S) + made(S, S.root.o, S.S) + [listed(S, S.S), older(S)]
C.append(Contract(MO, "ERGraph", requires=lambda S: okall(S) + [("size", And(0 <= S.S, S.S < U30 - 1))], ensures=er_ens, **ERM,
    loops={0: Loop(inv=lambda S: okall(S) + [("index", And(0 <= S.node1, S.node1 <= S.S)), ("last", S.last.o == at(S, S.root.o, S.node1))] + made(S, S.root.o, S.node1) + [unlinked(S, S.root.o, S.node1), apart(S), buf(S), older(S), listed(S, S.node1)], decreases=lambda S: S.S - S.node1),
        1: Loop(inv=lambda S: [("index", And(0 <= S.node1, S.node1 <= S.S))] + er_base(S) + links_inv(S, pairs0, lambda k: If(k < S.node1, S.S - 1, S.node1)), decreases=lambda S: S.S - S.node1),
        2: Loop(inv=lambda S: [("index", And(0 <= S.node1, S.node1 < S.node2, S.node2 <= S.S))] + er_base(S) + links_inv(S, pairs, lambda k: If(k < S.node1, S.S - 1, If(k == S.node1, S.node2 - 1, S.node1 + If(k < S.node2, 1, 0)))), decreases=lambda S: S.S - S.node2)}))
# ---- block graph: node k is in the group whose share of 1..S it falls in; pre[i] is the number of nodes in groups before i
def grp(S, h, k): return g(S, "inGroup", at(S, h, k))
def prob(S, h): return lambda S_, i, j: S.q[grp(S, h, i)][grp(S, h, j)]
def sizes(S): return [("group sizes", And(S.gsize.alloc(), S.gsize.typed(), S.gsize.len() >= S.ngroup, forall(lambda i: imp(And(0 <= i, i < S.ngroup), S.gsize[i] >= 0), pat=lambda i: [S.gsize[i]]))),
    ("sizes add up", And(sel(S.pre_, 0) == 0, sel(S.pre_, S.ngroup) < U30 - 1, forall(lambda i: imp(And(0 <= i, i < S.ngroup), sel(S.pre_, i + 1) == sel(S.pre_, i) + S.gsize[i]), pat=lambda i: [sel(S.pre_, i + 1)], ) , forall(lambda i, j: imp(And(0 <= i, i <= j, j <= S.ngroup), sel(S.pre_, i) <= sel(S.pre_, j)), pat=lambda i, j: [(sel(S.pre_, i), sel(S.pre_, j))])))]
def qtab(S): return [("probabilities", And(S.q.alloc(), S.q.typed(), S.q.len() >= S.ngroup, forall(lambda i: imp(And(0 <= i, i < S.ngroup), And(S.q[i].alloc(), S.q[i].typed(), S.q[i].len() >= S.ngroup)), pat=lambda i: [S.q[i].o])))]
def grouped(S, h, hi): return ("groups of the nodes", forall(lambda k: imp(And(1 <= k, k <= hi), And(0 <= grp(S, h, k), grp(S, h, k) < S.ngroup, sel(S.pre_, grp(S, h, k)) < k, k <= sel(S.pre_, grp(S, h, k) + 1))), pat=lambda k: [at(S, h, k)]))
def ub_ens(S):
    h = S.result.o; n = sel(S.pre_, S.ngroup); rg = lambda i, j: And(1 <= i, i <= n, 1 <= j, j <= n); J = lambda i, j: lk(S, at(S, h, i), at(S, h, j)) != 0; pt = lambda i, j: [lk(S, at(S, h, i), at(S, h, j))]; pr = prob(S, h)
    return okall(S) + made(S, h, n) + [grouped(S, h, n), ("links in both directions, none from a node to itself", forall(lambda i, j: imp(rg(i, j), And(J(i, j) == J(j, i), imp(i == j, Not(J(i, j))))), pat=pt)),
        ("probability 0 gives no link, probability 1 every link", forall(lambda i, j: imp(And(rg(i, j), i < j), And(imp(pr(S, i, j) <= 0, Not(J(i, j))), imp(pr(S, i, j) >= 1, J(i, j)))), pat=pt))]
def ub_base(S): return er_base(S) + [("other groups", same(S, "node_gra.inGroup", lambda o: live(S.old, o))), grouped(S, S.root.o, S.S), ("all nodes", S.S == sel(S.pre_, S.ngroup))]
def ub_make(S, hi): return okall(S) + [("last", S.last.o == at(S, S.root.o, hi)), ("index", And(0 <= S.i, S.i <= S.ngroup)), ("groups so far", S.S == sel(S.pre_, S.i)), ("other groups", same(S, "node_gra.inGroup", lambda o: live(S.old, o)))] + made(S, S.root.o, hi) + [unlinked(S, S.root.o, hi), apart(S), buf(S), older(S), listed(S, hi), grouped(S, S.root.o, hi), ("room", S.nodeList.len() >= sel(S.pre_, S.ngroup))]
C.append(Contract(MO, "UndirectedBlockGraph", requires=lambda S: okall(S) + [("number of groups", 0 <= S.ngroup)] + sizes(S) + qtab(S), ensures=ub_ens, ghost_params={"pre_": AII}, **ERM,
    loops={0: Loop(inv=lambda S: [("index", And(0 <= S.i, S.i <= S.ngroup)), ("sum so far", S.S == sel(S.pre_, S.i)), ("not negative", S.S >= 0)], hints=lambda S: [("the next sum", imp(S.i < S.ngroup, And(sel(S.pre_, S.i + 1) == S.S + S.gsize[S.i], sel(S.pre_, S.i + 1) <= sel(S.pre_, S.ngroup))))], decreases=lambda S: S.ngroup - S.i),
        1: Loop(inv=lambda S: ub_make(S, S.S), decreases=lambda S: S.ngroup - S.i),
        2: Loop(inv=lambda S: [("node", And(S.S <= S.node1, S.node1 <= sel(S.pre_, S.i + 1), S.i < S.ngroup))] + ub_make(S, S.node1), decreases=lambda S: sel(S.pre_, S.i + 1) - S.node1),
        3: Loop(inv=lambda S: [("index", And(0 <= S.node1, S.node1 <= S.S))] + ub_base(S) + links_inv(S, pairs0, lambda k: If(k < S.node1, S.S - 1, S.node1), prob(S, S.root.o)), decreases=lambda S: S.S - S.node1),
        4: Loop(inv=lambda S: [("index", And(0 <= S.node1, S.node1 < S.node2, S.node2 <= S.S))] + ub_base(S) + links_inv(S, pairs, lambda k: If(k < S.node1, S.S - 1, If(k == S.node1, S.node2 - 1, S.node1 + If(k < S.node2, 1, 0))), prob(S, S.root.o)), decreases=lambda S: S.S - S.node2)}))
# ---- benchmark network: ngroup groups of gsize nodes each
def gn_ens(S):
    h = S.result.o; m = Mul(S.gsize, S.ngroup); rg = lambda i, j: And(1 <= i, i < j, j <= m); J = lambda i, j: lk(S, at(S, h, i), at(S, h, j)) != 0; pt = lambda i, j: [lk(S, at(S, h, i), at(S, h, j))]
    same_g = lambda i, j: grp(S, h, i) == grp(S, h, j); gs, ng = z3.ToReal(S.gsize), z3.ToReal(S.ngroup)
    return okall(S) + made(S, h, m) + [("the k-th share of nodes is group k", forall(lambda k: imp(And(1 <= k, k <= m), And(0 <= grp(S, h, k), grp(S, h, k) < S.ngroup, Mul(S.gsize, grp(S, h, k)) < k, k <= Mul(S.gsize, grp(S, h, k) + 1))), pat=lambda k: [at(S, h, k)])),
        ("links in both directions, none from a node to itself", forall(lambda i, j: imp(And(1 <= i, i <= m, 1 <= j, j <= m), And(J(i, j) == J(j, i), imp(i == j, Not(J(i, j))))), pat=pt)),
        ("no links inside groups without inside links wanted", forall(lambda i, j: imp(And(rg(i, j), same_g(i, j), S.kin <= 0), Not(J(i, j))), pat=pt)),
        ("all links inside groups when as many inside links as members are wanted", forall(lambda i, j: imp(And(rg(i, j), same_g(i, j), S.kin >= gs - 1), J(i, j)), pat=pt)),
        ("no links between groups without outside links wanted", forall(lambda i, j: imp(And(rg(i, j), Not(same_g(i, j)), S.kout <= 0), Not(J(i, j))), pat=pt)),
        ("all links between groups when as many outside links as others are wanted", forall(lambda i, j: imp(And(rg(i, j), Not(same_g(i, j)), S.kout >= z3.ToReal(Mul(S.gsize, S.ngroup - 1))), J(i, j)), pat=pt))]
def gn_tab(S, row, col):
    from tools_c import mat_ok
    gi, go = S.kin / z3.ToReal(S.gsize - 1), S.kout / z3.ToReal(Mul(S.gsize, S.ngroup - 1))
    return mat_ok(S, S.q, S.ngroup, S.ngroup, True) + [("tables", And(S.q.o == S.pre.q.o, S.gsizes.o == S.pre.gsizes.o, S.gsizes.alloc(), S.gsizes.typed(), S.gsizes.o != 0, S.gsizes.len() == S.ngroup, is_new(S, S.gsizes.o))),
        ("other tables", And(*[same(S, h_, lambda o: live(S.old, o)) for h_ in ("[]real", "[]*real", "[]i32")])),
        ("sizes so far", forall(lambda i: imp(And(0 <= i, i < row), S.gsizes[i] == S.gsize), pat=lambda i: [S.gsizes[i]])),
        ("inside", forall(lambda i: imp(And(0 <= i, i < row), S.q[i][i] == gi), pat=lambda i: [S.q[i].o])),
        ("between", forall(lambda i, j: imp(And(0 <= i, i < j, j < S.ngroup, Or(i < row - 1, And(i == row - 1, j < col))), S.q[i][j] == go), pat=lambda i, j: [S.q[i][j]]))] + okall(S)
C.append(Contract(MO, "GirvanNewmanGraph", requires=lambda S: okall(S) + [("sizes", And(S.ngroup >= 0, S.gsize >= 2, Mul(S.gsize, S.ngroup) < U30 - 1))], ensures=gn_ens, modifies=ERM["modifies"], fresh=ERM["fresh"] + ["[]real", "[]*real", "[]i32"], allocs="grow", opts=dict(nlmul=True, merge=True), hints_entry=lambda S: [mul_facts(S.gsize), mul_row(S.gsize)],
    call_ghosts={"UndirectedBlockGraph": lambda S: {"pre_": MulRow(S.gsize)}},
    loops={0: Loop(inv=lambda S: [("index", And(0 <= S.g1, S.g1 <= S.ngroup))] + gn_tab(S, S.g1, S.ngroup), hints=lambda S: [mul_facts(S.gsize)], decreases=lambda S: S.ngroup - S.g1),
        1: Loop(inv=lambda S: [("index", And(0 <= S.g1, S.g1 < S.g2, S.g2 <= S.ngroup))] + gn_tab(S, S.g1 + 1, S.g2), hints=lambda S: [mul_facts(S.gsize)], decreases=lambda S: S.ngroup - S.g2)}))
# ---- preferential attachment
def ref_ix(S, h, k, p): return ix(S, ref(S, nb(S, at(S, h, k), p)))
def pa_links(S, h, hi, cur=None, curdeg=0):
    """every node after the first m has its first m links to earlier nodes, the others to later nodes; node cur is being linked"""
    m = S.m; J = lambda i, j: lk(S, at(S, h, i), at(S, h, j)) != 0; pt = lambda i, j: [lk(S, at(S, h, i), at(S, h, j))]; rg = lambda i, j: And(1 <= i, i <= hi, 1 <= j, j <= hi)
    fst = lambda k: m if cur is None else If(k == cur, curdeg, m)
    return [("links in both directions", forall(lambda i, j: imp(rg(i, j) if cur is None else And(1 <= i, i < cur, 1 <= j, j < cur), J(i, j) == J(j, i)), pat=pt)),
        ("links of the new node in both directions", True if cur is None else forall(lambda i: imp(And(1 <= i, i < cur), J(i, cur) == J(cur, i)), pat=lambda i: [lk(S, at(S, h, i), at(S, h, cur)), lk(S, at(S, h, cur), at(S, h, i))])), ("no self links", forall(lambda i: imp(And(1 <= i, i <= hi), Not(J(i, i))), pat=lambda i: [lk(S, at(S, h, i), at(S, h, i))])),
        ("the first nodes are all linked", forall(lambda i, j: imp(And(1 <= i, i < j, j <= m), J(i, j)), pat=pt)),
        ("enough links", forall(lambda k: imp(And(m < k, k <= hi), deg(S, at(S, h, k)) >= fst(k)), pat=lambda k: [at(S, h, k)])),
        ("first links lead to earlier nodes", forall(lambda k, p: imp(And(m < k, k <= hi if cur is None else k < cur, 1 <= p, p <= m), And(1 <= ref_ix(S, h, k, p), ref_ix(S, h, k, p) < k)), pat=lambda k, p: [nb(S, at(S, h, k), p)])),
        ("links of the new node lead to earlier nodes", True if cur is None else forall(lambda p: imp(And(1 <= p, p <= curdeg), And(1 <= ref_ix(S, h, cur, p), ref_ix(S, h, cur, p) < cur)), pat=lambda p: [nb(S, at(S, h, cur), p)])),
        ("other links lead to later nodes", forall(lambda k, p: imp(And(m < k, k <= hi, fst(k) < p, p <= deg(S, at(S, h, k))), ref_ix(S, h, k, p) > k), pat=lambda k, p: [nb(S, at(S, h, k), p)]))]
def pa_ens(S):
    return okall(S) + made(S, S.result.o, S.S) + pa_links(S, S.result.o, S.S)
def pa_base(S, hi):
    return okall(S) + made(S, S.root.o, hi) + [("last", S.last.o == at(S, S.root.o, hi)), apart(S), buf(S), older(S), listed(S, hi), ("list of ends", And(S.paList.o == S.pre.paList.o, S.paList.off == 0, live(S, S.paList.o), Not(live(S.old, S.paList.o)))),
        ("drawn ends are nodes", forall(lambda k: imp(And(0 <= k, k < S.paList.len()), And(0 <= S.paList[k], S.paList[k] < If(hi < 1, 1, hi))), pat=lambda k: [S.paList[k]])),
        ("other tables", same(S, "[]i32", lambda o: live(S.old, o)))]
def pa_deg(S, hi, f): return ("room for links", forall(lambda k: imp(And(1 <= k, k <= hi), deg(S, at(S, S.root.o, k)) <= f(k)), pat=lambda k: [deg(S, at(S, S.root.o, k)), at(S, S.root.o, k)]))
def first_links(S, n1, n2):
    """phase one: nodes 1..n1 are all linked, and node n1+1 to the first n2 of them"""
    h = S.root.o; J = lambda i, j: lk(S, at(S, h, i), at(S, h, j)) != 0; pt = lambda i, j: [lk(S, at(S, h, i), at(S, h, j))]
    hi = n1 if n2 is None else n1 + 1
    return [("first nodes are linked", forall(lambda i, j: imp(And(1 <= i, i < j, j <= hi), And(J(i, j) == (True if n2 is None else Or(j <= n1, i <= n2)), J(j, i) == J(i, j))), pat=pt)),
        ("no self links", forall(lambda i: imp(And(1 <= i, i <= hi), Not(J(i, i))), pat=lambda i: [lk(S, at(S, h, i), at(S, h, i))]))]
def pa_norm(S, n1, extra): return ("ends drawn so far", And(0 <= S.norm, S.norm <= 2 * Mul(S.m, n1) + 2 * extra, S.paList.len() == 2 * Mul(S.m, S.S)))
def pa_h(S): return [mul_facts(S.m), Mul(S.m, S.S) == S.m * S.S]
def linked_new(S, k, cur): return lk(S, at(S, S.root.o, k), at(S, S.root.o, cur)) != 0
C.append(Contract(MO, "PAGraph", requires=lambda S: okall(S) + [("size", And(1 <= S.m, S.m <= S.S, 2 * (S.S * S.m) < U30))], ensures=pa_ens, modifies=ERM["modifies"], fresh=ERM["fresh"] + ["[]i32"], allocs="grow", hints_entry=pa_h,
    loops={0: Loop(inv=lambda S: [("index", And(0 <= S.node1, S.node1 <= S.m))] + pa_base(S, S.node1) + first_links(S, S.node1, None) + [pa_norm(S, S.node1, 0), pa_deg(S, S.node1, lambda k: S.node1 - 1)], hints=pa_h, decreases=lambda S: S.m - S.node1),
        1: Loop(inv=lambda S: [("index", And(0 <= S.node2, S.node2 <= S.node1, S.node1 < S.m))] + pa_base(S, S.node1 + 1) + first_links(S, S.node1, S.node2) + [pa_norm(S, S.node1, S.node2), pa_deg(S, S.node1 + 1, lambda k: If(k <= S.node1, S.node1 - 1 + If(k <= S.node2, 1, 0), S.node2))], hints=pa_h, decreases=lambda S: S.node1 - S.node2),
        2: Loop(inv=lambda S: [("index", And(S.m <= S.node1, S.node1 <= S.S))] + pa_base(S, S.node1) + pa_links(S, S.root.o, S.node1) + [pa_norm(S, S.node1, 0), pa_deg(S, S.node1, lambda k: S.node1 - 1)], hints=pa_h, decreases=lambda S: S.S - S.node1),
        3: Loop(inv=lambda S: [("index", And(S.m <= S.node1, S.node1 < S.S, 0 <= S.n, S.n <= S.m))] + pa_base(S, S.node1 + 1) + pa_links(S, S.root.o, S.node1 + 1, S.node1 + 1, S.n) + [pa_norm(S, S.node1, S.n), ("links of the new node", deg(S, at(S, S.root.o, S.node1 + 1)) == S.n), pa_deg(S, S.node1 + 1, lambda k: If(k <= S.node1, S.node1 - 1 + If(linked_new(S, k, S.node1 + 1), 1, 0), S.m))], hints=pa_h, decreases=lambda S: S.m - S.n),
        4: Loop(inv=lambda S: [("state", And(S.m <= S.node1, S.node1 < S.S, 0 <= S.n, S.n < S.m))])}))
CONTRACTS = C
PROPS = {"C22": ["EmptyGraph", "ERGraph", "PAGraph", "UndirectedBlockGraph", "GirvanNewmanGraph", "CreateHeaderGraph", "CreateNodeGraph", "AddAdjacency", "IsThereLink", "allocate_d_mat", "free_d_mat", "allocate_i_vec", "free_i_vec"]}
