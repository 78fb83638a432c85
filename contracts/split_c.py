"""Splitting a group into its connected components (src/movements.c SplitModuleByComponent)"""
import z3
from vc import Contract, Loop, ghost_field
from spec import *
from partition_c import *
from partition2_c import live
MV = "src/movements.c"
# ghost record of the search, kept per node: number of the root of its component (-1: not reached), the neighbour it was
# reached from, the slot of that link, its depth, whether it has been expanded, whether (roots) the component moves, its slot on the list of moves
for g in ("comp", "par", "lnk", "disc", "done", "mv", "mpos", "vpos"): ghost_field("Node.$" + g)
GH = ["Node.$" + g for g in ("comp", "par", "lnk", "disc", "done", "mv", "mpos", "vpos")]
REV = z3.Function("adj_rev", I, I, I)      # the slot that holds the other direction of a link (Skolem function of "the network is undirected")
def undirected(S, adj):
    a = S.bind(adj)
    return ("the network is undirected", forall(lambda i, k: imp(And(0 <= i, i < a.N, a.idx[i] <= k, k < a.idx[i + 1]),
        And(a.idx[a.neighbors[k]] <= REV(a.o, k), REV(a.o, k) < a.idx[a.neighbors[k] + 1], a.neighbors[REV(a.o, k)] == i)), pat=lambda i, k: [(a.idx[i], a.neighbors[k])]))
def rng(S, n): return And(0 <= n, n < S.part.N)
def nd(S, n): return S.part.nodes[n]
def T(S): return S.old.targetModuleId
def V(S, n): return S.visited[n] != 0
def D(S, n): return nd(S, n).g_done == 1
def moves(S, n): return nd(S, nd(S, n).g_comp).g_mv == 1
def pend(S): return Count(0, S.part.N, lambda n: And(V(S, n), Not(D(S, n))))
def left(S): return Count(0, S.part.N, lambda n: And(nd(S, n).module == T(S), Not(D(S, n))))
def roots(S): return Count(0, S.part.N, lambda n: nd(S, n).g_comp == n)
def byv(S): return lambda n: [S.visited[n], nd(S, n).o]
def labels(S):
    return [("labels", forall(lambda n: imp(rng(S, n), If(V(S, n), And(rng(S, nd(S, n).g_comp), nd(S, nd(S, n).g_comp).g_comp == nd(S, n).g_comp, nd(S, n).module == T(S)), And(nd(S, n).g_comp == -1, nd(S, n).g_done == 0))), pat=byv(S))),
            ("expanded or not", forall(lambda n: imp(rng(S, n), Or(nd(S, n).g_done == 0, nd(S, n).g_done == 1)), pat=lambda n: [nd(S, n).o])),
            ("reached through a link", forall(lambda n: imp(And(rng(S, n), V(S, n), nd(S, n).g_comp != n), evidence(S, n)), pat=byv(S)))]
def evidence(S, n):
    x = nd(S, n); a = S.adj
    return And(rng(S, x.g_par), nd(S, x.g_par).g_comp == x.g_comp, nd(S, x.g_par).g_disc < x.g_disc, a.idx[x.g_par] <= x.g_lnk, x.g_lnk < a.idx[x.g_par + 1], a.neighbors[x.g_lnk] == n)
def closed(S):
    a = S.adj
    return ("expanded nodes are closed under links", forall(lambda n, k: imp(And(rng(S, n), D(S, n), a.idx[n] <= k, k < a.idx[n + 1], nd(S, a.neighbors[k]).module == T(S)),
        And(V(S, a.neighbors[k]), nd(S, a.neighbors[k]).g_comp == nd(S, n).g_comp)), pat=lambda n, k: [(nd(S, n).g_done, a.neighbors[k])]))
def stacks(S):
    v, m = S.to_visit, S.to_move
    return ast_inv(S, v) + [("move " + l, f) for l, f in ast_inv(S, m)] + [("two stacks", And(v.o != m.o, v.items.o != m.items.o, v.o == S.pre.to_visit.o, m.o == S.pre.to_move.o, v.items.o == S.pre.to_visit.items.o, m.items.o == S.pre.to_move.items.o, v.maxsize == S.part.N, m.maxsize == S.part.modules[T(S)].size)),
            ("visited stays", And(S.visited.o == S.pre.visited.o))] + own_blocks(S)
def own_blocks(S):
    """nothing but the work lists of this function is written"""
    out = [("caller's blocks: " + h, forall(lambda o: imp(live(S.old, o), S.heap(h)[o] == S.old.heap(h)[o]), pat=lambda o: [S.heap(h)[o]])) for h in ("Stack.top", "[]i32")]
    return out
def move_list(S):
    m = S.to_move
    return [("nodes on the move list", forall(lambda k: imp(And(0 <= k, k <= m.top), And(rng(S, m.items[k]), V(S, m.items[k]), D(S, m.items[k]), moves(S, m.items[k]), nd(S, m.items[k]).g_mpos == k)), pat=lambda k: [m.items[k]])),
            ("expanded nodes that move are on it", forall(lambda n: imp(And(rng(S, n), D(S, n), moves(S, n)), And(0 <= nd(S, n).g_mpos, nd(S, n).g_mpos <= m.top, m.items[nd(S, n).g_mpos] == n)), pat=lambda n: [nd(S, n).g_done])),
            ("length of the move list", m.top + 1 + S.to_find <= S.part.modules[T(S)].size)]
def first_stays(S):
    f = S.part.modules[T(S)].first
    return [("components so far", And(S.components >= 0, S.components <= S.part.N)), ("first component", If(S.components == 0, forall(lambda n: imp(rng(S, n), Not(V(S, n))), pat=lambda n: [S.visited[n]]), And(f != 0, f.g_comp == f.id, f.g_mv == 0))),
            ("one component moves nothing", imp(S.components <= 1, S.to_move.top == -1))]
def counts(S, d):
    return [("roots counted", S.components == roots(S)), ("nodes to find", S.to_find == left(S) - d), ("nodes pending", S.to_visit.top + 1 == pend(S) - d), ("to find in range", And(0 <= S.to_find, S.to_find <= S.part.N))]
def inv0(S):
    n = S.node
    return labels(S) + [closed(S)] + stacks(S) + move_list(S) + first_stays(S) + counts(S, 0) + [
        ("nothing pending", And(S.to_visit.top == -1)), ("all reached are expanded", forall(lambda k: imp(And(rng(S, k), V(S, k)), D(S, k)), pat=byv(S))),
        ("current node", member_ok(S, S.part, n, T(S))), ("members before it are reached", forall(lambda k: imp(And(rng(S, k), nd(S, k).module == T(S), visited(S.part, k, n)), V(S, k)), pat=byv(S))),
        ("start of the list", imp(S.components == 0, n == S.part.modules[T(S)].first)), ("two components move something", imp(S.components >= 2, S.to_move.top >= 0))]
def inner(S, but=-1):
    r = S.node; v = S.to_visit
    return [("the root", And(r != 0, r.g_owner == S.part.o, r.module == T(S), V(S, r.id), r.g_comp == r.id, S.components >= 1, r.o == S.pre.node.o)),
            ("flag of the component", And(r.g_mv == S.add_to_empty, Or(S.add_to_empty == 0, S.add_to_empty == 1), imp(S.components == 1, S.add_to_empty == 0), S.add_to_empty == S.pre.add_to_empty, S.components == S.pre.components)),
            ("pending nodes belong to this component", forall(lambda n: imp(And(rng(S, n), V(S, n), Not(D(S, n))), nd(S, n).g_comp == r.id), pat=byv(S))),
            ("nodes on the stack", forall(lambda k: imp(And(0 <= k, k <= v.top), And(rng(S, v.items[k]), V(S, v.items[k]), Not(D(S, v.items[k])), nd(S, v.items[k]).g_vpos == k)), pat=lambda k: [v.items[k]])),
            ("pending nodes are on the stack", forall(lambda n: imp(And(rng(S, n), V(S, n), Not(D(S, n)), n != but), And(0 <= nd(S, n).g_vpos, nd(S, n).g_vpos <= v.top, v.items[nd(S, n).g_vpos] == n)), pat=byv(S))),
            ("earlier members stay reached", forall(lambda k: imp(And(rng(S, k), nd(S, k).module == T(S), visited(S.part, k, r)), V(S, k)), pat=byv(S)))]
def inv1(S):
    return labels(S) + [closed(S)] + stacks(S) + move_list(S) + first_stays(S) + counts(S, 0) + inner(S) + [
        ("a second component moves something", imp(S.components >= 2, Or(S.to_move.top >= 0, And(S.add_to_empty == 1, S.to_visit.top >= 0))))]
def inv2(S):
    a = S.adj; j = S.j
    return labels(S) + [closed(S)] + stacks(S) + inner(S, j) + counts(S, 1) + [("index", And(a.idx[j] <= S.i, S.i <= a.idx[j + 1])), ("node being expanded", And(rng(S, j), V(S, j), Not(D(S, j)), nd(S, j).g_comp == S.node.id, j == S.pre.j)),
        ("it is not on the stack", forall(lambda k: imp(And(0 <= k, k <= S.to_visit.top), S.to_visit.items[k] != j), pat=lambda k: [S.to_visit.items[k]])),
        ("links so far lead to this component", forall(lambda k: imp(And(a.idx[j] <= k, k < S.i, nd(S, a.neighbors[k]).module == T(S)), And(V(S, a.neighbors[k]), nd(S, a.neighbors[k]).g_comp == S.node.id)), pat=lambda k: [a.neighbors[k]])),
        ("move list while expanding", S.to_move.top == S.pre.to_move.top), ("move list items while expanding", forall(lambda k: imp(And(0 <= k, k <= S.to_move.top), And(S.to_move.items[k] == S.pre.to_move.items[k], rng(S, S.to_move.items[k]), V(S, S.to_move.items[k]), Or(D(S, S.to_move.items[k]), S.to_move.items[k] == j), moves(S, S.to_move.items[k]), nd(S, S.to_move.items[k]).g_mpos == k)), pat=lambda k: [S.to_move.items[k]])),
        ("expanded nodes that move stay on the list", forall(lambda n: imp(And(rng(S, n), Or(D(S, n), n == j), moves(S, n)), And(0 <= nd(S, n).g_mpos, nd(S, n).g_mpos <= S.to_move.top, S.to_move.items[nd(S, n).g_mpos] == n)), pat=lambda n: [nd(S, n).g_done])),
        ("nodes still to find", S.to_find == S.pre.to_find)] + first_stays(S)
def inv3(S):
    p, L = S.part, S.L3; m = S.to_move
    return own_blocks(S) + [(l, f) for l, f in wf(S, p)] + only_of(S, p, *PART_HEAPS) + [("move " + l, f) for l, f in ast_inv(S, m)] + [("same list", And(m.o == S.pre.to_move.o, m.items.o == S.pre.to_move.items.o, m.top <= S.pre.to_move.top)),
        ("nodes still on the list", forall(lambda k: imp(And(0 <= k, k <= m.top), And(rng(S, m.items[k]), nd(S, m.items[k]).g_mpos == k, m.items[k] == S.pre.to_move.items[k])), pat=lambda k: [m.items[k]])),
        ("the search stack is left alone", And(live(S, S.to_visit.o), live(S, S.to_visit.items.o), S.to_visit.items.o == S.pre.to_visit.items.o, S.to_visit.top == S.pre.to_visit.top, S.to_visit.maxsize == S.pre.to_visit.maxsize)),
        ("moved so far", forall(lambda n: imp(rng(S, n), nd(S, n).module == If(And(nd(S, n).g_done == 1, moves(S, n), nd(S, n).g_mpos > m.top), S.old.emptyModuleId, S.old.part.nodes[n].module)), pat=lambda n: [nd(S, n).o]))]
def set_add(S, c):
    """AddToStack: records how a node was reached (search stack) or its slot (move list)"""
    on = c.st.o == S.to_visit.o; x = nd(S, c.value).o; root = c.value == S.node.id
    st = lambda h, on_, v: z3.Store(S.heap("Node.$" + h), x, If(on_, v, S.f("Node.$" + h, x)))
    j = S.j
    return {"Node.$comp": st("comp", on, If(root, c.value, nd(S, j).g_comp)), "Node.$par": st("par", on, j), "Node.$lnk": st("lnk", on, S.i), "Node.$disc": st("disc", on, If(root, 0, nd(S, j).g_disc + 1)),
            "Node.$vpos": st("vpos", on, c.old.st.top + 1), "Node.$mv": st("mv", And(on, root), S.add_to_empty), "Node.$mpos": st("mpos", Not(on), c.old.st.top + 1)}
def sp_req(S):
    p = S.part
    return wf(S, p) + adj_ok(S, S.adj) + [undirected(S, S.adj), ("same nodes", p.N == S.adj.N), ("groups exist", And(0 <= S.targetModuleId, S.targetModuleId < p.M, 0 <= S.emptyModuleId, S.emptyModuleId < p.M)), ("the second group is empty", p.modules[S.emptyModuleId].size == 0)]
def result_comp(S):
    """what the search established, stated for the partition before the call"""
    o = S.old; p = S.bind(S.part); t = S.targetModuleId; a = o.adj; N = o.part.N
    r = lambda n: And(0 <= n, n < N); inn = lambda n: o.part.nodes[n].module == t; g = lambda n: S.f("Node.$comp", o.part.nodes[n].o); gf = lambda f, n: S.f("Node.$" + f, o.part.nodes[n].o)
    nodes = lambda n: [o.part.nodes[n].o]
    return [("every member has a component, named after one of its members", forall(lambda n: imp(And(r(n), inn(n)), And(r(g(n)), inn(g(n)), g(g(n)) == g(n))), pat=nodes)),
        ("members of a component are connected to the member it is named after", forall(lambda n: imp(And(r(n), inn(n), g(n) != n), And(r(gf("par", n)), inn(gf("par", n)), g(gf("par", n)) == g(n), gf("disc", gf("par", n)) < gf("disc", n), a.idx[gf("par", n)] <= gf("lnk", n), gf("lnk", n) < a.idx[gf("par", n) + 1], a.neighbors[gf("lnk", n)] == n)), pat=nodes)),
        ("linked members are in one component", forall(lambda n, k: imp(And(r(n), inn(n), a.idx[n] <= k, k < a.idx[n + 1], inn(a.neighbors[k])), g(a.neighbors[k]) == g(n)), pat=lambda n, k: [(o.part.nodes[n].o, a.neighbors[k])])),
        ("other nodes have no component", forall(lambda n: imp(And(r(n), Not(inn(n))), g(n) == -1), pat=nodes)),
        ("the number of components is returned", S.result == Count(0, N, lambda n: g(n) == n)),
        ("components stay together and go to the empty group or stay", forall(lambda n: imp(r(n), p.nodes[n].module == If(And(inn(n), gf("mv", g(n)) == 1), S.emptyModuleId, o.part.nodes[n].module)), pat=nodes)),
        ("one component stays", imp(o.part.modules[t].size > 0, And(o.part.modules[t].first.module == t, S.f("Node.module", o.part.modules[t].first.o) == t, S.result >= 1))),
        ("one component moves if there are two", imp(S.result >= 2, And(0 <= S.f("Node.$mpos", 0) , 1 == 1) if False else p.modules[S.emptyModuleId].size > 0)),
        ("a single component changes nothing", imp(S.result <= 1, forall(lambda n: imp(r(n), p.nodes[n].module == o.part.nodes[n].module), pat=nodes)))]
def sp_ens(S): return wf(S, S.part) + result_comp(S) + only_of(S, S.part, *PART_HEAPS)
def start(S): return {"Node.$comp": lambda x: z3.IntVal(-1), "Node.$done": lambda x: z3.IntVal(0), "Node.$mpos": lambda x: z3.IntVal(-1), "Node.$mv": lambda x: z3.IntVal(0)}
def entry(S):
    t = S.targetModuleId; z = size_of(S.part, t)
    return [sum_le_n(z), sum_ge0(z), ("size of the group", And(0 <= S.part.modules[t].size, S.part.modules[t].size <= S.part.N))]
def added(S, c):
    rt = And(c.st.o == S.to_visit.o, c.value == S.node.id); v = S.to_visit
    prev = S
    for w in ("I0", "I2"):
        try: prev = getattr(S, w)
        except Exception: pass
    return [probe(c.value), sum_le_n(roots(S)), sum_diff2(roots(prev), roots(S), c.value, c.value), ("roots at most nodes", roots(S) <= S.part.N), ("roots counted now", S.components == roots(S)), ("components so far now", S.components <= S.part.N),
            ("nodes pending now", pend(S) == v.top + 1 + If(rt, 0, 1)),
            ("nodes on the stack now", forall(lambda k: imp(And(0 <= k, k <= v.top), And(rng(S, v.items[k]), V(S, v.items[k]), Not(D(S, v.items[k])), nd(S, v.items[k]).g_vpos == k)), pat=lambda k: [v.items[k]]))]
def before_add(S, c):
    prev = S
    for w in ("I0", "I2"):
        try: prev = getattr(S, w)
        except Exception: pass
    return [sum_le_n(pend(S)), probe(c.value), sum_diff2(pend(prev), pend(S), c.value, c.value), ("pending at most nodes", pend(S) <= S.part.N), ("pending with this one", imp(c.st.o == S.to_visit.o, pend(S) == S.to_visit.top + 2 + If(c.value == S.node.id, 0, 1))), ("room on the search stack", imp(c.st.o == S.to_visit.o, S.to_visit.top + 1 < S.part.N))]
def end1(S):
    return [probe(S.j), sum_diff2(left(S.I2), left(S), S.j, S.j), sum_diff2(pend(S.I2), pend(S), S.j, S.j)]
def exit1(S):
    return [sum_le(pend(S), left(S)), ("pending nodes are to be found", pend(S) <= left(S)), ("the search stack is empty", And(S.j == U32 - 1, S.to_visit.top == -1)),
            ("everything reached is expanded", forall(lambda k: imp(And(rng(S, k), V(S, k)), D(S, k)), pat=byv(S)))]
def found(S):
    """after the search: what it established, in terms of the partition before the call (which is not changed yet)"""
    o = S.old; t = S.old.targetModuleId; a = o.adj; N = o.part.N
    r = lambda n: And(0 <= n, n < N); inn = lambda n: o.part.nodes[n].module == t; g = lambda n: S.f("Node.$comp", o.part.nodes[n].o); gf = lambda f, n: S.f("Node.$" + f, o.part.nodes[n].o)
    nodes = lambda n: [o.part.nodes[n].o]
    return [("search: every member has a component, named after one of its members", forall(lambda n: imp(And(r(n), inn(n)), And(r(g(n)), inn(g(n)), g(g(n)) == g(n))), pat=nodes)),
        ("search: members of a component are connected to the member it is named after", forall(lambda n: imp(And(r(n), inn(n), g(n) != n), And(r(gf("par", n)), inn(gf("par", n)), g(gf("par", n)) == g(n), gf("disc", gf("par", n)) < gf("disc", n), a.idx[gf("par", n)] <= gf("lnk", n), gf("lnk", n) < a.idx[gf("par", n) + 1], a.neighbors[gf("lnk", n)] == n)), pat=nodes)),
        ("search: linked members are in one component", forall(lambda n, k: imp(And(r(n), inn(n), a.idx[n] <= k, k < a.idx[n + 1], inn(a.neighbors[k])), g(a.neighbors[k]) == g(n)), pat=lambda n, k: [(o.part.nodes[n].o, a.neighbors[k])])),
        ("search: other nodes have no component", forall(lambda n: imp(And(r(n), Not(inn(n))), g(n) == -1), pat=nodes)),
        ("search: the members that move are listed", forall(lambda n: imp(And(r(n), inn(n), gf("mv", g(n)) == 1), And(0 <= gf("mpos", n), gf("mpos", n) <= S.to_move.top, S.to_move.items[gf("mpos", n)] == n)), pat=nodes)),
        ("search: the listed members move", forall(lambda k: imp(And(0 <= k, k <= S.to_move.top), And(r(S.to_move.items[k]), inn(S.to_move.items[k]), gf("mv", g(S.to_move.items[k])) == 1, gf("mpos", S.to_move.items[k]) == k)), pat=lambda k: [S.to_move.items[k]])),
        ("search: with two some member moves", imp(S.components >= 2, S.to_move.top >= 0)), ("search: the component of the first member stays", imp(o.part.modules[t].size > 0, And(o.part.modules[t].first != 0, o.part.modules[t].first.module == t, 0 <= o.part.modules[t].first.id, o.part.modules[t].first.id < N, o.part.nodes[o.part.modules[t].first.id].o == o.part.modules[t].first.o, g(o.part.modules[t].first.id) == o.part.modules[t].first.id, gf("mv", o.part.modules[t].first.id) == 0, S.components >= 1)))]
def exit0(S):
    n = lambda k: And(rng(S, k), nd(S, k).module == T(S))
    return [forall(lambda k: sum_elem_le(left(S), k), pat=lambda k: [nd(S, k).o]), ("no one left to find", imp(S.to_find == 0, forall(lambda k: imp(n(k), D(S, k)), pat=lambda k: [nd(S, k).o]))),
            ("everyone before the end", imp(S.node == 0, forall(lambda k: imp(n(k), V(S, k)), pat=lambda k: [nd(S, k).o]))),
            ("all members are found", forall(lambda k: imp(n(k), And(V(S, k), D(S, k))), pat=lambda k: [nd(S, k).o]))] + found(S)
def leave(S):
    w = S.L3.to_move.items[0]; p = S.bind(S.part); z = size_of(p, S.emptyModuleId)
    return [sum_elem_le(z, w), probe(w), ("the first one listed moved", imp(S.result >= 2, And(0 <= w, w < p.N, p.nodes[w].module == S.emptyModuleId))), ("size of the second group", p.modules[S.emptyModuleId].size == z), ("the other group has someone", imp(S.result >= 2, z >= 1)), ("the other group has a member", imp(S.result >= 2, p.modules[S.emptyModuleId].size > 0))]
FG0 = ["labels", "expanded or not", "reached through a link", "expanded nodes are closed", "stack bounds", "nodes on the move list", "expanded nodes that move are on it", "components so far", "first component", "one component moves nothing", "roots counted", "nodes to find", "nodes pending", "to find in range", "nothing pending", "all reached are", "two components move", "caller's blocks", "roots at most", "pending at most", "pending with", "room on the", "nodes on the stack now", "start of the list"]
FG1 = FG0 + ["=nodes on the stack", "pending nodes are on", "pending nodes belong", "earlier members"]
SUMS = ["roots counted", "nodes to find", "nodes pending", "components so far", "room for one more", "to find in range", "roots at most", "pending at most", "pending nodes are to be found", "the search stack is empty", "pending with", "no one left", "room on the", "nodes on the stack now", "the other group has", "size of the second"]
XD = LISTS + ["first is a member", "last is a member", "group strengths", "empty groups", "expanded nodes are closed", "reached through",  "nodes on the move", "expanded nodes that move", "first component", "one component moves", "links so far", "members before", "earlier members", "pending nodes are on", "the network is und", "offsets are", "neighbours are", "two components move", "a second component"]
SM = ["roots counted", "nodes to find", "group sizes", "roots at most", "to find in"]
XV = [x for x in XD if x not in LISTS] + ["pending", "caller's blocks", "all reached", "first component", "stack bounds"] + SM
DROP = dict({k: XD for k in SUMS}, **{"variant decreases": XV, "pending with": XD + SM, "the other group has": XD + ["roots", "nodes to find", "nodes pending", "pending at", "search: other", "search: linked", "search: members", "search: every", "group sizes"], "size of the second": XD + ["roots", "nodes to find", "nodes pending", "pending at", "search"], "roots counted now": XD + ["nodes to find", "group sizes", "nodes pending", "pending at", "pending with"], "kept by an iteration: nodes to find": XD + ["roots", "group sizes", "nodes pending", "pending at"], "kept by an iteration: nodes pending": XD + ["roots", "group sizes", "nodes to find", "pending at"]}, **BOOKS_DROP)
CONTRACTS = [Contract(MV, "SplitModuleByComponent", requires=sp_req, ensures=sp_ens, modifies=PART_HEAPS + GH, fresh=["Stack.items", "Stack.top", "Stack.maxsize", "[]i32", "[]u32"], opts=dict(merge="named"), call_set={"AddToStack": set_add}, hints_entry=entry, hints_exit=leave, drop=DROP,
    call_hints={"AddToStack": before_add, "AddToStack/after": added},
    loops={0: Loop(inv=inv0, decreases=lambda S: remaining(S.part, T(S), S.node), entry_ghost=start, exit_hints=exit0, hints=lambda S: [sum_elem_le(remaining(S.part, T(S), S.node), S.node.id), probe(S.node.id)],
               hints_end=lambda S: [probe(S.I0.node.id), sum_diff2(remaining(S.part, T(S), S.I0.node), remaining(S.part, T(S), S.node), S.I0.node.id, S.I0.node.id), sum_ge0(remaining(S.part, T(S), S.I0.node))]),
           1: Loop(inv=inv1, decreases=lambda S: S.to_find, ghost=lambda S: {"Node.$done": z3.Store(S.heap("Node.$done"), nd(S, S.j).o, z3.IntVal(1))}, gkeys=["Node.$done"], forget=FG0 + ["length of the move"], hints_end=end1, exit_hints=exit1),
           2: Loop(inv=inv2, forget=FG1, decreases=lambda S: S.adj.idx[S.j + 1] - S.i, hints=lambda S: [probe(S.adj.neighbors[S.i]), ("the other end is a node", imp(S.i < S.adj.idx[S.j + 1], And(0 <= S.adj.neighbors[S.i], S.adj.neighbors[S.i] < S.part.N)))]),
           3: Loop(inv=inv3, forget=[x for x in FG1 + LISTS + ["first is a member", "last is a member", "group sizes", "group strengths", "empty groups", "length of the move", "everything reached", "pending nodes are to", "no one left", "everyone before", "members before", "current node"] if x not in ("stack bounds", "expanded or not", "roots counted", "one component moves nothing", "labels", "nodes on the move list", "expanded nodes that move are on it")], decreases=lambda S: S.to_move.top + 1)})]
PROPS = {p: ["SplitModuleByComponent"] for p in ("C06", "C03", "C08")}
