"""Compact partition engine: src/partition.c, src/movements.c"""
import z3
from vc import Contract, Loop, ghost_field, MULTI
from spec import *

MULTI.add("Edge")
ghost_field("Node.$owner"); ghost_field("Module.$owner")   # the partition a node / group record belongs to
ghost_field("Node.$ord")        # position of a node within its group's list (any strictly increasing labelling)

U32 = 1 << 32

def isn(S, part, x):
    """x (a node) belongs to this partition"""
    return x.g_owner == part.o
def shape(S, part):
    """storage of a partition: everything except lists and books"""
    p = S.bind(part)
    N = lambda o: S.ptr("Node", o); M = lambda o: S.ptr("Module", o)
    return [
        ("partition block", And(p.alloc(), p.o != 0, p.typed())),
        ("node table", And(p.nodes.alloc(), p.nodes.len() >= p.N, p.nodes.typed())),
        ("module table", And(p.modules.alloc(), p.modules.len() >= p.M, p.modules.typed())),
        ("sizes in range", And(p.N >= 0, p.N < U32 // 2, p.M >= 0, p.M < U32 // 2)),
        ("node table is not the module table", p.nodes.o != p.modules.o),
        ("nodes live, numbered by position", forall(lambda i: imp(And(0 <= i, i < p.N), And(p.nodes[i].g_owner == p.o, p.nodes[i].id == i)), pat=lambda i: [p.nodes[i].o])),
        ("groups live, numbered by position", forall(lambda m: imp(And(0 <= m, m < p.M), And(p.modules[m].g_owner == p.o, p.modules[m].id == m)), pat=lambda m: [p.modules[m].o])),
        ("owned nodes are in the table", forall(lambda o: imp(N(o).g_owner == p.o, And(o != 0, N(o).alloc(), N(o).typed(), 0 <= N(o).id, N(o).id < p.N, p.nodes[N(o).id].o == o)), pat=lambda o: [N(o).g_owner])),
        ("owned groups are in the table", forall(lambda o: imp(M(o).g_owner == p.o, And(o != 0, M(o).alloc(), M(o).typed(), 0 <= M(o).id, M(o).id < p.M, p.modules[M(o).id].o == o)), pat=lambda o: [M(o).g_owner])),
    ]
def lists(S, part, own=None, ord=None):
    """own: which nodes are in the lists (all nodes of the partition unless given); ord: their position"""
    p = S.bind(part)
    N = lambda o: S.ptr("Node", o); M = lambda o: S.ptr("Module", o)
    own = own or (lambda o: N(o).g_owner == p.o)
    ord = ord or (lambda x: x.g_ord)
    grp = lambda o: p.modules[N(o).module]
    return [
        ("group numbers in range", forall(lambda x: imp(own(x), And(0 <= N(x).module, N(x).module < p.M)), pat=lambda x: [N(x).module])),
        ("next stays in the group and prev is its inverse", forall(lambda x: imp(And(own(x), N(x).next != 0),
            And(own(N(x).next.o), N(x).next.module == N(x).module, ord(N(x).next) > ord(N(x)), N(x).next.prev == x)), pat=lambda x: [N(x).next.o])),
        ("prev stays in the group and next is its inverse", forall(lambda x: imp(And(own(x), N(x).prev != 0),
            And(own(N(x).prev.o), N(x).prev.module == N(x).module, ord(N(x).prev) < ord(N(x)), N(x).prev.next == x)), pat=lambda x: [N(x).prev.o])),
        ("a node without predecessor is the first of its group", forall(lambda x: imp(And(own(x), N(x).prev == 0), grp(x).first == x), pat=lambda x: [N(x).prev.o])),
        ("a node without successor is the last of its group", forall(lambda x: imp(And(own(x), N(x).next == 0), grp(x).last == x), pat=lambda x: [N(x).next.o])),
        ("list positions differ", forall(lambda x, y: imp(And(own(x), own(y), x != y, N(x).module == N(y).module), ord(N(x)) != ord(N(y))), pat=lambda x, y: [(ord(N(x)), ord(N(y)))])),
        ("lists are connected", forall(lambda x, y: imp(And(own(x), own(y), N(x).module == N(y).module, ord(N(x)) < ord(N(y))),
            And(N(x).next != 0, ord(N(x).next) <= ord(N(y)))), pat=lambda x, y: [(N(x).next.o, ord(N(y)))])),
        ("lists are connected backwards", forall(lambda x, y: imp(And(own(x), own(y), N(x).module == N(y).module, ord(N(x)) < ord(N(y))),
            And(N(y).prev != 0, ord(N(y).prev) >= ord(N(x)))), pat=lambda x, y: [(N(y).prev.o, ord(N(x)))])),
        ("every list starts before its members and ends after them", forall(lambda x: imp(own(x),
            And(grp(x).first != 0, ord(grp(x).first) <= ord(N(x)), grp(x).last != 0, ord(grp(x).last) >= ord(N(x)))), pat=lambda x: [ord(N(x)), N(x).module])),
        ("first is a member without predecessor", forall(lambda m: imp(And(M(m).g_owner == p.o, M(m).first != 0), 
            And(own(M(m).first.o), M(m).first.module == M(m).id, M(m).first.prev == 0)), pat=lambda m: [M(m).first.o])),
        ("last is a member without successor", forall(lambda m: imp(And(M(m).g_owner == p.o, M(m).last != 0), 
            And(own(M(m).last.o), M(m).last.module == M(m).id, M(m).last.next == 0)), pat=lambda m: [M(m).last.o])),
    ]
def size_of(p, m): return Count(0, p.N, lambda i: p.nodes[i].module == m)
def strength_of(p, m): return SumR(0, p.N, lambda i: If(p.nodes[i].module == m, p.nodes[i].strength, 0))
def books(S, part):
    p = S.bind(part)
    return [
        ("group sizes count the members", forall(lambda m: imp(And(0 <= m, m < p.M), p.modules[m].size == size_of(p, m)), pat=lambda m: [p.modules[m].o])),
        ("group strengths sum the members", forall(lambda m: imp(And(0 <= m, m < p.M), p.modules[m].strength == strength_of(p, m)), pat=lambda m: [p.modules[m].o])),
        ("empty groups are counted", p.nempty == Count(0, p.M, lambda m: p.modules[m].size == 0)),
    ]
def wf(S, part): return shape(S, part) + lists(S, part) + books(S, part)

def adj_ok(S, adj, N=None):
    a = S.bind(adj)
    n = a.N
    return [
        ("adjacency block", And(a.alloc(), a.idx.alloc(), a.neighbors.alloc(), a.strength.alloc())),
        ("adjacency sizes", And(n >= 0, n < U32 // 2, a.idx.len() >= n + 1, a.neighbors.len() >= a.idx[n], a.strength.len() >= a.idx[n], a.idx[n] < U32 // 2)),
        ("separate tables", a.idx.o != a.neighbors.o),
        ("offsets are sorted", forall(lambda i, j: imp(And(0 <= i, i <= j, j <= n), And(0 <= a.idx[i], a.idx[i] <= a.idx[j])), pat=lambda i, j: [(a.idx[i], a.idx[j])])),
        ("neighbours are nodes", forall(lambda k: imp(And(0 <= k, k < a.idx[n]), And(0 <= a.neighbors[k], a.neighbors[k] < n)), pat=lambda k: [a.neighbors[k]])),
    ]

PART_HEAPS = ["Node.module", "Node.prev", "Node.next", "Node.$ord", "Module.size", "Module.strength", "Module.first", "Module.last", "Partition.nempty"]
def only_of(S, part, *fields):
    """frame: records change only if they belong to this partition"""
    out = []
    for h in fields:
        st = h.split(".")[0]
        mine = (lambda o: o == part.o) if st == "Partition" else (lambda o: S.old.ptr(st, o).g_owner == part.o)
        out.append(("records of other partitions untouched: " + h, forall(lambda o: imp(Not(mine(o)), S.f(h, o) == S.old.f(h, o)), pat=lambda o: [z3.Select(S.heap(h), o)])))
    return out

# ---------------------------------------------------------------- ChangeModule
def cm_requires(S):
    return wf(S, S.part) + [("node exists", And(0 <= S.nodeId, S.nodeId < S.part.N)), ("group exists", And(0 <= S.newModuleId, S.newModuleId < S.part.M))]
def cm_ensures(S):
    p, q = S.bind(S.part), S.old.part
    return wf(S, S.part) + [
        ("only this node changes group, to the requested one", forall(lambda i: imp(And(0 <= i, i < q.N), p.nodes[i].module == If(i == S.nodeId, S.newModuleId, q.nodes[i].module)), pat=lambda i: [p.nodes[i].o])),
    ] + only_of(S, S.part, *PART_HEAPS)
def cm_ghost(S):
    n = S.bind(S.part).nodes[S.nodeId]
    return {"Node.$ord": z3.Store(S.heap("Node.$ord"), n.o, If(n.next != 0, n.next.g_ord - 1, 0))}
def cm_hints(S):
    p, q = S.bind(S.part), S.old.part
    old = q.nodes[S.nodeId].module
    return [
        sum_elem_le(size_of(q, old), S.nodeId), probe(S.nodeId),
        sum_ge0(size_of(q, S.newModuleId)), sum_le_n(size_of(q, S.newModuleId)), sum_le_n(size_of(q, old)),
        ("neighbours in the old list", forall(lambda x: imp(And(isn(S, S.part, S.ptr("Node", x)), S.old.ptr("Node", x).module == old, x != q.nodes[S.nodeId].o),
            Or(And(q.nodes[S.nodeId].prev != 0, q.nodes[S.nodeId].prev.g_ord >= S.old.ptr("Node", x).g_ord), And(q.nodes[S.nodeId].next != 0, q.nodes[S.nodeId].next.g_ord <= S.old.ptr("Node", x).g_ord))),
              pat=lambda x: [S.old.ptr("Node", x).module])),
        ("the old group is not empty", q.modules[old].size >= 1),
        ("the old group is not too big", q.modules[old].size <= q.N),
        ("the new group is not too big", And(q.modules[S.newModuleId].size >= 0, q.modules[S.newModuleId].size <= q.N)),
        ("size of the old group", imp(old != S.newModuleId, p.modules[old].size == q.modules[old].size - 1)),
        ("size of the new group", imp(old != S.newModuleId, p.modules[S.newModuleId].size == q.modules[S.newModuleId].size + 1)),
        ("size of the same group", imp(old == S.newModuleId, p.modules[S.newModuleId].size == q.modules[S.newModuleId].size)),
        ("size of other groups", forall(lambda m: imp(And(0 <= m, m < q.M, m != old, m != S.newModuleId), p.modules[m].size == q.modules[m].size), pat=lambda m: [p.modules[m].o])),
        sum_diff2(Count(0, q.M, lambda m: q.modules[m].size == 0), Count(0, q.M, lambda m: p.modules[m].size == 0), old, S.newModuleId),
        sum_elem_le(Count(0, q.M, lambda m: q.modules[m].size == 0), S.newModuleId), sum_le_n(Count(0, q.M, lambda m: q.modules[m].size == 0)),
    ]

LISTS = ["next stays", "prev stays", "without predecessor", "without successor", "list positions", "lists are", "every list", "neighbours in"]
BOOKS_DROP = {"group is not": LISTS + ["group strengths", "empty groups"], "size of": LISTS + ["group strengths", "empty groups"], "group sizes": LISTS + ["group strengths"], "group strengths": LISTS + ["group sizes", "empty groups"], "empty groups": LISTS + ["group strengths"]}
CONTRACTS = [
    Contract("src/movements.c", "ChangeModule", requires=cm_requires, ensures=cm_ensures, modifies=PART_HEAPS,
             ghost_exit=cm_ghost, hints_exit=cm_hints, opts=dict(merge=True), drop=BOOKS_DROP),
]

# ---------------------------------------------------------------- roles
def role_spec(P, z):
    d = dbl
    return If(z < d(2.5), If(P < d(0.05), 0, If(P < d(0.62), 1, If(P < d(0.80), 2, 3))), If(P < d(0.30), 4, If(P < d(0.75), 5, 6)))
CONTRACTS.append(Contract("src/partition.c", "GetRole", ensures=lambda S: [("role has the published boundaries", S.result == role_spec(S.P, S.z))]))

# ---------------------------------------------------------------- array stack
def ast_inv(S, st):
    t = S.bind(st)
    return [("stack block", And(t.o != 0, t.alloc(), t.items.alloc(), t.items.off == 0 if z3.is_expr(t.items.off) else True)),
            ("stack bounds", And(t.top >= -1, t.maxsize >= 0, t.maxsize < U32 // 2, t.top < t.maxsize, t.items.len() == t.maxsize, t.items != 0))]
MV = "src/movements.c"
CONTRACTS += [
    Contract(MV, "CreateStack", requires=lambda S: [("size in range", And(0 <= S.N, S.N < U32 // 2))],
        ensures=lambda S: ast_inv(S, S.result) + [("a new stack is empty", And(S.result.top == -1, S.result.maxsize == S.N)),
            ("blocks are new", And(Not(z3.Select(S.old.heap("$alloc"), S.result.o)), Not(z3.Select(S.old.heap("$alloc"), S.result.items.o)), S.result.items.o != S.result.o)),
            ("only two blocks are new", forall(lambda o: z3.Select(S.heap("$alloc"), o) == Or(z3.Select(S.old.heap("$alloc"), o), o == S.result.o, o == S.result.items.o), pat=lambda o: [z3.Select(S.heap("$alloc"), o)]))],
        fresh=["Stack.maxsize", "Stack.top", "Stack.items", "[]i32"], allocs="grow"),
    Contract(MV, "FreeStack", requires=lambda S: ast_inv(S, S.st) + [("two blocks", S.st.o != S.st.items.o)],
        ensures=lambda S: [("exactly the stack is released", forall(lambda o: z3.Select(S.heap("$alloc"), o) == And(z3.Select(S.old.heap("$alloc"), o), o != S.st.o, o != S.old.st.items.o), pat=lambda o: [z3.Select(S.heap("$alloc"), o)]))],
        allocs="free"),
    Contract(MV, "AddToStack", requires=lambda S: ast_inv(S, S.st) + [("room for one more", S.st.top + 1 < S.st.maxsize), ("value fits", And(S.value >= 0, S.value < U32 // 2))],
        ensures=lambda S: ast_inv(S, S.bind(S.st)) + [
            ("the value is on top", And(S.bind(S.st).top == S.old.st.top + 1, S.bind(S.st).items[S.old.st.top + 1] == S.value)),
            ("the values below stay", forall(lambda k: imp(And(0 <= k, k <= S.old.st.top), S.bind(S.st).items[k] == S.old.st.items[k]), pat=lambda k: [S.bind(S.st).items[k]])),
            ("only this stack changes (top)", forall(lambda o: imp(o != S.st.o, S.f("Stack.top", o) == S.old.f("Stack.top", o)), pat=lambda o: [z3.Select(S.heap("Stack.top"), o)])),
            ("only this stack changes (items)", forall(lambda o: imp(o != S.old.st.items.o, S.f("[]i32", o) == S.old.f("[]i32", o)), pat=lambda o: [z3.Select(S.heap("[]i32"), o)]))],
        modifies=["Stack.top", "[]i32"]),
    Contract(MV, "PopFromStack", requires=lambda S: ast_inv(S, S.st) + [("values fit", forall(lambda k: imp(And(0 <= k, k <= S.st.top), S.st.items[k] >= 0), pat=lambda k: [S.st.items[k]]))],
        ensures=lambda S: ast_inv(S, S.bind(S.st)) + [
            ("an empty stack reports -1 and stays", imp(S.old.st.top < 0, And(S.result == -1, S.bind(S.st).top == S.old.st.top))),
            ("the top value is returned and removed", imp(S.old.st.top >= 0, And(S.result == S.old.st.items[S.old.st.top], S.bind(S.st).top == S.old.st.top - 1))),
            ("only this stack changes (top)", forall(lambda o: imp(o != S.st.o, S.f("Stack.top", o) == S.old.f("Stack.top", o)), pat=lambda o: [z3.Select(S.heap("Stack.top"), o)]))],
        modifies=["Stack.top"]),
]
PROPS = {"C03": ["ChangeModule", "MergeModules"], "C04": ["dEChangeModule", "dEMergeModules"], "C05": ["PartitionModularity"], "C10": ["GetRole"], "C06": ["CreateStack", "FreeStack", "AddToStack", "PopFromStack", "ChangeModule"], "C08": ["ChangeModule", "MergeModules", "dEChangeModule", "dEMergeModules", "CopyPartitionStruct", "FreePartition", "PartitionModularity"], "C11": ["CreateStack", "FreeStack", "AddToStack", "PopFromStack"]}

# ---------------------------------------------------------------- predicted modularity changes
def nodes_ok(S, part):
    """what reading a node's group and strength needs"""
    return shape(S, part) + lists(S, part)[:1]
def move_gain(adj_idx, nbr, w, g, s, n, old, new, s_old, s_new):
    """2 * ( links to the new group - links to the old group + s_n (S_old - s_n - S_new) )"""
    return 2 * (SumR(adj_idx(n), adj_idx(n + 1), lambda k: If(g(nbr(k)) == old, -w(k), If(g(nbr(k)) == new, w(k), 0))) + s(n) * (s_old - s(n) - s_new))
def de_requires(S):
    return nodes_ok(S, S.part) + adj_ok(S, S.adj) + [("same nodes", S.adj.N == S.part.N)]
def dec_part(S, hi):
    p, a = S.part, S.adj
    old, new, n = S.old.part.nodes[S.old.nodeid].module, S.old.newModuleid, S.old.nodeid
    return SumR(a.idx[n], hi, lambda k: If(p.nodes[a.neighbors[k]].module == old, -a.strength[k], If(p.nodes[a.neighbors[k]].module == new, a.strength[k], 0)))
CONTRACTS += [
    Contract("src/movements.c", "dEChangeModule", requires=lambda S: de_requires(S) + [("node exists", And(0 <= S.nodeid, S.nodeid < S.part.N)), ("group exists", And(0 <= S.newModuleid, S.newModuleid < S.part.M))],
        ensures=lambda S: [("the gain formula", S.result == (lambda p, a: move_gain(lambda i: a.idx[i], lambda k: a.neighbors[k], lambda k: a.strength[k], lambda i: p.nodes[i].module, lambda i: p.nodes[i].strength,
            S.nodeid, p.nodes[S.nodeid].module, S.newModuleid, p.modules[p.nodes[S.nodeid].module].strength, p.modules[S.newModuleid].strength))(S.part, S.adj))],
        loops={0: Loop(inv=lambda S: [("position in row", And(S.adj.idx[S.old.nodeid] <= S.i, S.i <= S.adj.idx[S.old.nodeid + 1])), ("partial sum", S.dE == dec_part(S, S.i))],
                       decreases=lambda S: S.adj.idx[S.old.nodeid + 1] - S.i)}),
]
def row_links(p, a, i, grp):
    """total weight of the links of node i that end in group grp"""
    return SumR(a.idx[i], a.idx[i + 1], lambda k: If(p.nodes[a.neighbors[k]].module == grp, a.strength[k], 0))
def visited(p, i, cur):
    """members before cur in list order (all of them at the end of the list)"""
    return Or(cur == 0, p.nodes[i].g_ord < cur.g_ord)
def member_ok(S, p, cur, grp):
    return imp(cur != 0, And(cur.g_owner == p.o, cur.module == grp))
def remaining(p, grp, cur):
    return Count(0, p.N, lambda i: And(p.nodes[i].module == grp, Not(visited(p, i, cur))))
def between(p, a, small, large):
    return SumR(0, p.N, lambda i: If(p.nodes[i].module == small, row_links(p, a, i, large), 0))
def dem_vars(S):
    p = S.part
    big1 = p.modules[S.old.moduleId1].size > p.modules[S.old.moduleId2].size
    return p, S.adj, If(big1, S.old.moduleId2, S.old.moduleId1), If(big1, S.old.moduleId1, S.old.moduleId2)
def dem_partial(S, cur):
    p, a, small, large = dem_vars(S)
    return SumR(0, p.N, lambda i: If(And(p.nodes[i].module == small, visited(p, i, cur)), row_links(p, a, i, large), 0))
def dem_inv0(S):
    p, a, small, large = dem_vars(S)
    return [("walking the smaller group", member_ok(S, p, S.node, small)), ("idlarge", S.idlarge == large), ("small", S.small.o == p.modules[small].o),
            ("partial sum", S.dE == dem_partial(S, S.node))]
def dem_inv1(S):
    p, a, small, large = dem_vars(S)
    L = S.L0
    return [("position in row", And(a.idx[S.node.id] <= S.i, S.i <= a.idx[S.node.id + 1])), ("walking the smaller group", And(S.node != 0, member_ok(S, p, S.node, small))), ("node fixed", S.node.o == S.pre.node.o),
            ("partial sum", S.dE == dem_partial(S, S.node) + SumR(a.idx[S.node.id], S.i, lambda k: If(p.nodes[a.neighbors[k]].module == large, a.strength[k], 0)))]
CONTRACTS += [
    Contract("src/movements.c", "dEMergeModules", requires=lambda S: shape(S, S.part) + lists(S, S.part) + adj_ok(S, S.adj) + [("same nodes", S.adj.N == S.part.N), ("groups exist", And(0 <= S.moduleId1, S.moduleId1 < S.part.M, 0 <= S.moduleId2, S.moduleId2 < S.part.M))],
        ensures=lambda S: [("the gain formula", (lambda p, a, m1, m2: Or(*[S.result == 2 * (between(p, a, x, y) - p.modules[m1].strength * p.modules[m2].strength) for x, y in ((m1, m2), (m2, m1))]))(S.part, S.adj, S.moduleId1, S.moduleId2))],
        loops={0: Loop(inv=dem_inv0, decreases=lambda S: remaining(S.part, dem_vars(S)[2], S.node), hints_end=lambda S: [probe(S.I0.node.id), sum_ge0(remaining(S.part, dem_vars(S)[2], S.I0.node))]),
               1: Loop(inv=dem_inv1, decreases=lambda S: S.adj.idx[S.node.id + 1] - S.i)}),
]

# ---------------------------------------------------------------- modularity
def pair_w(p, a, i, j):
    """weight of the pair (i, j): total weight of the links from i to j"""
    return SumR(a.idx[i], a.idx[i + 1], lambda k: If(a.neighbors[k] == j, a.strength[k], 0))
def pm_term_f(p, a): return lambda i, j: 2 * (pair_w(p, a, i, j) - p.nodes[i].strength * p.nodes[j].strength)
def pm_term(p, a, i, j): return opaque(pm_term_f(p, a), i, j)
def after(p, i, j): return And(p.nodes[i].module == p.nodes[j].module, p.nodes[i].g_ord < p.nodes[j].g_ord)
def pm_row_f(p, a): return lambda i: SumR(0, p.N, lambda j: If(after(p, i, j), pm_term(p, a, i, j), 0))
def pm_row(p, a, i): return opaque(pm_row_f(p, a), i)
def pm_all(p, a): return SumR(0, p.N, lambda i: pm_row(p, a, i))
def diag(p, n): return SumR(0, n, lambda i: p.nodes[i].strength * p.nodes[i].strength)
def simple_rows(a):
    return ("a row lists a neighbour at most once", forall(lambda i, k, l: imp(And(0 <= i, i < a.N, a.idx[i] <= k, k < a.idx[i + 1], a.idx[i] <= l, l < a.idx[i + 1], a.neighbors[k] == a.neighbors[l]), k == l), pat=lambda i, k, l: [(a.idx[i], a.neighbors[k], a.neighbors[l])]))
def pick_one(f, lo, k, hi):
    """Sum(lo,hi) = Sum(lo,k) + body(k) + Sum(k+1,hi)"""
    return [sum_split(f(lo, hi), k), sum_unfold_left(f(k, hi))]
def pm_done(S, mod, cur=None):
    p, a = S.part, S.adj
    if cur is None: return SumR(0, p.N, lambda i: If(p.nodes[i].module < mod, pm_row(p, a, i), 0))
    return SumR(0, p.N, lambda i: If(Or(p.nodes[i].module < mod, And(p.nodes[i].module == mod, visited(p, i, cur))), pm_row(p, a, i), 0))
def pm_inv0(S): return [("group number", And(0 <= S.mod, S.mod <= S.part.M)), ("groups so far", S.modularity == pm_done(S, S.mod))]
def pm_inv1(S): return [("group number", And(0 <= S.mod, S.mod < S.part.M)), ("first node is a member", member_ok(S, S.part, S.node1, S.mod)), ("nodes so far", S.modularity == pm_done(S, S.mod, S.node1))]
def pm_part(S):
    p, a = S.part, S.adj
    return SumR(0, p.N, lambda j: If(And(after(p, S.node1.id, j), visited(p, j, S.node2)), pm_term(p, a, S.node1.id, j), 0))
def pm_inv2(S):
    return [("group number", And(0 <= S.mod, S.mod < S.part.M)), ("first node is a member", And(S.node1 != 0, member_ok(S, S.part, S.node1, S.mod))), ("second node comes later", And(member_ok(S, S.part, S.node2, S.mod), imp(S.node2 != 0, S.node2.g_ord > S.node1.g_ord))),
            ("pairs so far", S.modularity == pm_done(S, S.mod, S.node1) + pm_part(S))]
def pm_inv3(S):
    a = S.adj
    return [("position in row", And(a.idx[S.node1.id] <= S.i, S.i <= a.idx[S.node1.id + 1])), ("not found yet", And(S.aij == 0, forall(lambda k: imp(And(a.idx[S.node1.id] <= k, k < S.i), a.neighbors[k] != S.node2.id), pat=lambda k: [a.neighbors[k]])))]
CONTRACTS.append(Contract("src/partition.c", "PartitionModularity",
    requires=lambda S: shape(S, S.part) + lists(S, S.part) + adj_ok(S, S.adj) + [("same nodes", S.adj.N == S.part.N), simple_rows(S.adj)],
    ensures=lambda S: [("sum over pairs in the same group", S.result == pm_all(S.part, S.adj) - If(S.diagonal_term != 0, diag(S.part, S.part.N), 0))],
    drop={"weight of the pair": LISTS + ["so far"], "step to the next": ["so far", "weight of the pair"], "variant decreases": ["so far", "weight of the pair", "step to"], "iteration: pairs so far": LISTS, "iteration: nodes so far": LISTS, "diagonal so far": LISTS},
    loops={0: Loop(inv=pm_inv0, decreases=lambda S: S.part.M - S.mod, exit_hints=lambda S: [("all rows", pm_done(S, S.part.M) == pm_all(S.part, S.adj))]),
           1: Loop(inv=pm_inv1, decreases=lambda S: remaining(S.part, S.mod, S.node1), hints_end=lambda S: [probe(S.I1.node1.id), sum_ge0(remaining(S.part, S.mod, S.I1.node1)), ("step to the next first node", pm_done(S, S.mod, S.node1) == pm_done(S.I1, S.mod, S.I1.node1) + pm_row(S.part, S.adj, S.I1.node1.id))],
                   ),
           2: Loop(inv=pm_inv2, decreases=lambda S: remaining(S.part, S.mod, S.node2), hints_end=lambda S: [probe(S.I2.node2.id), sum_ge0(remaining(S.part, S.mod, S.I2.node2)), ("step to the next second node", pm_part(S) == pm_part(S.I2) + pm_term(S.part, S.adj, S.node1.id, S.I2.node2.id))],
                   exit_hints=lambda S: [reveal(pm_row_f(S.part, S.adj), S.node1.id), ("row complete", imp(S.node2 == 0, pm_part(S) == pm_row(S.part, S.adj, S.node1.id)))]),
           3: Loop(inv=pm_inv3, decreases=lambda S: S.adj.idx[S.node1.id + 1] - S.i, exit_hints=lambda S: pick_one(lambda lo, hi: SumR(lo, hi, lambda k: If(S.adj.neighbors[k] == S.node2.id, S.adj.strength[k], 0)), S.adj.idx[S.node1.id], S.i, S.adj.idx[S.node1.id + 1]) + [reveal(pm_term_f(S.part, S.adj), S.node1.id, S.node2.id), ("weight of the pair", S.aij == pair_w(S.part, S.adj, S.node1.id, S.node2.id))]),
           4: Loop(inv=lambda S: [("node number", And(0 <= S.i, S.i <= S.part.N)), ("diagonal so far", S.modularity == pm_all(S.part, S.adj) - diag(S.part, S.i))], decreases=lambda S: S.part.N - S.i)}))

# ---------------------------------------------------------------- merging
def mm_sel(S):
    q = S.old.part
    big1 = q.modules[S.old.id1].size > q.modules[S.old.id2].size
    return q, If(big1, S.old.id2, S.old.id1), If(big1, S.old.id1, S.old.id2)
def mm_active(S):
    q = S.old.part
    return And(q.modules[S.old.id1].size != 0, q.modules[S.old.id2].size != 0)
def mm_inv(S):
    q, small, large = mm_sel(S)
    N = lambda o: S.old.ptr("Node", o)
    mine = lambda x: N(x).g_owner == q.o
    return [("walking the smaller group", imp(S.node != 0, And(S.node.g_owner == q.o, N(S.node.o).module == small))),
            ("chosen groups", And(S.small.o == q.modules[small].o, S.large.o == q.modules[large].o)),
            ("walked members renamed", forall(lambda x: imp(mine(x), S.f("Node.module", x) == If(And(N(x).module == small, Or(S.node == 0, N(x).g_ord < S.node.g_ord)), large, N(x).module)), pat=lambda x: [S.f("Node.module", x)])),
            ("other records untouched", forall(lambda x: imp(Not(mine(x)), S.f("Node.module", x) == N(x).module), pat=lambda x: [S.f("Node.module", x)]))]
def mm_rem(S):
    q, small, large = mm_sel(S)
    return Count(0, q.N, lambda i: And(q.nodes[i].module == small, Not(Or(S.node == 0, q.nodes[i].g_ord < S.node.g_ord))))
def mm_ghost(S):
    q, small, large = mm_sel(S)
    N = lambda o: S.old.ptr("Node", o)
    shift = q.modules[small].last.g_ord - q.modules[large].first.g_ord + 1
    return {"Node.$ord": lambda x: If(And(mm_active(S), N(x).g_owner == q.o, N(x).module == large), N(x).g_ord + shift, N(x).g_ord)}
def mm_hints(S):
    p = S.bind(S.part); q, small, large = mm_sel(S)
    both = lambda m: Count(0, q.N, lambda i: Or(q.nodes[i].module == small, q.nodes[i].module == large))
    bothS = SumR(0, q.N, lambda i: If(Or(q.nodes[i].module == small, q.nodes[i].module == large), q.nodes[i].strength, 0))
    E1, E2 = Count(0, q.M, lambda m: q.modules[m].size == 0), Count(0, q.M, lambda m: p.modules[m].size == 0)
    return [sum_add(both(0), size_of(q, small), size_of(q, large)), sum_le_n(both(0)), sum_ge0(size_of(q, small)), sum_ge0(size_of(q, large)),
            ("merged size", imp(mm_active(S), size_of(p, large) == both(0))),
            sum_add(bothS, strength_of(q, small), strength_of(q, large)), ("merged strength", imp(mm_active(S), strength_of(p, large) == bothS)),
            sum_diff2(E1, E2, small, large), sum_le_n(E1), sum_elem_le(E1, small)]
def mm_ensures(S):
    p = S.bind(S.part); q, small, large = mm_sel(S)
    return wf(S, S.part) + [
        ("the two groups become one, nothing else moves", forall(lambda i: imp(And(0 <= i, i < q.N), p.nodes[i].module == If(And(mm_active(S), q.nodes[i].module == small), large, q.nodes[i].module)), pat=lambda i: [p.nodes[i].o])),
    ] + only_of(S, S.part, *PART_HEAPS)
CONTRACTS.append(Contract("src/movements.c", "MergeModules", requires=lambda S: wf(S, S.part) + [("groups exist", And(0 <= S.id1, S.id1 < S.part.M, 0 <= S.id2, S.id2 < S.part.M)), ("two groups", S.id1 != S.id2)],
    ensures=mm_ensures, modifies=PART_HEAPS, ghost_exit=mm_ghost, hints_exit=mm_hints,
    hints_entry=lambda S: [("a group with members has a first and a last node", And(*[imp(S.part.modules[m].size != 0, And(S.part.modules[m].first != 0, S.part.modules[m].last != 0)) for m in (S.id1, S.id2)]))],
    drop=dict(BOOKS_DROP, **{"variant decreases": ["prev stays", "without predecessor", "without successor", "backwards", "every list", "is a member", "group sizes", "group strengths", "empty groups"], "merged size": LISTS + ["group strengths", "empty groups"], "merged strength": LISTS + ["group sizes", "empty groups"]}),
    loops={0: Loop(inv=mm_inv, decreases=mm_rem,
                   hints_end=lambda S: [probe(S.I0.node.id), sum_ge0(mm_rem(S.I0))])}))
