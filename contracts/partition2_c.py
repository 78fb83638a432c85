"""Partition life cycle: creation, copy, release, initial assignment (src/partition.c, src/fillpartitions.c)"""
import z3
from vc import Contract, Loop, TAG, type_id
from cast import Ty
from spec import *
from partition_c import *

T_NODE, T_MODULE = type_id(Ty("struct", "Node")), type_id(Ty("struct", "Module"))
def live(S, o): return z3.Select(S.heap("$alloc"), o)
def is_new(S, o): return And(live(S, o), Not(live(S.old, o)))
def at_heap(S, h): return lambda o: [z3.Select(S.heap(h), o)]

def blank_nodes(S, p, hi):
    return ("nodes so far are blank", forall(lambda k: imp(And(0 <= k, k < hi), And(p.nodes[k].id == k, p.nodes[k].module == 0, p.nodes[k].strength == 0, p.nodes[k].next == 0, p.nodes[k].prev == 0)), pat=lambda k: [p.nodes[k].o]))
def blank_groups(S, p, hi):
    return ("groups so far are blank", forall(lambda k: imp(And(0 <= k, k < hi), And(p.modules[k].id == k, p.modules[k].size == 0, p.modules[k].strength == 0, p.modules[k].first == 0, p.modules[k].last == 0)), pat=lambda k: [p.modules[k].o]))
def new_nodes(S, p, hi):
    return [("node records so far are new", forall(lambda k: imp(And(0 <= k, k < hi), And(is_new(S, p.nodes[k].o), p.nodes[k].typed(), p.nodes[k].o != 0)), pat=lambda k: [p.nodes[k].o])),
            ("new node records are in the table", forall(lambda o: imp(And(is_new(S, o), TAG(o) == T_NODE), And(0 <= S.f("Node.id", o), S.f("Node.id", o) < hi, p.nodes[S.f("Node.id", o)].o == o)), pat=lambda o: [live(S, o)]))]
def new_groups(S, p, hi):
    return [("group records so far are new", forall(lambda k: imp(And(0 <= k, k < hi), And(is_new(S, p.modules[k].o), p.modules[k].typed(), p.modules[k].o != 0)), pat=lambda k: [p.modules[k].o])),
            ("new group records are in the table", forall(lambda o: imp(And(is_new(S, o), TAG(o) == T_MODULE), And(0 <= S.f("Module.id", o), S.f("Module.id", o) < hi, p.modules[S.f("Module.id", o)].o == o)), pat=lambda o: [live(S, o)]))]
def new_owner(S, h, tag, p):
    return lambda o: If(And(is_new(S, o), TAG(o) == tag), p.o, If(S.old.f(h, o) == p.o, 0, S.old.f(h, o)))
def owners(S, p):
    return [("new records belong to the new partition: " + h, forall(lambda o: S.f(h, o) == new_owner(S, h, t, p)(o), pat=at_heap(S, h))) for h, t in (("Node.$owner", T_NODE), ("Module.$owner", T_MODULE))]
def fresh_blocks(S, p):
    return ("the partition's blocks are new", And(is_new(S, p.o), is_new(S, p.nodes.o), is_new(S, p.modules.o)))
NF = ["Node.id", "Node.module", "Node.strength", "Node.prev", "Node.next"]; MF = ["Module.id", "Module.size", "Module.strength", "Module.first", "Module.last"]
PF = ["Partition.N", "Partition.M", "Partition.nempty", "Partition.modules", "Partition.nodes"]
TABS = ["[]" + repr(Ty("ptr", Ty("struct", "Node"))), "[]" + repr(Ty("ptr", Ty("struct", "Module")))]
FRESHP = NF + MF + PF + TABS
def part_frame(S):
    q = S.part
    return ("the new partition's head", And(is_new(S, q.o), q.o != 0, q.N == S.old.N, q.M == S.old.M, q.nempty == S.old.M, is_new(S, q.nodes.o), is_new(S, q.modules.o), q.nodes.o != q.modules.o, q.nodes.len() == q.N, q.modules.len() == q.M,
            q.typed(), q.nodes.typed(), q.modules.typed(), q.o == S.pre.part.o, q.nodes.o == S.pre.part.nodes.o, q.modules.o == S.pre.part.modules.o))
CP = "src/partition.c"
def shape_core(S, p): return [c for c in shape(S, p)]
CONTRACTS = [
    Contract(CP, "CreatePartition", requires=lambda S: [("sizes in range", And(S.N < U32 // 2, S.M < U32 // 2))],
        ensures=lambda S: shape(S, S.result) + [blank_nodes(S, S.result, S.N), blank_groups(S, S.result, S.M), fresh_blocks(S, S.result),
            ("sizes as requested, all groups empty", And(S.result.N == S.N, S.result.M == S.M, S.result.nempty == S.M))] + owners(S, S.result),
        modifies=["Node.$owner", "Module.$owner"], fresh=FRESHP, allocs="grow",
        ghost_exit=lambda S: {"Node.$owner": new_owner(S, "Node.$owner", T_NODE, S.part), "Module.$owner": new_owner(S, "Module.$owner", T_MODULE, S.part)},
        loops={0: Loop(inv=lambda S: [("index", And(0 <= S.i, S.i <= S.N)), part_frame(S), blank_nodes(S, S.part, S.i),
                       ("no group yet", forall(lambda o: Not(And(is_new(S, o), TAG(o) == T_MODULE)), pat=lambda o: [live(S, o)]))] + new_nodes(S, S.part, S.i), decreases=lambda S: S.N - S.i),
               1: Loop(inv=lambda S: [("index", And(0 <= S.i, S.i <= S.M)), part_frame(S), blank_nodes(S, S.part, S.N), blank_groups(S, S.part, S.i)] + new_nodes(S, S.part, S.N) + new_groups(S, S.part, S.i), decreases=lambda S: S.M - S.i)}),
    Contract(CP, "FreePartition", requires=lambda S: shape(S, S.part),
        ensures=lambda S: [("exactly the partition's blocks are released", forall(lambda o: live(S, o) == And(live(S.old, o), S.old.f("Node.$owner", o) != S.part.o, S.old.f("Module.$owner", o) != S.part.o, o != S.part.o, o != S.old.part.nodes.o, o != S.old.part.modules.o), pat=lambda o: [live(S, o)]))],
        allocs="free",
        loops={0: Loop(inv=lambda S: [("index", And(0 <= S.i, S.i <= S.part.N)), ("nodes released so far", forall(lambda o: live(S, o) == And(live(S.old, o), Not(And(S.f("Node.$owner", o) == S.part.o, S.f("Node.id", o) < S.i))), pat=lambda o: [live(S, o)]))], decreases=lambda S: S.part.N - S.i),
               1: Loop(inv=lambda S: [("index", And(0 <= S.i, S.i <= S.part.M)), ("groups released so far", forall(lambda o: live(S, o) == And(live(S.old, o), Not(S.f("Node.$owner", o) == S.part.o), Not(And(S.f("Module.$owner", o) == S.part.o, S.f("Module.id", o) < S.i))), pat=lambda o: [live(S, o)]))], decreases=lambda S: S.part.M - S.i)}),
]
PROPS = {"C03": ["CreatePartition", "FreePartition"], "C07": []}

# ---------------------------------------------------------------- copy
def old_frame(S, *heaps):
    return [("records of the caller untouched: " + h, forall(lambda o: imp(live(S.old, o), S.f(h, o) == S.old.f(h, o)), pat=at_heap(S, h))) for h in heaps]
def same_ids(S, h): return ("numbers stay: " + h, forall(lambda o: S.f(h, o) == S.pre.f(h, o), pat=at_heap(S, h)))
def image(c, n): return If(n == 0, 0, c.nodes[n.id].o)
def cps_nodes(S, c, q, hi): return ("nodes copied", forall(lambda k: imp(And(0 <= k, k < hi), And(c.nodes[k].module == q.nodes[k].module, c.nodes[k].strength == q.nodes[k].strength)), pat=lambda k: [c.nodes[k].o]))
def cps_groups(S, c, q, hi): return ("groups copied", forall(lambda k: imp(And(0 <= k, k < hi), And(c.modules[k].size == q.modules[k].size, c.modules[k].strength == q.modules[k].strength)), pat=lambda k: [c.modules[k].o]))
def cps_links(S, c, q, hi): return ("list links copied", forall(lambda k: imp(And(0 <= k, k < hi), And(c.nodes[k].next.o == image(c, q.nodes[k].next), c.nodes[k].prev.o == image(c, q.nodes[k].prev))), pat=lambda k: [c.nodes[k].o]))
def cps_ends(S, c, q, hi): return ("list ends copied", forall(lambda k: imp(And(0 <= k, k < hi), And(c.modules[k].first.o == image(c, q.modules[k].first), c.modules[k].last.o == image(c, q.modules[k].last))), pat=lambda k: [c.modules[k].o]))
def cps_ord(S):
    c, q = S.bind(S.copy), S.old.part
    return lambda o: If(S.f("Node.$owner", o) == c.o, q.nodes[S.f("Node.id", o)].g_ord, S.f("Node.$ord", o))
def cps_ix(S, n): return ("index", And(0 <= S.i, S.i <= n))
CONTRACTS.append(Contract(CP, "CopyPartitionStruct", requires=lambda S: wf(S, S.part),
    ensures=lambda S: wf(S, S.result) + (lambda c, q: [fresh_blocks(S, c), ("same sizes", And(c.N == q.N, c.M == q.M, c.nempty == q.nempty)), cps_nodes(S, c, q, q.N), cps_groups(S, c, q, q.M), cps_links(S, c, q, q.N), cps_ends(S, c, q, q.M)])(S.result, S.old.part) + owners(S, S.result) +
        [("list positions of other nodes stay", forall(lambda o: imp(S.f("Node.$owner", o) != S.result.o, S.f("Node.$ord", o) == S.old.f("Node.$ord", o)), pat=at_heap(S, "Node.$ord")))],
    modifies=["Node.$owner", "Module.$owner", "Node.$ord"], fresh=FRESHP, allocs="grow", ghost_exit=lambda S: {"Node.$ord": cps_ord(S)},
    drop=BOOKS_DROP,
    loops={0: Loop(inv=lambda S: [cps_ix(S, S.part.N), same_ids(S, "Node.id"), cps_nodes(S, S.bind(S.copy), S.old.part, S.i)] + old_frame(S, "Node.module", "Node.strength"), decreases=lambda S: S.part.N - S.i),
           1: Loop(inv=lambda S: [cps_ix(S, S.part.M), same_ids(S, "Module.id"), cps_groups(S, S.bind(S.copy), S.old.part, S.i)] + old_frame(S, "Module.size", "Module.strength"), decreases=lambda S: S.part.M - S.i),
           2: Loop(inv=lambda S: [cps_ix(S, S.part.N), cps_links(S, S.bind(S.copy), S.old.part, S.i)] + old_frame(S, "Node.next", "Node.prev"), decreases=lambda S: S.part.N - S.i),
           3: Loop(inv=lambda S: [cps_ix(S, S.part.M), cps_ends(S, S.bind(S.copy), S.old.part, S.i)] + old_frame(S, "Module.first", "Module.last"), decreases=lambda S: S.part.M - S.i)}))

# ---------------------------------------------------------------- initial assignment
def anm_req(S):
    p = S.part
    return shape(S, p) + [("no node is linked yet", forall(lambda k: imp(And(0 <= k, k < p.N), And(p.nodes[k].next == 0, p.nodes[k].prev == 0)), pat=lambda k: [p.nodes[k].o])),
        ("all groups are empty", forall(lambda k: imp(And(0 <= k, k < p.M), And(p.modules[k].size == 0, p.modules[k].strength == 0, p.modules[k].first == 0, p.modules[k].last == 0)), pat=lambda k: [p.modules[k].o])),
        ("all groups are counted as empty", p.nempty == p.M), ("there is a group", Or(p.M > 0, p.N == 0))]
def anm_inv0(S):
    p, q = S.bind(S.part), S.old.part
    return [("index", And(0 <= S.i, S.i <= p.N)), ("none empty", p.nempty == 0),
        ("one node per group so far", forall(lambda k: imp(And(0 <= k, k < S.i), And(p.nodes[k].module == k)), pat=lambda k: [p.nodes[k].o])),
        ("groups so far", forall(lambda k: imp(And(0 <= k, k < S.i), And(p.modules[k].size == 1, p.modules[k].strength == p.nodes[k].strength, p.modules[k].first == p.nodes[k], p.modules[k].last == p.nodes[k])), pat=lambda k: [p.modules[k].o]))] \
        + only_of(S, S.part, "Node.module", "Module.size", "Module.strength", "Module.first", "Module.last")
def anm_inv1(S):
    p = S.bind(S.part)
    N = lambda o: S.ptr("Node", o); M = lambda o: S.ptr("Module", o)
    own = lambda o: And(N(o).g_owner == p.o, N(o).id < S.i)
    return [("index", And(0 <= S.i, S.i <= p.N))] + [(l + " (so far)", f) for l, f in lists(S, S.part, own, lambda x: x.id)] + [
        ("later nodes are not linked", forall(lambda k: imp(And(S.i <= k, k < p.N), And(p.nodes[k].next == 0, p.nodes[k].prev == 0)), pat=lambda k: [p.nodes[k].o])),
        ("a group with members has ends", forall(lambda m: imp(And(0 <= m, m < p.M), And((p.modules[m].size == 0) == (p.modules[m].first == 0), (p.modules[m].size == 0) == (p.modules[m].last == 0))), pat=lambda m: [p.modules[m].o])),
        ("group sizes so far", forall(lambda m: imp(And(0 <= m, m < p.M), And(p.modules[m].size == Count(0, S.i, lambda i: p.nodes[i].module == m))), pat=lambda m: [p.modules[m].o])),
        ("an empty group has no strength", forall(lambda m: imp(And(0 <= m, m < p.M, p.modules[m].size == 0), p.modules[m].strength == 0), pat=lambda m: [p.modules[m].o])),
        ("sizes in range", forall(lambda m: imp(And(0 <= m, m < p.M), And(p.modules[m].size >= 0, p.modules[m].size <= S.i)), pat=lambda m: [p.modules[m].o])),
        ("group strengths so far", forall(lambda m: imp(And(0 <= m, m < p.M), p.modules[m].strength == SumR(0, S.i, lambda i: If(p.nodes[i].module == m, p.nodes[i].strength, 0))), pat=lambda m: [p.modules[m].o])),
        ("empty groups so far", p.nempty == Count(0, p.M, lambda m: p.modules[m].size == 0))] + only_of(S, S.part, "Node.module", "Node.prev", "Node.next", "Module.size", "Module.strength", "Module.first", "Module.last", "Partition.nempty")
def anm_exit0(S):
    p = S.bind(S.part)
    one = lambda m: pick_one(lambda lo, hi: Count(lo, hi, lambda i: p.nodes[i].module == m), z3.IntVal(0), m, p.N)
    st = lambda m: pick_one(lambda lo, hi: SumR(lo, hi, lambda i: If(p.nodes[i].module == m, p.nodes[i].strength, 0)), z3.IntVal(0), m, p.N)
    cnt = lambda lo, hi, m: Count(lo, hi, lambda i: p.nodes[i].module == m); sm = lambda lo, hi, m: SumR(lo, hi, lambda i: If(p.nodes[i].module == m, p.nodes[i].strength, 0))
    return [("no other member", forall(lambda m: imp(And(0 <= m, m < p.M), And(cnt(0, m, m) == 0, cnt(m + 1, p.N, m) == 0)), pat=lambda m: [p.modules[m].o])),
            ("no other strength", forall(lambda m: imp(And(0 <= m, m < p.M), And(sm(0, m, m) == 0, sm(m + 1, p.N, m) == 0)), pat=lambda m: [p.modules[m].o])),
            forall(lambda m: imp(And(0 <= m, m < p.M), And(*one(m))), pat=lambda m: [p.modules[m].o]), forall(lambda m: imp(And(0 <= m, m < p.M), And(*st(m))), pat=lambda m: [p.modules[m].o])]
def anm_empty(S): return Count(0, S.part.M, lambda m: S.part.modules[m].size == 0)
CONTRACTS.append(Contract("src/fillpartitions.c", "AssignNodesToModules", requires=anm_req,
    ensures=lambda S: wf(S, S.part) + only_of(S, S.part, *PART_HEAPS) + [("as many groups as nodes: one node each", imp(S.old.part.N == S.old.part.M, forall(lambda k: imp(And(0 <= k, k < S.old.part.N), S.bind(S.part).nodes[k].module == k), pat=lambda k: [S.bind(S.part).nodes[k].o])))],
    modifies=PART_HEAPS, ghost_exit=lambda S: {"Node.$ord": lambda o: If(S.f("Node.$owner", o) == S.part.o, S.f("Node.id", o), S.f("Node.$ord", o))},
    loops={0: Loop(inv=anm_inv0, decreases=lambda S: S.part.N - S.i, exit_hints=anm_exit0),
           1: Loop(inv=anm_inv1, decreases=lambda S: S.part.N - S.i, hints=lambda S: [sum_le_n(anm_empty(S)), sum_ge0(anm_empty(S))], hints_end=lambda S: [sum_elem_le(anm_empty(S.I1), S.j), probe(S.j)])},
    drop={"empty groups so far": LISTS + ["group strengths", "group sizes"], "group sizes": LISTS + ["group strengths", "empty groups"], "group strengths": LISTS + ["group sizes", "empty groups"]},
    hints_entry=lambda S: [sum_all1(anm_empty(S))]))
PROPS = {"C03": ["CreatePartition", "FreePartition", "AssignNodesToModules"], "C07": ["CopyPartitionStruct"]}

# ---------------------------------------------------------------- compression
def cmp_em(q): return lambda m: q.modules[m].size == 0
def cmp_rank(q, lo, hi): return Count(lo, hi, cmp_em(q))
def cmp_full(q, lo, hi): return Count(lo, hi, lambda m: Not(cmp_em(q)(m)))
def cmp_ids(S, q, hi, bound):
    e_id = S.empty_id
    return [("recorded numbers are empty groups, in order", forall(lambda e: imp(And(0 <= e, e < hi), And(0 <= e_id[e], e_id[e] < bound, cmp_em(q)(e_id[e]))), pat=lambda e: [e_id[e]])),
            ("every empty group is recorded", forall(lambda k: imp(And(0 <= k, k < bound, cmp_em(q)(k)), And(cmp_rank(q, 0, k) >= 0, cmp_rank(q, 0, k) < hi, e_id[cmp_rank(q, 0, k)] == k)), pat=lambda k: [q.modules[k].o])),
            ("recorded at its rank", forall(lambda e: imp(And(0 <= e, e < hi), cmp_rank(q, 0, e_id[e]) == e), pat=lambda e: [e_id[e]]))]
def cmp_heads(S):
    q, p = S.old.part, S.part
    return ("heads", And(p.modules.o == q.modules.o, p.M == q.M, p.nempty == q.nempty, p.N == q.N, S.M == q.M - q.nempty, S.empty_id.len() == q.nempty, S.newmodules.len() == S.M, live(S, S.empty_id.o), live(S, S.newmodules.o), Not(live(S.old, S.empty_id.o)), Not(live(S.old, S.newmodules.o)), S.newmodules.o != S.empty_id.o, S.newmodules.typed()))
def cmp_live(S, bound):
    q = S.old.part
    return ("empty groups released so far", forall(lambda o: live(S, o) == And(Or(live(S.old, o), o == S.newmodules.o, o == S.empty_id.o), Not(And(S.old.f("Module.$owner", o) == q.o, S.old.f("Module.size", o) == 0, S.old.f("Module.id", o) < bound))), pat=lambda o: [live(S, o)]))
def cmp_inv0(S):
    q, p = S.old.part, S.part
    return [("index", And(0 <= S.i, S.i <= q.M)), cmp_heads(S), ("recorded so far", S.j == cmp_rank(q, 0, S.i)), ("room", And(0 <= S.j, S.j <= q.nempty)), cmp_live(S, S.i),
            ("table so far", forall(lambda k: imp(And(0 <= k, k < q.M), p.modules[k].o == If(And(k < S.i, cmp_em(q)(k)), 0, q.modules[k].o)), pat=lambda k: [p.modules[k].o, q.modules[k].o]))] + cmp_ids(S, q, S.j, S.i)
def old_grp(S, q, x): return q.modules[S.old.f("Node.module", x)]
def cmp_nodes(S, q): return ("nodes carry their group's number", forall(lambda x: imp(S.old.f("Node.$owner", x) == q.o, S.f("Node.module", x) == S.f("Module.id", old_grp(S, q, x).o)), pat=lambda x: [S.f("Node.module", x)]))
def cmp_groups(S, q, i, j):
    p = S.part; e_id = S.empty_id
    gid = lambda g: S.f("Module.id", g); old = lambda g: S.old.ptr("Module", g)
    mine = lambda g: And(old(g).g_owner == q.o, old(g).size != 0)
    return [("groups not reached yet keep their place", forall(lambda g: imp(And(mine(g), old(g).id <= i), gid(g) == old(g).id), pat=lambda g: [gid(g)])),
            ("every group is at its number", forall(lambda g: imp(mine(g), And(0 <= gid(g), gid(g) < q.M, p.modules[gid(g)].o == g)), pat=lambda g: [gid(g)])),
            ("moved groups are in front", forall(lambda g: imp(And(mine(g), old(g).id > i), gid(g) < S.M), pat=lambda g: [gid(g)])),
            ("filled places hold moved groups", forall(lambda e: imp(And(0 <= e, e < j), And(mine(p.modules[e_id[e]].o), gid(p.modules[e_id[e]].o) == e_id[e], p.modules[e_id[e]].o != 0)), pat=lambda e: [e_id[e]])),
            ("places of groups not moved", forall(lambda k: imp(And(0 <= k, k <= i, Not(cmp_em(q)(k))), p.modules[k].o == q.modules[k].o), pat=lambda k: [p.modules[k].o, q.modules[k].o])),
            ("empty places behind stay empty", forall(lambda k: imp(And(S.M <= k, k < q.M, cmp_em(q)(k)), p.modules[k].o == 0), pat=lambda k: [p.modules[k].o, q.modules[k].o])),
            ("places not filled yet", forall(lambda e: imp(And(j <= e, e < q.nempty), p.modules[e_id[e]].o == 0), pat=lambda e: [e_id[e]])),
            ("records of other partitions keep their number", forall(lambda g: imp(Not(mine(g)), gid(g) == old(g).id), pat=lambda g: [gid(g)]))]
def cmp_inv1(S):
    q = S.old.part
    return [("index", And(S.M - 1 <= S.i, S.i < q.M)), cmp_heads(S), ("moved so far", S.j == cmp_full(q, S.i + 1, q.M)), ("count is in range", And(0 <= S.j, S.j <= q.nempty)),
            cmp_nodes(S, q), ("nodes of other partitions untouched", forall(lambda x: imp(S.old.f("Node.$owner", x) != q.o, S.f("Node.module", x) == S.old.f("Node.module", x)), pat=at_heap(S, "Node.module")))] + cmp_groups(S, q, S.i, S.j)
def cmp_g(S): return S.old.part.modules[S.i]
def cmp_inv2(S):
    q = S.old.part
    return [("group", And(S.M <= S.i, S.i < q.M, Not(cmp_em(q)(S.i)), 0 <= S.j, S.j < q.nempty)), ("walking the group", imp(S.node != 0, And(S.f("Node.$owner", S.node.o) == q.o, S.old.f("Node.module", S.node.o) == S.i))),
        ("walked members renamed", forall(lambda x: imp(S.old.f("Node.$owner", x) == q.o, S.f("Node.module", x) == If(And(S.old.f("Node.module", x) == S.i, Or(S.node == 0, S.old.f("Node.$ord", x) < S.node.g_ord)), S.empty_id[S.j], S.pre.f("Node.module", x))), pat=lambda x: [S.f("Node.module", x)])),
        ("nodes of other partitions untouched", forall(lambda x: imp(S.old.f("Node.$owner", x) != q.o, S.f("Node.module", x) == S.old.f("Node.module", x)), pat=at_heap(S, "Node.module")))]
def cmp_rem(S):
    q = S.old.part
    return Count(0, q.N, lambda i: And(q.nodes[i].module == S.i, Not(Or(S.node == 0, q.nodes[i].g_ord < S.node.g_ord))))
def cmp_hint1(S):
    q = S.old.part
    M = S.M
    return [sum_split(cmp_rank(q, 0, q.M), M), sum_add(Count(M, q.M, lambda m: True), cmp_rank(q, M, q.M), cmp_full(q, M, q.M)), sum_all1(Count(M, q.M, lambda m: True)),
            ("as many places in front as groups behind", cmp_full(q, M, q.M) == cmp_rank(q, 0, M)), ("all recorded", S.j == q.nempty),
            ("recorded once", forall(lambda e, f: imp(And(0 <= e, e < f, f < q.nempty), S.empty_id[e] != S.empty_id[f]), pat=lambda e, f: [(S.empty_id[e], S.empty_id[f])]))]
def cmp_hint1b(S):
    q = S.old.part; t = S.empty_id[S.j]
    return [sum_split(cmp_full(q, S.M, q.M), S.i), sum_unfold_left(cmp_full(q, S.i, q.M)), sum_ge0(cmp_full(q, S.M, S.i)), sum_ge0(cmp_full(q, S.i + 1, q.M)), sum_ge0(cmp_rank(q, S.M, q.M)),
            sum_split(cmp_rank(q, 0, t), S.M), sum_ge0(cmp_rank(q, S.M, t)),
            ("a place is left", imp(And(S.i >= S.M, Not(cmp_em(q)(S.i))), And(S.j < cmp_rank(q, 0, S.M), S.j < q.nempty))),
            ("a place is left for the group", imp(And(S.i >= S.M, Not(cmp_em(q)(S.i))), S.j < q.nempty)),
            ("the place is in front", imp(And(S.i >= S.M, Not(cmp_em(q)(S.i))), t < S.M))]
def cmp_exit1(S):
    q = S.old.part; M = S.M
    return [("all groups behind are moved", S.j == cmp_rank(q, 0, M)), forall(lambda k: imp(And(0 <= k, k < M), And(sum_split(cmp_rank(q, 0, M), k), sum_unfold_left(cmp_rank(q, k, M)), sum_ge0(cmp_rank(q, k + 1, M)))), pat=lambda k: [q.modules[k].o]),
            ("all places in front are filled", forall(lambda k: imp(And(0 <= k, k < M, cmp_em(q)(k)), cmp_rank(q, 0, k) < S.j), pat=lambda k: [q.modules[k].o])),
            ("the table in front holds groups", forall(lambda k: imp(And(0 <= k, k < M), And(S.part.modules[k].o != 0, S.old.f("Module.$owner", S.part.modules[k].o) == q.o, S.old.f("Module.size", S.part.modules[k].o) != 0, S.part.modules[k].id == k)), pat=lambda k: [S.part.modules[k].o, q.modules[k].o]))]
def cmp_owner(S):
    q = S.old.part
    return lambda o: If(And(q.nempty != 0, S.old.f("Module.$owner", o) == q.o, S.old.f("Module.size", o) == 0), 0, S.old.f("Module.$owner", o))
def cmp_ensures(S):
    p, q = S.bind(S.part), S.old.part
    return wf(S, S.part) + [("no group is empty", And(p.nempty == 0, forall(lambda m: imp(And(0 <= m, m < p.M), p.modules[m].size != 0), pat=lambda m: [p.modules[m].o]))),
        ("only empty groups disappear", And(p.M == q.M - q.nempty, p.N == q.N)),
        ("nodes share a group exactly as before", forall(lambda i, j: imp(And(0 <= i, i < q.N, 0 <= j, j < q.N), (p.nodes[i].module == p.nodes[j].module) == (q.nodes[i].module == q.nodes[j].module)), pat=lambda i, j: [(p.nodes[i].o, p.nodes[j].o)])),
        ("blocks of others stay", forall(lambda o: imp(And(live(S.old, o), o != q.modules.o, Not(And(S.old.f("Module.$owner", o) == q.o, S.old.f("Module.size", o) == 0))), live(S, o)), pat=lambda o: [live(S, o)])),
        ("only the new table is a new block", forall(lambda o: imp(And(live(S, o), Not(live(S.old, o))), o == p.modules.o), pat=lambda o: [live(S, o)])),
        ("released groups belong to nobody", forall(lambda o: S.f("Module.$owner", o) == cmp_owner(S)(o), pat=at_heap(S, "Module.$owner")))] + only_of(S, S.part, "Node.module", "Module.id", "Partition.nempty", "Partition.M", "Partition.modules")
def cmp_hx(S):
    p, q = S.bind(S.part), S.old.part
    oid = lambda m: S.old.f("Module.id", p.modules[m].o)
    rng = lambda m: And(0 <= m, m < p.M)
    return [("old number of a kept group", forall(lambda m: imp(rng(m), And(0 <= oid(m), oid(m) < q.M, q.modules[oid(m)].o == p.modules[m].o)), pat=lambda m: [p.modules[m].o])),
            ("same members", forall(lambda m, i: imp(And(rng(m), 0 <= i, i < q.N), (p.nodes[i].module == m) == (q.nodes[i].module == oid(m))), pat=lambda m, i: [(p.modules[m].o, p.nodes[i].o)])),
            ("same size", forall(lambda m: imp(rng(m), size_of(p, m) == size_of(q, oid(m))), pat=lambda m: [p.modules[m].o])),
            ("same strength", forall(lambda m: imp(rng(m), strength_of(p, m) == strength_of(q, oid(m))), pat=lambda m: [p.modules[m].o]))]
CONTRACTS.append(Contract(CP, "CompressPartition", requires=lambda S: wf(S, S.part) + [("some group is not empty", Or(S.part.nempty == 0, S.part.nempty < S.part.M))],
    ensures=cmp_ensures, modifies=["Node.module", "Module.id", "Partition.nempty", "Partition.M", "Partition.modules", "Module.$owner"], fresh=["[]u32", TABS[1]], allocs="any",
    ghost_exit=lambda S: {"Module.$owner": cmp_owner(S)},
    hints_exit=cmp_hx,
    hints_entry=lambda S: [forall(lambda m: sum_elem_le(cmp_rank(S.part, 0, S.part.M), m), pat=lambda m: [S.part.modules[m].o]), sum_le_n(cmp_rank(S.part, 0, S.part.M)),
        forall(lambda x: imp(S.f("Node.$owner", x) == S.part.o, sum_elem_le(size_of(S.part, S.f("Node.module", x)), S.f("Node.id", x))), pat=lambda x: [S.f("Node.module", x)]),
        ("a group with a member is not empty", forall(lambda x: imp(S.f("Node.$owner", x) == S.part.o, S.part.modules[S.f("Node.module", x)].size != 0), pat=lambda x: [S.f("Node.module", x)])),
        ("no empty group if none is counted", imp(S.part.nempty == 0, forall(lambda m: imp(And(0 <= m, m < S.part.M), S.part.modules[m].size != 0), pat=lambda m: [S.part.modules[m].o])))],
    loops={0: Loop(inv=cmp_inv0, decreases=lambda S: S.old.part.M - S.i, hints=lambda S: [sum_split(cmp_rank(S.old.part, 0, S.old.part.M), S.i), sum_unfold_left(cmp_rank(S.old.part, S.i, S.old.part.M)), sum_ge0(cmp_rank(S.old.part, S.i + 1, S.old.part.M)),
                     ("room for one more", imp(And(S.i < S.old.part.M, cmp_em(S.old.part)(S.i)), S.j < S.old.part.nempty))], exit_hints=lambda S: cmp_hint1(S)),
           1: Loop(inv=cmp_inv1, decreases=lambda S: S.i + 1, hints=cmp_hint1b, exit_hints=cmp_exit1),
           2: Loop(inv=cmp_inv2, decreases=cmp_rem, hints_end=lambda S: [probe(S.I2.node.id), sum_ge0(cmp_rem(S.I2))]),
           3: Loop(inv=lambda S: [("index", And(0 <= S.i, S.i <= S.M)), ("copied so far", forall(lambda k: imp(And(0 <= k, k < S.i), S.newmodules[k].o == S.part.modules[k].o), pat=lambda k: [S.newmodules[k].o]))], decreases=lambda S: S.M - S.i)}))
CMPD = LISTS + ["nodes carry", "groups not reached", "every group is", "moved groups", "filled places", "places of", "places not", "empty places", "records of", "group numbers", "is a member", "recorded", "as many", "all groups behind", "all places", "room", "moved so far", "the table in front", "a group with", "no empty"]
CONTRACTS[-1].drop = dict({k: v for k, v in BOOKS_DROP.items() if k not in ("group sizes", "group strengths")}, **{"empty groups are": [x for x in CMPD if x not in ("the table in front", "no empty")] + ["same size", "same strength", "group str", "group siz"], "same size": CMPD + ["empty groups", "group str", "group siz"], "same strength": CMPD + ["empty groups", "same size", "group str", "group siz"], "group sizes": CMPD + ["empty groups", "group str", "same str"], "group strengths": CMPD + ["empty groups", "group sizes", "same si"],"variant decreases": ["prev stays", "without predecessor", "without successor", "backwards", "every list", "is a member", "group sizes", "group strengths", "empty groups", "recorded", "place", "group is at", "moved", "walked"],
    "all places in front": LISTS + ["group sizes", "group strengths", "nodes carry", "groups not reached", "every group is", "moved groups", "filled places", "places of", "places not", "empty places", "records of", "group numbers", "is a member"], "all groups behind": LISTS + ["group sizes", "group strengths", "nodes carry", "groups not reached", "every group is", "moved groups", "filled places", "places of", "places not", "empty places", "records of", "group numbers", "is a member", "recorded"]})
PROPS["C07"].append("CompressPartition")
