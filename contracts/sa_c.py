"""The optimiser (src/sannealing.c): SplitModuleSA. (The ghost field below is for the annealing loop, see parked/general_sa.py.)
Energy: the ghost field Partition.$q is the modularity of the partition up to a constant. It changes only where the
partition does: by MV(p, t, n, H) when node n moves to group H, by MG(p, t, a, b) when groups a and b merge, where t
numbers the states p goes through, and MV, MG are what dEChangeModule and dEMergeModules return in that state. That these
are the changes of the defined modularity is what the contracts of the two functions and the lemmas of C04 say."""
import re, inspect
import z3
from vc import Contract, Loop, ghost_field
from spec import *
from partition_c import *
from partition2_c import live, FRESHP
import split_c
SA = "src/sannealing.c"
ghost_field("Partition.$q", R); ghost_field("Partition.$t")
MV = z3.Function("gain_of_moving", I, I, I, I, R); MG = z3.Function("gain_of_merging", I, I, I, I, R)
# ---------------------------------------------------------------- SplitModuleSA
def tgt(S): return S.old.target
def emp(S): return S.old["empty"] if False else S.old._var("empty")
def ss_scan(S):
    p = S.part; n = S.node
    return [("walking the group", member_ok(S, p, n, S.old.target)), ("index", And(0 <= S.i, S.i + remaining(p, S.old.target, n) == S.N)), ("table", And(live(S, S.indices.o), Not(live(S.old, S.indices.o)), S.indices.len() == S.N, S.indices.o == S.pre.indices.o)),
        ("members so far", forall(lambda k: imp(And(0 <= k, k < S.i), And(0 <= S.indices[k], S.indices[k] < p.N, p.nodes[S.indices[k]].module == S.old.target)), pat=lambda k: [S.indices[k]]))]
def ss_two(S):
    p, q = S.bind(S.part), S.old.part; t, e = S.old.target, S.old.empty
    return wf(S, S.part) + only_of(S, S.part, *PART_HEAPS) + [("only members of the group move, and only to the empty one", ss_moved(S)),
        ("table of members", And(live(S, S.indices.o), Not(live(S.old, S.indices.o)), S.indices.len() == S.N)), ("members", forall(lambda k: imp(And(0 <= k, k < S.N), And(0 <= S.indices[k], S.indices[k] < q.N, q.nodes[S.indices[k]].module == t)), pat=lambda k: [S.indices[k]]))]
def ss_moved(S):
    p, q = S.bind(S.part), S.old.part; t, e = S.old.target, S.old.empty
    return forall(lambda i: imp(And(0 <= i, i < q.N), If(q.nodes[i].module == t, Or(p.nodes[i].module == t, p.nodes[i].module == e), p.nodes[i].module == q.nodes[i].module)), pat=lambda i: [p.nodes[i].o])
def ss_req(S):
    p = S.part
    return wf(S, p) + adj_ok(S, S.adj) + [("same nodes", p.N == S.adj.N), ("groups exist", And(0 <= S.target, S.target < p.M, 0 <= S.empty, S.empty < p.M, S.target != S.empty)), ("the group has members", p.modules[S.target].size >= 1), ("the other one is empty", p.modules[S.empty].size == 0)]
CONTRACTS = [
    Contract(SA, "SplitModuleSA", requires=ss_req, ensures=lambda S: wf(S, S.part) + only_of(S, S.part, *PART_HEAPS) + [("only members of the group move, and only to the empty one", ss_moved(S)), ("no failure", S.result == 0)],
        modifies=PART_HEAPS, fresh=["[]u32"], opts=dict(fdiv=False), drop=BOOKS_DROP,
        loops={0: Loop(inv=ss_scan, decreases=lambda S: remaining(S.part, S.old.target, S.node), hints=lambda S: [sum_elem_le(remaining(S.part, S.old.target, S.node), S.node.id), probe(S.node.id), ("room in the table", imp(S.node != 0, S.i < S.N))], exit_hints=lambda S: [("all members listed", S.i == S.N)], hints_end=lambda S: [probe(S.I0.node.id), sum_ge0(remaining(S.part, S.old.target, S.I0.node))]),
               1: Loop(inv=lambda S: ss_two(S) + [("index", And(0 <= S.i, S.i <= S.N))], decreases=lambda S: S.N - S.i),
               2: Loop(inv=ss_two)}),
]
PROPS = {"C08": ["SplitModuleSA"], "C03": ["SplitModuleSA"]}

