"""Projection of a two-mode edge list (src/fillpartitions.c)"""
import z3
from vc import Contract, Loop
from spec import *
FP = "src/fillpartitions.c"
C = []
def ef(S, f, p): return S.f("Edge." + f, p.o)[p.off]
def ecmp(S):
    lt = lambda x, y: If(x < y, -1, If(x > y, 1, 0))
    a2, b2, a1, b1 = ef(S, "node2", S.p1), ef(S, "node2", S.p2), ef(S, "node1", S.p1), ef(S, "node1", S.p2)
    return If(a2 != b2, lt(a2, b2), lt(a1, b1))
def rec(S, p): return And(p.alloc(), 0 <= p.off, p.off < p.len())
C.append(Contract(FP, "EdgeCompare", requires=lambda S: [("two records", And(rec(S, S.p1), rec(S, S.p2)))], off_ok=["p1", "p2"],
    ensures=lambda S: [("order by the second end, then by the first", S.result == ecmp(S))]))
CONTRACTS = C
PROPS = {"C02": ["EdgeCompare", "CreatePartition", "CreateAdjaArray"]}
