"""Role metrics (src/partition.c PartitionRolesMetrics)"""
import z3
from vc import Contract, Loop, uf
from spec import *
from partition_c import *
from partition2_c import live

def stm_f(S):
    """strength from node n to group m: the weights of n's links whose other end is in m"""
    a, p = S.adj, S.part
    return lambda n, m: SumR(a.idx[n], a.idx[n + 1], lambda k: If(p.nodes[a.neighbors[k]].module == m, a.strength[k], 0))
def stm(S, n, m): return opaque(stm_f(S), n, m)
def meansum(S, hi, m): return SumR(0, hi, lambda n: If(S.part.nodes[n].module == m, stm(S, n, m), 0))
def mean_f(S): return lambda m: meansum(S, S.adj.N, m) / z3.ToReal(S.part.modules[m].size)
def mean(S, m): return opaque(mean_f(S), m)
def sq_f(S): return lambda n, m: (stm(S, n, m) - mean(S, m)) * (stm(S, n, m) - mean(S, m))
def sq(S, n, m): return opaque(sq_f(S), n, m)
def varsum(S, hi, m): return SumR(0, hi, lambda n: If(S.part.nodes[n].module == m, sq(S, n, m), 0))
def std_f(S): return lambda m: uf["sqrt"](varsum(S, S.adj.N, m) / z3.ToReal(S.part.modules[m].size))
def std(S, m): return opaque(std_f(S), m)
def p2_f(S): return lambda n, m: stm(S, n, m) * stm(S, n, m)
def p2(S, n, m): return opaque(p2_f(S), n, m)
def psum(S, n, hi): return SumR(0, hi, lambda m: p2(S, n, m))
def ksum(S, n, hi): return SumR(0, hi, lambda m: stm(S, n, m))
def tot_f(S): return lambda n: ksum(S, n, S.part.M)
def tot(S, n): return opaque(tot_f(S), n)
def pt_f(S): return lambda n: psum(S, n, S.part.M)
def pt(S, n): return opaque(pt_f(S), n)
def conn_f(S): return lambda n: (lambda m: If(std(S, m) != 0, (stm(S, n, m) - mean(S, m)) / std(S, m), 0))(S.part.nodes[n].module)
def partic_f(S): return lambda n: If(S.adj.idx[n] == S.adj.idx[n + 1], 0, 1 - pt(S, n) / (tot(S, n) * tot(S, n)))
def conn(S, n): return opaque(conn_f(S), n)
def partic(S, n): return opaque(partic_f(S), n)

def rm_req(S):
    a, p = S.adj, S.part
    return shape(S, p) + [("group numbers in range", forall(lambda i: imp(And(0 <= i, i < p.N), And(0 <= p.nodes[i].module, p.nodes[i].module < p.M)), pat=lambda i: [p.nodes[i].o])),
        ("no empty group", forall(lambda m: imp(And(0 <= m, m < p.M), p.modules[m].size > 0), pat=lambda m: [p.modules[m].o]))] + adj_ok(S, a) + \
        [("same nodes", p.N == a.N), ("the strength table fits", Mul(a.N, p.M) < U32), mul_facts(a.N),
         ("a node with links has non-zero total strength", forall(lambda n: imp(And(0 <= n, n < a.N, a.idx[n] != a.idx[n + 1]), tot(S, n) != 0), pat=lambda n: [tot(S, n)])),
         ("output arrays", And(S.connectivity.alloc(), S.connectivity.typed(), S.participation.alloc(), S.participation.typed(), S.connectivity.len() >= a.N, S.participation.len() >= a.N, S.connectivity.o != S.participation.o, S.connectivity.o != a.strength.o, S.participation.o != a.strength.o, a.strength.typed()))]
def rm_ens(S):
    o = S.old; N = o.adj.N; rng = lambda n: And(0 <= n, n < N)
    return [("connectivity is the within-group z-score", forall(lambda n: imp(rng(n), S.bind(S.connectivity)[n] == conn(o, n)), pat=lambda n: [S.bind(S.connectivity)[n]])),
            ("participation is one minus the sum of squared shares", forall(lambda n: imp(rng(n), S.bind(S.participation)[n] == partic(o, n)), pat=lambda n: [S.bind(S.participation)[n]])),
            ("other arrays untouched", forall(lambda x: imp(And(live(o, x), x != S.connectivity.o, x != S.participation.o), S.f("[]real", x) == o.f("[]real", x)), pat=lambda x: [S.f("[]real", x)])),
            ("nothing is leaked or released", forall(lambda x: live(S, x) == live(o, x), pat=lambda x: [live(S, x)]))]
def cell(S, n, m): return S.strengthToModule[n + Mul(S.old.adj.N, m)]
def rows_done(S, hi):
    o = S.old; N, M = o.adj.N, o.part.M
    return forall(lambda n, m: imp(And(0 <= n, n < hi, 0 <= m, m < M), cell(S, n, m) == stm(o, n, m)), pat=lambda n, m: [cell(S, n, m)])
def rows_zero(S, lo):
    o = S.old; N, M = o.adj.N, o.part.M
    return forall(lambda n, m: imp(And(lo <= n, n < N, 0 <= m, m < M), cell(S, n, m) == 0), pat=lambda n, m: [cell(S, n, m)])
def idx(S, v, hi): return ("index", And(0 <= v, v <= hi))
def part_row(S, n, hi, m):
    a, p = S.adj, S.part
    return SumR(a.idx[n], hi, lambda k: If(p.nodes[a.neighbors[k]].module == m, a.strength[k], 0))
def inv0(S): o = S.old; return [idx(S, S.i, o.adj.N), ("finished rows", rows_done(S, S.i)), ("rows to do", rows_zero(S, S.i)), mul_facts(o.adj.N)]
def inv1(S):
    o = S.old; N, M = o.adj.N, o.part.M; a = o.adj
    return [("index", And(a.idx[S.i] <= S.j, S.j <= a.idx[S.i + 1])), ("finished rows", rows_done(S, S.i)), ("rows to do", rows_zero(S, S.i + 1)),
            ("this row", forall(lambda m: imp(And(0 <= m, m < M), cell(S, S.i, m) == part_row(o, S.i, S.j, m)), pat=lambda m: [cell(S, S.i, m)]))]
def allm(S, arr, f): M = S.old.part.M; return forall(lambda m: imp(And(0 <= m, m < M), arr[m] == f(m)), pat=lambda m: [arr[m]])
def alln(S, arr, hi, f): return forall(lambda n: imp(And(0 <= n, n < hi), arr[n] == f(n)), pat=lambda n: [arr[n]])
def inv2(S): o = S.old; return [idx(S, S.i, o.adj.N), ("within-group sums so far", allm(S, S.mean, lambda m: meansum(o, S.i, m)))]
def inv3(S): o = S.old; return [idx(S, S.j, o.part.M), ("means so far", allm(S, S.mean, lambda m: If(m < S.j, mean(o, m), meansum(o, o.adj.N, m))))]
def inv4(S): o = S.old; return [idx(S, S.i, o.adj.N), ("squared deviations so far", allm(S, S.std, lambda m: varsum(o, S.i, m)))]
def inv5(S): o = S.old; return [idx(S, S.j, o.part.M), ("deviations so far", allm(S, S.std, lambda m: If(m < S.j, std(o, m), varsum(o, o.adj.N, m))))]
def inv6(S): o = S.old; return [idx(S, S.i, o.adj.N), ("connectivity so far", alln(S, S.connectivity, S.i, lambda n: conn(o, n)))]
def inv7(S): o = S.old; return [idx(S, S.i, o.adj.N), ("participation so far", alln(S, S.participation, S.i, lambda n: partic(o, n)))]
def inv8(S):
    o = S.old
    return [idx(S, S.j, o.part.M), ("strength so far", S.strength == ksum(o, S.i, S.j)), ("squares so far", S.participation[S.i] == psum(o, S.i, S.j)),
            ("participation so far", alln(S, S.participation, S.i, lambda n: partic(o, n)))]
A = lambda v, hi: None
def exit1(S):
    o = S.old; M = o.part.M
    return [forall(lambda m: reveal(stm_f(o), S.i, m), pat=lambda m: [cell(S, S.i, m)]), ("row complete", forall(lambda m: imp(And(0 <= m, m < M), cell(S, S.i, m) == stm(o, S.i, m)), pat=lambda m: [cell(S, S.i, m)]))]
ALL = ["finished rows", "rows to do", "this row", "within-group sums", "means so far", "squared dev", "deviations so far", "connectivity so far", "participation so far", "strength so far", "squares so far"]
CONTRACTS = [Contract("src/partition.c", "PartitionRolesMetrics", requires=rm_req, ensures=rm_ens, modifies=["[]real"], opts=dict(merge=True, fdiv=True, nlmul=True, uwrap="check"),
    loops={0: Loop(inv=inv0, decreases=lambda S: S.old.adj.N - S.i, hints=lambda S: [mul_facts(S.old.adj.N)]),
           1: Loop(inv=inv1, decreases=lambda S: S.old.adj.idx[S.i + 1] - S.j, exit_hints=exit1),
           2: Loop(inv=inv2, decreases=lambda S: S.old.adj.N - S.i),
           3: Loop(inv=inv3, decreases=lambda S: S.old.part.M - S.j, hints=lambda S: [reveal(mean_f(S.old), S.j)], exit_hints=lambda S: [("means", allm(S, S.mean, lambda m: mean(S.old, m)))]),
           4: Loop(inv=inv4, decreases=lambda S: S.old.adj.N - S.i, hints=lambda S: [reveal(sq_f(S.old), S.i, S.old.part.nodes[S.i].module)]),
           5: Loop(inv=inv5, decreases=lambda S: S.old.part.M - S.j, hints=lambda S: [forall(lambda n: reveal(sq_f(S.old), n, S.j), pat=lambda n: [sq(S.old, n, S.j)]), ("squares are not negative", forall(lambda n: sq(S.old, n, S.j) >= 0, pat=lambda n: [sq(S.old, n, S.j)])), sum_ge0(varsum(S.old, S.old.adj.N, S.j)),
                ("the sum of squares is not negative", imp(S.j < S.old.part.M, S.std[S.j] >= 0)), ("so is the average", imp(S.j < S.old.part.M, S.std[S.j] / z3.ToReal(S.old.part.modules[S.j].size) >= 0)), reveal(std_f(S.old), S.j)], exit_hints=lambda S: [("deviations", allm(S, S.std, lambda m: std(S.old, m)))]),
           6: Loop(inv=inv6, decreases=lambda S: S.old.adj.N - S.i, hints=lambda S: [reveal(conn_f(S.old), S.i)]),
           7: Loop(inv=inv7, decreases=lambda S: S.old.adj.N - S.i, hints=lambda S: [reveal(partic_f(S.old), S.i)]),
           8: Loop(inv=inv8, decreases=lambda S: S.old.part.M - S.j, hints=lambda S: [reveal(p2_f(S.old), S.i, S.j)],
               exit_hints=lambda S: [reveal(tot_f(S.old), S.i), ("total strength", S.strength == tot(S.old, S.i)), reveal(pt_f(S.old), S.i), ("total of squares", S.participation[S.i] == pt(S.old, S.i)), ("not zero", S.strength * S.strength != 0), reveal(partic_f(S.old), S.i)])})]
from lemma import Proof, unfold_all
def c09_shares():
    """the strengths of a node to the groups add up to the total weight of its links (so the squared terms are squared shares)"""
    P = Proof("strengths to the groups add up"); g = z3.Function("l_g", I, I); w = z3.Function("l_w", I, R); lo, hi, M = z3.Ints("l_lo l_hi l_M")
    P.given(forall(lambda k: imp(And(lo <= k, k < hi), And(0 <= g(k), g(k) < M)), pat=lambda k: [g(k)]), M >= 0)
    row = lambda m, h: SumR(lo, h, lambda k: If(g(k) == m, w(k), 0))
    P.induct("over the links", lambda h: SumR(0, M, lambda m: row(m, h)) == SumR(lo, h, lambda k: w(k)), lo, hi, hints=lambda h: [unfold_all(lambda m: row(m, h + 1)), probe(g(h)), 0 <= g(h), g(h) < M])
    return P.steps
LEMMAS = {"C09": [c09_shares]}
PROPS = {"C09": ["PartitionRolesMetrics"]}
