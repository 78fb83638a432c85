"""Building the adjacency array from an edge list (src/fillpartitions.c, src/partition.c)"""
import z3
from vc import Contract, Loop
from spec import *
from partition_c import *
from partition2_c import live, is_new

CP, CF = "src/partition.c", "src/fillpartitions.c"
def adj_blocks(S, a):
    return [("adjacency block", And(a.alloc(), a.typed(), a.idx.alloc(), a.idx.typed(), a.neighbors.alloc(), a.neighbors.typed(), a.strength.alloc(), a.strength.typed(), a.idx.o != a.neighbors.o)),
            ("room", And(a.N >= 0, a.N < U32 // 4, a.E >= 0, a.E < U32 // 4, a.idx.len() >= a.N + 1, a.neighbors.len() >= 2 * a.E, a.strength.len() >= 2 * a.E))]
def zeroed(name, arr, n): return (name, forall(lambda k: imp(And(0 <= k, k < n), arr[k] == 0), pat=lambda k: [arr[k]]))
CONTRACTS = [
    Contract(CP, "CreateAdjaArray", requires=lambda S: [("sizes in range", And(S.N < U32 // 4, S.E < U32 // 4))],
        ensures=lambda S: (lambda a: adj_blocks(S, a) + [("sizes as requested", And(a.N == S.N, a.E == S.E, a.idx[S.N] == 2 * S.E)), zeroed("no neighbours yet", a.neighbors, 2 * S.E), zeroed("no weights yet", a.strength, 2 * S.E),
            ("the blocks are new", And(*[is_new(S, o) for o in (a.o, a.idx.o, a.neighbors.o, a.strength.o)]))])(S.result),
        fresh=["AdjaArray.N", "AdjaArray.E", "AdjaArray.idx", "AdjaArray.neighbors", "AdjaArray.strength", "[]u32", "[]real"], allocs="grow"),
    Contract(CP, "FreeAdjaArray", requires=lambda S: adj_blocks(S, S.adj)[:1],
        ensures=lambda S: [("exactly the array's blocks are released", forall(lambda o: live(S, o) == And(live(S.old, o), o != S.adj.o, o != S.old.adj.idx.o, o != S.old.adj.neighbors.o, o != S.old.adj.strength.o), pat=lambda o: [live(S, o)]))], allocs="free"),
]

def hit(a, b): return If(a == b, 1, 0)
def inc(S, e, n): return hit(S.nd_in[e], n) + hit(S.nd_out[e], n)
def deg(S, lo, hi, n): return SumI(lo, hi, lambda e: inc(S, e, n))
def stren(S, hi, n): return SumR(0, hi, lambda e: inc(S, e, n) * S.weight[e])
def total(S, hi): return SumR(0, hi, lambda e: S.weight[e])
def rate_f(S): return lambda e: S.weight[e] / norm_w(S)
def rate(S, e): return opaque(rate_f(S), e)
def edge_w(S, hi, i, j):
    """what the first hi edges contribute to the pair (i, j)"""
    return SumR(0, hi, lambda e: If(And(S.nd_in[e] == i, S.nd_out[e] == j), rate(S, e), 0) + If(And(S.nd_out[e] == i, S.nd_in[e] == j), rate(S, e), 0))
def row(a, hi, n, j): return SumR(a.idx[n], hi, lambda k: If(a.neighbors[k] == j, a.strength[k], 0))
def tot_f(S): return lambda u: total(S, S.adj.E)
def tot_w(S): return opaque(tot_f(S), 0)
def norm_w(S): return If(S.normalize != 0, 2 * tot_w(S), 1)
def str_f(S): return lambda n: stren(S, S.adj.E, n)
def str_w(S, n): return opaque(str_f(S), n)
def ela_req(S):
    a, p = S.adj, S.part; E, N = a.E, a.N
    return adj_blocks(S, a) + shape(S, p)[:2] + [shape(S, p)[5], shape(S, p)[7]] + [("same nodes", And(p.N == N)),
        ("edge list", And(S.nd_in.alloc(), S.nd_in.len() >= E, S.nd_out.alloc(), S.nd_out.len() >= E, S.weight.alloc(), S.weight.len() >= E, S.weight.o != a.strength.o)),
        ("end points are nodes", forall(lambda e: imp(And(0 <= e, e < E), And(0 <= S.nd_in[e], S.nd_in[e] < N, 0 <= S.nd_out[e], S.nd_out[e] < N)), pat=lambda e: [S.nd_in[e], S.nd_out[e]])),
        ("strengths start at zero", forall(lambda k: imp(And(0 <= k, k < N), p.nodes[k].strength == 0), pat=lambda k: [p.nodes[k].o])),
        zeroed("no neighbours yet", a.neighbors, 2 * E), ("last offset", a.idx[N] == 2 * E), ("edges need nodes", Or(E == 0, N > 0)),
        ("total weight is not zero when normalising", Or(S.normalize == 0, tot_w(S) != 0))]
def ela_ens(S):
    a, p, o = S.bind(S.adj), S.bind(S.part), S.old; E, N = o.adj.E, o.adj.N; W = norm_w(o)
    return [("success", S.result == 0), ("row lengths are degrees", forall(lambda n: imp(And(0 <= n, n < N), a.idx[n + 1] - a.idx[n] == deg(o, 0, E, n)), pat=lambda n: [a.idx[n + 1], p.nodes[n].o])),
        ("rows carry exactly the edges", forall(lambda i, j: imp(And(0 <= i, i < N), row(a, a.idx[i + 1], i, j) == edge_w(o, E, i, j)), pat=lambda i, j: [row(a, a.idx[i + 1], i, j)])),
        ("node strengths", forall(lambda n: imp(And(0 <= n, n < N), p.nodes[n].strength == str_w(o, n) / W), pat=lambda n: [p.nodes[n].o])),
        ("other nodes untouched", forall(lambda x: imp(S.f("Node.$owner", x) != S.part.o, S.f("Node.strength", x) == o.f("Node.strength", x)), pat=lambda x: [S.f("Node.strength", x)]))] + adj_ok(S, a) + \
       [("other blocks untouched: " + h, forall(lambda x: imp(And(*[x != b.o for b in bs]), S.f(h, x) == o.f(h, x)), pat=lambda x: [S.f(h, x)])) for h, bs in (("[]u32", (a.idx, a.neighbors)), ("[]real", (a.strength,)))]
def ela_nodes_untouched(S): return ("other nodes untouched", forall(lambda x: imp(S.f("Node.$owner", x) != S.part.o, S.f("Node.strength", x) == S.old.f("Node.strength", x)), pat=lambda x: [S.f("Node.strength", x)]))
def dsum(S, hi): return SumI(0, hi, lambda n: S.degree[n])
def ela_inv0(S):
    p, o = S.part, S.old; N = o.adj.N
    return [("index", And(0 <= S.i, S.i <= o.adj.E)), ("degrees so far", forall(lambda n: imp(And(0 <= n, n < N), S.degree[n] == deg(o, 0, S.i, n)), pat=lambda n: [S.degree[n]])),
        ("degrees in range", forall(lambda n: imp(And(0 <= n, n < N), And(0 <= S.degree[n], S.degree[n] <= 2 * S.i)), pat=lambda n: [S.degree[n]])),
        ("strengths so far", forall(lambda n: imp(And(0 <= n, n < N), p.nodes[n].strength == stren(o, S.i, n)), pat=lambda n: [p.nodes[n].o])),
        ("weight so far", S.weightsum == total(o, S.i)), ("degrees add up", dsum(S, N) == 2 * S.i), ela_nodes_untouched(S)]
def ela_inv1(S):
    p, a, o = S.part, S.adj, S.old; N = o.adj.N
    return [("index", And(0 <= S.i, S.i <= N)), ("position", And(S.pos == dsum(S, S.i), 0 <= S.pos)), ("position in range", And(0 <= S.pos, S.pos <= 2 * o.adj.E)),
        ("offsets so far", forall(lambda n: imp(And(0 <= n, n < S.i), And(0 <= a.idx[n], a.idx[n] + S.degree[n] == If(n + 1 < S.i, a.idx[n + 1], S.pos))), pat=lambda n: [a.idx[n]])),
        ("offsets start at zero", Or(S.i == 0, a.idx[0] == 0)), ("positions start at zero", Or(S.i > 0, S.pos == 0)), 
        ("last offset", a.idx[N] == 2 * o.adj.E), ("normaliser", S.weightsum == norm_w(o)), ("normaliser is not zero", S.weightsum != 0),
        ("normalised so far", forall(lambda n: imp(And(0 <= n, n < N), p.nodes[n].strength == If(n < S.i, str_w(o, n) / norm_w(o), str_w(o, n))), pat=lambda n: [p.nodes[n].o])), ela_nodes_untouched(S),
        ("other blocks untouched", forall(lambda x: imp(x != a.idx.o, S.f("[]u32", x) == o.f("[]u32", x)), pat=lambda x: [S.f("[]u32", x)]))]
def ela_cur(S, n): return S.adj.idx[n + 1] - S.degree[n]
def idx_sorted(a, N): return ("offsets are sorted", forall(lambda i, j: imp(And(0 <= i, i <= j, j <= N), And(0 <= a.idx[i], a.idx[i] <= a.idx[j])), pat=lambda i, j: [(a.idx[i], a.idx[j])]))
def ela_inv2(S):
    p, a, o = S.part, S.adj, S.old; N, E = o.adj.N, o.adj.E
    return [idx_sorted(a, N), ("index", And(0 <= S.i, S.i <= E)), ("degrees left", forall(lambda n: imp(And(0 <= n, n < N), S.degree[n] == deg(o, S.i, E, n)), pat=lambda n: [S.degree[n]])),
        ("degrees left in range", forall(lambda n: imp(And(0 <= n, n < N), And(0 <= S.degree[n], S.degree[n] <= a.idx[n + 1] - a.idx[n])), pat=lambda n: [S.degree[n]])),
        ("rows so far", forall(lambda n, j: imp(And(0 <= n, n < N), row(a, ela_cur(S, n), n, j) == edge_w(o, S.i, n, j)), pat=lambda n, j: [row(a, ela_cur(S, n), n, j)])),
        ("neighbours are nodes", forall(lambda k: imp(And(0 <= k, k < 2 * E), And(0 <= a.neighbors[k], a.neighbors[k] < N)), pat=lambda k: [a.neighbors[k]])),
        ("other blocks untouched (neighbours)", forall(lambda x: imp(And(x != a.neighbors.o), S.f("[]u32", x) == S.pre.f("[]u32", x)), pat=lambda x: [S.f("[]u32", x)])),
        ("other blocks untouched (weights)", forall(lambda x: imp(x != a.strength.o, S.f("[]real", x) == o.f("[]real", x)), pat=lambda x: [S.f("[]real", x)]))]
def ela_exit1(S):
    a, o = S.adj, S.old; N = o.adj.N
    f = lambda i, j: And(0 <= i, i <= j, j <= N)
    return [("next offset", forall(lambda n: imp(And(0 <= n, n < N), And(0 <= a.idx[n], a.idx[n] + S.degree[n] == a.idx[n + 1])), pat=lambda n: [a.idx[n], a.idx[n + 1]])),
            ("one step", forall(lambda n: imp(And(0 <= n, n < N), And(0 <= a.idx[n], a.idx[n] <= a.idx[n + 1])), pat=lambda n: [a.idx[n], a.idx[n + 1]])),
            sorted_steps(lambda n: a.idx[n], N), ("offsets are sorted", forall(lambda i, j: imp(f(i, j), And(0 <= a.idx[i], a.idx[i] <= a.idx[j])), pat=lambda i, j: [(a.idx[i], a.idx[j])]))]
def ela_hints1(S):
    o = S.old; N = o.adj.N
    return [sum_split(dsum(S, N), S.i), sum_unfold_left(SumI(S.i, N, lambda n: S.degree[n])), sum_ge0(SumI(S.i + 1, N, lambda n: S.degree[n])), ("room for the degree", imp(S.i < N, S.pos + S.degree[S.i] <= 2 * o.adj.E))]
def ela_hints2(S):
    o = S.old; N, E = o.adj.N, o.adj.E; i = S.i; a_, b_ = S.nd_in[i], S.nd_out[i]
    return [forall(lambda n: sum_unfold_left(deg(o, i, E, n)), pat=lambda n: [S.degree[n]]), sum_ge0(deg(o, i + 1, E, a_)), sum_ge0(deg(o, i + 1, E, b_)),
            ("slots left", imp(i < E, And(S.degree[a_] >= inc(o, i, a_), S.degree[b_] >= inc(o, i, b_)))), reveal(rate_f(o), i),
            ("share of the edge", imp(i < E, S.weight[i] / S.weightsum == rate(o, i)))]
def ela_step(S):
    I_ = S.I2; o = S.old; a, b = S.adj, I_.adj; i = I_.i; N = o.adj.N; x, y = o.nd_in[i], o.nd_out[i]; w = rate(o, i)
    rng = lambda n: And(0 <= n, n < N)
    un = lambda n, j, d: (lambda t: sum_unfold(t.decl(), *t.children()))(row(a, ela_cur(I_, n) + d, n, j))
    def grown(n, z):
        return forall(lambda j: imp(rng(n), row(a, ela_cur(S, n), n, j) == row(a, ela_cur(I_, n), n, j) + If(x == n, If(j == y, w, 0), 0) + If(y == n, If(j == x, w, 0), 0)), pat=lambda j: [row(a, ela_cur(S, n), n, j)])
    return [("next slots", forall(lambda n: imp(rng(n), ela_cur(S, n) == ela_cur(I_, n) + inc(o, i, n)), pat=lambda n: [S.degree[n]])),
            ("slots in their rows", And(S.idx_in == ela_cur(I_, x), S.idx_out == ela_cur(I_, y) + If(x == y, 1, 0), a.idx[x] <= S.idx_in, S.idx_in < a.idx[x + 1], a.idx[y] <= S.idx_out, S.idx_out < a.idx[y + 1])),
            ("rows end before the next", forall(lambda n: imp(rng(n), And(a.idx[n] <= ela_cur(I_, n), ela_cur(I_, n) <= a.idx[n + 1])), pat=lambda n: [I_.degree[n]])),
            ("slots outside the filled part", forall(lambda n: imp(rng(n), And(Or(ela_cur(I_, n) <= S.idx_in, S.idx_in < a.idx[n]), Or(ela_cur(I_, n) <= S.idx_out, S.idx_out < a.idx[n]))), pat=lambda n: [I_.degree[n]])),
            ("only two slots change", forall(lambda k: imp(And(k != S.idx_in, k != S.idx_out), And(a.neighbors[k] == b.neighbors[k], a.strength[k] == b.strength[k])), pat=lambda k: [a.neighbors[k], a.strength[k]])),
            ("filled slots stay", forall(lambda n, k: imp(And(rng(n), a.idx[n] <= k, k < ela_cur(I_, n)), And(a.neighbors[k] == b.neighbors[k], a.strength[k] == b.strength[k])), pat=lambda n, k: [(a.idx[n], a.neighbors[k]), (a.idx[n], a.strength[k])])),
            ("filled part of a row stays", forall(lambda n, j: imp(rng(n), row(a, ela_cur(I_, n), n, j) == row(b, ela_cur(I_, n), n, j)), pat=lambda n, j: [row(a, ela_cur(I_, n), n, j)])),
            ("new slots", And(a.neighbors[S.idx_in] == y, a.strength[S.idx_in] == w, a.neighbors[S.idx_out] == x, a.strength[S.idx_out] == w, S.idx_in == ela_cur(I_, x), S.idx_out == ela_cur(I_, y) + If(x == y, 1, 0))),
            ("new slots later", And(S.idx_in >= a.idx[x], S.idx_out >= a.idx[y])),
            forall(lambda j: And(un(x, j, 1), un(x, j, 2), un(y, j, 1)), pat=lambda j: [row(a, ela_cur(S, x), x, j), row(a, ela_cur(S, y), y, j)]),
            ("row of the first end", grown(x, y)), ("row of the second end", grown(y, x)),
            ("rows of other nodes", forall(lambda n, j: imp(And(rng(n), n != x, n != y), row(a, ela_cur(S, n), n, j) == row(a, ela_cur(I_, n), n, j)), pat=lambda n, j: [row(a, ela_cur(S, n), n, j)])),
            ("every row", forall(lambda n, j: imp(rng(n), row(a, ela_cur(S, n), n, j) == row(a, ela_cur(I_, n), n, j) + If(x == n, If(j == y, w, 0), 0) + If(y == n, If(j == x, w, 0), 0)), pat=lambda n, j: [row(a, ela_cur(S, n), n, j)]))]
SUMS0 = ["degrees so far", "strengths so far", "weight so far", "degrees add up", "normalised so far", "strengths", "rows so far", "degrees left"]
CONTRACTS.append(Contract(CF, "EdgeListToAdjaArray", requires=ela_req, ensures=ela_ens, modifies=["Node.strength", "[]u32", "[]real"], allocs=False, opts=dict(merge=True),
    drop={"slots left": SUMS0[:-1] + ["total"], "rows are full": SUMS0[:-2] + ["degrees left", "total", "slots", "sorted", "offset", "rows end"], "rows are the edges": SUMS0 + ["total"], "rows carry exactly": SUMS0 + ["total", "rows are full", "all slots"], "row of the": [x for x in SUMS0] + ["filled"], "every row": SUMS0 + ["filled", "slots", "next", "total", "ends are sorted", "offset"], "filled part": SUMS0, "filled slots": SUMS0, "invariant kept by an iteration: rows so far": SUMS0[:-2] + ["degrees left", "row of the", "slots", "rows of other", "total", "rows end"],},
    loops={0: Loop(inv=ela_inv0, decreases=lambda S: S.old.adj.E - S.i, hints_end=lambda S: [sum_diff2(dsum(S.I0, S.old.adj.N), dsum(S, S.old.adj.N), S.nd_in[S.I0.i], S.nd_out[S.I0.i])], exit_hints=lambda S: [reveal(tot_f(S.old), 0), ("total weight", S.weightsum == tot_w(S.old)), forall(lambda n: reveal(str_f(S.old), n), pat=lambda n: [S.part.nodes[n].o]),
               ("total strengths", forall(lambda n: imp(And(0 <= n, n < S.old.adj.N), S.part.nodes[n].strength == str_w(S.old, n)), pat=lambda n: [S.part.nodes[n].o]))]),
           1: Loop(inv=ela_inv1, decreases=lambda S: S.old.adj.N - S.i, hints=ela_hints1, exit_hints=ela_exit1),
           2: Loop(inv=ela_inv2, decreases=lambda S: S.old.adj.E - S.i, hints=ela_hints2, hints_end=ela_step, exit_hints=lambda S: [("all slots used", forall(lambda n: imp(And(0 <= n, n < S.old.adj.N), S.degree[n] == 0), pat=lambda n: [S.degree[n], S.adj.idx[n + 1]])),
               ("every edge placed", S.i == S.old.adj.E), ("rows end at the next", forall(lambda n: imp(And(0 <= n, n < S.old.adj.N), ela_cur(S, n) == S.adj.idx[n + 1]), pat=lambda n: [S.degree[n], S.adj.idx[n + 1]])),
               ("rows are full", forall(lambda n, j: imp(And(0 <= n, n < S.old.adj.N), row(S.adj, ela_cur(S, n), n, j) == edge_w(S.old, S.old.adj.E, n, j)), pat=lambda n, j: [row(S.adj, ela_cur(S, n), n, j), row(S.adj, S.adj.idx[n + 1], n, j)])),
               ("rows are the edges", forall(lambda n, j: imp(And(0 <= n, n < S.old.adj.N), row(S.adj, S.adj.idx[n + 1], n, j) == edge_w(S.old, S.old.adj.E, n, j)), pat=lambda n, j: [row(S.adj, S.adj.idx[n + 1], n, j)]))])}))
PROPS = {"C01": ["CreateAdjaArray", "FreeAdjaArray", "EdgeListToAdjaArray"]}
