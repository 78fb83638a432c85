"""Adjacency and Laplacian matrices (src/matrix.c)"""
import z3
from vc import Contract, Loop
from spec import *
from partition2_c import live, is_new
from tools_c import mat_ok
from graph_c import nets, base, closed, caches, head, numbered, net, ix, cnt, at, deg, nb, lk, own, pos, isnode
MF = "src/matrix.c"
def linked(S, h, i, j): return If(lk(S, at(S, h, i + 1), at(S, h, j + 1)) != 0, 1, 0)
def entries(S, m, n, f): return forall(lambda i, j: imp(And(0 <= i, i < n, 0 <= j, j < n), m[i][j] == f(i, j)), pat=lambda i, j: [m[i][j]])
def ents(lab, S, m, n, f): return (lab, entries(S, m, n, f))
def tab(S): return mat_ok(S, S.A, S.nnod, S.nnod, True)
def amat_loops():
    z = lambda c: (lambda S: [("rows so far are zero", forall(lambda i, j: imp(And(0 <= i, i < S.nnod, 0 <= j, j < S.nnod, c(S, i, j)), S.A[i][j] == 0), pat=lambda i, j: [S.A[i][j]]))])
    oth = lambda S: [("other tables", forall(lambda o: imp(live(S.old, o), S.f("[]i32", o) == S.old.f("[]i32", o)), pat=lambda o: [S.f("[]i32", o)]))]
    one = lambda S, c: [("ones so far", forall(lambda i, j: imp(And(0 <= i, i < S.nnod, 0 <= j, j < S.nnod), S.A[i][j] == If(c(S, i, j), linked(S, S.net.o, i, j), 0)), pat=lambda i, j: [S.A[i][j]]))]
    return {0: Loop(inv=lambda S: [("index", And(0 <= S.i, S.i <= S.nnod))] + z(lambda S, i, j: i < S.i)(S) + oth(S), decreases=lambda S: S.nnod - S.i),
            1: Loop(inv=lambda S: [("index", And(0 <= S.j, S.j <= S.nnod, 0 <= S.i, S.i < S.nnod))] + z(lambda S, i, j: Or(i < S.i, And(i == S.i, j < S.j)))(S) + oth(S), decreases=lambda S: S.nnod - S.j),
            2: Loop(inv=lambda S: [("place", net(S, S.p.o) == S.net.o)] + one(S, lambda S, i, j: i < ix(S, S.p.o)) + oth(S), decreases=lambda S: cnt(S, S.net.o) - ix(S, S.p.o)),
            3: Loop(inv=lambda S: [("place", And(net(S, S.p.o) == S.net.o, ix(S, S.p.o) >= 1, own(S, S.n.o) == S.p.o))] + one(S, lambda S, i, j: Or(i < ix(S, S.p.o) - 1, And(i == ix(S, S.p.o) - 1, lk(S, S.p.o, at(S, S.net.o, j + 1)) <= pos(S, S.n.o)))) + oth(S), decreases=lambda S: deg(S, S.p.o) - pos(S, S.n.o))}
CONTRACTS = [
    Contract(MF, "AdjacencyMat", requires=lambda S: base(S) + [head(S, S.net), numbered(S, S.net.o), closed(S, S.net.o)],
        ensures=lambda S: mat_ok(S, S.result, cnt(S, S.net.o), cnt(S, S.net.o), True) + [("one exactly where the link is present", entries(S, S.result, cnt(S, S.net.o), lambda i, j: linked(S, S.net.o, i, j))), ("new table", And(is_new(S, S.result.o), S.result.len() == cnt(S, S.net.o)))],
        fresh=["[]i32", "[]*i32"], allocs="grow", loops=amat_loops()),
    Contract(MF, "LaplacianMat", requires=lambda S: base(S) + caches(S) + [head(S, S.net), numbered(S, S.net.o), closed(S, S.net.o)],
        ensures=lambda S: [("only a network with a link from a node to itself has no Laplacian", imp(S.result.o == 0, exists(lambda x: And(net(S, x) == S.net.o, ix(S, x) >= 1, lk(S, x, x) != 0)))),
             ("a network with a link from a node to itself has no Laplacian", imp(S.result.o != 0, forall(lambda i: imp(And(0 <= i, i < cnt(S, S.net.o)), lk(S, at(S, S.net.o, i + 1), at(S, S.net.o, i + 1)) == 0), pat=lambda i: [at(S, S.net.o, i + 1)])))] +
            [(lab, Or(S.result.o == 0, f)) for lab, f in mat_ok(S, S.result, cnt(S, S.net.o), cnt(S, S.net.o), True) + [
            ("degrees on the diagonal, minus one where a link is present", entries(S, S.result, cnt(S, S.net.o), lambda i, j: If(i == j, deg(S, at(S, S.net.o, i + 1)), -linked(S, S.net.o, i, j))))]] + caches(S),
        fresh=["[]i32", "[]*i32"], modifies=["node_gra.degree"], allocs="grow",
        loops={0: Loop(inv=lambda S: [("index", And(0 <= S.i, S.i <= S.nnod)), ("place", And(net(S, S.p.o) == S.net.o, ix(S, S.p.o) == S.i))] + caches(S) +
                   [("no self link so far", forall(lambda i: imp(And(0 <= i, i < S.i), lk(S, at(S, S.net.o, i + 1), at(S, S.net.o, i + 1)) == 0), pat=lambda i: [at(S, S.net.o, i + 1)])),
                    ("rows and columns so far", entries(S, S["L"], S.nnod, lambda i, j: If(Or(i < S.i, j < S.i), If(i == j, deg(S, at(S, S.net.o, i + 1)), -linked(S, S.net.o, i, j)), linked(S, S.net.o, i, j)))),
                    ("other tables", forall(lambda o: imp(live(S.old, o), S.f("[]i32", o) == S.old.f("[]i32", o)), pat=lambda o: [S.f("[]i32", o)]))], decreases=lambda S: S.nnod - S.i),
               1: Loop(inv=lambda S: [("index", And(0 <= S.i, S.i < S.j, S.j <= S.nnod)),
                    ("rows and columns so far", entries(S, S["L"], S.nnod, lambda i, j: If(Or(i < S.i, j < S.i, And(i == S.i, j < S.j), And(j == S.i, i < S.j)), If(i == j, deg(S, at(S, S.net.o, i + 1)), -linked(S, S.net.o, i, j)), linked(S, S.net.o, i, j)))),
                    ("other tables", forall(lambda o: imp(live(S.old, o), S.f("[]i32", o) == S.old.f("[]i32", o)), pat=lambda o: [S.f("[]i32", o)]))], decreases=lambda S: S.nnod - S.j)}),
]
PROPS = {"C20": ["AdjacencyMat", "LaplacianMat", "CountNodes", "NodeDegree", "allocate_i_mat"]}
