"""Written files (src/io.c, src/graph.c, src/bipartite.c): the exact sequence of tokens that goes to the stream"""
import z3
from vc import Contract, Loop, ghost_field, c_str, c_slen, c_scmp, CH, tok, tok_text
from spec import *
import partition_c
from partition_c import shape, lists, role_spec
import graph_c as G
IO, GF, BF = "src/io.c", "src/graph.c", "src/bipartite.c"
C = []
for n in ("Node.$out", "Module.$out", "Module.$end", "node_gra.$out", "node_lis.$out"): ghost_field(n)
OUT = ["out.$n", "out.$tok"]
def stream(S): return (S.outf if S.has("outf") else S.file).o
def n_(S): return S.f("out.$n", stream(S))
def t_(S, i): return z3.Select(S.f("out.$tok", stream(S)), i)
def ch(c): return z3.IntVal(ord(c))
def txt(S, o): return c_str(S.f(CH, o))
def others(S): return ("other streams", And(*[forall(lambda o: imp(o != stream(S), S.f(h, o) == S.old.f(h, o)), pat=lambda o: [S.f(h, o)]) for h in OUT]))
def before(S, T): return ("what was written before stays", forall(lambda i: imp(i < n_(T), t_(S, i) == t_(T, i)), pat=lambda i: [t_(S, i)]))
def written(S, T): return [others(S), before(S, T), ("the stream only grows", n_(S) >= n_(T))]
# ---------------------------------------------------------------- comparing labels
def lab_of(S, p): return S.f("node.label", p.o)
# ---------------------------------------------------------------- partitions
def labs(S): return [("labels", And(S.labels.alloc(), S.labels.off == 0, S.labels.len() >= S.part.N, forall(lambda i: imp(And(0 <= i, i < S.part.N), And(S.labels[i].o != 0, S.labels[i].alloc(), S.labels[i].off == 0)), pat=lambda i: [S.labels[i].o])))]
def N(S, o): return S.ptr("Node", o)
def M(S, o): return S.ptr("Module", o)
def line_facts(S, T, done, hi):
    """done(x): the nodes written so far in full lines; hi: number of lines written"""
    p = T.part; gm = lambda k: p.modules[k].o
    o = lambda k: S.f("Module.$out", gm(k)); e = lambda k: S.f("Module.$end", gm(k))
    no = lambda x: S.f("Node.$out", x)
    return [("lines follow each other", forall(lambda k: imp(And(0 <= k, k < hi), And(o(k) == If(k == 0, n_(T), e(k - 1)), o(k) < e(k), e(k) <= n_(S), t_(S, e(k) - 1) == ch("\n"), imp(p.modules[k].first == 0, e(k) == o(k) + 1), imp(p.modules[k].first != 0, no(p.modules[k].first.o) == o(k)))), pat=lambda k: [gm(k)])),
        ("each node's label is written once, on the line of its group", forall(lambda x: imp(And(N(T, x).g_owner == p.o, N(T, x).module < hi), And(t_(S, no(x)) == tok_text("s", txt(T, T.labels[N(T, x).id].o)), t_(S, no(x) + 1) == ch("\t"), n_(T) <= no(x), no(x) + 3 <= n_(S),
            If(N(T, x).next != 0, no(N(T, x).next.o) == no(x) + 2, e(N(T, x).module) == no(x) + 3))), pat=lambda x: [no(x)]))]
def co_inv0(S):
    T = S.old; p = T.part
    return written(S, T) + [("index", And(0 <= S.mod, S.mod <= p.M)), ("where we are", n_(S) == If(S.mod == 0, n_(T), S.f("Module.$end", p.modules[S.mod - 1].o)))] + line_facts(S, T, None, S.mod)
def co_inv1(S):
    T = S.old; p = T.part; no = lambda x: S.f("Node.$out", x); start = n_(S.L1)
    seen = lambda x: And(N(T, x).g_owner == p.o, N(T, x).module == S.mod, Or(S.node.o == 0, N(T, x).g_ord < N(T, S.node.o).g_ord))
    fst = p.modules[S.mod].first
    return written(S, T) + [("index", And(0 <= S.mod, S.mod < p.M)), ("start of the line", start == If(S.mod == 0, n_(T), S.f("Module.$end", p.modules[S.mod - 1].o))), ("grown", n_(S) >= start)] + line_facts(S, T, None, S.mod) + [
        ("place", Or(S.node.o == 0, And(N(T, S.node.o).g_owner == p.o, N(T, S.node.o).module == S.mod))),
        ("the first label starts the line", And(imp(S.node.o == fst.o, n_(S) == start), imp(And(fst != 0, S.node.o != fst.o), no(fst.o) == start))),
        ("nothing skipped", imp(S.node.o != 0, imp(N(T, S.node.o).prev != 0, n_(S) == no(N(T, S.node.o).prev.o) + 2))),
        ("nothing left", imp(And(S.node.o == 0, fst != 0), n_(S) == no(p.modules[S.mod].last.o) + 2)),
        ("labels of this line so far", forall(lambda x: imp(seen(x), And(t_(S, no(x)) == tok_text("s", txt(T, T.labels[N(T, x).id].o)), t_(S, no(x) + 1) == ch("\t"), start <= no(x), no(x) + 2 <= n_(S),
            imp(And(N(T, x).next != 0, N(T, x).next.o != S.node.o), no(N(T, x).next.o) == no(x) + 2))), pat=lambda x: [no(x)]))]
C.append(Contract(IO, "ClusteringOutput", requires=lambda S: shape(S, S.part) + lists(S, S.part) + labs(S), modifies=OUT + ["Node.$out", "Module.$out", "Module.$end"], opts=dict(trace=True),
    ensures=lambda S: written(S, S.old) + [("nothing follows the last line", n_(S) == If(S.part.M == 0, n_(S.old), S.f("Module.$end", S.part.modules[S.part.M - 1].o)))] + line_facts(S, S.old, None, S.part.M),
    loops={0: Loop(inv=co_inv0, decreases=lambda S: S.part.M - S.mod, gkeys=["Module.$out", "Module.$end"], ghost=lambda S: {"Module.$out": z3.Store(S.heap("Module.$out"), S.part.modules[S.mod - 1].o, n_(S.I0)), "Module.$end": z3.Store(S.heap("Module.$end"), S.part.modules[S.mod - 1].o, n_(S))}),
           1: Loop(inv=co_inv1, gkeys=["Node.$out"], ghost=lambda S: {"Node.$out": z3.Store(S.heap("Node.$out"), S.I1.node.o, n_(S.I1))},
               decreases=lambda S: If(S.node.o == 0, 0, N(S, S.part.modules[S.mod].last.o).g_ord - N(S, S.node.o).g_ord + 1))}))
# ---------------------------------------------------------------- table of nodes and roles
HEAD = [None] + [ch(c) for c in "\tModule\tConnectivity\tParticipation\tRole\n"]
def row(S, T, i, at):
    p = T.part; r = role_spec(T.participation[i], T.connectivity[i]) + 1
    ts = [tok_text("-30s", txt(T, T.labels[i].o)), ch("\t"), tok("d", p.nodes[i].module), ch("\t"), tok("f", T.connectivity[i]), ch("\t"), tok("f", T.participation[i]), ch("\t"), ch("R"), tok("d", r), ch("\n")]
    return Not(Or(*[t_(S, at + k) != t for k, t in enumerate(ts)]))     # (kept in one piece)
ROW = 11
def tab_inv(S):
    T = S.old
    return written(S, T) + [("index", And(0 <= S.i, S.i <= T.part.N)), ("rows so far", n_(S) == n_(T) + len(HEAD) + ROW * S.i), ("heading", And(*[t_(S, n_(T) + k) == t for k, t in enumerate(HEAD) if k])),
        ("each row is right", forall(lambda i: imp(And(0 <= i, i < S.i), row(S, T, i, n_(T) + len(HEAD) + ROW * i)), pat=lambda i: [T.labels[i].o]))]
C.append(Contract(IO, "TabularOutput", requires=lambda S: shape(S, S.part) + labs(S) + [("group numbers in range", forall(lambda i: imp(And(0 <= i, i < S.part.N), And(0 <= S.part.nodes[i].module, S.part.nodes[i].module < S.part.M)), pat=lambda i: [S.part.nodes[i].o])),
        ("values", And(S.connectivity.alloc(), S.connectivity.len() >= S.part.N, S.participation.alloc(), S.participation.len() >= S.part.N))], modifies=OUT, opts=dict(trace=True),
    ensures=lambda S: written(S, S.old) + [("a heading and one row for each node", n_(S) == n_(S.old) + len(HEAD) + ROW * S.part.N), ("each row is right", forall(lambda i: imp(And(0 <= i, i < S.part.N), row(S, S.old, i, n_(S.old) + len(HEAD) + ROW * i)), pat=lambda i: [S.old.labels[i].o]))],
    loops={0: Loop(inv=tab_inv, decreases=lambda S: S.part.N - S.i)}))
# ---------------------------------------------------------------- networks
from graph_c import base, nets, labels, caches, few, net, ix, cnt, at, deg, nb, lk, own, pos, ref, islink, isnode, ishead, W
def g(S, f, x): return S.f("node_gra." + f, x)
def l(S, f, c): return S.f("node_lis." + f, c)
def lab(S, x): return txt(S, g(S, "label", x))
def adj_list(name, file, head, printed, extra, wsw="weight_sw"):
    on = lambda S, x: g(S, "$out", x); oc = lambda S, c: l(S, "$out", c)
    L = lambda S: If(S.old[wsw] == 0, 4, 6)
    ln = lambda S, c: If(printed(S, c), L(S), 0)
    fin = lambda S, x: If(deg(S, x) == 0, on(S, x), oc(S, nb(S, x, deg(S, x))) + ln(S, nb(S, x, deg(S, x))))
    def toks(S, c):
        o = oc(S, c); x, y = lab(S, own(S, c)), lab(S, ref(S, c))
        return And(t_(S, o) == tok_text("s", x), t_(S, o + 1) == ch(" "), t_(S, o + 2) == tok_text("s", y), If(S.old[wsw] == 0, t_(S, o + 3) == ch("\n"), And(t_(S, o + 3) == ch(" "), t_(S, o + 4) == tok("g", l(S, "weight", c)), t_(S, o + 5) == ch("\n"))))
    def facts(S, T, done):
        """done(c): link c has been looked at"""
        h = head(T)
        return [("each link is written once, on a line of its own", forall(lambda c: imp(And(islink(S, c), net(S, own(S, c)) == h, done(c)), And(imp(printed(S, c), toks(S, c)), n_(T) <= oc(S, c), oc(S, c) + ln(S, c) <= n_(S), oc(S, c) == If(pos(S, c) == 1, on(S, own(S, c)), oc(S, nb(S, own(S, c), pos(S, c) - 1)) + ln(S, nb(S, own(S, c), pos(S, c) - 1))))), pat=lambda c: [oc(S, c)]))]
    def chain(S, T, hi):
        h = head(T)
        return [("the nodes' lines follow each other", forall(lambda k: imp(And(1 <= k, k <= hi), And(on(S, at(S, h, k)) == If(k == 1, n_(T), fin(S, at(S, h, k - 1))), n_(T) <= on(S, at(S, h, k)), on(S, at(S, h, k)) <= n_(S))), pat=lambda k: [at(S, h, k)]))]
    lastn = lambda S, T, k: If(k == 0, n_(T), fin(S, at(S, head(T), k)))
    inv0 = lambda S: written(S, S.old) + [("place", net(S, S.p.o) == head(S.old)), ("where we are", n_(S) == lastn(S, S.old, ix(S, S.p.o)))] + facts(S, S.old, lambda c: ix(S, own(S, c)) <= ix(S, S.p.o)) + chain(S, S.old, ix(S, S.p.o))
    inv1 = lambda S: written(S, S.old) + [("place", And(net(S, S.p.o) == head(S.old), ix(S, S.p.o) >= 1, own(S, S.n.o) == S.p.o)), ("where we are", n_(S) == If(pos(S, S.n.o) == 0, on(S, S.p.o), oc(S, S.n.o) + ln(S, S.n.o)))] + \
        facts(S, S.old, lambda c: Or(ix(S, own(S, c)) < ix(S, S.p.o), And(own(S, c) == S.p.o, pos(S, c) <= pos(S, S.n.o)))) + chain(S, S.old, ix(S, S.p.o))
    return Contract(file, name, requires=lambda S: base(S) + labels(S) + extra(S), modifies=OUT + ["node_gra.$out", "node_lis.$out"], opts=dict(trace=True),
        ensures=lambda S: written(S, S.old) + [("nothing follows the last link", n_(S) == lastn(S, S.old, cnt(S, head(S.old))))] + facts(S, S.old, lambda c: z3.BoolVal(True)) + chain(S, S.old, cnt(S, head(S.old))),
        loops={0: Loop(inv=inv0, decreases=lambda S: cnt(S, head(S.old)) - ix(S, S.p.o)),
            1: Loop(inv=inv1, decreases=lambda S: deg(S, S.p.o) - pos(S, S.n.o), gkeys=["node_lis.$out"], ghost=lambda S: {"node_lis.$out": z3.Store(S.heap("node_lis.$out"), S.n.o, n_(S.I1))}, entry_ghost=lambda S: {"node_gra.$out": z3.Store(S.heap("node_gra.$out"), S.p.o, n_(S))})})
C.append(adj_list("FPrintBipart", BF, lambda T: T.binet.net1.o, lambda S, c: z3.BoolVal(True), lambda S: [("a pair of networks", And(S.binet.alloc(), ishead(S, S.binet.net1.o)))]))
C.append(adj_list("FPrintNetAdjacencyList", GF, lambda T: T.p.o, lambda S, c: Or(S.old.symmetric_sw == 0, c_scmp(lab(S, own(S, c)), lab(S, ref(S, c))) <= 0), lambda S: [("a network", ishead(S, S.p.o))]))
def deg_row(S, T, k, at_):
    x = at(T, T.p.o, k); ts = [tok_text("s", lab(T, x)), ch(" "), tok("d", deg(T, x)), ch("\n")]
    return Not(Or(*[t_(S, at_ + i) != t for i, t in enumerate(ts)]))
def deg_c():
    rows = lambda S, T, hi: ("one line for each node, with its number of links", forall(lambda k: imp(And(1 <= k, k <= hi), deg_row(S, T, k, n_(T) + 4 * (k - 1))), pat=lambda k: [at(T, T.p.o, k)]))
    return Contract(GF, "FPrintDegrees", requires=lambda S: base(S) + labels(S) + caches(S) + [("a network", ishead(S, S.p.o))], modifies=OUT + ["node_gra.degree"], opts=dict(trace=True),
        ensures=lambda S: written(S, S.old) + [("nothing follows the last node", n_(S) == n_(S.old) + 4 * cnt(S, S.old.p.o)), rows(S, S.old, cnt(S, S.old.p.o))] + caches(S),
        loops={0: Loop(inv=lambda S: written(S, S.old) + [("place", net(S, S.p.o) == S.old.p.o), ("lines so far", n_(S) == n_(S.old) + 4 * ix(S, S.p.o)), rows(S, S.old, ix(S, S.p.o))] + caches(S), decreases=lambda S: cnt(S, S.old.p.o) - ix(S, S.p.o))})
C.append(deg_c())
# ---------------------------------------------------------------- group lists
from modules_c import glists, mlists, mlabels, refs, phead, q, part, gix, gcnt, gat, sz, mem, gown, gpos, isgroup, member
ghost_field("group.$out")
def part_c():
    fs = ("size", "totlinks", "inlinks", "outlinks"); ws = ("totlinksW", "inlinksW", "outlinksW")
    HL = 2 * 8 - 1 + 4
    row = lambda S: S.old.list_sw == 0
    go = lambda S, x: q(S, "$out", x)
    base_ = lambda S, x: go(S, x) + If(row(S), HL, 0)
    shown = lambda S, x: q(S, "size", x) > 0
    fin = lambda S, x: If(shown(S, x), base_(S, x) + 2 * sz(S, x) + If(row(S), 1, 4), go(S, x))
    def heading(S, x):
        ts = [tok("d", q(S, "label", x) + 1)] + [tok("d", q(S, f, x)) for f in fs] + [tok("f", q(S, f, x)) for f in ws]; out = []
        for i, t in enumerate(ts): out += ([ch(" ")] if i else []) + [t]
        out += [ch(c) for c in " ---"]; assert len(out) == HL
        return Not(Or(*[t_(S, go(S, x) + i) != t for i, t in enumerate(out)]))
    def ends(S, x): e = base_(S, x) + 2 * sz(S, x); return If(row(S), t_(S, e) == ch("\n"), And(*[t_(S, e + i) == ch(c) for i, c in enumerate("///\n")]))
    def mrow(S, x, k): b = base_(S, x) + 2 * (k - 1); w = tok_text("s", txt(S, l(S, "nodeLabel", mem(S, x, k)))); return If(row(S), And(t_(S, b) == ch(" "), t_(S, b + 1) == w), And(t_(S, b) == w, t_(S, b + 1) == ch("\n")))
    def groups(S, T, hi):
        h = T.partition.o
        return [("groups follow each other", forall(lambda k: imp(And(1 <= k, k <= hi), And(go(S, gat(S, h, k)) == If(k == 1, n_(T), fin(S, gat(S, h, k - 1))), n_(T) <= go(S, gat(S, h, k)), fin(S, gat(S, h, k)) <= n_(S))), pat=lambda k: [gat(S, h, k)])),
            ("each group that is not empty is complete", forall(lambda k: imp(And(1 <= k, k <= hi, shown(S, gat(S, h, k))), And(imp(row(S), heading(S, gat(S, h, k))), ends(S, gat(S, h, k)))), pat=lambda k: [gat(S, h, k)])),
            ("each member's label is written once, in its group", forall(lambda k, j: imp(And(1 <= k, k <= hi, shown(S, gat(S, h, k)), 1 <= j, j <= sz(S, gat(S, h, k))), mrow(S, gat(S, h, k), j)), pat=lambda k, j: [mem(S, gat(S, h, k), j)]))]
    inv0 = lambda S: written(S, S.old) + [("place", part(S, S.g.o) == S.old.partition.o), ("where we are", n_(S) == If(gix(S, S.g.o) == 0, n_(S.old), fin(S, S.g.o)))] + groups(S, S.old, gix(S, S.g.o))
    inv1 = lambda S: written(S, S.old) + [("place", And(part(S, S.g.o) == S.old.partition.o, gix(S, S.g.o) >= 1, gown(S, S.p.o) == S.g.o, shown(S, S.g.o))), ("where we are", n_(S) == base_(S, S.g.o) + 2 * gpos(S, S.p.o)), ("the heading", imp(row(S), heading(S, S.g.o))),
        ("start", And(n_(S.old) <= go(S, S.g.o), go(S, S.g.o) == If(gix(S, S.g.o) == 1, n_(S.old), fin(S, gat(S, S.old.partition.o, gix(S, S.g.o) - 1)))))] + groups(S, S.old, gix(S, S.g.o) - 1) + \
        [("members so far", forall(lambda j: imp(And(1 <= j, j <= gpos(S, S.p.o)), mrow(S, S.g.o, j)), pat=lambda j: [mem(S, S.g.o, j)]))]
    return Contract("src/modules.c", "FPrintPartition", requires=lambda S: glists(S) + mlists(S) + mlabels(S) + [phead(S, S.partition), ("labels below 2^31 - 1", forall(lambda k: imp(And(1 <= k, k <= gcnt(S, S.partition.o)), q(S, "label", gat(S, S.partition.o, k)) < 2**31 - 1), pat=lambda k: [gat(S, S.partition.o, k)]))], modifies=OUT + ["group.$out"], opts=dict(trace=True),
        ensures=lambda S: written(S, S.old) + [("nothing follows the last group", n_(S) == If(gcnt(S, S.old.partition.o) == 0, n_(S.old), fin(S, gat(S, S.old.partition.o, gcnt(S, S.old.partition.o)))))] + groups(S, S.old, gcnt(S, S.old.partition.o)),
        loops={0: Loop(inv=inv0, decreases=lambda S: gcnt(S, S.old.partition.o) - gix(S, S.g.o), gkeys=["group.$out"], ghost=lambda S: {"group.$out": z3.Store(S.heap("group.$out"), S.g.o, n_(S.I0))}),
            1: Loop(inv=inv1, decreases=lambda S: sz(S, S.g.o) - gpos(S, S.p.o), entry_ghost=lambda S: {"group.$out": z3.Store(S.heap("group.$out"), S.g.o, n_(S) - If(row(S), HL, 0))})})
C.append(part_c())
CONTRACTS = C
PROPS = {"C23": [c.name for c in C]}
