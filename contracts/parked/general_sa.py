"""Not loaded by any check: contract of GeneralSA (2977 queries, 69 of them undecided; generation alone takes 280 s).
To work on it, append to contracts/sa_c.py."""
# ---------------------------------------------------------------- GeneralSA
def cur(S): return S.bind(S.part)
def start(S): return S.old.ppart[0]
def b_(S): return S.bind(S.best_part)
def like(S, p):
    """same nodes as the partition handed in, no more groups"""
    q = start(S)
    return [("nodes and groups as at the start", And(p.N == q.N, p.M == q.M)), ("strengths as at the start", forall(lambda i: imp(And(0 <= i, i < q.N), p.nodes[i].strength == q.nodes[i].strength), pat=lambda i: [p.nodes[i].o]))]
def apart(S, p, b): return ("two separate partitions", And(p.o != b.o, p.nodes.o != b.nodes.o, p.modules.o != b.modules.o))
def whole(S):
    p, b = cur(S), b_(S); has = b.o != 0; L = S.L0
    return wf(S, p) + like(S, p) + [("best: " + l, imp(has, f)) for l, f in wf(S, b) + like(S, b) + [apart(S, p, b)]] + [
        ("the tracked energy is the change of the modularity", S.E == p.g_q - start(S).g_q),
        ("the best energy belongs to the best state", imp(has, S.best_E == b.g_q - start(S).g_q))]
WF = ["=" + l for f in (shape, lists, books) for l in re.findall(r'\("([^"]+)", (?:And|forall|p\.)', inspect.getsource(f))]      # labels of the clauses about the current partition
STATE = WF + ["best: ", "=strengths as at", "caller's blocks", "the tracked energy", "the best energy", "moves left", "no empty group so far"]
KEPT = ["$len", "Module.id", "Node.id", "Node.strength", "Partition.M", "Partition.N", "Partition.modules", "Partition.nodes", "[]*Module", "[]*Node", "[]u32"]
def frames(S): return [("the caller's records stay: " + h, forall(lambda o: imp(live(S.old, o), S.heap(h)[o] == S.old.heap(h)[o]), pat=lambda o: [S.heap(h)[o]])) for h in KEPT]
BOOKSL = re.findall(r'\("([^"]+)", (?:And|forall|p\.)', inspect.getsource(books))
def bookfacts(S): return books(S, cur(S))
WL = LISTS
def blocks(S):
    a = S.adj
    b = S.old.adj
    return [("caller's blocks stay", And(*[live(S, x.o) for x in (a, a.idx, a.neighbors, a.strength, S.ppart)])), ("caller's blocks keep their length", And(*[S.heap("$len")[x.o] == S.old.heap("$len")[x.o] for x in (b, b.idx, b.neighbors, b.strength, S.old.ppart)])), ("caller's pointer is the same", And(S.ppart.o == S.old.ppart.o, S.ppart.off == S.old.ppart.off))] + frames(S)
def net(S):
    a = S.adj
    o = S.old; b = S.old.adj
    return [("adjacency as handed in", And(a.o == b.o, a.N == b.N, a.E == b.E, a.idx.o == b.idx.o, a.idx.off == b.idx.off, a.neighbors.o == b.neighbors.o, a.neighbors.off == b.neighbors.off, a.strength.o == b.strength.o, a.strength.off == b.strength.off)),
        ("rows as handed in", And(*[S.heap(h)[x.o] == o.heap(h)[x.o] for h, x in (("[]u32", b.idx), ("[]u32", b.neighbors), ("[]real", b.strength))])), ("same nodes", a.N == start(S).N)] + blocks(S)
def sa_req(S):
    p = S.ppart[0]; a = S.adj
    return wf(S, p) + adj_ok(S, a) + [split_c.undirected(S, a), ("same nodes", p.N == a.N), ("caller's pointer", And(live(S, S.ppart.o), S.ppart.typed(), S.ppart.len() >= 1)), ("adjacency types", And(a.typed(), a.idx.typed(), a.neighbors.typed(), a.strength.typed())),
        ("two nodes, two groups, no more groups than nodes", And(p.N >= 2, p.N <= 46340, p.M >= 2, p.M <= p.N)), ("schedule", And(S.Tf >= 0, S.fac >= 0, S.fac * z3.ToReal(p.N) * z3.ToReal(p.N) < U32 // 2))]
def sa_ens(S):
    r = S.ppart[0]
    return [(l, imp(S.result == 0, f)) for l, f in [("a partition is handed back", r.o != 0)] + wf(S, r) + like(S, r)] + [("no failure", S.result == 0)]
def mine(h, o, v, S): return z3.Store(S.heap(h), o, v)
def move_set(S, c):
    p = c.part; o = p.o; q, t = c.old.f("Partition.$q", o), c.old.f("Partition.$t", o)
    return {"Partition.$q": mine("Partition.$q", o, q + MV(o, t, c.nodeId, c.newModuleId), S), "Partition.$t": mine("Partition.$t", o, t + 1, S)}
def merge_set(S, c):
    p = c.part; o = p.o; q, t = c.old.f("Partition.$q", o), c.old.f("Partition.$t", o)
    return {"Partition.$q": mine("Partition.$q", o, q + MG(o, t, c.id1, c.id2), S), "Partition.$t": mine("Partition.$t", o, t + 1, S)}
def split_set(ta, em):
    def f(S, c):
        p = S.bind(c.part); o = p.o; q, t = c.old.f("Partition.$q", o), c.old.f("Partition.$t", o); a, e = c._var(ta), c._var(em)
        return {"Partition.$q": mine("Partition.$q", o, If(And(p.modules[a].size != 0, p.modules[e].size != 0), q - MG(o, t + 1, a, e), q), S), "Partition.$t": mine("Partition.$t", o, t + 1, S)}
    return f
def copy_set(S, c):
    n = c.result.o; o = c.part.o
    return {"Partition.$q": mine("Partition.$q", n, S.f("Partition.$q", o), S), "Partition.$t": mine("Partition.$t", n, S.f("Partition.$t", n) + 1, S)}
def dem_after(S, c):
    o = c.part.o; t = S.f("Partition.$t", o)
    return [And(c.result == MG(o, t, c.moduleId1, c.moduleId2), c.result == MG(o, t, c.moduleId2, c.moduleId1))]
def dec_after(S, c):
    o = c.part.o
    return [c.result == MV(o, S.f("Partition.$t", o), c.nodeid, c.newModuleid)]
def eps(S): return dbl(1e-6)
def absr(x): return If(x < 0, -x, x)
def not_below_minus_infinity(S): return [imp(And(S.best_part == 0), S.L0.best_E <= S.E + eps(S))]
def sa_end(S):
    pr = S.I0.previousE
    return [("a state is recorded if it is the best", imp(And(absr(pr) >= eps(S), absr(S.E - pr) >= eps(S) * absr(pr)), S.best_E >= S.E))]
def no_members(S): return Count(0, cur(S).M, lambda m: cur(S).modules[m].size == 0)
CONTRACTS.append(Contract(SA, "GeneralSA", requires=sa_req, ensures=sa_ens, modifies=PART_HEAPS + split_c.GH + ["Partition.$q", "Partition.$t", "Node.$owner", "Module.$owner", "[]*Partition"], fresh=FRESHP + ["[]u32"], allocs="any", opts=dict(fdiv=False, merge="named", split=3),
    drop=dict(BOOKS_DROP, **{"a group with a node": ["best: ", "caller's", "rows as", "energy", "strength"] + WL}), call_forget={f: WF for f in ("ChangeModule", "MergeModules", "SplitModuleSA", "SplitModuleByComponent")}, call_set={"ChangeModule": move_set, "MergeModules": merge_set, "SplitModuleSA": split_set("target", "empty"), "SplitModuleByComponent": split_set("targetModuleId", "emptyModuleId"), "CopyPartitionStruct": copy_set},
    call_hints={"dEMergeModules/after": dem_after, "dEChangeModule/after": dec_after},
    loops={0: Loop(forget=STATE, inv=lambda S: whole(S) + net(S) + [("no best state, no best energy", imp(S.best_part == 0, S.best_E == S.pre.best_E))], hints_end=sa_end),
           1: Loop(forget=STATE, inv=lambda S: whole(S) + net(S) + [("moves left", S.i >= 0)], decreases=lambda S: S.i), 2: Loop(inv=lambda S: []),
           3: Loop(forget=STATE, inv=lambda S: whole(S) + net(S) + [("rounds left", S.i >= 0)], decreases=lambda S: S.i, exit_hints=not_below_minus_infinity), 4: Loop(inv=lambda S: []),
           5: Loop(inv=lambda S: bookfacts(S) + [("index", And(0 <= S.j, S.j <= cur(S).M)), ("no empty group so far", forall(lambda m: imp(And(0 <= m, m < S.j), cur(S).modules[m].size != 0), pat=lambda m: [cur(S).modules[m].o]))], decreases=lambda S: cur(S).M - S.j,
                   exit_hints=lambda S: [sum_ge0(no_members(S)), ("some group is empty", imp(S.j == cur(S).M, no_members(S) == 0))]),
           6: Loop(inv=lambda S: [], hints=lambda S: [forall(lambda i: imp(And(0 <= i, i < cur(S).N), sum_elem_le(size_of(cur(S), cur(S).nodes[i].module), i)), pat=lambda i: [cur(S).nodes[i].o]),
                ("a group with a node has members", forall(lambda i: imp(And(0 <= i, i < cur(S).N), cur(S).modules[cur(S).nodes[i].module].size >= 1), pat=lambda i: [cur(S).nodes[i].o]))],
                exit_hints=lambda S: [("the group drawn", And(0 <= S.target, S.target < start(S).M)), ("it has members", cur(S).modules[S.target].size >= 2), ("the empty group", And(0 <= S["empty"], S["empty"] < start(S).M)), ("it is empty", cur(S).modules[S["empty"]].size == 0)])}))
