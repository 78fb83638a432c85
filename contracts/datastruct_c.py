"""Work lists: src/datastruct.c (linked stack and queue) against mathematical sequences.
Ghost view: every list owns a sequence el[0..n-1] (n = its length field); every list node records its
owner and its position in that sequence."""
import z3
from vc import Contract, Loop, ghost_field
from spec import *
SEQ = z3.ArraySort(I, I)
F = "src/datastruct.c"
for a, b in (("stack", "stack_node"), ("queue", "queue_node")):
    ghost_field(a + ".$el", SEQ); ghost_field(b + ".$owner"); ghost_field(b + ".$pos")
ghost_field("queue.$lo")        # index of the first element still in the queue (elements lo .. lo+n-1)
NMAX = (1 << 31) - 1

def st_inv(S, st):
    t = S.bind(st)
    N = lambda o: S.ptr("stack_node", o)
    return [
        ("the list block is live", And(t.o != 0, t.alloc())),
        ("length is not negative", And(t.length >= 0, t.length <= NMAX)),
        ("empty means no top", (t.length == 0) == (t.top == 0)),
        ("top is the last element", imp(t.top != 0, And(t.top.g_owner == t.o, t.top.g_pos == t.length - 1))),
        ("nodes hold the sequence", forall(lambda x: imp(N(x).g_owner == t.o, And(x != 0, x != t.o, N(x).alloc(), N(x).g_pos >= 0, N(x).g_pos < t.length, N(x).data.o == t.g_el[N(x).g_pos],
            If(N(x).g_pos == 0, N(x).next == 0, And(N(x).next != 0, N(x).next.g_owner == t.o, N(x).next.g_pos == N(x).g_pos - 1)))), pat=lambda x: [N(x).g_owner])),
        ("one node per position", forall(lambda x, y: imp(And(N(x).g_owner == t.o, N(y).g_owner == t.o, N(x).g_pos == N(y).g_pos), x == y), pat=lambda x, y: [(N(x).g_pos, N(y).g_pos)])),
    ]
def qu_inv(S, st):
    t = S.bind(st)
    N = lambda o: S.ptr("queue_node", o)
    hi = t.g_lo + t.length
    return [
        ("the list block is live", And(t.o != 0, t.alloc())),
        ("length is not negative", And(t.length >= 0, t.length <= NMAX)),
        ("empty means no first", (t.length == 0) == (t.first == 0)),
        ("first and last are the ends", imp(t.length > 0, And(t.first.g_owner == t.o, t.first.g_pos == t.g_lo, t.last != 0, t.last.g_owner == t.o, t.last.g_pos == hi - 1))),
        ("nodes hold the sequence", forall(lambda x: imp(N(x).g_owner == t.o, And(x != 0, x != t.o, N(x).alloc(), N(x).g_pos >= t.g_lo, N(x).g_pos < hi, N(x).data.o == t.g_el[N(x).g_pos],
            If(N(x).g_pos == hi - 1, N(x).next == 0, And(N(x).next != 0, N(x).next.g_owner == t.o, N(x).next.g_pos == N(x).g_pos + 1)))), pat=lambda x: [N(x).g_owner])),
        ("one node per position", forall(lambda x, y: imp(And(N(x).g_owner == t.o, N(y).g_owner == t.o, N(x).g_pos == N(y).g_pos), x == y), pat=lambda x, y: [(N(x).g_pos, N(y).g_pos)])),
    ]
def foreign(S, st, hd, nd, fields_h, fields_n):
    """records that do not belong to this list are untouched, and no foreign block is freed"""
    t = S.bind(st)
    out = []
    for f in fields_h: out.append(("other lists untouched: " + f, forall(lambda o: imp(o != t.o, S.f(f, o) == S.old.f(f, o)), pat=lambda o: [z3.Select(S.heap(f), o)])))
    oldn = lambda o: And(S.old.ptr(nd, o).alloc(), S.old.ptr(nd, o).g_owner != t.o)
    for f in fields_n: out.append(("nodes of other lists untouched: " + f, forall(lambda o: imp(oldn(o), S.f(f, o) == S.old.f(f, o)), pat=lambda o: [z3.Select(S.heap(f), o)])))
    out.append(("blocks of others stay live", forall(lambda o: imp(oldn(o), z3.Select(S.heap("$alloc"), o)), pat=lambda o: [z3.Select(S.heap("$alloc"), o)])))
    return out
SH, SN = ["stack.top", "stack.length", "stack.$el"], ["stack_node.next", "stack_node.data", "stack_node.$owner", "stack_node.$pos"]
QH, QN = ["queue.first", "queue.last", "queue.length", "queue.$el", "queue.$lo"], ["queue_node.next", "queue_node.data", "queue_node.$owner", "queue_node.$pos"]
def sfor(S, st): return foreign(S, st, "stack", "stack_node", SH, SN)
def qfor(S, st): return foreign(S, st, "queue", "queue_node", QH, QN)

def upd(S, heap, o, v): return {heap: z3.Store(S.heap(heap), o, v)}
def n_leaked(S, nd, st):
    """no node allocated since entry is left outside the list"""
    return ("no block leaked", forall(lambda o: imp(And(z3.Select(S.heap("$alloc"), o), Not(z3.Select(S.old.heap("$alloc"), o))), S.ptr(nd, o).g_owner == S.bind(st).o), pat=lambda o: [z3.Select(S.heap("$alloc"), o)]))

def same_nodes(S, nd):
    return []

# ---- stack
def push_ghost(S):
    t = S.bind(S.theStack)
    x = t.top.o; n = t.length - 1
    return {"stack_node.$owner": z3.Store(S.heap("stack_node.$owner"), x, t.o), "stack_node.$pos": z3.Store(S.heap("stack_node.$pos"), x, n),
            "stack.$el": z3.Store(S.heap("stack.$el"), t.o, z3.Store(t.g_el, n, S.theElement.o))}
def push_ens(S):
    t, q = S.bind(S.theStack), S.old.theStack
    return st_inv(S, t) + [("the element is on top", And(t.length == q.length + 1, t.g_el == z3.Store(q.g_el, q.length, S.theElement.o)))] + sfor(S, t) + [n_leaked(S, "stack_node", t)]
def pop_ghost(S):
    t, q = S.bind(S.theStack), S.old.theStack
    return {"stack_node.$owner": If(q.length > 0, z3.Store(S.heap("stack_node.$owner"), q.top.o, 0), S.heap("stack_node.$owner"))}
def pop_ens(S):
    t, q = S.bind(S.theStack), S.old.theStack
    al = S.heap("$alloc")
    return st_inv(S, t) + [
        ("an empty stack gives nothing and stays as it is", imp(q.length == 0, And(S.result == 0, t.length == 0))),
        ("the top element is returned and removed", imp(q.length > 0, And(S.result.o == q.g_el[q.length - 1], t.length == q.length - 1))),
        ("the other elements stay", t.g_el == q.g_el),
        ("only removed nodes are freed", forall(lambda o: imp(And(z3.Select(S.old.heap("$alloc"), o), Not(z3.Select(al, o))), And(S.old.ptr("stack_node", o).g_owner == t.o, S.ptr("stack_node", o).g_owner == 0)), pat=lambda o: [z3.Select(al, o)])),
        ("nodes taken off are released", forall(lambda o: imp(S.old.ptr("stack_node", o).g_owner == t.o, Or(S.ptr("stack_node", o).g_owner == t.o, Not(z3.Select(al, o)))), pat=lambda o: [z3.Select(al, o)])),
    ] + sfor(S, t)
def clear_ens(S):
    t, q = S.bind(S.theStack), S.old.theStack
    return st_inv(S, t) + [("the stack is empty", t.length == 0), 
        ("every node of the stack is released", forall(lambda o: imp(S.old.ptr("stack_node", o).g_owner == t.o, Not(z3.Select(S.heap("$alloc"), o))), pat=lambda o: [z3.Select(S.heap("$alloc"), o)]))] + sfor(S, t)
def clear_loop(S):
    t, q = S.bind(S.theStack), S.pre.bind(S.theStack)
    al = S.heap("$alloc")
    return st_inv(S, t) + [
        ("the list only shrinks", t.length <= S.old.theStack.length),
        ("nothing is allocated", forall(lambda o: imp(z3.Select(al, o), z3.Select(S.old.heap("$alloc"), o)), pat=lambda o: [z3.Select(al, o)])),
        ("removed nodes are released", forall(lambda o: imp(S.old.ptr("stack_node", o).g_owner == t.o, Or(S.ptr("stack_node", o).g_owner == t.o, Not(z3.Select(al, o)))), pat=lambda o: [z3.Select(al, o)])),
    ] + foreign(S, t, "stack", "stack_node", SH, SN)

CONTRACTS = [
    Contract(F, "stack_create", ensures=lambda S: st_inv(S, S.result) + [("a new stack is empty", S.result.length == 0), ("the list block is new", Not(z3.Select(S.old.heap("$alloc"), S.result.o))),
                ("no other list changes", forall(lambda o: imp(o != S.result.o, z3.Select(S.heap("$alloc"), o) == z3.Select(S.old.heap("$alloc"), o)), pat=lambda o: [z3.Select(S.heap("$alloc"), o)]))],
             requires=lambda S: [("list nodes belong to live lists", forall(lambda x: imp(And(S.ptr("stack_node", x).g_owner != 0), z3.Select(S.heap("$alloc"), S.ptr("stack_node", x).g_owner)), pat=lambda x: [S.ptr("stack_node", x).g_owner]))],
             fresh=["stack.top", "stack.length"], allocs="grow", modifies=["stack.$el"]),
    Contract(F, "stack_empty", requires=lambda S: st_inv(S, S.theStack), ensures=lambda S: [("emptiness is reported", (S.result != 0) == (S.theStack.length == 0))]),
    Contract(F, "stack_push", requires=lambda S: st_inv(S, S.theStack) + [("room for one more", S.theStack.length < NMAX)], ensures=push_ens, ghost_exit=push_ghost,
             modifies=SH + SN, allocs="grow"),
    Contract(F, "stack_pop", requires=lambda S: st_inv(S, S.theStack), ensures=pop_ens, ghost_exit=pop_ghost, modifies=SH + SN, allocs="free"),
    Contract(F, "stack_top", requires=lambda S: st_inv(S, S.theStack), ensures=lambda S: [("the top element is reported", S.result.o == If(S.theStack.length == 0, 0, S.theStack.g_el[S.theStack.length - 1]))]),
    Contract(F, "stack_clear", requires=lambda S: st_inv(S, S.theStack), ensures=clear_ens, modifies=SH + SN, allocs="free",
             loops={0: Loop(inv=clear_loop, decreases=lambda S: S.bind(S.theStack).length)}, nloops=1),
    Contract(F, "stack_free", requires=lambda S: st_inv(S, S.theStack), ensures=lambda S: [("the stack is released", Not(z3.Select(S.heap("$alloc"), S.theStack.o))),
                ("every node of the stack is released", forall(lambda o: imp(S.old.ptr("stack_node", o).g_owner == S.theStack.o, Not(z3.Select(S.heap("$alloc"), o))), pat=lambda o: [z3.Select(S.heap("$alloc"), o)]))],
             modifies=SH + SN, allocs="free"),
]

# ---- queue
def enq_ghost(S):
    t = S.bind(S.theQueue); x = t.last.o; n = t.g_lo + t.length - 1
    return {"queue_node.$owner": z3.Store(S.heap("queue_node.$owner"), x, t.o), "queue_node.$pos": z3.Store(S.heap("queue_node.$pos"), x, n),
            "queue.$el": z3.Store(S.heap("queue.$el"), t.o, z3.Store(t.g_el, n, S.theElement.o))}
def enq_ens(S):
    t, q = S.bind(S.theQueue), S.old.theQueue
    return qu_inv(S, t) + [("the element is at the end", And(t.length == q.length + 1, t.g_lo == q.g_lo, t.g_el == z3.Store(q.g_el, q.g_lo + q.length, S.theElement.o)))] + qfor(S, t) + [n_leaked(S, "queue_node", t)]
def deq_ghost(S):
    t, q = S.bind(S.theQueue), S.old.theQueue
    return {"queue_node.$owner": If(q.length > 0, z3.Store(S.heap("queue_node.$owner"), q.first.o, 0), S.heap("queue_node.$owner")),
            "queue.$lo": If(q.length > 0, z3.Store(S.heap("queue.$lo"), t.o, q.g_lo + 1), S.heap("queue.$lo"))}
def deq_ens(S):
    t, q = S.bind(S.theQueue), S.old.theQueue
    al = S.heap("$alloc")
    return qu_inv(S, t) + [
        ("an empty queue gives nothing and stays as it is", imp(q.length == 0, And(S.result == 0, t.length == 0, t.g_lo == q.g_lo))),
        ("the oldest element is returned and removed", imp(q.length > 0, And(S.result.o == q.g_el[q.g_lo], t.length == q.length - 1, t.g_lo == q.g_lo + 1))),
        ("the other elements stay", t.g_el == q.g_el),
        ("only removed nodes are freed", forall(lambda o: imp(And(z3.Select(S.old.heap("$alloc"), o), Not(z3.Select(al, o))), And(S.old.ptr("queue_node", o).g_owner == t.o, S.ptr("queue_node", o).g_owner == 0)), pat=lambda o: [z3.Select(al, o)])),
        ("nodes taken off are released", forall(lambda o: imp(S.old.ptr("queue_node", o).g_owner == t.o, Or(S.ptr("queue_node", o).g_owner == t.o, Not(z3.Select(al, o)))), pat=lambda o: [z3.Select(al, o)])),
    ] + qfor(S, t)
def qclear_ens(S):
    t = S.bind(S.theQueue)
    return qu_inv(S, t) + [("the queue is empty", t.length == 0), 
        ("every node of the queue is released", forall(lambda o: imp(S.old.ptr("queue_node", o).g_owner == t.o, Not(z3.Select(S.heap("$alloc"), o))), pat=lambda o: [z3.Select(S.heap("$alloc"), o)]))] + qfor(S, t)
def qclear_loop(S):
    t = S.bind(S.theQueue)
    al = S.heap("$alloc")
    return qu_inv(S, t) + [
        ("the list only shrinks", t.length <= S.old.theQueue.length),
        ("nothing is allocated", forall(lambda o: imp(z3.Select(al, o), z3.Select(S.old.heap("$alloc"), o)), pat=lambda o: [z3.Select(al, o)])),
        ("removed nodes are released", forall(lambda o: imp(S.old.ptr("queue_node", o).g_owner == t.o, Or(S.ptr("queue_node", o).g_owner == t.o, Not(z3.Select(al, o)))), pat=lambda o: [z3.Select(al, o)])),
    ] + qfor(S, t)
CONTRACTS += [
    Contract(F, "queue_create", ensures=lambda S: qu_inv(S, S.result) + [("a new queue is empty", S.result.length == 0), ("the list block is new", Not(z3.Select(S.old.heap("$alloc"), S.result.o))),
                ("no other list changes", forall(lambda o: imp(o != S.result.o, z3.Select(S.heap("$alloc"), o) == z3.Select(S.old.heap("$alloc"), o)), pat=lambda o: [z3.Select(S.heap("$alloc"), o)]))],
             requires=lambda S: [("list nodes belong to live lists", forall(lambda x: imp(And(S.ptr("queue_node", x).g_owner != 0), z3.Select(S.heap("$alloc"), S.ptr("queue_node", x).g_owner)), pat=lambda x: [S.ptr("queue_node", x).g_owner]))],
             fresh=["queue.first", "queue.last", "queue.length"], allocs="grow", modifies=["queue.$el"]),
    Contract(F, "queue_empty", requires=lambda S: qu_inv(S, S.theQueue), ensures=lambda S: [("emptiness is reported", (S.result != 0) == (S.theQueue.length == 0))]),
    Contract(F, "queue_enqueue", requires=lambda S: qu_inv(S, S.theQueue) + [("room for one more", S.theQueue.length < NMAX)], ensures=enq_ens, ghost_exit=enq_ghost,
             modifies=QH + QN, allocs="grow"),
    Contract(F, "queue_dequeue", requires=lambda S: qu_inv(S, S.theQueue), ensures=deq_ens, ghost_exit=deq_ghost, modifies=QH + QN, allocs="free"),
    Contract(F, "queue_first", requires=lambda S: qu_inv(S, S.theQueue), ensures=lambda S: [("the oldest element is reported", S.result.o == If(S.theQueue.length == 0, 0, S.theQueue.g_el[S.theQueue.g_lo]))]),
    Contract(F, "queue_clear", requires=lambda S: qu_inv(S, S.theQueue), ensures=qclear_ens, modifies=QH + QN, allocs="free",
             loops={0: Loop(inv=qclear_loop, decreases=lambda S: S.bind(S.theQueue).length)}, nloops=1),
    Contract(F, "queue_free", requires=lambda S: qu_inv(S, S.theQueue), ensures=lambda S: [("the queue is released", Not(z3.Select(S.heap("$alloc"), S.theQueue.o))),
                ("every node of the queue is released", forall(lambda o: imp(S.old.ptr("queue_node", o).g_owner == S.theQueue.o, Not(z3.Select(S.heap("$alloc"), o))), pat=lambda o: [z3.Select(S.heap("$alloc"), o)]))],
             modifies=QH + QN, allocs="free"),
]
PROPS = {"C11": [c.name for c in CONTRACTS]}
