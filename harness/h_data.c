/* Work lists (array stack, linked stack, linked queue): real code against plain arrays. */
#include "common.h"
#include "partition.h"
#include "movements.h"
#include "datastruct.h"
#define CAP 400
static void astack(void){
  int n = 1 + rnd(20), cap = n, model[64], t = 0; Stack *s = CreateStack(cap); h_nontrivial++; note("array stack of %d:", cap);
  for (int k = 0; k < 60; k++) { if (rnd(2) && t < cap) { int v = rnd(4) ? rnd(1000000) : 0; note(" +%d", v); AddToStack(v, s); model[t++] = v; } else { int w = t ? model[--t] : -1, g = PopFromStack(s); note(" -"); if (g != w) bug("pop gave %d, expected %d", g, w); } }
  while (t) { int w = model[--t], g = PopFromStack(s); if (g != w) bug("pop gave %d, expected %d", g, w); }
  if (PopFromStack(s) != -1 || PopFromStack(s) != -1) bug("empty stack not reported");
  FreeStack(s);
}
static int cells_[CAP]; static int withnull;
static int *cell(int v){ return withnull && v % 5 == 0 ? NULL : &cells_[v]; }
static void lstack(void){
  struct stack *s = stack_create(), *o = stack_create(); int m[CAP], t = 0, mo[CAP], to = 0; h_nontrivial++; note("linked stack:"); int bias = 1 + rnd(5);
  for (int k = 0; k < 120; k++) {
    if (stack_empty(s) != (t == 0)) bug("stack_empty is wrong with %d elements", t);
    if (t && stack_top(s) != cell(m[t - 1])) bug("stack_top gave another element");
    if (rnd(6) < bias && t < CAP) { int v = rnd(CAP); note(" +%d", v); stack_push(s, cell(v)); m[t++] = v; }
    else if (rnd(12) == 0) { note(" clear"); stack_clear(s); t = 0; }
    else if (rnd(3) == 0 && to < CAP) { int v = rnd(CAP); stack_push(o, cell(v)); mo[to++] = v; }
    else if (t) { int *g = stack_pop(s); note(" -"); t--; if (g != cell(m[t])) bug("stack_pop gave element %d, expected %d", g ? (int)(g - cells_) : -1, m[t]); }
    else { void *g = stack_pop(s); note(" -"); if (g) bug("popping an empty stack gave something"); }
    if (s->length != t) bug("stack length is %d, there are %d elements", s->length, t);
  }
  while (to) { to--; if (stack_pop(o) != cell(mo[to])) bug("another stack was disturbed"); }
  if (!stack_empty(o)) bug("another stack was disturbed");
  stack_free(s); stack_free(o);
}
static void lqueue(void){
  struct queue *s = queue_create(), *o = queue_create(); int m[CAP], a = 0, b = 0, mo[CAP], ao = 0, bo = 0; h_nontrivial++; note("linked queue:"); int bias = 1 + rnd(5);
  for (int k = 0; k < 120; k++) {
    if (queue_empty(s) != (a == b)) bug("queue_empty is wrong with %d elements", b - a);
    if (b > a && queue_first(s) != cell(m[a])) bug("queue_first gave another element");
    if (rnd(6) < bias && b < CAP) { int v = rnd(CAP); note(" +%d", v); queue_enqueue(s, cell(v)); m[b++] = v; }
    else if (rnd(12) == 0) { note(" clear"); queue_clear(s); a = b; }
    else if (rnd(3) == 0 && bo < CAP) { int v = rnd(CAP); queue_enqueue(o, cell(v)); mo[bo++] = v; }
    else if (b > a) { int *g = queue_dequeue(s); note(" -"); if (g != cell(m[a])) bug("queue_dequeue gave element %d, expected %d", g ? (int)(g - cells_) : -1, m[a]); a++; }
    else { void *g = queue_dequeue(s); note(" -"); if (g) bug("dequeuing from an empty queue gave something"); }
    if (s->length != b - a) bug("queue length is %d, there are %d elements", s->length, b - a);
  }
  while (ao < bo) { if (queue_dequeue(o) != cell(mo[ao])) bug("another queue was disturbed"); ao++; }
  if (!queue_empty(o)) bug("another queue was disturbed");
  queue_free(s); queue_free(o);
}
static void c11(void){ withnull = rnd(3) == 0; switch (rnd(3)) { case 0: astack(); break; case 1: lstack(); break; default: lqueue(); } }
int main(int argc, char **argv){ return h_main(argc, argv, c11); }
