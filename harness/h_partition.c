/* Compact partition engine: real /repo code against an independent oracle. */
#include "common.h"
#include "partition.h"
#include "movements.h"
#include "fillpartitions.h"
#include "sannealing.h"
#define MAXN 14
static int N, E, M, eu[200], ev[200]; static double ew[200];
static double W[MAXN][MAXN], S[MAXN];        /* dense network */
static int grp[MAXN];
static AdjaArray *adj; static Partition *part; static gsl_rng *gen;

static int negw;  /* negative and zero weights allowed in this mode */
static void gen_net(int minn, int selfloops){
  int neg = negw && rnd(4) == 0;
  N = minn + rnd(MAXN - minn); if (rnd(3) == 0) N = minn + rnd(4);
  double p = rndu(); if (rnd(3)==0) p *= 0.3;
  int units = rnd(2);
  E = 0; memset(W, 0, sizeof W);
  for (int i = 0; i < N; i++) for (int j = i + (selfloops ? 0 : 1); j < N; j++) if (rndu() < p) {
    double w = units ? 1.0 : (1 + rnd(16)) / 8.0; if (i == j && rnd(2)) continue; if (neg && rnd(2)) w = -w;
    if (rnd(2)) { eu[E] = i; ev[E] = j; } else { eu[E] = j; ev[E] = i; }
    ew[E] = w; E++; W[i][j] = w; W[j][i] = w; }
  for (int k = E - 1; k > 0; k--) { int j = rnd(k + 1); int a = eu[k]; eu[k] = eu[j]; eu[j] = a; a = ev[k]; ev[k] = ev[j]; ev[j] = a; double d = ew[k]; ew[k] = ew[j]; ew[j] = d; }
  note("N=%d E=%d:", N, E); for (int k = 0; k < E; k++) note(" %d-%d:%g", eu[k], ev[k], ew[k]);
}
static void build_adj(double norm){ /* own construction, rows in random order */
  double tot = 0; for (int i = 0; i < N; i++) { S[i] = 0; for (int j = 0; j < N; j++) S[i] += W[i][j]; tot += S[i]; }
  if (tot == 0) tot = 1;
  double f = norm ? 1 / tot : 1;
  int odd = rnd(4) == 0;         /* sometimes strengths unrelated to the links */
  for (int i = 0; i < N; i++) { if (odd) S[i] = rnd(9) / 8.0; S[i] *= f; for (int j = 0; j < N; j++) W[i][j] *= f; }
  int cnt = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (W[i][j]) cnt++;
  adj = malloc(sizeof *adj); adj->N = N; adj->E = cnt / 2; adj->idx = malloc((N + 1) * sizeof(unsigned)); adj->neighbors = malloc((cnt ? cnt : 1) * sizeof(unsigned)); adj->strength = malloc((cnt ? cnt : 1) * sizeof(double));
  int k = 0;
  for (int i = 0; i < N; i++) { adj->idx[i] = k; int s0 = k; for (int j = 0; j < N; j++) if (W[i][j]) { adj->neighbors[k] = j; adj->strength[k] = W[i][j]; k++; }
    for (int a = k - 1; a > s0; a--) { int b = s0 + rnd(a - s0 + 1); unsigned t = adj->neighbors[a]; adj->neighbors[a] = adj->neighbors[b]; adj->neighbors[b] = t; double d = adj->strength[a]; adj->strength[a] = adj->strength[b]; adj->strength[b] = d; } }
  adj->idx[N] = k;
}
/* a consistent partition built by hand (not with the code under test) */
static Partition *mk(int m){
  Partition *p = malloc(sizeof *p); p->N = N; p->M = m; p->nempty = m;
  p->nodes = malloc((N ? N : 1) * sizeof(Node *)); p->modules = malloc((m ? m : 1) * sizeof(Module *));
  for (int i = 0; i < m; i++) { Module *q = malloc(sizeof *q); q->id = i; q->size = 0; q->strength = 0; q->first = q->last = NULL; p->modules[i] = q; }
  int ord[MAXN]; for (int i = 0; i < N; i++) ord[i] = i; for (int i = N - 1; i > 0; i--) { int j = rnd(i + 1), t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
  int few = 1 + rnd(m);
  for (int i = 0; i < N; i++) { Node *n = malloc(sizeof *n); n->id = i; n->strength = S[i]; n->module = rnd(few); n->prev = n->next = NULL; p->nodes[i] = n; }
  for (int a = 0; a < N; a++) { Node *n = p->nodes[ord[a]]; Module *q = p->modules[n->module]; if (!q->size) { q->first = q->last = n; p->nempty--; } else { q->last->next = n; n->prev = q->last; q->last = n; } q->size++; q->strength += n->strength; }
  note(" | M=%d groups:", m); for (int i = 0; i < N; i++) note(" %d", p->nodes[i]->module);
  note(" order:"); for (int i = 0; i < N; i++) note(" %d", ord[i]);
  note(" strengths:"); for (int i = 0; i < N; i++) note(" %g", S[i]);
  return p;
}
static void check_part(Partition *p, const char *after){
  if ((int)p->N != N) bug("%s: node count is %d", after, p->N);
  int seen[MAXN] = {0}; int empty = 0;
  for (unsigned m = 0; m < p->M; m++) {
    Module *q = p->modules[m]; if (!q) bug("%s: group %d is missing", after, m);
    if (q->id != m) bug("%s: group %d calls itself %d", after, m, q->id);
    unsigned c = 0; double s = 0; Node *prev = NULL;
    for (Node *n = q->first; n; n = n->next) { if (c > p->N) bug("%s: member list of group %d is circular", after, m); c++;
      if (n->id >= p->N || p->nodes[n->id] != n) bug("%s: a member of group %d is not a node of the partition", after, m);
      if (n->module != m) bug("%s: node %d is listed in group %d but says %d", after, n->id, m, n->module);
      if (n->prev != prev) bug("%s: back link of node %d is wrong", after, n->id);
      if (seen[n->id]++) bug("%s: node %d is listed twice", after, n->id);
      s += n->strength; prev = n; }
    if (q->last != prev) bug("%s: last member of group %d is wrong", after, m);
    if (q->size != c) bug("%s: group %d reports size %d, has %d members", after, m, q->size, c);
    if (!near_(q->strength, s)) bug("%s: group %d reports strength %g, members sum to %g", after, m, q->strength, s);
    if (!c) empty++; }
  for (int i = 0; i < N; i++) { if (!seen[i]) bug("%s: node %d is in no group's list", after, i); if (p->nodes[i]->id != (unsigned)i) bug("%s: node %d has number %d", after, i, p->nodes[i]->id); }
  if ((int)p->nempty != empty) bug("%s: %d empty groups reported, there are %d", after, p->nempty, empty);
}
static void snap(Partition *p){ for (int i = 0; i < N; i++) grp[i] = p->nodes[i]->module; }
static void same_but(Partition *p, const char *after, int node, int ng){ for (int i = 0; i < N; i++) if ((int)p->nodes[i]->module != (i == node ? ng : grp[i])) bug("%s: node %d is now in group %d", after, i, p->nodes[i]->module); }
static double Q(Partition *p){ double q = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i != j && p->nodes[i]->module == p->nodes[j]->module) q += W[i][j] - S[i] * S[j]; return q; }
static void done(void){ if (part) { for (int i = 0; i < N; i++) free(part->nodes[i]); for (unsigned i = 0; i < part->M; i++) free(part->modules[i]); free(part->nodes); free(part->modules); free(part); part = NULL; }
  if (adj) { free(adj->idx); free(adj->neighbors); free(adj->strength); free(adj); adj = NULL; } if (gen) { gsl_rng_free(gen); gen = NULL; } }

/* components of the subgraph induced by group g */
static int lab[MAXN];
static int comps(int *g, int target){ int c = 0; for (int i = 0; i < N; i++) lab[i] = -1;
  for (int i = 0; i < N; i++) if (g[i] == target && lab[i] < 0) { int st[MAXN * MAXN], t = 0; st[t++] = i; lab[i] = c; while (t) { int x = st[--t]; for (int y = 0; y < N; y++) if (y != x && W[x][y] && g[y] == target && lab[y] < 0) { lab[y] = c; st[t++] = y; } } c++; }
  return c; }
static int first_empty(Partition *p){ int c[64], k = 0; for (unsigned m = 0; m < p->M; m++) if (!p->modules[m]->size) c[k++] = m; return k ? c[rnd(k)] : -1; }

static void c03(void){
  gen_net(1, 0); build_adj(rnd(2)); gen = h_gsl();
  int m = 1 + rnd(N + 3);
  if (rnd(2)) part = mk(m);
  else { if (rnd(3) == 0) m = N; note(" | create+assign M=%d strengths:", m); part = CreatePartition(N, m);
    if ((int)part->N != N || (int)part->M != m || (int)part->nempty != m) bug("CreatePartition: wrong counts");
    for (int i = 0; i < N; i++) { if (part->nodes[i]->id != (unsigned)i || part->nodes[i]->next || part->nodes[i]->prev) bug("CreatePartition: node %d not clean", i); part->nodes[i]->strength = S[i]; note(" %g", S[i]); }
    for (int i = 0; i < m; i++) if (part->modules[i]->id != (unsigned)i || part->modules[i]->size || part->modules[i]->first || part->modules[i]->last || part->modules[i]->strength != 0) bug("CreatePartition: group %d not clean", i);
    AssignNodesToModules(part, gen); check_part(part, "AssignNodesToModules");
    for (int i = 0; i < N; i++) if (m == N && (int)part->nodes[i]->module != i) bug("AssignNodesToModules: node %d not alone", i); }
  check_part(part, "start"); h_nontrivial++;
  int ops = 1 + rnd(12);
  for (int k = 0; k < ops; k++) {
    snap(part);
    switch (rnd(8)) {
    case 0: case 1: case 2: { int n = rnd(N), g = rnd(part->M); note("; move %d to %d", n, g); ChangeModule(n, g, part); check_part(part, "ChangeModule"); same_but(part, "ChangeModule", n, g); break; }
    case 3: { if (part->M < 2) break; int a = rnd(part->M), b = rnd(part->M); if (a == b) break; note("; merge %d %d", a, b);
      int sa = part->modules[a]->size, sb = part->modules[b]->size; MergeModules(a, b, part); check_part(part, "MergeModules");
      for (int i = 0; i < N; i++) { int g = part->nodes[i]->module; if (grp[i] != a && grp[i] != b) { if (g != grp[i]) bug("MergeModules: node %d of another group moved", i); } else if (g != a && g != b) bug("MergeModules: node %d went to group %d", i, g); }
      if (sa && sb && part->modules[a]->size && part->modules[b]->size) bug("MergeModules: both groups still have members"); 
      if (!(sa && sb)) same_but(part, "MergeModules of an empty group", -1, 0); break; }
    case 4: { int t = rnd(part->M), e = first_empty(part); if (e < 0 || !part->modules[t]->size) break; note("; split-components %d into %d", t, e);
      SplitModuleByComponent(t, e, part, adj, gen); check_part(part, "SplitModuleByComponent"); for (int i = 0; i < N; i++) if (grp[i] != t && (int)part->nodes[i]->module != grp[i]) bug("SplitModuleByComponent: node %d of another group moved", i); break; }
    case 5: { int t = rnd(part->M), e = first_empty(part); if (e < 0 || !part->modules[t]->size) break; note("; split-anneal %d into %d", t, e);
      SplitModuleSA(t, e, 0.1, 0.01, 0.9, 5, part, adj, gen); check_part(part, "SplitModuleSA");
      for (int i = 0; i < N; i++) { int g = part->nodes[i]->module; if (grp[i] != t ? g != grp[i] : (g != t && g != e)) bug("SplitModuleSA: node %d went from %d to %d", i, grp[i], g); } break; }
    case 6: { note("; copy"); Partition *c = CopyPartitionStruct(part); check_part(c, "CopyPartitionStruct"); same_but(c, "CopyPartitionStruct", -1, 0); Partition *o = part; part = c; 
      for (unsigned a = 0; a < o->M; a++) { if (o->modules[a] == c->modules[a]) bug("copy shares group %d", a); Node *x = o->modules[a]->first, *y = c->modules[a]->first; for (; x && y; x = x->next, y = y->next) if (x->id != y->id || x == y) bug("copy: member order of group %d differs or is shared", a); if (x || y) bug("copy: group %d has other members", a); }
      if (rnd(2)) { FreePartition(o); } else { FreePartition(c); part = o; } check_part(part, "after freeing the other copy"); break; }
    case 7: { note("; compress"); unsigned ne = 0; for (unsigned a = 0; a < part->M; a++) if (!part->modules[a]->size) ne++; unsigned m0 = part->M; CompressPartition(part); check_part(part, "CompressPartition"); if (part->M != m0 - ne || part->nempty) bug("CompressPartition: %d groups left of %d with %d empty", part->M, m0, ne);
      for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if ((grp[i] == grp[j]) != (part->nodes[i]->module == part->nodes[j]->module)) bug("CompressPartition: nodes %d and %d", i, j); break; }
    }
  }
  done();
}
static void c04(void){
  negw = 1; gen_net(2, 0); build_adj(rnd(2)); part = mk(2 + rnd(N)); h_nontrivial += E > 0;
  for (int k = 0; k < 6; k++) {
    double q0 = Q(part);
    if (rnd(2)) { int n = rnd(N), g = rnd(part->M); if (g == (int)part->nodes[n]->module) continue; note("; move %d to %d", n, g);
      snap(part); double d = dEChangeModule(n, g, part, adj); same_but(part, "dEChangeModule", -1, 0); ChangeModule(n, g, part); double q1 = Q(part); if (!near_(d, q1 - q0)) bug("moving node %d to group %d: predicted %.12g, actual change %.12g", n, g, d, q1 - q0); }
    else { int a = rnd(part->M), b = rnd(part->M); if (a == b || !part->modules[a]->size || !part->modules[b]->size) continue; note("; merge %d %d", a, b);
      snap(part); double d = dEMergeModules(a, b, part, adj), d2 = dEMergeModules(b, a, part, adj); same_but(part, "dEMergeModules", -1, 0); MergeModules(a, b, part); double q1 = Q(part); if (!near_(d, q1 - q0) || !near_(d2, q1 - q0)) bug("merging groups %d and %d: predicted %.12g / %.12g, actual change %.12g", a, b, d, d2, q1 - q0); }
  }
  done();
}
static void c05(void){
  negw = 1; gen_net(1, 0); build_adj(rnd(2)); part = mk(1 + rnd(N)); h_nontrivial += E > 0;
  double q = Q(part), dg = 0; for (int i = 0; i < N; i++) dg += S[i] * S[i];
  double a = PartitionModularity(part, adj, 0), b = PartitionModularity(part, adj, 1);
  if (!near_(a, q)) bug("modularity without diagonal: %.12g instead of %.12g", a, q);
  if (!near_(b, q - dg)) bug("modularity with diagonal: %.12g instead of %.12g", b, q - dg);
  check_part(part, "PartitionModularity");
  done();
}
static void c06(void){
  gen_net(1, 0); build_adj(0); gen = h_gsl(); part = mk(2 + rnd(N + 1));
  int t = rnd(part->M), e = first_empty(part); if (e < 0 || !part->modules[t]->size) { done(); return; }
  snap(part); int c = comps(grp, t); h_nontrivial += c > 1; note("; split %d into %d (%d components)", t, e, c);
  unsigned r = SplitModuleByComponent(t, e, part, adj, gen); check_part(part, "SplitModuleByComponent");
  if ((int)r != c) bug("%d components reported, there are %d", r, c);
  int in = 0, out = 0;
  for (int i = 0; i < N; i++) { int g = part->nodes[i]->module; if (grp[i] != t) { if (g != grp[i]) bug("node %d of another group moved", i); continue; }
    if (g == t) in++; else if (g == e) out++; else bug("node %d went to group %d", i, g);
    for (int j = 0; j < N; j++) if (grp[j] == t && lab[i] == lab[j] && part->nodes[j]->module != (unsigned)g) bug("nodes %d and %d of one component were separated", i, j); }
  if (!in) bug("no component stayed"); if (c > 1 && !out) bug("no component moved"); if (c == 1 && out) bug("one component, but nodes moved");
  done();
}
static void c07(void){
  gen_net(1, 0); build_adj(0); part = mk(1 + rnd(N + 2)); snap(part); h_nontrivial++;
  Partition *c = CopyPartitionStruct(part); check_part(c, "copy"); check_part(part, "original after copying"); same_but(c, "copy", -1, 0);
  if (c->M != part->M || c->N != part->N || c->nempty != part->nempty) bug("copy: counts differ");
  for (int i = 0; i < N; i++) if (c->nodes[i] == part->nodes[i] || c->nodes[i]->strength != part->nodes[i]->strength) bug("copy: node %d is shared or differs", i);
  for (unsigned a = 0; a < c->M; a++) { if (part->modules[a] == c->modules[a]) bug("copy shares group %d", a); if (part->modules[a]->strength != c->modules[a]->strength) bug("copy: strength of group %d differs", a);
    Node *x = part->modules[a]->first, *y = c->modules[a]->first; for (; x && y; x = x->next, y = y->next) if (x->id != y->id || x == y) bug("copy: member order of group %d differs or is shared", a); if (x || y) bug("copy: group %d has other members", a); }
  int n = rnd(N), g = rnd(c->M); note("; move %d to %d in copy", n, g); ChangeModule(n, g, c); same_but(part, "changing the copy", -1, 0); check_part(part, "changing the copy");
  if (rnd(2)) { FreePartition(part); part = c; snap(part); } else FreePartition(c);
  check_part(part, "after freeing the other");
  unsigned ne = part->nempty, m0 = part->M; note("; compress"); CompressPartition(part); check_part(part, "CompressPartition");
  if (part->M != m0 - ne || part->nempty) bug("CompressPartition: %d groups left of %d with %d empty", part->M, m0, ne);
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if ((grp[i] == grp[j]) != (part->nodes[i]->module == part->nodes[j]->module)) bug("CompressPartition: nodes %d and %d", i, j);
  done();
}
/* what the annealer reports and records (sa_hook.c) against the modularity of its partition */
extern void (*sa_report)(double); extern void (*sa_final)(double); extern void (*sa_saved)(Partition *); extern Partition *sa_cur;
static double sa_e0, sa_q0, sa_max, sa_end; static int sa_n, sa_saves, sa_ended;
static void on_report(double e){ if (!sa_n++) { sa_e0 = e; return; }
  if (sa_cur) { double q = Q(sa_cur) - sa_q0; if (!(fabs((e - sa_e0) - q) <= 1e-7)) bug("the tracked energy is %.12g after %d rounds, the modularity has changed by %.12g", e - sa_e0, sa_n - 1, q); } }
static void on_final(double e){ sa_end = e; sa_ended++; }
static void on_saved(Partition *p){ double q = Q(p); if (!sa_saves++ || q > sa_max) sa_max = q; }
static void c08(void){
  gen_net(2, 0); build_adj(1); gen = h_gsl(); int m = rnd(2) ? N : 2 + rnd(N - 1); if (m > N) m = N; part = mk(m);
  double fac = rndu() * (N > 8 ? 0.05 : 0.3), Ti = rnd(4) ? 0.001 + rndu() * 0.1 : 1.0 / N, Tf = Ti * (rnd(3) ? rndu() * 0.5 : 1.5), Ts = 0.3 + 0.6 * rndu(); if (rnd(5) == 0) { Ti = 0; Tf = 0; }
  double pc = rnd(3) ? rndu() : rnd(2); unsigned lim = 1 + rnd(4);
  note("; anneal fac=%g Ti=%g Tf=%g Ts=%g pc=%g limit=%u", fac, Ti, Tf, Ts, pc, lim); h_nontrivial++;
  Partition *p = part; part = NULL;
  sa_cur = NULL; sa_n = sa_saves = sa_ended = 0; sa_q0 = Q(p); sa_report = on_report; sa_final = on_final; sa_saved = on_saved;
  unsigned r = GeneralSA(&p, adj, fac, Ti, Tf, Ts, pc, lim, gen);
  if (r) bug("GeneralSA reports %d", r); if (!p) bug("GeneralSA handed back no partition");
  part = p; check_part(part, "GeneralSA"); if ((int)part->M > m) bug("more groups than at the start");
  sa_report = sa_final = NULL; sa_saved = NULL;
  if (sa_saves && Q(part) < sa_max - 1e-7) bug("the result has modularity %.12g, a state of %.12g was recorded", Q(part), sa_max);
  if (sa_n && sa_ended == 1 && !isinf(sa_end) && fabs((sa_end - sa_e0) - (Q(part) - sa_q0)) > 1e-7) bug("the energy reported for the result is %.12g, its modularity changed by %.12g", sa_end - sa_e0, Q(part) - sa_q0);
  done();
}
static void c09(void){
  gen_net(1, rnd(3) == 0); int exact = rnd(2); build_adj(!exact); part = mk(1 + rnd(N)); CompressPartition(part); h_nontrivial += E > 0; /* exact: all sums are representable */
  double *z = malloc(N * sizeof(double)), *P = malloc(N * sizeof(double)); for (int i = 0; i < N; i++) z[i] = P[i] = 7.5 + i;
  PartitionRolesMetrics(part, adj, z, P);
  for (int i = 0; i < N; i++) { int g = part->nodes[i]->module; double mean = 0, var = 0, k = 0; int c = 0; double ki[MAXN];
    for (int a = 0; a < N; a++) { ki[a] = 0; for (int b = 0; b < N; b++) if ((int)part->nodes[b]->module == g) ki[a] += W[a][b]; if ((int)part->nodes[a]->module == g) { mean += ki[a]; c++; } }
    mean /= c; for (int a = 0; a < N; a++) if ((int)part->nodes[a]->module == g) var += (ki[a] - mean) * (ki[a] - mean); double sd = sqrt(var / c);
    double want = sd > 1e-12 ? (ki[i] - mean) / sd : 0;
    if (!(sd <= 1e-12 && sd > 0) && !(sd == 0 ? fabs(z[i]) < 2 * N : fabs(z[i] - want) < 1e-6)) bug("connectivity of node %d is %.12g, defined %.12g", i, z[i], want);
    if (exact && sd == 0 && z[i] != 0) { double s2 = 0; for (int a = 0; a < N; a++) if ((int)part->nodes[a]->module == g) s2 += fabs(ki[a] - ki[i]); if (s2 == 0 && c > 1 && fabs(mean * c - ki[i] * c) == 0) bug("connectivity of node %d is %.12g in a group without spread", i, z[i]); }
    double s = 0; for (int b = 0; b < N; b++) s += W[i][b]; double want2 = 0;
    if (s > 0) { for (unsigned m = 0; m < part->M; m++) { double x = 0; for (int b = 0; b < N; b++) if (part->nodes[b]->module == m) x += W[i][b]; want2 += (x / s) * (x / s); } want2 = 1 - want2; }
    (void)k; if (fabs(P[i] - want2) > 1e-9) bug("participation of node %d is %.12g, defined %.12g", i, P[i], want2); }
  check_part(part, "PartitionRolesMetrics");
  free(z); free(P); done();
}
static void c10(void){
  static const double Pb[] = {0.05, 0.62, 0.80, 0.30, 0.75, 0, 1}; double P, z; h_nontrivial++;
  switch (rnd(3)) { case 0: P = Pb[rnd(7)]; break; case 1: P = nextafter(Pb[rnd(7)], rnd(2) ? 9 : -9); break; default: P = rndu() * 1.2 - 0.1; }
  switch (rnd(4)) { case 0: z = 2.5; break; case 1: z = nextafter(2.5, rnd(2) ? 9 : -9); break; case 2: z = rndu() * 8 - 2; break; default: z = (rndu() - 0.5) * 1e6; }
  note("P=%.17g z=%.17g", P, z);
  int want = z < 2.5 ? (P < 0.05 ? 0 : P < 0.62 ? 1 : P < 0.80 ? 2 : 3) : (P < 0.30 ? 4 : P < 0.75 ? 5 : 6), r = GetRole(P, z);
  if (r != want) bug("role %d instead of %d", r, want);
}
static void c11(void){
  int n = 1 + rnd(20), cap = n, model[64], t = 0; Stack *s = CreateStack(cap); h_nontrivial++; note("stack of %d:", cap);
  for (int k = 0; k < 60; k++) { if (rnd(2) && t < cap) { int v = rnd(1000000); note(" +%d", v); AddToStack(v, s); model[t++] = v; } else { int w = t ? model[--t] : -1, g = PopFromStack(s); note(" -"); if (g != w) bug("pop gave %d, expected %d", g, w); } }
  while (t) { int w = model[--t], g = PopFromStack(s); if (g != w) bug("pop gave %d, expected %d", g, w); }
  if (PopFromStack(s) != -1 || PopFromStack(s) != -1) bug("empty stack not reported");
  FreeStack(s);
}
static void c01(void){
  negw = 1; gen_net(1, 1); int norm = rnd(2); note(" normalize=%d", norm); h_nontrivial += E > 0;
  if (rnd(3) == 0) for (int k = rnd(4), e0 = E; k > 0 && e0; k--) { int j = rnd(e0); eu[E] = ev[j]; ev[E] = eu[j]; ew[E] = (rnd(17) - 8) / 8.0; note(" again %d-%d:%g", eu[E], ev[E], ew[E]); E++; }   /* the same pair listed again */
  double sum = 0; for (int k = 0; k < E; k++) sum += ew[k];
  if (norm && fabs(sum) < 1e-9) { done(); return; }
  part = CreatePartition(N, N); adj = CreateAdjaArray(N, E);
  int *a = malloc((E + 1) * sizeof(int)), *b = malloc((E + 1) * sizeof(int)); double *w = malloc((E + 1) * sizeof(double)); memcpy(a, eu, E * sizeof(int)); memcpy(b, ev, E * sizeof(int)); memcpy(w, ew, E * sizeof(double));
  if (EdgeListToAdjaArray(a, b, w, adj, part, norm)) bug("EdgeListToAdjaArray fails");
  double tot = 0; for (int k = 0; k < E; k++) tot += 2 * ew[k]; if (!norm) tot = 1;
  if (memcmp(a, eu, E * sizeof(int)) || memcmp(b, ev, E * sizeof(int)) || memcmp(w, ew, E * sizeof(double))) bug("the list was changed");
  if (adj->idx[0] != 0 || adj->idx[N] != 2u * E) bug("row table covers %d..%d instead of 0..%d", adj->idx[0], adj->idx[N], 2 * E);
  for (int i = 0; i < N; i++) { double st = 0; int cnt[MAXN] = {0}, want[MAXN] = {0}; double s1[MAXN] = {0}, s2[MAXN] = {0};
    for (int k = 0; k < E; k++) { if (eu[k] == i) { st += ew[k]; want[ev[k]]++; s1[ev[k]] += ew[k] / tot; s2[ev[k]] += ew[k] / tot * ew[k] / tot; } if (ev[k] == i) { st += ew[k]; want[eu[k]]++; s1[eu[k]] += ew[k] / tot; s2[eu[k]] += ew[k] / tot * ew[k] / tot; } }
    if (!near_(part->nodes[i]->strength, st / tot)) bug("strength of node %d is %.12g instead of %.12g", i, part->nodes[i]->strength, st / tot);
    for (unsigned k = adj->idx[i]; k < adj->idx[i + 1]; k++) { int j = adj->neighbors[k]; if (j < 0 || j >= N) bug("neighbour %d of node %d", j, i); cnt[j]++; s1[j] -= adj->strength[k]; s2[j] -= adj->strength[k] * adj->strength[k]; if (want[j] == 1 && !near_(adj->strength[k], W[i][j] / tot)) bug("link %d-%d has weight %.12g instead of %.12g", i, j, adj->strength[k], W[i][j] / tot); }
    for (int j = 0; j < N; j++) if (fabs(s1[j]) > 1e-6 || fabs(s2[j]) > 1e-6) bug("weights of the links %d-%d", i, j); else if (cnt[j] != want[j]) bug("node %d lists node %d %d times instead of %d", i, j, cnt[j], want[j]); }
  free(a); free(b); free(w); done();
}
static void c02(void){
  int A = 1 + rnd(8), B = 1 + rnd(6); double w[8][6] = {{0}}; unsigned a[64], b[64]; double x[64]; int e = 0; double p = 0.2 + 0.8 * rndu(); int unit = rnd(2);
  for (int i = 0; i < A; i++) for (int j = 0; j < B; j++) if (rndu() < p) { w[i][j] = unit ? 1 : (1 + rnd(8)) / 4.0; a[e] = i; b[e] = j; x[e] = w[i][j]; e++; }
  if (!e) return;
  for (int k = e - 1; k > 0; k--) { int j = rnd(k + 1); unsigned t = a[k]; a[k] = a[j]; a[j] = t; t = b[k]; b[k] = b[j]; b[j] = t; double d = x[k]; x[k] = x[j]; x[j] = d; }
  N = 0; for (int k = 0; k < e; k++) if ((int)a[k] + 1 > N) N = a[k] + 1;
  note("E=%d:", e); for (int k = 0; k < e; k++) note(" %u-%u:%g", a[k], b[k], x[k]);
  unsigned *pa = malloc(e * sizeof *pa), *pb = malloc(e * sizeof *pb); double *px = malloc(e * sizeof *px); memcpy(pa, a, e * sizeof *pa); memcpy(pb, b, e * sizeof *pb); memcpy(px, x, e * sizeof *px);
  double f1 = 0, f2 = 0; for (int j = 0; j < B; j++) { double m = 0; int d = 0; for (int i = 0; i < A; i++) if (w[i][j]) { m += w[i][j]; d++; } if (d) { f1 += m * (m - m / d); f2 += m; } }
  part = NULL; adj = NULL; unsigned r = ProjectBipartEdgeList(pa, pb, px, e, &part, &adj);
  if (!part || !adj) bug("no result"); if ((int)part->N != N || (int)adj->N != N) bug("%d nodes instead of %d", part->N, N);
  int ne = 0;
  for (int i = 0; i < N; i++) { double st = 0; for (int j = 0; j < B; j++) st += w[i][j]; if (!near_(part->nodes[i]->strength, st / f2)) bug("strength of node %d is %.12g instead of %.12g", i, part->nodes[i]->strength, st / f2);
    int cnt[8] = {0};
    for (unsigned k = adj->idx[i]; k < adj->idx[i + 1]; k++) { unsigned j = adj->neighbors[k]; if (j >= (unsigned)N || (int)j == i) bug("node %d has neighbour %u", i, j); if (cnt[j]++) bug("node %d lists %u twice", i, j);
      double v = 0; for (int t = 0; t < B; t++) v += w[i][t] * w[j][t]; if (!near_(adj->strength[k], v / f1)) bug("link %d-%u has weight %.12g instead of %.12g", i, j, adj->strength[k], v / f1); }
    for (int j = 0; j < N; j++) if (j != i) { int share = 0; for (int t = 0; t < B; t++) if (w[i][t] && w[j][t]) share = 1; if (share != cnt[j]) bug("nodes %d and %d share %d, listed %d", i, j, share, cnt[j]); if (share && i < j) ne++; } }
  if ((int)r != ne) bug("%u links reported, there are %d", r, ne); h_nontrivial += ne > 0;
  free(pa); free(pb); free(px); done();
}
int main(int argc, char **argv){
  static const struct { const char *n; casefn f; } T[] = {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}};
  for (unsigned i = 0; i < sizeof T / sizeof *T; i++) if (!strcmp(argv[1], T[i].n)) return h_main(argc, argv, T[i].f);
  return 2;
}
