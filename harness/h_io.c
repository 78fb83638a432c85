/* Reading and writing files: real code against plain arrays. All files are anonymous temporary ones. */
#include "common.h"
#include <search.h>
#include "tools.h"
#include "graph.h"
#include "modules.h"
#include "bipartite.h"
#include "partition.h"
#include "fillpartitions.h"
struct node; 
int EdgeListFileInput(FILE *, int, int, unsigned int **, unsigned int **, double **, char ***, unsigned int *, unsigned int *);
void ClusteringOutput(FILE *, Partition *, char **); void TabularOutput(FILE *, char **, Partition *, double *, double *); int AssignNodesToModulesFromFile(FILE *, Partition *, char **);
struct group *FReadPartition(FILE *); struct group *FCreatePartition(FILE *);
#define ML 3000
#define MN 400
static int E, U[ML], V[ML]; static double W[ML]; static char lab[MN][100]; static int nl; static int so = -1, nul;
static void quiet(int on){ fflush(stdout); if (so < 0) { so = dup(1); nul = open("/dev/null", O_WRONLY); } dup2(on ? nul : so, 1); }
static void labels(int n, int spaces){ nl = n; int k = rnd(5); for (int i = 0; i < n; i++) { int j = rnd(2) ? i : 7919 * (i + 1) % 100003; snprintf(lab[i], 100, k == 0 ? "%d" : k == 1 ? "node_%d" : k == 2 ? "A_label_that_is_very_long_and_only_differs_from_the_others_by_what_comes_in_its_last_few_char_%d" : k == 3 ? (spaces ? "name with %d" : "Z%dq") : "%x", j + 100 * (i != j)); for (int m = 0; m < i; m++) if (!strcmp(lab[i], lab[m])) snprintf(lab[i], 100, "dup%d.%d", i, rnd(1000)); } }
static FILE *rewindf(FILE *f){ rewind(f); return f; }
static FILE *linkfile(int weighted, int oneline_last){ FILE *f = tmpfile(); if (!f) bug("harness: no temporary file"); for (int e = 0; e < E; e++) { const char *s = rnd(4) ? " " : rnd(2) ? "\t" : "   "; fprintf(f, "%s%s%s", lab[U[e]], s, lab[V[e]]); if (weighted) fprintf(f, "%s%.17g", s, W[e]); if (e < E - 1 || !oneline_last) fprintf(f, "\n"); } return rewindf(f); }
static void links(int two){ /* every label used is recorded in order of first appearance by the oracle */
  int big = rnd(12) == 0, n = big ? 5 + rnd(MN - 5) : 1 + rnd(15); E = big ? 90 + rnd(900) : rnd(40); if (rnd(6) == 0) E = 97 + rnd(6); if (rnd(8) == 0) n = 6 + rnd(6); if (n > MN) n = MN; labels(n, 0); int half = rnd(2); for (int e = 0; e < E; e++) { U[e] = rnd(n); V[e] = rnd(n); if (two && half && n > 1) { U[e] = rnd(n / 2); V[e] = n / 2 + rnd(n - n / 2); } W[e] = rnd(3) == 0 ? 1 + rnd(9) : rnd(2) ? 0.125 * (1 + rnd(50)) : 10 * rndu() - 3; note(" %s-%s:%g", lab[U[e]], lab[V[e]], W[e]); } }
static void edgelist(void){
  int w = rnd(2), bi = rnd(3), e; note("edge list weighted=%d bipartite=%d;", w, bi); links(bi); FILE *f = linkfile(w, rnd(2)); unsigned *a = 0, *b = 0, n = 7777, m = 7777; double *ws = 0; char **ls = 0; quiet(1); int r = EdgeListFileInput(f, w, bi, &a, &b, &ws, &ls, &m, &n); quiet(0); if (r) bug("EdgeListFileInput refuses a well-formed file (%d)", r); if (m != E) bug("%u links instead of %d", m, E);
  int first[MN], first2[MN], c = 0, c2 = 0, *x = bi == 2 ? V : U, *y = bi == 2 ? U : V, i; for (i = 0; i < nl; i++) first[i] = first2[i] = -1; for (e = 0; e < E; e++) { if (first[x[e]] < 0) first[x[e]] = c++; if (bi) { if (first2[y[e]] < 0) first2[y[e]] = c2++; } else if (first[y[e]] < 0) first[y[e]] = c++; }
  if (n != c) bug("%u nodes instead of %d", n, c); int seen[MN] = {0}; 
  for (i = 0; i < nl; i++) if (first[i] >= 0) { int k, hit = -1; for (k = 0; k < n; k++) if (!strcmp(ls[k], lab[i])) { if (hit >= 0) bug("label %s twice", lab[i]); hit = k; } if (hit < 0) bug("label %s is lost", lab[i]); seen[i] = hit; }
  int other[MN]; for (i = 0; i < MN; i++) other[i] = -1; int used[MN] = {0};
  for (e = 0; e < E; e++) { if (a[e] != seen[x[e]]) bug("link %d starts at %u instead of %d", e, a[e], seen[x[e]]); if (!bi) { if (b[e] != seen[y[e]]) bug("link %d ends at %u instead of %d", e, b[e], seen[y[e]]); } else { if (b[e] >= c2) bug("second side number %u of %d", b[e], c2); if (other[y[e]] < 0) { if (used[b[e]]++) bug("second side number %u given to two labels", b[e]); other[y[e]] = b[e]; } else if (other[y[e]] != b[e]) bug("a second-side label has two numbers"); } if (ws[e] != (w ? W[e] : 1)) bug("link %d has weight %g instead of %g", e, ws[e], w ? W[e] : 1); }
  fclose(f); for (i = 0; i < n; i++) free(ls[i]); free(ls); free(a); free(b); free(ws); }
static void partitionfile(void){
  int n = 1 + rnd(12), m = n, i, k, g[20]; labels(n, 1); char *ls[20]; note("partition file: %d nodes;", n); for (i = 0; i < n; i++) { ls[i] = lab[i]; g[i] = rnd(1 + rnd(n)); note(" %s:%d", lab[i], g[i]); }
  Partition *p = CreatePartition(n, m); for (i = 0; i < n; i++) { p->nodes[i]->strength = 0.125 * (i + 1); } for (i = 0; i < n; i++) { Node *x = p->nodes[i]; Module *q = p->modules[g[i]]; x->module = g[i]; x->prev = q->last; x->next = NULL; if (q->last) q->last->next = x; else { q->first = x; p->nempty--; } q->last = x; q->size++; q->strength += x->strength; }
  FILE *f = tmpfile(); if (rnd(3) == 0) fprintf(f, "# Modularity: 0.123\n# Modularity (with diagonal): 0.1\n"); long at = ftell(f); ClusteringOutput(f, p, ls); rewind(f);
  /* the text: one line per group, each label on its group's line */
  char line[4096]; int cnt[20] = {0}, row = 0; fseek(f, at, SEEK_SET); while (fgets(line, sizeof line, f)) { for (char *t = strtok(line, "\t\n"); t; t = strtok(NULL, "\t\n")) { for (i = 0; i < n && strcmp(lab[i], t); i++); if (i == n) bug("written partition: unknown label %s", t); cnt[i]++; if (g[i] != row) bug("written partition: %s on line %d instead of %d", t, row, g[i]); } row++; } if (row != m) bug("written partition: %d lines instead of %d", row, m); for (i = 0; i < n; i++) if (cnt[i] != 1) bug("written partition: %s written %d times", lab[i], cnt[i]);
  if (rnd(3) == 0) { FILE *h = tmpfile(); for (k = 0; k < m; k++) { int c = 0; for (i = 0; i < n; i++) if (g[i] == k) fprintf(h, "%s%s", c++ ? "\t" : "", lab[i]); if (c) fprintf(h, "\n"); } fclose(f); f = h; note(" (lines without trailing tab)"); }
  rewind(f); Partition *q = CreatePartition(n, m); for (i = 0; i < n; i++) q->nodes[i]->strength = 0.125 * (i + 1); int r = AssignNodesToModulesFromFile(f, q, ls); if (r) bug("reading back: %d nodes missing", r);
  for (i = 0; i < n; i++) for (k = 0; k < n; k++) if ((g[i] == g[k]) != (q->nodes[i]->module == q->nodes[k]->module)) bug("reading back: %s and %s are %s together", lab[i], lab[k], g[i] == g[k] ? "no longer" : "now");
  unsigned tot = 0; for (k = 0; k < q->M; k++) { Module *x = q->modules[k]; unsigned c = 0; double s = 0; Node *pr = NULL; if (!x || !x->size) bug("reading back: empty group %d", k); for (Node *y = x->first; y && c <= n; y = y->next) { c++; s += y->strength; if (y->module != k || y->prev != pr) bug("reading back: broken list of group %d", k); pr = y; } if (x->last != pr || x->size != c || !near_(x->strength, s)) bug("reading back: group %d inconsistent", k); tot += c; } if (tot != n || q->nempty) bug("reading back: %u nodes, %u empty", tot, q->nempty);
  /* the table of roles */
  double z[20], P[20]; for (i = 0; i < n; i++) { z[i] = rnd(3) ? 6 * rndu() - 1 : 2.5; P[i] = rndu(); } FILE *t = tmpfile(); TabularOutput(t, ls, p, z, P); rewind(t); if (!fgets(line, sizeof line, t)) bug("empty table"); for (i = 0; i < n; i++) { if (!fgets(line, sizeof line, t)) bug("table: %d lines", i); char *tab = strchr(line, '\t'); int mod, ro; double cz, cp; if (!tab || sscanf(tab, "\t%d\t%lf\t%lf\tR%d", &mod, &cz, &cp, &ro) != 4) bug("table: line %s", line); *tab = 0; char *e = line + strlen(line); while (e > line && e[-1] == ' ') *--e = 0; if (strcmp(line, lab[i]) || mod != g[i] || fabs(cz - z[i]) > 1e-6 || fabs(cp - P[i]) > 1e-6 || ro != GetRole(P[i], z[i]) + 1) bug("table: line %d is %s %d %g %g R%d", i, line, mod, cz, cp, ro); } if (fgets(line, sizeof line, t)) bug("table: more lines than nodes");
  fclose(t);
  /* the same file for the other representation */
  if (!at) { rewind(f); struct group *pp = FReadPartition(f); struct group *x = pp; int w[20]; for (i = 0; i < n; i++) w[i] = -1; while ((x = x->next)) { struct node_lis *y = x->nodeList; while ((y = y->next)) { for (i = 0; i < n && strcmp(lab[i], y->nodeLabel); i++); if (i == n || w[i] >= 0) bug("FReadPartition: label %s", y->nodeLabel); w[i] = x->label; } } for (i = 0; i < n; i++) { if (w[i] < 0) bug("FReadPartition: %s is lost", lab[i]); for (k = 0; k < i; k++) if ((g[i] == g[k]) != (w[i] == w[k])) bug("FReadPartition: %s and %s", lab[i], lab[k]); } RemovePartition(pp); }
  fclose(f); FreePartition(p); FreePartition(q); }
static void checknet(const char *w, struct node_gra *h, struct node_gra *other, double (*M)[40], char (*has)[40], int sides, int *ord, int n, int *ord2){ struct node_gra *p = h; int i = 0; while ((p = p->next)) { if (i >= n || strcmp(p->label, lab[ord[i]])) bug("%s: node %d is %s", w, i, p->label); if (p->num != i) bug("%s: number of %s is %d", w, p->label, p->num); int c = 0, d = 0; for (int j = 0; j < nl; j++) d += has[ord[i]][j]; struct node_lis *l = p->neig; while ((l = l->next)) { int j; for (j = 0; j < nl && strcmp(lab[j], l->nodeLabel); j++); if (j == nl || !has[ord[i]][j]) bug("%s: link from %s to %s", w, p->label, l->nodeLabel); if (strcmp(l->ref->label, l->nodeLabel)) bug("%s: link label", w); if (!near_(l->weight, M[ord[i]][j])) bug("%s: weight of %s-%s is %g instead of %g", w, p->label, l->nodeLabel, l->weight, M[ord[i]][j]); c++; } if (c != d) bug("%s: %s has %d links instead of %d", w, p->label, c, d); i++; } if (i != n) bug("%s: %d nodes instead of %d", w, i, n); }
static double M1[40][40], M2[40][40]; static char H1[40][40], H2[40][40];
static void order(int *ord, int *n, int which){ char s[40] = {0}; *n = 0; for (int e = 0; e < E; e++) { if (which != 2 && !s[U[e]]++) ord[(*n)++] = U[e]; if (which != 1 && !s[V[e]]++) ord[(*n)++] = V[e]; } }
static void networkfile(void){
  int w = rnd(2), sy = rnd(2), au = rnd(2), add = rnd(2), e; note("network file weighted=%d symmetric=%d self=%d add=%d;", w, sy, au, add); int n = 1 + rnd(12); E = rnd(30); labels(n, 0); for (e = 0; e < E; e++) { U[e] = rnd(n); V[e] = rnd(n); W[e] = 0.125 * (1 + rnd(40)); note(" %s-%s:%g", lab[U[e]], lab[V[e]], W[e]); } memset(M1, 0, sizeof M1); memset(H1, 0, sizeof H1); memset(M2, 0, sizeof M2); memset(H2, 0, sizeof H2);
  for (e = 0; e < E; e++) { double x = w ? W[e] : 1; int a = U[e], b = V[e]; for (int t = 0; t < 1 + (sy && a != b); t++) { if (a != b || au) { if (!H1[a][b]) { H1[a][b] = 1; M1[a][b] = x; } else if (add) M1[a][b] += x; } int c = a; a = b; b = c; } }
  FILE *f = linkfile(w, rnd(2)); quiet(1); struct node_gra *g = FBuildNetwork(f, w, au, add, sy); quiet(0); int ord[40], k; order(ord, &k, 0); if (!g) bug("FBuildNetwork refuses a well-formed file"); checknet("FBuildNetwork", g, g, M1, H1, 1, ord, k, ord); fclose(f);
  int pw = rnd(2), ps = sy && rnd(2); f = tmpfile(); FPrintNetAdjacencyList(f, g, pw, ps); rewind(f); quiet(1); struct node_gra *h = FBuildNetwork(f, pw, 1, 0, ps); quiet(0); if (!h) bug("cannot read back the written links"); struct node_gra *p = g, *q; int cnt = 0, c2 = 0; while ((p = p->next)) { if (!NodeDegree(p)) { int in = 0; for (q = g; (q = q->next);) in += IsThereLink(q, p); if (!in) continue; } q = h; while ((q = q->next) && strcmp(p->label, q->label)); if (!q) bug("written links: %s is lost", p->label); cnt++; if (NodeDegree(p) != NodeDegree(q)) bug("written links: %s has %d links instead of %d", p->label, NodeDegree(q), NodeDegree(p)); struct node_lis *l = p->neig; while ((l = l->next)) { struct node_lis *m = q->neig; while ((m = m->next) && strcmp(m->nodeLabel, l->nodeLabel)); if (!m) bug("written links: %s-%s is lost", p->label, l->nodeLabel); if (pw && fabs(m->weight - l->weight) > 1e-5 * fabs(l->weight) + 1e-9) bug("written links: weight %g instead of %g", m->weight, l->weight); } } q = h; while ((q = q->next)) c2++; if (cnt != c2) bug("written links: %d nodes instead of %d", c2, cnt); fclose(f); RemoveGraph(g); RemoveGraph(h);
  /* two-mode */
  memset(M1, 0, sizeof M1); memset(H1, 0, sizeof H1); for (e = 0; e < E; e++) { double x = w ? W[e] : 1; int a = U[e], b = V[e]; if (!H1[a][b]) { H1[a][b] = H2[b][a] = 1; M1[a][b] = x; } else if (add) M1[a][b] += x; M2[b][a] = M1[a][b]; }
  f = linkfile(w, rnd(2)); quiet(1); struct binet *B = FBuildNetworkBipart(f, w, add); quiet(0); if (!B) bug("FBuildNetworkBipart refuses a well-formed file"); fclose(f); int o1[40], o2[40], k1, k2; order(o1, &k1, 1); order(o2, &k2, 2); checknet("FBuildNetworkBipart first side", B->net1, B->net2, M1, H1, 2, o1, k1, o2); checknet("FBuildNetworkBipart second side", B->net2, B->net1, M2, H2, 2, o2, k2, o1);
  f = tmpfile(); FPrintBipart(f, B, 1); rewind(f); int lines = 0, L = NLinksBipart(B); char x[100], y[100]; double z; while (fscanf(f, "%99s %99s %lf", x, y, &z) == 3) { int a, b; for (a = 0; a < nl && strcmp(lab[a], x); a++); for (b = 0; b < nl && strcmp(lab[b], y); b++); if (a == nl || b == nl || !H1[a][b] || fabs(z - M1[a][b]) > 1e-5 * fabs(z) + 1e-9) bug("written two-mode link %s %s %g", x, y, z); lines++; } if (lines != L) bug("%d two-mode links written instead of %d", lines, L); fclose(f); RemoveBipart(B);
  /* groups of the network representation */
  struct group *part = CreateHeaderGroup(), *gr; int ng = 1 + rnd(4), wh[40], i; for (i = 0; i < n; i++) wh[i] = rnd(ng); for (k = 0; k < ng; k++) { gr = CreateGroup(part, k); for (i = 0; i < n; i++) if (wh[i] == k) AddNodeToGroupSoft(gr, lab[i]); } f = tmpfile(); FPrintPartition(f, part, 1); rewind(f); int any = 0; for (i = 0; i < n; i++) any++; if (any) { quiet(1); struct group *p2 = FCreatePartition(f); quiet(0); int w2[40]; for (i = 0; i < n; i++) w2[i] = -1; gr = p2; while ((gr = gr->next)) { struct node_lis *l = gr->nodeList; while ((l = l->next)) { for (i = 0; i < n && strcmp(lab[i], l->nodeLabel); i++); if (i == n || w2[i] >= 0) bug("FCreatePartition: label %s", l->nodeLabel); w2[i] = gr->label; } } for (i = 0; i < n; i++) { if (w2[i] < 0) bug("FCreatePartition: %s is lost", lab[i]); for (k = 0; k < i; k++) if ((wh[i] == wh[k]) != (w2[i] == w2[k])) bug("FCreatePartition: %s and %s", lab[i], lab[k]); } RemovePartition(p2); } RemovePartition(part); fclose(f); }
static void c23(void){ h_nontrivial++; switch (rnd(3)) { case 0: edgelist(); break; case 1: partitionfile(); break; default: networkfile(); } }
int main(int argc, char **argv){ return h_main(argc, argv, c23); }
