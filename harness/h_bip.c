/* Two-mode networks (src/bipartite.c): real code against plain arrays. */
#include "common.h"
#include <search.h>
#include "tools.h"
#include "graph.h"
#include "modules.h"
#include "bipartite.h"
#define MAXN 12
static int n1, n2, A[MAXN][MAXN]; static double Wt[MAXN][MAXN]; static struct binet *B; static struct node_gra *p1[MAXN], *p2[MAXN]; static char l1[MAXN][90], l2[MAXN][90];
static void names(char lab[MAXN][90], int n, const char *pre){ int lg = rnd(4) == 0; for (int i = 0; i < n; i++) { snprintf(lab[i], 90, lg ? (rnd(2) ? "%sa label that differs from the other labels in its last characters only: %d" : "%sNode %d") : "%s%d", pre, rnd(2) ? i : 900 - 31 * i); for (int j = 0; j < i; j++) if (!strcmp(lab[i], lab[j])) snprintf(lab[i], 90, "%su%dz", pre, i); } }
static void mk(int lo, int hi, int kind){ /* kind 0: unit weights, 1: any positive */
  n1 = lo + rnd(hi - lo + 1); n2 = 1 + rnd(hi); memset(A, 0, sizeof A); memset(Wt, 0, sizeof Wt); names(l1, n1, ""); names(l2, n2, rnd(2) ? "" : "t"); B = CreateBipart(); if (B->net1 || B->net2) bug("a new two-mode network is not empty");
  B->net1 = CreateHeaderGraph(); B->net2 = CreateHeaderGraph(); struct node_gra *t = B->net1; int i, j; for (i = 0; i < n1; i++) t = p1[i] = CreateNodeGraph(t, l1[i]); t = B->net2; for (i = 0; i < n2; i++) t = p2[i] = CreateNodeGraph(t, l2[i]);
  double p = rnd(5) == 0 ? 1 : rndu(); int order = rnd(2), wk = rnd(3); note("%d+%d nodes;", n1, n2); for (int x = 0; x < n1; x++) for (int y = 0; y < n2; y++) { i = order ? n1 - 1 - x : x; j = order && rnd(2) ? n2 - 1 - y : y; if (A[i][j] || rndu() > p) continue; double w = !kind || wk == 0 ? 1 : wk == 1 ? 1 + rnd(5) : 0.125 * (1 + rnd(20)); A[i][j] = 1; Wt[i][j] = w; note(" %d-%d:%g", i, j, w); AddAdjacency(p1[i], p2[j], 0, 0, w, 0); AddAdjacency(p2[j], p1[i], 0, 0, w, 0); } }
static int com(int a, int b){ int c = 0; for (int j = 0; j < n2; j++) c += A[a][j] && A[b][j]; return c; }
static int com2(int a, int b){ int c = 0; for (int i = 0; i < n1; i++) c += A[i][a] && A[i][b]; return c; }
static double prod(int a, int b){ double c = 0; for (int j = 0; j < n2; j++) if (A[a][j] && A[b][j]) c += Wt[a][j] * Wt[b][j]; return c; }
static double prod2(int a, int b){ double c = 0; for (int i = 0; i < n1; i++) if (A[i][a] && A[i][b]) c += Wt[i][a] * Wt[i][b]; return c; }
static void side(const char *w, struct node_gra *h, int n, char lab[MAXN][90], struct node_gra **q){ int i = 0; struct node_gra *p = h; while ((p = p->next)) { if (i >= n || strcmp(p->label, lab[i])) bug("%s: node %d is %s", w, i, p->label); if (p->num != i) bug("%s: node %d has number %d", w, i, p->num); q[i++] = p; } if (i != n) bug("%s: %d nodes instead of %d", w, i, n); }
static void same(const char *w, struct binet *b, int weights){ struct node_gra *a[MAXN], *c[MAXN]; int i, j, k; side(w, b->net1, n1, l1, a); side(w, b->net2, n2, l2, c);
  for (i = 0; i < n1; i++) { struct node_lis *l = a[i]->neig; k = 0; while ((l = l->next)) { for (j = 0; j < n2 && c[j] != l->ref; j++); if (j == n2) bug("%s: node %d is linked to a stranger", w, i); if (!A[i][j] || weights && !near_(l->weight, Wt[i][j]) || strcmp(l->nodeLabel, l2[j]) || l->node != j) bug("%s: link %d-%d", w, i, j); k++; } for (j = 0; j < n2; j++) k -= A[i][j]; if (k) bug("%s: node %d has %d links too many", w, i, k); }
  for (j = 0; j < n2; j++) { struct node_lis *l = c[j]->neig; k = 0; while ((l = l->next)) { for (i = 0; i < n1 && a[i] != l->ref; i++); if (i == n1) bug("%s: team %d is linked to a stranger", w, j); if (!A[i][j] || weights && !near_(l->weight, Wt[i][j]) || strcmp(l->nodeLabel, l1[i]) || l->node != i) bug("%s: link %d-%d seen from the other side", w, i, j); k++; } for (i = 0; i < n1; i++) k -= A[i][j]; if (k) bug("%s: team %d has %d links too many", w, j, k); } }
static void counts(void){ int i, j, t = 0; for (i = 0; i < n1; i++) for (j = 0; j < n1; j++) { int c = NCommonLinksBipart(p1[i], p1[j]); if (c != com(i, j)) bug("common neighbours of %d and %d are %d instead of %d", i, j, c, com(i, j)); double s = SumProductsOfCommonWeightsBipart(p1[i], p1[j]); if (!near_(s, prod(i, j))) bug("sum of products of %d and %d is %g instead of %g", i, j, s, prod(i, j)); }
  for (i = 0; i < n2; i++) for (j = 0; j < n2; j++) { int c = NCommonLinksBipart(p2[i], p2[j]); if (c != com2(i, j)) bug("common members of %d and %d are %d instead of %d", i, j, c, com2(i, j)); double s = SumProductsOfCommonWeightsBipart(p2[i], p2[j]); if (!near_(s, prod2(i, j))) bug("sum of products of teams %d and %d is %g instead of %g", i, j, s, prod2(i, j)); }
  for (i = 0; i < n1; i++) for (j = 0; j < n2; j++) t += A[i][j]; if (NLinksBipart(B) != t) bug("%d links instead of %d", NLinksBipart(B), t); }
static void projected(const char *w, struct node_gra *h, int weighted){ struct node_gra *a[MAXN]; side(w, h, n1, l1, a); for (int i = 0; i < n1; i++) { struct node_lis *l = a[i]->neig; int k = 0, j; while ((l = l->next)) { for (j = 0; j < n1 && a[j] != l->ref; j++); if (j == n1) bug("%s: node %d is linked to a stranger", w, i); double e = j == i ? 0 : weighted ? prod(i, j) : com(i, j); if (!(e > 0)) bug("%s: link %d-%d", w, i, j); if (!near_(l->weight, e)) bug("%s: weight of %d-%d is %g instead of %g", w, i, j, l->weight, e); k++; } for (j = 0; j < n1; j++) if (j != i) k -= weighted ? prod(i, j) > 0 : com(i, j) > 0; if (k) bug("%s: node %d has %d links too many", w, i, k); } RemoveGraph(h); }
static void swapsides(void){ int T[MAXN][MAXN]; double U[MAXN][MAXN]; char x[90]; int i, j; for (i = 0; i < MAXN; i++) { for (j = 0; j < MAXN; j++) { T[i][j] = A[j][i]; U[i][j] = Wt[j][i]; } memcpy(x, l1[i], 90); memcpy(l1[i], l2[i], 90); memcpy(l2[i], x, 90); struct node_gra *p = p1[i]; p1[i] = p2[i]; p2[i] = p; } memcpy(A, T, sizeof A); memcpy(Wt, U, sizeof Wt); i = n1; n1 = n2; n2 = i; }
static void modularity(void){ int k, ng = 1 + rnd(4), w[MAXN], i, j; struct group *part = CreateHeaderGroup(), *g[5]; note(" groups"); for (k = 0; k < ng; k++) g[k] = CreateGroup(part, k); 
  int o[MAXN]; for (i = 0; i < n1; i++) { w[i] = rnd(ng); note(" %d", w[i]); o[i] = i; } for (i = n1; i-- > 1;) { j = rnd(i + 1); k = o[i]; o[i] = o[j]; o[j] = k; } for (i = 0; i < n1; i++) AddNodeToGroup(g[w[o[i]]], p1[o[i]]);
  double s = 0, s2 = 0, ws = 0, ws2 = 0, q = 0, wq = 0; for (j = 0; j < n2; j++) { double d = 0, e = 0; for (i = 0; i < n1; i++) { d += A[i][j]; e += Wt[i][j]; } s += d; s2 += d * d; ws += e; ws2 += e * e; }
  double *m[MAXN], mm[MAXN][MAXN]; double fq = 0; for (i = 0; i < n1; i++) { m[i] = mm[i]; for (j = 0; j < n1; j++) mm[i][j] = 0.125 * ((i * 7 + j * 3 + n1) % 11); } for (i = 0; i < n1; i++) for (j = 0; j < i; j++) mm[i][j] = mm[j][i];
  for (i = 0; i < n1; i++) for (j = 0; j < n1; j++) if (i != j && w[i] == w[j]) { double d = 0, e = 0, f = 0, h = 0; for (k = 0; k < n2; k++) { d += A[i][k]; e += A[j][k]; f += Wt[i][k]; h += Wt[j][k]; } q += com(i, j) / (s2 - s) - d * e / (s * s); wq += prod(i, j) / (ws2 - ws) - f * h / (ws * ws); if (i < j) fq += mm[i][j]; }
  if (s2 - s > 0) { double r = ModularityBipart(B, part); if (!near_(r, q)) bug("modularity is %g instead of %g", r, q); } if (fabs(ws2 - ws) > 1e-3 && ws > 0) { double r = ModularityBipartWeighted(B, part); if (!near_(r, wq)) bug("weighted modularity is %g instead of %g", r, wq); } double r = ModularityBipartWeightedFast(B, part, m); if (!near_(r, fq)) bug("modularity from the table is %g instead of %g", r, fq);
  RemovePartition(part); }
static void c17(void){
  mk(1, 8, 1); h_nontrivial++; int ops = 2 + rnd(4), i, j, k; same("building", B, 1); counts();
  while (ops--) { k = rnd(8);
    if (k == 0) { note(" project"); projected("projection", ProjectBipart(B), 0); } else if (k == 1) { note(" projectW"); projected("weighted projection", ProjectBipartWeighted(B), 1); }
    else if (k == 2) { note(" invert"); struct node_gra *a = B->net1, *b = B->net2; if (InvertBipart(B) != B || B->net1 != b || B->net2 != a) bug("inverting does not exchange the sides"); swapsides(); }
    else if (k == 3) { note(" copy"); struct binet *c = CopyBipart(B); same("copy", c, 1); struct node_gra *a = B->net1, *b = c->net1; while (a && b) { if (a == b || a->neig == b->neig && a->neig) bug("the copy shares storage"); a = a->next; b = b->next; } if (rnd(2)) { RemoveBipart(B); B = c; struct node_gra *q = B->net1; for (i = 0; i < n1; i++) p1[i] = q = q->next; q = B->net2; for (i = 0; i < n2; i++) p2[i] = q = q->next; } else RemoveBipart(c); }
    else if (k == 4) { int s = rnd(2); if ((s ? n2 : n1) < 2) continue; i = rnd(s ? n2 : n1); note(" remove%d %d", s + 1, i); RemoveNodeBipart(B, s ? l2[i] : l1[i], s + 1); if (s) swapsides(); for (; i + 1 < n1; i++) { memcpy(l1[i], l1[i + 1], 90); p1[i] = p1[i + 1]; for (j = 0; j < MAXN; j++) { A[i][j] = A[i + 1][j]; Wt[i][j] = Wt[i + 1][j]; } } n1--; for (j = 0; j < MAXN; j++) A[n1][j] = 0, Wt[n1][j] = 0; if (s) swapsides(); }
    else if (k == 5) modularity();
    else if (k == 6) { int d1[MAXN] = {0}, d2[MAXN] = {0}, L = 0, ok = 0, m; for (i = 0; i < n1; i++) for (j = 0; j < n2; j++) if (A[i][j]) { L++; d1[i]++; d2[j]++; } 
      for (i = 0; i < n1; i++) for (j = 0; j < n2; j++) if (A[i][j]) for (k = 0; k < n1; k++) for (m = 0; m < n2; m++) if (A[k][m] && i != k && j != m && !A[i][m] && !A[k][j]) ok = 1; for (i = 0; i < n1; i++) for (j = 0; j < n2; j++) if (d1[i] && d2[j] && d1[i] + d2[j] - 1 >= L) ok = 0; if (!ok) continue;
      note(" randomize"); gsl_rng *gg = h_gsl(); if (RandomizeBipart(B, 0.3 * (1 + rnd(6)), gg) != B) bug("randomizing gives another network"); gsl_rng_free(gg); memset(A, 0, sizeof A); memset(Wt, 0, sizeof Wt); for (i = 0; i < n1; i++) { struct node_lis *l = p1[i]->neig; while ((l = l->next)) { for (j = 0; j < n2 && p2[j] != l->ref; j++); if (j == n2) bug("randomizing links node %d to a stranger", i); if (A[i][j]++) bug("randomizing gives two links %d-%d", i, j); Wt[i][j] = l->weight; d1[i]--; d2[j]--; } } for (i = 0; i < n1; i++) if (d1[i]) bug("randomizing changes the degree of node %d", i); for (j = 0; j < n2; j++) if (d2[j]) bug("randomizing changes the degree of team %d", j); 
      for (j = 0; j < n2; j++) for (i = 0; i < n1; i++) if (A[i][j]) { struct node_lis *l = p2[j]->neig; while ((l = l->next) && l->ref != p1[i]); if (!l) bug("randomizing leaves link %d-%d in one direction only", i, j); Wt[i][j] = l->weight; } }
    else { i = rnd(n1); j = rnd(n2); double w = 1 + rnd(3); if (A[i][j]) { note(" unlink %d-%d", i, j); if (rnd(2)) RemoveLink(p1[i], p2[j], 1); else RemoveLink(p2[j], p1[i], 1); A[i][j] = 0; Wt[i][j] = 0; } else { note(" link %d-%d", i, j); AddAdjacency(p1[i], p2[j], 0, 0, w, 0); AddAdjacency(p2[j], p1[i], 0, 0, w, 0); A[i][j] = 1; Wt[i][j] = w; } }
    same("later", B, 1); counts(); }
  RemoveBipart(B);
}
int main(int argc, char **argv){ return h_main(argc, argv, c17); }
