/* Sampling of group assignments (src/missing.c, src/recommend.c): real code against counts and energies computed from scratch. */
#include "common.h"
#include <search.h>
#include <gsl/gsl_vector.h>
#include "tools.h"
#include "graph.h"
#include "modules.h"
#include "bipartite.h"
#include "recommend.h"
#include "missing.h"
#define MAXN 12
static double lf(int n){ return lgamma(n + 1.); } static double lc(int n, int k){ return lf(n) - lf(k) - lf(n - k); }
static int n, A[MAXN][MAXN], R[MAXN][MAXN]; static struct node_gra *root, *nl[MAXN]; static struct group *part, *gl[MAXN];
static int n2; static struct node_gra *nl2[MAXN]; static struct group *part2, *gl2[MAXN]; static struct binet *B;
static void groups(struct group **pp, struct group **g, struct node_gra **v, int m){ struct group *l; l = *pp = CreateHeaderGroup(); for (int i = 0; i < m; i++) l = g[i] = CreateGroup(l, i); int k = rnd(5), f = 1 + rnd(m), off = rnd(m); note(" groups"); int o[MAXN]; for (int i = 0; i < m; i++) o[i] = i; if (rnd(2)) for (int i = m; i-- > 1;) { int j = rnd(i + 1), t = o[i]; o[i] = o[j]; o[j] = t; } for (int x = 0; x < m; x++) { int i = o[x], w = k == 0 ? off : k == 1 ? i : k == 2 ? (i + off) % m : (rnd(f) + off) % m; note(" %d:%d", i, w); AddNodeToGroup(g[w], v[i]); } }
/* membership and books of the groups, from scratch */
static int wh[MAXN], wh2[MAXN], sz[MAXN], sz2[MAXN];
static void books(const char *w, struct group **g, struct node_gra **v, int m, int *where, int *size){ int c[MAXN] = {0}; for (int i = 0; i < m; i++) where[i] = -1; for (int k = 0; k < m; k++) { int s = 0; struct node_lis *l = g[k]->nodeList; while ((l = l->next)) { int i = l->ref->num; if (i < 0 || i >= m || v[i] != l->ref) bug("%s: a stranger in group %d", w, k); if (c[i]++) bug("%s: node %d in two groups", w, i); where[i] = k; s++; if (l->ref->inGroup != k) bug("%s: node %d names group %d instead of %d", w, i, l->ref->inGroup, k); } if (g[k]->size != s) bug("%s: group %d has size %d instead of %d", w, k, g[k]->size, s); size[k] = s; } for (int i = 0; i < m; i++) if (where[i] < 0) bug("%s: node %d is in no group", w, i); }
static int links(int a, int b){ int c = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (wh[i] == a && wh[j] == b && A[i][j]) c++; return a == b ? c / 2 : c; }
static double energy(double linC){ double H = 0; int ng = 0; for (int a = 0; a < n; a++) if (sz[a]) { ng++; int r = sz[a] * (sz[a] - 1) / 2; H += log(r + 1.) + lc(r, links(a, a)); for (int b = a + 1; b < n; b++) if (sz[b]) { r = sz[a] * sz[b]; H += log(r + 1.) + lc(r, links(a, b)); } } return H + linC * ng - lf(n - ng); }
static int rl(int a, int b, int k){ int c = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (wh[i] == a && wh[j] == b && A[i][j] && R[i][j] == k) c++; return a == b ? c / 2 : c; }
static double energyK(int K){ double H = 0; int ng = 0; for (int a = 0; a < n; a++) { ng += sz[a] > 0; for (int b = a; b < n; b++) { int t = 0; for (int k = 0; k < K; k++) { int c = rl(a, b, k); t += c; H -= lf(c); } H += lf(t + K - 1); } } return H - lf(n - ng); }
static int close_(double a, double b){ return fabs(a - b) <= 1e-7 * (1 + fabs(a) + fabs(b)); }
static void mk(int K){ n = 2 + rnd(7); memset(A, 0, sizeof A); memset(R, 0, sizeof R); root = CreateHeaderGraph(); struct node_gra *t = root; char b[30]; for (int i = 0; i < n; i++) { sprintf(b, "n%d", i * 7); t = nl[i] = CreateNodeGraph(t, b); } double p = rnd(5) == 0 ? rnd(2) : rndu(); note("%d nodes", n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (rndu() < p) { A[i][j] = A[j][i] = 1; int w = K ? rnd(K) : 1; R[i][j] = R[j][i] = w; note(" %d-%d", i, j); if (K) note(":%d", w); AddAdjacency(nl[i], nl[j], 0, 0, w, 1); AddAdjacency(nl[j], nl[i], 0, 0, w, 1); } }
static void c21(void){
  int kind = rnd(5), K = kind == 4 ? 1 + rnd(3) : 0, i, j, k; h_nontrivial++; note(kind == 4 ? "K-state step, " : kind >= 2 ? "Gibbs step, " : "step, "); mk(K); groups(&part, gl, nl, n); books("start", gl, nl, n, wh, sz); gsl_rng *g = h_gsl(); int steps = 1 + rnd(3), factor = 1 + rnd(3); double linC = rnd(2) ? 0 : 3 * rndu() - 1; note("; linC %g, %d steps", linC, steps);
  int cs = rnd(3) ? 60 : 1 + rnd(8), fs = rnd(3) ? 60 : 1 + rnd(8); double **LC = InitializeFastLogChoose(cs), *LF = InitializeFastLogFact(fs), *LL = InitializeFastLog(50);
  if (kind == 4) { double H = LSHKState(K, part); if (!close_(H, energyK(K))) bug("energy is %g instead of %g", H, energyK(K)); int ***GG = malloc(K * sizeof *GG), ***NG = malloc(K * sizeof *NG), ng = NNonEmptyGroups(part); for (k = 0; k < K; k++) { GG[k] = allocate_i_mat(n, n); NG[k] = allocate_i_mat(n, n); for (i = 0; i < n; i++) for (j = 0; j < n; j++) { GG[k][i][j] = NWeightG2GLinks(gl[i], gl[j], k); NG[k][i][j] = NWeightLinksToGroup(nl[i], gl[j], k); } }
    while (steps--) { LSMCStepKState(K, factor, &H, nl, gl, part, n, &ng, &NG, &GG, LL, 50, LF, fs, g); books("after a step", gl, nl, n, wh, sz); int c = 0; for (i = 0; i < n; i++) c += sz[i] > 0; if (c != ng) bug("%d non-empty groups instead of %d", ng, c); for (k = 0; k < K; k++) for (i = 0; i < n; i++) for (j = 0; j < n; j++) { if (GG[k][i][j] != rl(i, j, k)) bug("count %d of groups %d and %d is %d instead of %d", k, i, j, GG[k][i][j], rl(i, j, k)); int t = 0; for (int x = 0; x < n; x++) t += A[i][x] && R[i][x] == k && wh[x] == j; if (NG[k][i][j] != t) bug("count %d of node %d and group %d is %d instead of %d", k, i, j, NG[k][i][j], t); } if (!close_(H, energyK(K))) bug("energy carried along is %g, computed afresh %g", H, energyK(K)); double h = LSHKState(K, part); if (!close_(h, energyK(K))) bug("energy is %g instead of %g", h, energyK(K)); } for (k = 0; k < K; k++) { free_i_mat(GG[k], n); free_i_mat(NG[k], n); } free(GG); free(NG); }
  else { double H = PartitionH(part, linC); if (!close_(H, energy(linC))) bug("energy is %g instead of %g", H, energy(linC)); int **G2G = allocate_i_mat(n, n), *n2g = allocate_i_vec(n); for (i = 0; i < n; i++) for (j = 0; j < n; j++) G2G[i][j] = i == j ? gl[i]->inlinks : NG2GLinks(gl[i], gl[j]); for (i = 0; i < n; i++) n2g[i] = 0;
    while (steps--) { if (kind < 2) LinkScoreMCStep(factor, &H, linC, nl, gl, part, n, G2G, n2g, LC, cs, LF, fs, g); else GibbsLinkScoreStep(&H, linC, nl, gl, part, n, G2G, n2g, LC, cs, LF, fs, g); books("after a step", gl, nl, n, wh, sz); for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (G2G[i][j] != links(i, j)) bug("link count of groups %d and %d is %d instead of %d", i, j, G2G[i][j], links(i, j)); for (i = 0; i < n; i++) if (gl[i]->inlinks != links(i, i)) bug("group %d has %d internal links instead of %d", i, gl[i]->inlinks, links(i, i)); if (!close_(H, energy(linC))) bug("energy carried along is %.12g, computed afresh %.12g", H, energy(linC)); double h = PartitionH(part, linC); if (!close_(h, energy(linC))) bug("energy is %g instead of %g", h, energy(linC)); } free_i_mat(G2G, n); free_i_vec(n2g); }
  FreeFastLogChoose(LC, cs); FreeFastLogFact(LF); FreeFastLog(LL); gsl_rng_free(g); RemovePartition(part); RemoveGraph(root);
}
/* ---- recommender */
static int T[MAXN][MAXN], L[MAXN][MAXN]; /* T: observed, L: rating */
static void mkb(int K){ n = 2 + rnd(6); n2 = 2 + rnd(6); memset(T, 0, sizeof T); B = CreateBipart(); B->net1 = CreateHeaderGraph(); B->net2 = CreateHeaderGraph(); struct node_gra *t = B->net1; char b[30]; int i, j; for (i = 0; i < n; i++) { sprintf(b, "p%d", i); t = nl[i] = CreateNodeGraph(t, b); } t = B->net2; for (i = 0; i < n2; i++) { sprintf(b, "m%d", i); t = nl2[i] = CreateNodeGraph(t, b); } double p = rnd(5) == 0 ? rnd(2) : rndu(); note("%d by %d", n, n2); for (i = 0; i < n; i++) for (j = 0; j < n2; j++) if (rndu() < p) { T[i][j] = 1; L[i][j] = rnd(K); note(" %d-%d:%d", i, j, L[i][j]); AddAdjacency(nl[i], nl2[j], 0, 0, L[i][j], 1); AddAdjacency(nl2[j], nl[i], 0, 0, L[i][j], 1); } }
static int gg(int a, int b, int k){ int c = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n2; j++) c += T[i][j] && L[i][j] == k && wh[i] == a && wh2[j] == b; return c; }
static int ngr(int i, int b, int k){ int c = 0; for (int j = 0; j < n2; j++) c += T[i][j] && L[i][j] == k && wh2[j] == b; return c; } static int ngc(int j, int a, int k){ int c = 0; for (int i = 0; i < n; i++) c += T[i][j] && L[i][j] == k && wh[i] == a; return c; }
static double e2(int K, int two){ double H = 0; int a, b, k, c1 = 0, c2 = 0; for (a = 0; a < n; a++) { c1 += sz[a] > 0; for (b = 0; b < n2; b++) { int t = 0; for (k = 0; k < K; k++) { t += gg(a, b, k); if (!two) H -= lf(gg(a, b, k)); } H += two ? log(t + 1.) + lc(t, gg(a, b, 1)) : lf(t + K - 1); } } for (b = 0; b < n2; b++) c2 += sz2[b] > 0; return H - lf(n - c1) - lf(n2 - c2); }
static void unobserved(void){ int c = 0, i, j, u; for (i = 0; i < n; i++) for (j = 0; j < n2; j++) c += !T[i][j]; u = CountUnobserved(B); if (u != c) bug("%d unobserved pairs instead of %d", u, c); struct query **q = BuildUnobservedSet(B); int s[MAXN][MAXN]; memset(s, 0, sizeof s); for (int x = 0; x < c; x++) { i = q[x]->n1->num; j = q[x]->n2->num; if (i >= n || j >= n2 || nl[i] != q[x]->n1 || nl2[j] != q[x]->n2) bug("unobserved pair with strangers"); if (T[i][j]) bug("observed pair %d-%d in the unobserved set", i, j); if (s[i][j]++) bug("pair %d-%d twice in the unobserved set", i, j); FreeQuery(q[x]); } free(q); }
static void c28(void){
  int kind = rnd(5), K = kind == 0 ? 2 : 1 + rnd(4), i, j, k; h_nontrivial++; note(kind == 0 ? "2-state, " : "K=%d kind %d, ", K, kind); mkb(K); unobserved();
  if (kind == 4) { while (rnd(3)) { int r = rnd(K + 1); note(" remove rating %d", r); RemoveRatings(B, r); for (i = 0; i < n; i++) for (j = 0; j < n2; j++) if (T[i][j] && L[i][j] == r) T[i][j] = 0; for (i = 0; i < n; i++) { int c = 0; struct node_lis *l = nl[i]->neig; while ((l = l->next)) { c++; j = l->ref->num; if (!T[i][j] || l->weight != L[i][j]) bug("rating %d-%d after removal", i, j); } for (j = 0; j < n2; j++) c -= T[i][j]; if (c) bug("person %d lost or kept %d ratings too many", i, c); } for (j = 0; j < n2; j++) { int c = 0; struct node_lis *l = nl2[j]->neig; while ((l = l->next)) { c++; i = l->ref->num; if (!T[i][j] || l->weight != L[i][j]) bug("rating %d-%d after removal (other side)", i, j); } for (i = 0; i < n; i++) c -= T[i][j]; if (c) bug("item %d lost or kept %d ratings", j, c); } unobserved(); } RemoveBipart(B); return; }
  groups(&part, gl, nl, n); groups(&part2, gl2, nl2, n2); books("start", gl, nl, n, wh, sz); books("start", gl2, nl2, n2, wh2, sz2); gsl_rng *g = h_gsl(); int steps = 1 + rnd(3), factor = 1 + rnd(2), fs = rnd(3) ? 60 : 1 + rnd(8), cs = rnd(3) ? 60 : 1 + rnd(8), ls = rnd(2) ? 60 : 1 + rnd(6); double **LC = InitializeFastLogChoose(cs), *LF = InitializeFastLogFact(fs), *LL = InitializeFastLog(ls); int two = kind == 0; double H = two ? H2State(part, part2) : HKState(K, part, part2); if (!close_(H, e2(K, two))) bug("energy is %g instead of %g", H, e2(K, two));
  int **N1[4], **N2[4], **G1[4], **G2[4], c1 = NNonEmptyGroups(part), c2 = NNonEmptyGroups(part2); for (k = 0; k < K; k++) { N1[k] = allocate_i_mat(n, n2); N2[k] = allocate_i_mat(n2, n); G1[k] = allocate_i_mat(n, n2); G2[k] = allocate_i_mat(n2, n); for (i = 0; i < n; i++) for (j = 0; j < n2; j++) { N1[k][i][j] = NWeightLinksToGroup(nl[i], gl2[j], k); N2[k][j][i] = NWeightLinksToGroup(nl2[j], gl[i], k); G1[k][i][j] = G2[k][j][i] = NWeightG2GLinks(gl[i], gl2[j], k); } }
  while (steps--) { if (two) MCStep2State(factor, &H, nl, nl2, gl, gl2, part, part2, n, n2, &c1, &c2, N1[0], N2[0], N1[1], N2[1], G1[0], G2[0], G1[1], G2[1], LL, ls, LC, cs, LF, fs, g); else if (kind < 3) MCStepKState(K, factor, &H, nl, nl2, gl, gl2, part, part2, n, n2, &c1, &c2, N1, N2, G1, G2, LL, ls, LF, fs, g); else GibbsStepKState(K, &H, nl, nl2, gl, gl2, part, part2, n, n2, &c1, &c2, N1, N2, G1, G2, LL, ls, LF, fs, g);
    books("after a step", gl, nl, n, wh, sz); books("after a step (items)", gl2, nl2, n2, wh2, sz2); int a = 0, b = 0; for (i = 0; i < n; i++) a += sz[i] > 0; for (j = 0; j < n2; j++) b += sz2[j] > 0; if (a != c1 || b != c2) bug("%d/%d non-empty groups instead of %d/%d", c1, c2, a, b);
    for (k = 0; k < K; k++) for (i = 0; i < n; i++) for (j = 0; j < n2; j++) { if (G1[k][i][j] != gg(i, j, k) || G2[k][j][i] != gg(i, j, k)) bug("rating count %d of groups %d and %d is %d/%d instead of %d", k, i, j, G1[k][i][j], G2[k][j][i], gg(i, j, k)); if (N1[k][i][j] != ngr(i, j, k)) bug("rating count %d of person %d and group %d is %d instead of %d", k, i, j, N1[k][i][j], ngr(i, j, k)); if (N2[k][j][i] != ngc(j, i, k)) bug("rating count %d of item %d and group %d is %d instead of %d", k, j, i, N2[k][j][i], ngc(j, i, k)); }
    if (!close_(H, e2(K, two))) bug("energy carried along is %.12g, computed afresh %.12g", H, e2(K, two)); double h = two ? H2State(part, part2) : HKState(K, part, part2); if (!close_(h, e2(K, two))) bug("energy is %g instead of %g", h, e2(K, two)); }
  for (k = 0; k < K; k++) { free_i_mat(N1[k], n); free_i_mat(N2[k], n2); free_i_mat(G1[k], n); free_i_mat(G2[k], n2); } FreeFastLogChoose(LC, cs); FreeFastLogFact(LF); FreeFastLog(LL); gsl_rng_free(g); RemovePartition(part); RemovePartition(part2); RemoveBipart(B);
}
int main(int argc, char **argv){ return h_main(argc, argv, strcmp(argv[1], "C21") ? c28 : c21); }
