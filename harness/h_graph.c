/* Networks as linked lists (src/graph.c, src/matrix.c, src/models.c): real code against plain arrays. */
#include "common.h"
#include <gsl/gsl_vector.h>
#include "tools.h"
#include "graph.h"
#include "matrix.h"
#include "models.h"
#define MAXN 24
static int n, sym; static int A[MAXN][MAXN]; static double Wt[MAXN][MAXN]; static struct node_gra *net, *nd[MAXN]; static char lab[MAXN][40];
static void mklabels(void){ for (int i = 0; i < n; i++) snprintf(lab[i], 40, rnd(3) ? "n%d" : rnd(2) ? "%d" : "a-%d_x", rnd(2) ? i : 1000 - 37 * i); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (!strcmp(lab[i], lab[j])) snprintf(lab[i], 40, "u%dz", i); }
static double rw(void){ if (rnd(8) == 0) return rnd(2) ? 0 : -0.5 * (1 + rnd(4)); return rnd(3) ? 1 + rnd(4) : 0.25 * (1 + rnd(20)); }
static void mknodes(int N){ n = N; mklabels(); memset(A, 0, sizeof A); memset(Wt, 0, sizeof Wt); net = CreateHeaderGraph(); struct node_gra *l = net; for (int i = 0; i < n; i++) l = nd[i] = CreateNodeGraph(rnd(2) ? l : net, lab[i]); note("%d nodes%s;", n, sym ? "" : " directed"); }
static void put(int i, int j, double w){ if (A[i][j]) return; A[i][j] = 1; Wt[i][j] = w; AddAdjacency(nd[i], nd[j], 1, 0, w, 0); if (sym && i != j) { A[j][i] = 1; Wt[j][i] = w; AddAdjacency(nd[j], nd[i], 1, 0, w, 0); } note(" %d-%d:%g", i, j, w); }
static void mknet(int lo, int hi, int self, double p){ mknodes(lo + rnd(hi - lo + 1)); int unit = rnd(2); for (int i = 0; i < n; i++) for (int j = sym ? i : 0; j < n; j++) if ((self || i != j) && rndu() < p) put(i, j, unit ? 1 : rw()); }
static double dens(void){ int k = rnd(6); return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? .12 : rndu(); }
static int by(struct node_gra *g[], int N, struct node_gra *x){ for (int i = 0; i < N; i++) if (g[i] == x) return i; return -1; }
/* the network root has exactly the nodes g[0..N) in this order and the links A, weights W */
static void same_net(const char *w, struct node_gra *root, struct node_gra *g[], int N, int (*a)[MAXN], double (*wt)[MAXN], int nums){
  struct node_gra *p = root; int i = 0;
  while ((p = p->next)) { if (i >= N || p != g[i]) bug("%s: node list is wrong at position %d", w, i); i++; }
  if (i != N) bug("%s: %d nodes instead of %d", w, i, N);
  for (i = 0; i < N; i++) { int seen[MAXN] = {0}; struct node_lis *l = g[i]->neig;
    while ((l = l->next)) { int j = by(g, N, l->ref); if (j < 0) bug("%s: a link of node %d leads to no node of the network", w, i); if (seen[j]++) bug("%s: link %d-%d is there twice", w, i, j); if (!a[i][j]) bug("%s: link %d-%d should not be there", w, i, j);
      if (wt && !near_(l->weight, wt[i][j])) bug("%s: link %d-%d has weight %g instead of %g", w, i, j, l->weight, wt[i][j]);
      if (nums && l->node != g[j]->num) bug("%s: link %d-%d holds number %d instead of %d", w, i, j, l->node, g[j]->num);
      if (strcmp(l->nodeLabel, g[j]->label)) bug("%s: link %d-%d holds label %s instead of %s", w, i, j, l->nodeLabel, g[j]->label); }
    for (int j = 0; j < N; j++) if (a[i][j] && !seen[j]) bug("%s: link %d-%d is missing", w, i, j); }
}
static void cur(const char *w){ same_net(w, net, nd, n, A, Wt, 1); }
static int odeg(int i){ int k = 0; for (int j = 0; j < n; j++) k += A[i][j]; return k; }
static double ostr(int i){ double k = 0; for (int j = 0; j < n; j++) if (A[i][j]) k += Wt[i][j]; return k; }
static void queries(const char *w, int i){ if ((int)NodeDegree(nd[i]) != odeg(i)) bug("%s: degree of node %d is %u instead of %d", w, i, NodeDegree(nd[i]), odeg(i)); if (!near_(NodeStrength(nd[i]), ostr(i))) bug("%s: strength of node %d is %g instead of %g", w, i, NodeStrength(nd[i]), ostr(i)); }
static void allq(const char *w){ for (int i = 0; i < n; i++) { queries(w, i); queries(w, i); } }
static void drop(void){ RemoveGraph(net); }
static int nlinks(void){ int c = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c += A[i][j]; return c; }
static void reread(const char *w){ /* take the links as they are now (must be well formed) */
  memset(A, 0, sizeof A); memset(Wt, 0, sizeof Wt); for (int i = 0; i < n; i++) { struct node_lis *l = nd[i]->neig; while ((l = l->next)) { int j = by(nd, n, l->ref); if (j < 0) bug("%s: dangling link", w); if (A[i][j]) bug("%s: link %d-%d twice", w, i, j); A[i][j] = 1; Wt[i][j] = l->weight; } } cur(w); }
static void c12(void){
  sym = rnd(2); mknet(1, 8, rnd(2), dens()); h_nontrivial++; cur("building"); allq("building");
  int ops = 5 + rnd(30), soft = 0;
  while (ops--) { int k = rnd(20), i = rnd(n), j = rnd(3) ? rnd(n) : i; double w = rw();
    if (k < 8) { int self = rnd(2), addw = rnd(2); note(" add %d>%d self%d addw%d %g", i, j, self, addw, w); int r = AddAdjacency(nd[i], nd[j], self, addw, w, rnd(3)), e;
      if (i == j && !self) e = 0; else if (A[i][j]) { e = addw; if (addw) Wt[i][j] += w; } else { e = 1; A[i][j] = 1; Wt[i][j] = w; }
      if (r != e) bug("adding link %d-%d answers %d instead of %d", i, j, r, e); cur("adding a link");
      if (sym && i != j) { r = AddAdjacency(nd[j], nd[i], self, addw, w, 0); if (A[j][i]) { if (addw) Wt[j][i] += w; } else { A[j][i] = 1; Wt[j][i] = w; } cur("adding the link back"); } }
    else if (k < 12) { int s = sym || rnd(2); if (!A[i][j] || (s && !A[j][i])) continue; note(" del %d>%d sym%d", i, j, s); RemoveLink(nd[i], nd[j], s); A[i][j] = 0; if (s) A[j][i] = 0; cur("removing a link"); }
    else if (k == 12) { int m = 1 + rnd(4); note(" soft"); while (m--) { i = rnd(n); j = rnd(n); int self = rnd(2), addw = rnd(2); w = rw(); note(" %d>%d self%d addw%d %g", i, j, self, addw, w); int e, r = AddAdjacencySoft(nd[i], lab[j], self, addw, w, 0); if (i == j && !self) e = 0; else if (A[i][j]) { e = addw; if (addw) Wt[i][j] += w; } else { e = 1; A[i][j] = 1; Wt[i][j] = w; } if (r != e) bug("adding a link by label answers %d instead of %d", r, e); if (sym && i != j) { AddAdjacencySoft(nd[j], lab[i], self, addw, w, 0); if (A[j][i]) { if (addw) Wt[j][i] += w; } else { A[j][i] = 1; Wt[j][i] = w; } } } RewireAdjacencyByLabel(net); cur("rewiring by label"); }
    else if (k == 13) { note(" rewireNum"); RewireAdjacencyByNum(net); cur("rewiring by number"); }
    else if (k == 14) { note(" clean"); CleanAdjacencies(net); cur("cleaning"); }
    else if (k == 15) { int loops = 0; for (i = 0; i < n; i++) loops += A[i][i]; int t = nlinks(); if (loops) continue; int s = sym ? 1 : 0; if (sym) t /= 2; if (!t) continue; int q = rnd(t + 1); note(" removeRandom %d", q); int (*o)[MAXN] = malloc(sizeof A); memcpy(o, A, sizeof A); double (*ow)[MAXN] = malloc(sizeof Wt); memcpy(ow, Wt, sizeof Wt); gsl_rng *g = h_gsl(); RemoveRandomLinks(net, q, s, g); gsl_rng_free(g); reread("removing random links"); if (nlinks() != (t - q) * (s ? 2 : 1)) bug("removing %d random links leaves %d link ends of %d", q, nlinks(), t); for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (A[i][j]) { if (!o[i][j] || !near_(ow[i][j], Wt[i][j])) bug("removing random links changed link %d-%d", i, j); if (s && !A[j][i]) bug("removing random links left a one-way link"); } free(o); free(ow); }
    else if (k == 16) { int fr = 0; for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j && !A[i][j] && (!sym || j > i)) fr++; if (!fr || (!sym && n < 2)) continue; int q = 1 + rnd(fr > 4 ? 4 : fr); note(" addRandom %d", q); int t = nlinks(), s = sym ? 1 : 0; int (*o)[MAXN] = malloc(sizeof A); memcpy(o, A, sizeof A); gsl_rng *g = h_gsl(); AddRandomLinks(net, q, s, g); gsl_rng_free(g); reread("adding random links"); for (i = 0; i < n; i++) for (j = 0; j < n; j++) { if (o[i][j] && !A[i][j]) bug("adding random links removed link %d-%d", i, j); if (s && A[i][j] != A[j][i]) bug("adding random links left a one-way link"); if (i == j && A[i][j] != o[i][j]) bug("adding random links made a self link"); } if (nlinks() != t + q * (s ? 2 : 1)) bug("adding %d random links changed the number of link ends from %d to %d", q, t, nlinks()); free(o); }
    else { int x = IsThereLink(nd[i], nd[j]); if (x != A[i][j]) bug("IsThereLink(%d,%d) is %d", i, j, x); x = IsThereLinkSoft(nd[i], nd[j]->num); if (x != A[i][j]) bug("IsThereLinkSoft(%d,%d) is %d", i, j, x); if (A[i][j]) { struct node_lis *l = GetLink(nd[i], nd[j]->num); if (!l || l->ref != nd[j] || !near_(l->weight, Wt[i][j])) bug("GetLink(%d,%d) gives another link", i, j); } }
    if (rnd(2)) queries("later", rnd(n)); if (rnd(4) == 0) allq("later"); (void)soft; }
  allq("end"); cur("end"); drop();
}
static void c13(void){
  sym = rnd(2); mknet(rnd(4) ? 1 : 0, 9, rnd(2), dens()); h_nontrivial++; int i, j, k; double *f[MAXN]; (void)f;
  if (CountNodes(net) != n) bug("CountNodes is %d instead of %d", CountNodes(net), n);
  for (k = 0; k < 2; k++) { int t = nlinks(); if (TotalNLinks(net, 0) != t) bug("TotalNLinks is %d instead of %d", TotalNLinks(net, 0), t); if (TotalNLinks(net, 1) != t / 2) bug("TotalNLinks of an undirected network is %d instead of %d", TotalNLinks(net, 1), t / 2); if (n) { if (!near_(AverageDegree(net, 0), (double)t / n)) bug("AverageDegree is %g", AverageDegree(net, 0)); int loops = 0; for (i = 0; i < n; i++) loops += A[i][i]; if (sym && !loops && !near_(AverageDegree(net, 1), (double)t / n)) bug("AverageDegree of an undirected network is %g instead of %g", AverageDegree(net, 1), (double)t / n);
      double s = 0; for (i = 0; i < n; i++) s += odeg(i) * odeg(i); if (!near_(AverageSquaredDegree(net), s / n)) bug("AverageSquaredDegree is %.12g instead of %.12g", AverageSquaredDegree(net), s / n); }
    if (n) { i = rnd(n); j = rnd(n); if (i != j && !A[i][j] && !A[j][i]) put(i, j, rw()); } }
  for (i = 0; i < n; i++) { nd[i]->coorX = rnd(100); nd[i]->coorY = rnd(100) / 4.0; nd[i]->coorZ = -rnd(100); nd[i]->state = rnd(5); nd[i]->ivar1 = rnd(9); nd[i]->inGroup = rnd(6) - 1; nd[i]->dvar1 = rnd(50) * .5; struct node_lis *l = nd[i]->neig; while ((l = l->next)) l->status = rnd(7); }
  struct node_gra *c = CopyNetwork(net), *p = c, *cn[MAXN]; k = 0; while ((p = p->next)) { if (k >= n) bug("the copy has more nodes"); cn[k++] = p; } if (k != n) bug("the copy has %d nodes instead of %d", k, n);
  for (i = 0; i < n; i++) { struct node_gra *a = nd[i], *b = cn[i]; if (a == b || a->label == b->label) bug("the copy shares storage"); if (strcmp(a->label, b->label)) bug("node %d of the copy is called %s instead of %s", i, b->label, a->label); if (b->num != i) bug("node %d of the copy has number %d", i, b->num); if (a->coorX != b->coorX || a->coorY != b->coorY || a->coorZ != b->coorZ) bug("coordinates of node %d are not copied", i); if (a->state != b->state || a->ivar1 != b->ivar1 || a->inGroup != b->inGroup || a->dvar1 != b->dvar1) bug("state, group or variables of node %d are not copied", i);
    if ((int)NodeDegree(b) != odeg(i) || !near_(NodeStrength(b), ostr(i))) bug("degree or strength of node %d of the copy is wrong", i);
    struct node_lis *x = a->neig->next, *y = b->neig->next; while (x && y) { if (x == y || x->nodeLabel == y->nodeLabel) bug("the copy shares links"); if (x->status != y->status) bug("link status of node %d is not copied", i); if (by(nd, n, x->ref) != by(cn, n, y->ref)) bug("links of node %d are in another order or lead elsewhere", i); x = x->next; y = y->next; } if (x || y) bug("node %d of the copy has another number of links", i); }
  same_net("copy", c, cn, n, A, Wt, 1); cur("original after copying");
  if (rnd(2) && n) { i = rnd(n); j = rnd(n); note(" change copy"); if (A[i][j]) RemoveLink(cn[i], cn[j], 0); else AddAdjacency(cn[i], cn[j], 1, 0, 7, 0); cn[i]->label[0] = '!'; cur("original after the copy changed"); cn[i]->label[0] = lab[i][0]; RemoveGraph(c); cur("original after the copy was removed"); }
  else { RemoveGraph(net); same_net("copy after the original was removed", c, cn, n, A, Wt, 1); net = c; for (i = 0; i < n; i++) nd[i] = cn[i]; }
  void *d = MakeLabelDict(net); for (i = 0; i < n; i++) if (GetNodeDict(lab[i], d) != nd[i]) bug("GetNodeDict finds another node for %s", lab[i]); if (GetNodeDict("nobody", d)) bug("GetNodeDict finds a node that is not there"); FreeLabelDict(d);
  for (i = 0; i < n; i++) { char b[50]; strcpy(b, lab[i]); if (IsThereNode(b, net) != 1) bug("IsThereNode does not find node %s", b); if (GetNode(i, net) != nd[i]) bug("GetNode(%d) finds another node", i); } if (IsThereNode("nobody", net)) bug("IsThereNode finds a node that is not there");
  for (i = 0; i < n; i++) nd[i]->num = rnd(1000); note(" renumber"); RenumberNodes(net); for (i = 0; i < n; i++) if (nd[i]->num != i) bug("renumbering gives node %d the number %d", i, nd[i]->num); cur("renumbering");
  if (rnd(2)) { /* sum of two networks */
    struct node_gra *b = CreateHeaderGraph(), *bn[MAXN]; int m = 1 + rnd(6), mp[MAXN], tot = n; char nl[40]; if (n + m > MAXN) m = 1; for (i = 0; i < m; i++) { int old = n && rnd(2) ? rnd(n) : -1; for (j = 0; j < i; j++) if (old >= 0 && mp[j] == old) old = -1; snprintf(nl, 40, "second%d", i); mp[i] = old >= 0 ? old : tot++; bn[i] = CreateNodeGraph(b, old >= 0 ? lab[old] : nl); }
    int S[MAXN][MAXN], com = 0, ca = 0, cb = 0, cc = 0, B[MAXN][MAXN]; memset(B, 0, sizeof B); memcpy(S, A, sizeof S); for (i = 0; i < m; i++) for (j = 0; j < m; j++) if (i != j && rnd(3) == 0) { AddAdjacency(bn[i], bn[j], 0, 0, 1, 0); S[mp[i]][mp[j]] = 1; B[mp[i]][mp[j]] = 1; if (sym) { AddAdjacency(bn[j], bn[i], 0, 0, 1, 0); S[mp[j]][mp[i]] = B[mp[j]][mp[i]] = 1; } }
    note(" sum with %d nodes", m); struct node_gra *s = AddTwoNetworks(net, b), *sn[MAXN]; p = s; k = 0; while ((p = p->next)) { if (k >= tot) bug("the sum has too many nodes"); sn[k++] = p; } if (k != tot) bug("the sum has %d nodes instead of %d", k, tot); same_net("sum", s, sn, tot, S, 0, 1); cur("first summand");
    int inb[MAXN] = {0}; for (i = 0; i < m; i++) if (mp[i] < n) { com++; inb[mp[i]] = 1; } for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (inb[i] && inb[j]) { ca += A[i][j]; cb += B[i][j]; cc += A[i][j] && B[i][j]; }
    int q[6]; double pr[4]; if (n) { FILE *e = stderr; CompareTwoNetworks(net, b, q, q + 1, q + 2, pr, pr + 1, q + 3, q + 4, q + 5, pr + 2, pr + 3); (void)e; if (q[0] != n || q[1] != m || q[2] != com) bug("CompareTwoNetworks counts %d, %d and %d common nodes instead of %d, %d and %d", q[0], q[1], q[2], n, m, com); if (q[3] != ca / 2 || q[4] != cb / 2 || q[5] != cc / 2) bug("CompareTwoNetworks counts %d, %d and %d common links instead of %d, %d and %d", q[3], q[4], q[5], ca / 2, cb / 2, cc / 2); if (!near_(pr[0], (double)com / m) || !near_(pr[1], (double)com / n)) bug("CompareTwoNetworks: shares of common nodes"); }
    RemoveGraph(s); RemoveGraph(b); }
  if (sym) { /* isolated nodes */ int keep = 0, B[MAXN][MAXN]; double V[MAXN][MAXN]; int mpp[MAXN]; struct node_gra *kn[MAXN]; for (i = 0; i < n; i++) { mpp[i] = -1; if (odeg(i)) { kn[keep] = nd[i]; mpp[i] = keep++; } } memset(B, 0, sizeof B); for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (A[i][j]) { B[mpp[i]][mpp[j]] = 1; V[mpp[i]][mpp[j]] = Wt[i][j]; }
    note(" isolated"); int r = RemoveIsolatedNodes(net); if (r != n - keep) bug("RemoveIsolatedNodes answers %d instead of %d", r, n - keep); same_net("removing isolated nodes", net, kn, keep, B, V, 1); for (i = 0; i < keep; i++) if (kn[i]->num != i) bug("nodes are not numbered consecutively after removing isolated ones"); }
  drop();
}
static int R[MAXN][MAXN], D[MAXN][MAXN];
static void reach(int weak){ for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { R[i][j] = i == j || A[i][j] || (weak && A[j][i]); D[i][j] = i == j ? 0 : A[i][j] ? 1 : 1000; } for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (R[i][k] && R[k][j]) R[i][j] = 1; if (D[i][k] + D[k][j] < D[i][j]) D[i][j] = D[i][k] + D[k][j]; } }
static void comps(int strong, int *c, int *nc, int *mx){ int k = 0; *mx = 0; for (int i = 0; i < n; i++) c[i] = -1; for (int i = 0; i < n; i++) if (c[i] < 0) { int s = 0; for (int j = 0; j < n; j++) if (R[i][j] && (!strong || R[j][i])) { c[j] = k; s++; } if (s > *mx) *mx = s; k++; } *nc = k; }
static void is_comp(const char *w, struct node_gra *g, int *c, int size, int renum, int *whichp){
  struct node_gra *p = g, *gn[MAXN]; int id[MAXN], k = 0, comp = -1; while ((p = p->next)) { int x = -1; for (int i = 0; i < n; i++) if (!strcmp(lab[i], p->label)) x = i; if (x < 0) bug("%s: unknown node %s", w, p->label); for (int q = 0; q < k; q++) if (id[q] == x) bug("%s: node %s is there twice", w, p->label); if (comp >= 0 && c[x] != comp) bug("%s: nodes of different components", w); comp = c[x]; gn[k] = p; id[k++] = x; }
  int all = 0; for (int i = 0; i < n; i++) all += c[i] == comp; if (k != all) bug("%s: has %d of the %d nodes of the component", w, k, all); if (size >= 0 && k != size) bug("%s: has %d nodes, the largest component has %d", w, k, size);
  int B[MAXN][MAXN]; double V[MAXN][MAXN]; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { B[i][j] = A[id[i]][id[j]]; V[i][j] = Wt[id[i]][id[j]]; } same_net(w, g, gn, k, B, V, 1); if (renum) for (int i = 0; i < k; i++) if (gn[i]->num != i) bug("%s: nodes are not numbered consecutively", w); if (whichp) *whichp = comp; }
static void c14(void){
  sym = rnd(3) > 0; int k = rnd(4); mknet(1, 11, rnd(4) == 0, k == 0 ? dens() : (k == 1 ? .8 : k == 2 ? 1.3 : 2.2) / 6); h_nontrivial++; int c[MAXN], nc, mx, i, j;
  reach(0); if (sym) { comps(0, c, &nc, &mx); int r = IsGraphConnected(net); if (r != (nc == 1)) bug("IsGraphConnected is %d with %d components", r, nc); }
  else { int all = 1; for (j = 0; j < n; j++) all &= R[0][j]; int r = IsGraphConnected(net); if (r != all) bug("IsGraphConnected is %d", r); }
  cur("IsGraphConnected");
  for (k = 0; k < 3; k++) { int lis[MAXN], src = rnd(n), e = 0; for (i = 0; i < n; i++) lis[i] = rnd(4) == 0; lis[src] = 0; for (j = 0; j < n; j++) if (lis[j] && j != src && R[src][j]) e = 1; int r = AreConnectedList(net, nd[src], lis); if (r != e) bug("AreConnectedList from node %d is %d", src, r); }
  comps(1, c, &nc, &mx); int r = CountStronglyConnectedSets(net); if (r != nc) bug("CountStronglyConnectedSets is %d instead of %d", r, nc); cur("CountStronglyConnectedSets");
  struct node_gra *g = GetLargestStronglyConnectedSet(net, 100000); if (!g) bug("no largest strongly connected set"); is_comp("largest strongly connected set", g, c, mx, 1, 0); cur("GetLargestStronglyConnectedSet"); RemoveGraph(g); cur("network after the giant component was removed");
  struct node_gra *all[MAXN + 1]; r = GetAllConnectedSets(net, all); if (r != nc) bug("GetAllConnectedSets finds %d instead of %d", r, nc); int seen[MAXN] = {0}; for (i = 0; i < r; i++) { int w; is_comp("connected set", all[i], c, -1, 0, &w); if (seen[w]++) bug("a connected set is listed twice"); RemoveGraph(all[i]); } cur("GetAllConnectedSets");
  reach(1); comps(0, c, &nc, &mx); g = GetLargestWeaklyConnectedSet(net, 100000); if (!g) bug("no largest weakly connected set"); is_comp("largest weakly connected set", g, c, mx, 1, 0); cur("GetLargestWeaklyConnectedSet"); RemoveGraph(g);
  drop();
}
static void c20(void){
  sym = rnd(3) > 0; int self = rnd(4) == 0; mknet(1, 9, self, dens()); h_nontrivial++; int i, j, loops = 0; for (i = 0; i < n; i++) loops += A[i][i];
  int **M = AdjacencyMat(net); for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (M[i][j] != A[i][j]) bug("adjacency matrix has %d at %d,%d", M[i][j], i, j); free_i_mat(M, n); cur("AdjacencyMat");
  M = LaplacianMat(net); if (loops) { if (M) bug("a network with self links has a Laplacian"); drop(); return; } if (!M) bug("no Laplacian");
  double tr = 0, fr = 0; for (i = 0; i < n; i++) { int s = 0; for (j = 0; j < n; j++) { int e = i == j ? odeg(i) : -A[i][j]; if (M[i][j] != e) bug("Laplacian has %d at %d,%d instead of %d", M[i][j], i, j, e); s += M[i][j]; fr += (double)e * e; } tr += odeg(i); if (s) bug("row %d of the Laplacian sums to %d", i, s); } free_i_mat(M, n); cur("LaplacianMat");
  if (sym) { gsl_vector *v = LaplacianSpectrum(net); double s = 0, s2 = 0, l2 = -1; int z = 0, c[MAXN], nc, mx; reach(0); comps(0, c, &nc, &mx); for (i = 0; i < n; i++) { double x = gsl_vector_get(v, i); s += x; s2 += x * x; if (i && x < gsl_vector_get(v, i - 1) - 1e-9) bug("eigenvalues are not sorted"); if (x < -1e-8) bug("negative eigenvalue %g", x); if (fabs(x) < 1e-8) z++; else if (l2 < 0) l2 = x; } if ((int)v->size != n) bug("spectrum of size %d", (int)v->size); if (fabs(s - tr) > 1e-7) bug("eigenvalues add up to %g, the trace is %g", s, tr); if (fabs(s2 - fr) > 1e-6) bug("squared eigenvalues add up to %g instead of %g", s2, fr); if (z != nc) bug("%d zero eigenvalues, %d components", z, nc); double lN = gsl_vector_get(v, n - 1); gsl_vector_free(v); if (nc == 1 && n > 1 && l2 > 1e-6) { double q = Synchronizability(net); if (fabs(q - lN / l2) > 1e-7 * (1 + q)) bug("synchronizability is %g instead of %g", q, lN / l2); } cur("LaplacianSpectrum"); }
  drop();
}
static void kind(const char *w, struct node_gra *g, int N, double p){ /* promised kind */
  struct node_gra *q = g, *x[400]; int k = 0; while ((q = q->next)) { if (k >= N) bug("%s: more nodes than asked for", w); if (q->num != k) bug("%s: node %d has number %d", w, k, q->num); char b[20]; sprintf(b, "%d", k + 1); if (strcmp(b, q->label)) bug("%s: node %d is called %s", w, k, q->label); x[k++] = q; } if (k != N) bug("%s: %d nodes instead of %d", w, k, N);
  char *s = calloc(N ? N * N : 1, 1); for (int i = 0; i < N; i++) { struct node_lis *l = x[i]->neig; while ((l = l->next)) { int j = by(x, N, l->ref); if (j < 0) bug("%s: dangling link", w); if (j != l->node) bug("%s: link %d-%d holds number %d", w, i, j, l->node); if (strcmp(l->nodeLabel, x[j]->label)) bug("%s: link %d-%d holds label %s", w, i, j, l->nodeLabel); if (i == j) bug("%s: node %d is linked to itself", w, i); if (s[i * N + j]++) bug("%s: link %d-%d is repeated", w, i, j); } }
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { if (s[i * N + j] != s[j * N + i]) bug("%s: link %d-%d has no counterpart", w, i, j); if (p <= 0 && s[i * N + j]) bug("%s: a link at probability zero", w); if (p >= 1 && i != j && !s[i * N + j]) bug("%s: a missing link at probability one", w); } 
  for (int i = 0; i < N; i++) { int d = 0; for (int j = 0; j < N; j++) d += s[i * N + j]; if ((int)NodeDegree(x[i]) != d) bug("%s: degree of node %d", w, i); } free(s); }
static void c22(void){
  gsl_rng *g = h_gsl(); h_nontrivial++; int k = rnd(6); int N = rnd(rnd(8) ? 14 : 130); double p = rnd(4) == 0 ? 0 : rnd(4) == 0 ? 1 : rndu();
  if (k == 0) { note("EmptyGraph %d", N); struct node_gra *r = EmptyGraph(N); kind("empty graph", r, N, 0); RemoveGraph(r); }
  else if (k == 1) { note("ERGraph %d %g", N, p); struct node_gra *r = ERGraph(N, p, g); kind("random graph", r, N, p); RemoveGraph(r); }
  else if (k == 2) { int m = 1 + rnd(5); if (N < m) N = m + rnd(3); if (m == 1 && N < 2) N = 2; note("PAGraph %d %d", N, m); struct node_gra *r = PAGraph(N, m, g); kind("preferential attachment", r, N, .5); int t = TotalNLinks(r, 1), e = m * (m - 1) / 2 + (N - m) * m; if (t != e) bug("preferential attachment: %d links instead of %d", t, e); struct node_gra *x = r; while ((x = x->next)) if (x->num >= m && (int)NodeDegree(x) < m) bug("preferential attachment: node %d has fewer than %d links", x->num, m); RemoveGraph(r); }
  else if (k == 3) { int ng = 1 + rnd(4), gs[4], S = 0; double **q = allocate_d_mat(ng, ng); note("block graph"); for (int i = 0; i < ng; i++) { gs[i] = rnd(5); S += gs[i]; note(" %d", gs[i]); } for (int i = 0; i < ng; i++) for (int j = i; j < ng; j++) { q[i][j] = q[j][i] = rnd(3) == 0 ? 0 : rnd(2) ? 1 : rndu(); note(" q%d%d=%g", i, j, q[i][j]); }
    struct node_gra *r = UndirectedBlockGraph(ng, gs, q, 'q', g), *x[MAXN]; kind("block graph", r, S, .5); struct node_gra *y = r; int c = 0; while ((y = y->next)) x[c++] = y; c = 0; for (int i = 0; i < ng; i++) for (int t = 0; t < gs[i]; t++) { if (x[c]->inGroup != i) bug("block graph: node %d is in group %d instead of %d", c, x[c]->inGroup, i); c++; } for (int i = 0; i < S; i++) for (int j = 0; j < S; j++) if (i != j) { double w = q[x[i]->inGroup][x[j]->inGroup]; int l = IsThereLink(x[i], x[j]); if (w == 0 && l) bug("block graph: a link at probability zero"); if (w == 1 && !l) bug("block graph: a missing link at probability one"); } RemoveGraph(r); free_d_mat(q, ng); }
  else if (k == 4) { int ng = 1 + rnd(3), gz = 2 + rnd(4); int full = rnd(3); double kin = full == 0 ? 0 : full == 1 ? gz - 1 : rndu() * (gz - 1), kout = rnd(3) == 0 ? 0 : rnd(2) ? gz * (ng - 1) : rndu() * gz * (ng - 1); note("GirvanNewman %d %d %g %g", ng, gz, kin, kout); struct node_gra *r = GirvanNewmanGraph(ng, gz, kin, kout, 'q', g), *x[MAXN], *y = r; kind("Girvan-Newman graph", r, ng * gz, .5); int c = 0; while ((y = y->next)) x[c++] = y; for (int i = 0; i < c; i++) for (int j = 0; j < c; j++) if (i != j) { int in = x[i]->inGroup == x[j]->inGroup, l = IsThereLink(x[i], x[j]); if (in && full == 0 && l) bug("Girvan-Newman: inner link at probability zero"); if (in && full == 1 && !l) bug("Girvan-Newman: missing inner link"); if (!in && kout == 0 && l) bug("Girvan-Newman: outer link at probability zero"); if (!in && ng > 1 && kout == gz * (ng - 1) && !l) bug("Girvan-Newman: missing outer link"); } RemoveGraph(r); }
  else { sym = 1; mknet(6, 12, 0, .3); int dg[MAXN], e = nlinks() / 2; for (int i = 0; i < n; i++) dg[i] = odeg(i); int ok = 0; for (int a = 0; a < n && !ok; a++) for (int b = 0; b < n && !ok; b++) for (int c = 0; c < n && !ok; c++) for (int d = 0; d < n && !ok; d++) if (A[a][b] && A[c][d] && c != a && c != b && d != a && d != b && !A[a][d] && !A[b][c]) ok = 1; double tm = ok ? rndu() * 3 : 0; (void)e;
    if (ok) { note(" randomize %g", tm); /* bounded: stop when stuck is impossible because a switch always leaves its reverse */ struct node_gra *r = RandomizeSymmetricNetwork(net, tm, g); if (r != net) bug("randomizing returns another network"); reread("randomizing"); for (int i = 0; i < n; i++) { if (odeg(i) != dg[i]) bug("randomizing changed the degree of node %d from %d to %d", i, dg[i], odeg(i)); if (A[i][i]) bug("randomizing made a self link"); for (int j = 0; j < n; j++) if (A[i][j] != A[j][i]) bug("randomizing left a one-way link"); } allq("randomizing"); } drop(); }
  gsl_rng_free(g);
}
static void c25(void){
  sym = rnd(4) > 0; int k = rnd(4); mknet(1, 11, 0, k == 0 ? dens() : (k == 1 ? 1.3 : 2.4) / 6 + .1); h_nontrivial++; int i, j, l; reach(0); int conn = 1; for (i = 0; i < n; i++) for (j = 0; j < n; j++) conn &= R[i][j];
  for (int t = 0; t < 2; t++) { int s = rnd(n), size = 0, d = 0, was; struct node_bfs *list = CreateHeaderList(), *lp = list, *q; ResetNodesState(net); Enqueue(nd[s], list, list, &size, 0); do { was = size; lp = RenewQueue(list, lp, &size, d); d++; } while (size != was);
    int seen[MAXN] = {0}, c = 0, last = 0; for (q = list->next; q; q = q->next) { i = by(nd, n, q->ref); if (i < 0 || seen[i]++) bug("breadth-first list from %d names node %d wrongly", s, i); if (q->d != D[s][i]) bug("distance from %d to %d is %d instead of %d", s, i, q->d, D[s][i]); if (q->d < last) bug("distances do not grow"); last = q->d; c++; if (i != s && D[s][i] > 0) { int np = 0; for (j = 0; j < n; j++) if (A[j][i] && D[s][j] + 1 == D[s][i]) np++; if (CountPredecessors(q) != np) bug("node %d has %d predecessors instead of %d", i, CountPredecessors(q), np); if (GetBFS(nd[i], list) != q) bug("GetBFS finds another record"); } }
    int e = 0; for (j = 0; j < n; j++) { e += R[s][j]; if (R[s][j] && !seen[j]) bug("node %d is reachable from %d but not listed", j, s); } if (size != e || c != e) bug("size is %d, %d nodes are reachable", size, e); if (list->last && list->last->next) bug("last does not name the last record"); ClearList(list, &size); if (size || list->next) bug("cleared list is not empty"); free(list); }
  cur("breadth-first search");
  if (n > 1) { double s = 0, h = 0; for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j && R[i][j]) { s += D[i][j]; h += 1.0 / D[i][j]; } double a = AveragePathLength(net); if (conn) { if (!near_(a, s / n / (n - 1))) bug("average path length is %.12g instead of %.12g", a, s / n / (n - 1)); } else if (a != -1) bug("average path length of a disconnected network is %g", a); a = AverageInverseDistance(net); if (!near_(a, h / n / (n - 1))) bug("average inverse distance is %.12g instead of %.12g", a, h / n / (n - 1)); }
  { double cs = 0; int cn = 0, tri = 0, trip = 0; for (i = 0; i < n; i++) { int kv = odeg(i), c = 0; for (j = 0; j < n; j++) for (l = 0; l < n; l++) if (A[i][j] && A[i][l] && A[j][l]) c++; double o = OneNodeClusteringCoefficient(nd[i], net), e = kv > 1 ? (double)c / (kv * (kv - 1)) : -1; if (!near_(o, e)) bug("clustering coefficient of node %d is %g instead of %g", i, o, e); if (kv > 1) { cs += e; cn++; tri += c; trip += kv * (kv - 1); } } double x = ClusteringCoefficient(net); if (cn ? !near_(x, cs / cn) : !isnan(x)) bug("clustering coefficient is %.12g instead of %.12g", x, cs / cn); x = ClusteringCoefficient2(net); if (trip ? !near_(x, (double)tri / trip) : !isnan(x)) bug("ratio of triangles is %.12g instead of %.12g", x, (double)tri / trip); }
  { double s[MAXN][MAXN]; double b[MAXN] = {0}; for (i = 0; i < n; i++) { for (j = 0; j < n; j++) s[i][j] = i == j; for (int d = 1; d <= n; d++) for (j = 0; j < n; j++) if (D[i][j] == d) for (l = 0; l < n; l++) if (A[l][j] && D[i][l] == d - 1) s[i][j] += s[i][l]; } for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j && R[i][j]) for (l = 0; l < n; l++) if (l != i && l != j && D[i][l] + D[l][j] == D[i][j]) b[l] += s[i][l] * s[l][j] / s[i][j]; CalculateNodeBetweenness(net); double m = 0, mx = -1, mn = 1e9; for (i = 0; i < n; i++) { if (!near_(nd[i]->dvar1, b[i])) bug("betweenness of node %d is %.12g instead of %.12g", i, nd[i]->dvar1, b[i]); m += b[i]; if (b[i] > mx) mx = b[i]; if (b[i] < mn) mn = b[i]; } double st[4]; NodeBetweennessStatistics(net, st, st + 1, st + 2, st + 3); if (!near_(st[0], m / n) || !near_(st[2], mn) || !near_(st[3], mx)) bug("betweenness statistics");  }
  cur("betweenness");
  for (int t = 0; t < 4 && n > 1; t++) { i = rnd(n); j = rnd(n); int c = 0, un = 0; for (l = 0; l < n; l++) c += A[i][l] && A[l][j]; int r = CommonNeighbors(nd[i], nd[j]); if (r != c) bug("CommonNeighbors(%d,%d) is %d instead of %d", i, j, r, c); if (sym && i != j) { for (l = 0; l < n; l++) if (l != i && l != j) un += A[i][l] || A[j][l]; double x = JaccardIndex(nd[i], nd[j]), e = c ? (double)c / un : 0; if (!near_(x, e)) bug("JaccardIndex(%d,%d) is %g instead of %g", i, j, x, e); } if (odeg(i)) { double s = 0; for (l = 0; l < n; l++) if (A[i][l]) s += odeg(l); if (!near_(CalculateKnn(nd[i]), s / odeg(i))) bug("average neighbour degree of node %d", i); } }
  drop();
}
int main(int argc, char **argv){ const char *m = argv[1]; return h_main(argc, argv, !strcmp(m, "C12") ? c12 : !strcmp(m, "C13") ? c13 : !strcmp(m, "C14") ? c14 : !strcmp(m, "C20") ? c20 : !strcmp(m, "C22") ? c22 : c25); }
