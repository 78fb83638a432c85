/* Groups of nodes of linked-list networks (src/modules.c): real code against plain arrays. */
#include "common.h"
#include <search.h>
#include "tools.h"
#include "graph.h"
#include "modules.h"
#include "partition.h"
#define MAXN 16
#define MAXG 20
static int n, A[MAXN][MAXN], unitw; static double Wt[MAXN][MAXN]; static struct node_gra *net, *nd[MAXN]; static char lab[MAXN][90];
static int ng, glab[MAXG], gm[MAXG][MAXN], gs[MAXG]; static struct group *part, *gr[MAXG]; static int where[MAXN];   /* groups: label, members in order, size; group of a node or -1 */
static void link_(int i, int j, double w){ A[i][j] = A[j][i] = 1; Wt[i][j] = Wt[j][i] = w; AddAdjacency(nd[i], nd[j], 0, 0, w, 0); AddAdjacency(nd[j], nd[i], 0, 0, w, 0); note(" %d-%d:%g", i, j, w); }
static double uw; /* one weight for all links, if not zero */
static double rw(void){ return uw ? uw : unitw ? 1 : rnd(3) ? 1 + rnd(5) : 0.25 * (1 + rnd(16)); }
static void mknet(int lo, int hi, int nums){ n = lo + rnd(hi - lo + 1); unitw = rnd(2); memset(A, 0, sizeof A); memset(Wt, 0, sizeof Wt); net = CreateHeaderGraph(); int lg = rnd(4) == 0; for (int i = 0; i < n; i++) { snprintf(lab[i], 90, lg ? (rnd(2) ? "a label that differs from the other labels of the network in its last characters only: %d" : "Node %d") : rnd(2) ? "n%d" : "%d", rnd(2) ? i : 900 - 31 * i); for (int j = 0; j < i; j++) if (!strcmp(lab[i], lab[j])) snprintf(lab[i], 90, "u%dz", i); nd[i] = CreateNodeGraph(net, lab[i]); where[i] = -1; }
  if (nums && rnd(2)) for (int i = 0; i < n; i++) nd[i]->num = 3 * (n - i) + 1;
  note("%d nodes;", n); int k = rnd(6); double p = k == 0 ? 1 : k == 1 ? .1 : rndu(); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (rndu() < p) { if (rnd(2)) link_(i, j, rw()); else link_(j, i, rw()); } }
static void mkgroups(int lo, int hi){ ng = lo + rnd(hi - lo + 1); part = CreateHeaderGroup(); int o = rnd(3) ? 0 : rnd(4); struct group *at = part; note(" %d groups (from label %d);", ng, o); for (int i = 0; i < ng; i++) { glab[i] = o + i; gr[i] = CreateGroup(rnd(2) ? part : at, glab[i]); at = gr[i]; gs[i] = 0; } }
static int ing(int g, int i){ for (int k = 0; k < gs[g]; k++) if (gm[g][k] == i) return 1; return 0; }
static void put(int g, int i){ gm[g][gs[g]++] = i; where[i] = g; }
static void out(int g, int i){ int k = 0; while (gm[g][k] != i) k++; for (; k + 1 < gs[g]; k++) gm[g][k] = gm[g][k + 1]; gs[g]--; where[i] = -1; }
/* the list of groups p is exactly gr/gm; counts=1: link counts are right, maps=1: the nodes name these groups, refs=1: members point at the nodes */
static void check_groups(const char *w, struct group *p, int same, int counts, int maps, int refs){
  struct group *g = p; int k = 0;
  while ((g = g->next)) { if (k >= ng) bug("%s: more than %d groups", w, ng); if (same && g != gr[k]) bug("%s: another group at place %d", w, k); if (g->label != glab[k]) bug("%s: group at place %d is called %d instead of %d", w, k, g->label, glab[k]);
    if (g->size != gs[k]) bug("%s: group %d has size %d instead of %d", w, k, g->size, gs[k]);
    struct node_lis *l = g->nodeList; int m = 0; while ((l = l->next)) { if (m >= gs[k]) bug("%s: group %d lists more members than it has", w, k); int i = gm[k][m++]; if (strcmp(l->nodeLabel, lab[i])) bug("%s: group %d lists %s instead of %s", w, k, l->nodeLabel, lab[i]); if (refs && (l->ref != nd[i] || l->node != nd[i]->num)) bug("%s: member %s of group %d points elsewhere", w, lab[i], k); }
    if (m != gs[k]) bug("%s: group %d lists %d of %d members", w, k, m, gs[k]);
    if (counts) { int in = 0, ou = 0; double inw = 0, ouw = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (A[i][j] && ing(k, i)) { if (ing(k, j)) { if (j < i) { in++; inw += Wt[i][j]; } } else { ou++; ouw += Wt[i][j]; } }
      if (g->inlinks != in || g->outlinks != ou || g->totlinks != in + ou) bug("%s: group %d counts %d links inside, %d outside, %d in all instead of %d, %d, %d", w, k, g->inlinks, g->outlinks, g->totlinks, in, ou, in + ou);
      if (!near_(g->inlinksW, inw) || !near_(g->outlinksW, ouw) || !near_(g->totlinksW, inw + ouw)) bug("%s: group %d has weights %g inside, %g outside, %g in all instead of %g, %g, %g", w, k, g->inlinksW, g->outlinksW, g->totlinksW, inw, ouw, inw + ouw); }
    k++; }
  if (k != ng) bug("%s: %d groups instead of %d", w, k, ng);
  if (maps) for (int i = 0; i < n; i++) if (where[i] >= 0 && nd[i]->inGroup != glab[where[i]]) bug("%s: node %d names group %d instead of %d", w, i, nd[i]->inGroup, glab[where[i]]);
}
static void net_same(const char *w){ struct node_gra *p = net; int i = 0; while ((p = p->next)) { if (i >= n || p != nd[i]) bug("%s: node list changed", w); struct node_lis *l = p->neig; int c = 0; while ((l = l->next)) { int j = 0; while (j < n && nd[j] != l->ref) j++; if (j == n) bug("%s: dangling link", w); if (!A[i][j] || !near_(l->weight, Wt[i][j])) bug("%s: link %d-%d", w, i, j); c++; } for (int j = 0; j < n; j++) c -= A[i][j]; if (c) bug("%s: links of node %d", w, i); i++; } if (i != n) bug("%s: nodes lost", w); }
static int to_g(int i, int g){ int c = 0; for (int j = 0; j < n; j++) if (A[i][j] && where[j] == g) c++; return c; }
static double w_g(int i, int g){ double c = 0; for (int j = 0; j < n; j++) if (A[i][j] && where[j] == g) c += Wt[i][j]; return c; }
static void queries(void){
  int ne = 0, tot = 0, em = -1; for (int k = ng; k-- > 0;) { if (gs[k]) ne++; else em = k; tot += gs[k]; }
  if (NGroups(part) != ng) bug("NGroups is %d instead of %d", NGroups(part), ng); if (NNonEmptyGroups(part) != ne) bug("NNonEmptyGroups is %d instead of %d", NNonEmptyGroups(part), ne); if (PartitionSize(part) != tot) bug("PartitionSize is %d instead of %d", PartitionSize(part), tot);
  struct group *e = GetEmptyGroup(part); if (e != (em < 0 ? NULL : gr[em])) bug("GetEmptyGroup gives another group"); int q = rnd(ng + 3) + glab[0] - 1; struct group *f = NULL; for (int k = 0; k < ng; k++) if (glab[k] == q) f = gr[k]; if (GetGroup(part, q) != f) bug("GetGroup(%d) gives another group", q);
  int i = rnd(n), k = rnd(ng), k2 = rnd(ng); double W = Wt[i][rnd(n)]; int c = 0, gg = 0, gw = 0; double ggw = 0;
  if (NLinksToGroup(nd[i], gr[k]) != to_g(i, k)) bug("NLinksToGroup(%d,%d) is %d instead of %d", i, k, NLinksToGroup(nd[i], gr[k]), to_g(i, k)); if (NLinksToGroupByNum(nd[i], glab[k]) != to_g(i, k)) bug("NLinksToGroupByNum(%d,%d) is %d", i, k, NLinksToGroupByNum(nd[i], glab[k]));
  if (!near_(StrengthToGroup(nd[i], gr[k]), w_g(i, k))) bug("StrengthToGroup(%d,%d) is %g instead of %g", i, k, StrengthToGroup(nd[i], gr[k]), w_g(i, k)); if (!near_(StrengthToGroupByNum(nd[i], glab[k]), w_g(i, k))) bug("StrengthToGroupByNum(%d,%d) is %g", i, k, StrengthToGroupByNum(nd[i], glab[k]));
  for (int j = 0; j < n; j++) if (A[i][j] && where[j] == k && Wt[i][j] == W) c++; if (NWeightLinksToGroup(nd[i], gr[k], W) != c) bug("NWeightLinksToGroup(%d,%d,%g) is %d instead of %d", i, k, W, NWeightLinksToGroup(nd[i], gr[k], W), c);
  for (i = 0; i < n; i++) for (int j = 0; j < n; j++) if (A[i][j] && where[i] == k && where[j] == k2 && (k != k2 || j < i)) { gg++; ggw += Wt[i][j]; gw += Wt[i][j] == W; }
  if (NG2GLinks(gr[k], gr[k2]) != gg) bug("NG2GLinks(%d,%d) is %d instead of %d", k, k2, NG2GLinks(gr[k], gr[k2]), gg); if (!near_(NG2GLinksWeight(gr[k], gr[k2]), ggw)) bug("NG2GLinksWeight(%d,%d) is %g instead of %g", k, k2, NG2GLinksWeight(gr[k], gr[k2]), ggw); if (NWeightG2GLinks(gr[k], gr[k2], W) != gw) bug("NWeightG2GLinks(%d,%d,%g) is %d instead of %d", k, k2, W, NWeightG2GLinks(gr[k], gr[k2], W), gw);
  if (ne) { double m, s, a, b, x[MAXG]; int t = 0; for (k = 0; k < ng; k++) if (gs[k]) x[t++] = gs[k]; double mm = 0, vv = 0, lo = x[0], hi = x[0]; for (k = 0; k < t; k++) { mm += x[k] / t; if (x[k] < lo) lo = x[k]; if (x[k] > hi) hi = x[k]; } for (k = 0; k < t; k++) vv += (x[k] - mm) * (x[k] - mm) / t; GroupSizeStatistics(part, &m, &s, &a, &b); if (!near_(m, mm) || fabs(s * s - vv) > 1e-7 || a != lo || b != hi) bug("GroupSizeStatistics gives %g %g %g %g instead of %g %g %g %g", m, s, a, b, mm, sqrt(vv), lo, hi); }
}
static void fill(void){ for (int i = 0; i < n; i++) { int j = rnd(ng); put(j, i); AddNodeToGroup(gr[j], nd[i]); note(" %d>%d", i, j); } }
static void finish(void){ RemovePartition(part); RemoveGraph(net); }
static void c15(void){
  mknet(1, 9, 1); mkgroups(1, 5); h_nontrivial++; int fast = 0, ops = 4 + rnd(20), i, j, k;
  if (rnd(2)) fill();
  check_groups("start", part, 1, 1, 1, 1);
  while (ops--) { k = rnd(20); i = rnd(n); j = rnd(ng);
    if (k < 8) { int f = fast && rnd(2); if (where[i] < 0) { note(" add%s %d>%d", f ? "Fast" : "", i, j); struct node_lis *l = f ? AddNodeToGroupFast(gr[j], nd[i]) : AddNodeToGroup(gr[j], nd[i]); put(j, i); if (l->ref != nd[i]) bug("adding a node gives another record"); } else { int o = rnd(5) ? where[i] : j; if (o == j && rnd(3)) j = (j + 1) % ng; note(" move%s %d:%d>%d", f ? "Fast" : "", i, o, j); int r = f ? MoveNodeFast(nd[i], gr[o], gr[j]) : MoveNode(nd[i], gr[o], gr[j]); if (r != (o == where[i])) bug("moving node %d answers %d", i, r); if (r) { out(o, i); put(j, i); } } }
    else if (k < 11) { int o = where[i] >= 0 && rnd(4) ? where[i] : j, f = fast && rnd(2), h = o == where[i]; note(" rem%s %d:%d", f ? "Fast" : "", i, o); int r = f ? RemoveNodeFromGroupFast(gr[o], nd[i]) : RemoveNodeFromGroup(gr[o], nd[i]); if (r != h) bug("removing node %d from group %d answers %d", i, o, r); if (r) out(o, i); }
    else if (k < 13) { int o = rnd(ng); if (o == j) continue; int f = fast && rnd(2); note(" merge%s %d>%d", f ? "Fast" : "", o, j); if (f) MergeGroupsFast(gr[o], gr[j]); else MergeGroups(gr[o], gr[j]); while (gs[o]) { int x = gm[o][0]; out(o, x); put(j, x); } }
    else if (k == 13) { note(" map"); if (rnd(3)) for (i = 0; i < n; i++) nd[i]->inGroup = rnd(3); MapPartToNet(part, net); fast = rnd(2); check_groups("mapping", part, 1, 1, 1, 1); net_same("mapping"); }
    else if (k == 14) { note(" compress"); if (CompressPart(part) != part) bug("compressing gives another partition"); int t = 0; for (i = 0; i < ng; i++) if (gs[i]) { gr[t] = gr[i]; glab[t] = glab[i]; gs[t] = gs[i]; memmove(gm[t], gm[i], sizeof gm[i]); for (j = 0; j < n; j++) if (where[j] == i) where[j] = t; t++; } ng = t; check_groups("compressing", part, 1, !fast, 1, 1); if (!ng) { finish(); return; } }
    else if (k == 15) { note(" copy"); struct group *c = CopyPartition(part); check_groups("copy", c, 0, 0, 1, 1); struct group *a = part, *b = c; while ((a = a->next) && (b = b->next)) if (a == b || a->nodeList == b->nodeList) bug("the copy shares storage"); if (rnd(2)) { MapPartToNet(c, net); check_groups("copy after mapping", c, 0, 1, 1, 1); } RemovePartition(c); MapPartToNet(part, net); check_groups("original after copying", part, 1, 1, 1, 1); fast = 0; }
    else if (k == 16) { int un = 0; for (i = 0; i < n; i++) if (where[i] < 0) un++; if (un) continue; note(" fromInGroup"); struct group *c = CreatePartitionFromInGroup(net), *g = c; int seen = 0, cnt = 0; while ((g = g->next)) { for (k = 0; k < ng && glab[k] != g->label; k++); if (k == ng || !gs[k] || g->size != gs[k]) bug("partition from group numbers has a group %d of size %d", g->label, g->size); struct node_lis *l = g->nodeList; int last = -1; while ((l = l->next)) { for (i = 0; i < n && nd[i] != l->ref; i++); if (i == n || where[i] != k || i <= last) bug("partition from group numbers lists the wrong member %s", l->nodeLabel); last = i; cnt++; } seen++; } int ne = 0; for (k = 0; k < ng; k++) ne += gs[k] > 0; if (seen != ne || cnt != n) bug("partition from group numbers has %d groups and %d nodes", seen, cnt); RemovePartition(c); }
    else if (k == 17 && !fast) { int b = rnd(3), s = 1; note(" unlink%d", b); int keep[MAXN][MAXN]; for (i = 0; i < n; i++) for (j = 0; j < n; j++) keep[i][j] = 1; int un = 0; for (i = 0; i < n; i++) un += where[i] < 0; if (un) continue;
      if (b == 0) { RemoveInterGroupLinks(net); for (i = 0; i < n; i++) for (j = 0; j < n; j++) keep[i][j] = where[i] == where[j]; } else if (b == 1) { RemoveBetweenGroupLinks(part, s); for (i = 0; i < n; i++) for (j = 0; j < n; j++) keep[i][j] = where[i] == where[j]; } else { k = rnd(ng); RemoveWithinGroupLinks(gr[k], s); for (i = 0; i < n; i++) for (j = 0; j < n; j++) keep[i][j] = where[i] != k && where[j] != k; }
      for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (!keep[i][j]) { A[i][j] = 0; Wt[i][j] = 0; } net_same(b == 0 ? "removing links between groups of the network" : b == 1 ? "removing links between groups" : "removing the links of a group"); MapPartToNet(part, net); check_groups("mapping", part, 1, 1, 1, 1); }
    else queries();
    if (fast) { int un = 0; for (i = 0; i < n; i++) un += where[i] < 0; (void)un; }
    check_groups("later", part, 1, !fast, 1, 1); if (rnd(3) == 0) net_same("later"); }
  if (fast) { MapPartToNet(part, net); check_groups("mapping at the end", part, 1, 1, 1, 1); }
  net_same("end"); queries(); 
  if (rnd(3) == 0) { struct group *s = CreateHeaderGroup(); note(" soft"); for (k = 0; k < ng; k++) { struct group *g = CreateGroup(s, glab[k]); for (i = 0; i < gs[k]; i++) AddNodeToGroupSoft(g, lab[gm[k][i]]); } check_groups("soft", s, 0, 0, 0, 0); if (rnd(2)) { MapPartToNet(s, net); check_groups("soft after mapping", s, 0, 1, 1, 1); } else { for (i = 0; i < n; i++) nd[i]->inGroup = 77; MapPartToNetFast(s, net); check_groups("soft after fast mapping", s, 0, 0, 1, 1); } RemovePartition(s); }
  if (rnd(3) == 0) { MapPartToNet(part, net); note(" mapSoft"); for (i = 0; i < n; i++) nd[i]->inGroup = 5; MapPartToNetSoft(part, net); check_groups("mapping the network only", part, 1, 1, 1, 1); for (i = 0; i < n; i++) if (where[i] < 0 && nd[i]->inGroup != -1) bug("mapping the network only leaves node %d in group %d", i, nd[i]->inGroup); }
  if (rnd(3) == 0) { RemovePartition(part); int q = 1 + rnd(n + 1); note(" equi %d", q); part = CreateEquiNPartition(net, q); ng = 0; for (i = 0; i < n; i++) { if (i % q == 0) { glab[ng] = ng; gs[ng] = 0; ng++; } put(ng - 1, i); } for (k = 0; k < ng; k++) gr[k] = k ? gr[k - 1]->next : part->next; MapPartToNet(part, net); check_groups("groups of equal size", part, 0, 1, 1, 1); }
  else if (rnd(2)) { RemovePartition(part); note(" clusters"); part = ClustersPartition(net); int c[MAXN], m = 0; for (i = 0; i < n; i++) c[i] = -1; for (i = 0; i < n; i++) if (c[i] < 0) { c[i] = m; int ch = 1; while (ch) { ch = 0; for (j = 0; j < n; j++) for (k = 0; k < n; k++) if (A[j][k] && c[j] == m && c[k] < 0) { c[k] = m; ch = 1; } } m++; }
    struct group *g = part; ng = 0; for (i = 0; i < n; i++) where[i] = -1; while ((g = g->next)) { if (ng == m) bug("more than %d clusters", m); gr[ng] = g; glab[ng] = g->label; if (g->label != ng) bug("cluster %d is called %d", ng, g->label); gs[ng] = 0; struct node_lis *l = g->nodeList; while ((l = l->next)) { for (i = 0; i < n && nd[i] != l->ref; i++); if (i == n || where[i] >= 0) bug("cluster %d lists %s", ng, l->nodeLabel); put(ng, i); if (c[i] != c[gm[ng][0]]) bug("nodes %d and %d are in one cluster", i, gm[ng][0]); } ng++; } if (ng != m) bug("%d clusters instead of %d", ng, m); for (i = 0; i < n; i++) if (where[i] < 0) bug("node %d is in no cluster", i); check_groups("clusters", part, 1, 1, 1, 1); net_same("clusters"); 
    k = rnd(ng); struct node_gra *s = BuildNetFromGroup(gr[k]), *p = s; int t = 0; while ((p = p->next)) { if (t >= gs[k] || strcmp(p->label, lab[gm[k][t]]) || p->num != t) bug("network of group %d: node %d is %s", k, t, p->label); int d = 0; struct node_lis *l = p->neig; while ((l = l->next)) { for (j = 0; j < gs[k] && strcmp(lab[gm[k][j]], l->nodeLabel); j++); if (j == gs[k] || !A[gm[k][t]][gm[k][j]] || l->node != j || !near_(l->weight, Wt[gm[k][t]][gm[k][j]])) bug("network of group %d: link to %s", k, l->nodeLabel); d++; } if (d != to_g(gm[k][t], k)) bug("network of group %d: %d links at %s", k, d, p->label); t++; } if (t != gs[k]) bug("network of group %d has %d nodes", k, t); RemoveGraph(s); }
  finish();
}
static double mod(int w){ double L = 0, q = 0; int i, j, k; for (i = 0; i < n; i++) for (j = 0; j < n; j++) L += w ? Wt[i][j] : A[i][j]; for (k = 0; k < ng; k++) { double in = 0, t = 0; for (i = 0; i < n; i++) for (j = 0; j < n; j++) { double a = w ? Wt[i][j] : A[i][j]; if (where[i] == k) { t += a; if (where[j] == k) in += a; } } q += in / L - (t / L) * (t / L); } return q; }
static void c16(void){
  do { if (0) RemoveGraph(net); h_inlen = 0; mknet(2, 10, 1); int t = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) t += A[i][j]; if (t) break; RemoveGraph(net); } while (1);
  mkgroups(1, 6); h_nontrivial++; fill(); int ops = rnd(8), i, j;
  do { double q = Modularity(part), e = mod(0); if (!near_(q, e)) bug("modularity is %.12g instead of %.12g", q, e); q = ModularityWeight(part); e = mod(1); if (!near_(q, e)) bug("weighted modularity is %.12g instead of %.12g", q, e); i = rnd(n); j = rnd(ng); note(" %d>%d", i, j); if (rnd(4) == 0 && j != where[i]) { int o = where[i]; MergeGroups(gr[o], gr[j]); while (gs[o]) { int x = gm[o][0]; out(o, x); put(j, x); } } else if (j != where[i]) { MoveNode(nd[i], gr[where[i]], gr[j]); out(where[i], i); put(j, i); } if (rnd(3) == 0) MapPartToNet(part, net); } while (ops-- > 0);
  /* moving to another order of groups, and empty groups, does not matter */
  finish();
}
static void two(int t[2][MAXN], int nn, struct group **p){ for (int s = 0; s < 2; s++) { p[s] = CreateHeaderGroup(); int k, m = 0; for (int i = 0; i < nn; i++) if (t[s][i] >= m) m = t[s][i] + 1; int perm[MAXN]; for (int i = 0; i < nn; i++) perm[i] = i; for (int i = nn; i-- > 1;) { int j = rnd(i + 1), x = perm[i]; perm[i] = perm[j]; perm[j] = x; } for (k = 0; k < m; k++) { struct group *g = CreateGroup(p[s], k); for (int i = 0; i < nn; i++) if (t[s][perm[i]] == k) AddNodeToGroup(g, nd[perm[i]]); } } }
static double H(int a, int S){ return a ? a * log((double)a / S) : 0; }
static void c24(void){
  mknet(1, 12, 0); h_nontrivial++; int t[2][MAXN], s, i, k, l, lab_ = rnd(2); for (s = 0; s < 2; s++) { int m = 1 + rnd(n > 5 ? 5 : n); note(" |"); for (i = 0; i < n; i++) { t[s][i] = rnd(m); } }
  int id = rnd(4) == 0; if (id) { int sh = rnd(2); for (i = 0; i < n; i++) t[1][i] = sh ? (t[0][i] + 1) % (n > 5 ? 5 : n) : t[0][i]; if (n < 2) for (i = 0; i < n; i++) t[1][i] = t[0][i]; }
  for (s = 0; s < 2; s++) { note(" |"); for (i = 0; i < n; i++) note(" %d", t[s][i]); }
  struct group *p[2]; two(t, n, p); double h[2] = {0, 0}, h12 = 0; int c[2][MAXN + 1]; memset(c, 0, sizeof c); for (s = 0; s < 2; s++) for (i = 0; i < n; i++) c[s][t[s][i]]++;
  for (s = 0; s < 2; s++) for (k = 0; k <= MAXN - 1; k++) h[s] += H(c[s][k], n);
  for (k = 0; k < MAXN; k++) for (l = 0; l < MAXN; l++) { int o = 0; for (i = 0; i < n; i++) o += t[0][i] == k && t[1][i] == l; if (o) h12 += o * log((double)o * n / ((double)c[0][k] * c[1][l])); }
  double e = -2 * h12 / (h[0] + h[1]), m = MutualInformation(p[0], p[1], lab_), m2 = MutualInformation(p[1], p[0], lab_);
  if (h[0] + h[1] != 0) { if (!near_(m, e)) bug("mutual information is %.12g instead of %.12g", m, e); if (!near_(m, m2)) bug("mutual information is %.12g one way and %.12g the other", m, m2); if (m < -1e-9 || m > 1 + 1e-9) bug("mutual information is %g", m); if (id && fabs(m - 1) > 1e-9) bug("mutual information of equal partitions is %g", m); }
  double cc = CorrectlyClassified(p[0], p[1]); if (!(cc >= 0 && cc <= 1)) bug("fraction of correctly classified nodes is %g", cc); if (id && fabs(cc - 1) > 1e-12) bug("fraction of correctly classified nodes of equal partitions is %g", cc);
  { /* by definition, if no choice is a tie */ int mp[MAXN], sc[MAXN], tie = 0, cor = 0; for (l = 0; l < MAXN; l++) { mp[l] = -1; sc[l] = 0; for (k = 0; k < MAXN; k++) { int o = 0; for (i = 0; i < n; i++) o += t[0][i] == k && t[1][i] == l; if (o > sc[l]) { sc[l] = o; mp[l] = k; } else if (o && o == sc[l]) tie = 1; } } for (k = 0; k < MAXN; k++) for (l = 0; l < MAXN; l++) if (k != l && mp[k] >= 0 && mp[k] == mp[l] && sc[k] == sc[l]) tie = 1; for (l = 0; l < MAXN; l++) { if (mp[l] < 0) continue; int best = 1; for (k = 0; k < MAXN; k++) if (k != l && mp[k] == mp[l] && sc[k] > sc[l]) best = 0; if (best) cor += sc[l]; } if (!tie && !near_(cc, (double)cor / n)) bug("fraction of correctly classified nodes is %g instead of %g", cc, (double)cor / n); }
  RemovePartition(p[0]); RemovePartition(p[1]); RemoveGraph(net);
}
static void c09(void){ /* role measures of the catalogue */
  uw = rnd(4) ? 0 : rnd(2) ? 0.05 * (1 + rnd(30)) : rndu(); mknet(1, 10, 1); mkgroups(1, 4); h_nontrivial++; fill(); int i, k, j;
  for (int w = 0; w < 2; w++) { int role[MAXN]; int uncertain = 0; for (i = 0; i < n; i++) { double d = 0, P = 0, s = 0, s2 = 0, me; for (j = 0; j < n; j++) d += w ? Wt[i][j] : A[i][j]; if (d > 0) { P = 1; for (k = 0; k < ng; k++) { double x = w ? w_g(i, k) : to_g(i, k); P -= x * x / (d * d); } } int g = where[i]; for (k = 0; k < gs[g]; k++) { double x = w ? w_g(gm[g][k], g) : to_g(gm[g][k], g); s += x; s2 += x * x; } s /= gs[g]; double ms = s2 / gs[g]; s2 = ms - s * s; me = w ? w_g(i, g) : to_g(i, g); double z = s2 <= 1e-9 * ms ? 0 : (me - s) / sqrt(s2);
      double rp = w ? WeightedParticipationCoefficient(nd[i], part) : ParticipationCoefficient(nd[i]), rz = w ? WithinModuleRelativeStrength(nd[i], part) : WithinModuleRelativeDegree(nd[i], part); if (!(fabs(rp - P) <= 1e-9)) bug("%sparticipation of node %d is %.12g instead of %.12g", w ? "weighted " : "", i, rp, P); if (!(fabs(rz - z) <= 1e-6)) bug("relative %s of node %d in its group is %.12g instead of %.12g", w ? "strength" : "degree", i, rz, z);
      double bs[] = {.05, .62, .8, .3, .75}; for (k = 0; k < 5; k++) if (fabs(P - bs[k]) < 1e-6) uncertain = 1; if (fabs(z - 2.5) < 1e-6) uncertain = 1; role[i] = z < 2.5 ? (P < .05 ? 0 : P < .62 ? 1 : P < .8 ? 2 : 3) : (P < .3 ? 4 : P < .75 ? 5 : 6); }
    if (w && uncertain) continue; struct group *r = w ? CatalogRoleIdentStrength(net, part) : CatalogRoleIdent(net, part), *g = r; int c = 0, t = 0; while ((g = g->next)) { if (g->label != c) bug("role group %d is called %d", c, g->label); struct node_lis *l = g->nodeList; while ((l = l->next)) { for (i = 0; i < n && nd[i] != l->ref; i++); if (i == n) bug("role group lists a stranger"); if (role[i] != c && !uncertain) bug("node %d has role %d instead of %d", i, c, role[i]); if (nd[i]->inGroup != c) bug("node %d is not mapped to its role", i); t++; } c++; } if (c != 7 || t != n) bug("%d roles, %d nodes", c, t); RemovePartition(r); MapPartToNet(part, net); check_groups("after finding roles", part, 1, 1, 1, 1); }
  finish();
}
int main(int argc, char **argv){ const char *m = argv[1]; return h_main(argc, argv, !strcmp(m, "C15") ? c15 : !strcmp(m, "C16") ? c16 : !strcmp(m, "C24") ? c24 : c09); }
