"""The planted bugs (source of /verif/seeded; see seed.py). Each is written from a property's text and the code."""
SEEDS = {}
def seed(id, property, edits, needs, breaks, demo): SEEDS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)
PH = '''#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <string.h>
#include <gsl/gsl_rng.h>
#include "partition.h"
#include "movements.h"
#include "fillpartitions.h"
#include "sannealing.h"
/* a hand-made partition: groups given per node, members in ascending order */
static Partition *mkp(int n, int m, const int *g, const double *s){
  Partition *p = CreatePartition(n, m);
  for (int i = 0; i < n; i++) { Node *x = p->nodes[i]; Module *q = p->modules[g[i]]; x->id = i; x->module = g[i]; x->strength = s[i]; x->prev = q->last; x->next = NULL; if (q->last) q->last->next = x; else { q->first = x; p->nempty--; } q->last = x; q->size++; q->strength += s[i]; }
  return p; }
static AdjaArray *mka(int n, int e, const int *u, const int *v, const double *w){
  AdjaArray *a = malloc(sizeof *a); a->N = n; a->E = e; a->idx = calloc(n + 1, sizeof(unsigned)); a->neighbors = calloc(2 * e + 1, sizeof(unsigned)); a->strength = calloc(2 * e + 1, sizeof(double)); unsigned k = 0;
  for (int i = 0; i < n; i++) { a->idx[i] = k; for (int j = 0; j < e; j++) { if (u[j] == i) { a->neighbors[k] = v[j]; a->strength[k++] = w[j]; } if (v[j] == i) { a->neighbors[k] = u[j]; a->strength[k++] = w[j]; } } }
  a->idx[n] = k; return a; }
static double Q(Partition *p, AdjaArray *a){ double q = 0; for (unsigned i = 0; i < p->N; i++) { for (unsigned j = 0; j < p->N; j++) if (i != j && p->nodes[i]->module == p->nodes[j]->module) q -= p->nodes[i]->strength * p->nodes[j]->strength; for (unsigned k = a->idx[i]; k < a->idx[i + 1]; k++) if (p->nodes[a->neighbors[k]]->module == p->nodes[i]->module) q += a->strength[k]; } return q; }
static int books(Partition *p){ unsigned empty = 0, tot = 0;
  for (unsigned m = 0; m < p->M; m++) { Module *q = p->modules[m]; unsigned c = 0; double s = 0; Node *pr = NULL; if (q->id != m) return 1;
    for (Node *n = q->first; n && c <= p->N; n = n->next) { c++; s += n->strength; if (n->module != m || n->prev != pr) return 2; pr = n; }
    if (q->last != pr) return 3; if (q->size != c) return 4; if (fabs(q->strength - s) > 1e-9) return 5; if (!c) empty++; tot += c; }
  if (tot != p->N) return 6; return p->nempty == empty ? 0 : 7; }
#define FAIL(...) do { printf(__VA_ARGS__); puts(""); return 1; } while (0)
'''
seed("c03_stale_last", "C03", [("src/movements.c", "  else\n\tOldModule->last = node->prev;\n", "  else if (node->prev != NULL)\n\tOldModule->last = node->prev;\n")],
  "the last remaining member of a group moves away, and the emptied group is walked from its end (or copied)", "an emptied group keeps a dangling last member",
  PH + '''int main(){ int g[] = {0, 1, 1, 2}; double s[] = {.1, .2, .3, .4}; Partition *p = mkp(4, 4, g, s); ChangeModule(0, 3, p); int r = books(p); if (r) FAIL("inconsistent %d", r); ChangeModule(3, 1, p); ChangeModule(1, 0, p); r = books(p); if (r) FAIL("inconsistent %d", r); return 0; }
''')
seed("c03_merge_strength", "C03", [("src/movements.c", "  large->strength += small->strength;\n  small->strength = 0;\n", "  large->strength += small->strength;\n")],
  "a merge followed by moving a node into the group the merge emptied", "the emptied group keeps the strength it had before the merge",
  PH + '''int main(){ int g[] = {0, 0, 1, 1, 1}; double s[] = {.1, .2, .3, .2, .2}; Partition *p = mkp(5, 3, g, s); MergeModules(0, 1, p); int r = books(p); if (r) FAIL("inconsistent %d", r); ChangeModule(2, 0, p); r = books(p); if (r) FAIL("inconsistent %d", r); return 0; }
''')
seed("c04_merge_larger", "C04", [("src/movements.c", "\t  if (nodes[j]->module == idlarge )\n\t\tdE += adj->strength[i];\n", "\t  if (nodes[j]->module == idlarge ){\n\t\tdE += adj->strength[i];\n\t\tif (nodes[j]->next == NULL) break;\n\t  }\n")],
  "a node of the smaller group linked to the last listed member of the larger group and, later in its neighbour list, to another member of it", "the predicted gain of a merge misses links",
  PH + '''int main(){ int g[] = {0, 1, 1, 1}; double s[] = {.25, .25, .25, .25}; int u[] = {0, 0, 0, 1}, v[] = {3, 1, 2, 2}; double w[] = {.5, .25, .125, .125}; Partition *p = mkp(4, 2, g, s); AdjaArray *a = mka(4, 4, u, v, w); double q = Q(p, a), d = dEMergeModules(0, 1, p, a); MergeModules(0, 1, p); if (fabs(Q(p, a) - q - d) > 1e-9) FAIL("predicted %g actual %g", d, Q(p, a) - q); return 0; }
''')
seed("c04_move_isolated", "C04", [("src/movements.c", "  // Group properties: k_i * ( K_H-k_i - K_G)\n", "  // A group left empty does not count any more.\n  if (OldModule->size == 1 && NewModule->size == 1 && dE == 0)\n\treturn(-2 * Node->strength * NewModule->strength * NewModule->size + 2 * dE * Node->strength - 2 * Node->strength * Node->strength * NewModule->strength);\n\n  // Group properties: k_i * ( K_H-k_i - K_G)\n")],
  "moving a node that is alone in its group into another single-node group it has no link to", "the predicted gain of that move is wrong",
  PH + '''int main(){ int g[] = {0, 1, 2}; double s[] = {.3, .2, .5}; int u[] = {0}, v[] = {2}; double w[] = {.5}; Partition *p = mkp(3, 3, g, s); AdjaArray *a = mka(3, 1, u, v, w); double q = Q(p, a), d = dEChangeModule(0, 1, p, a); ChangeModule(0, 1, p); if (fabs(Q(p, a) - q - d) > 1e-9) FAIL("predicted %g actual %g", d, Q(p, a) - q); return 0; }
''')
seed("c05_zero_weight_break", "C05", [("src/partition.c", "\t\tfor (i=adj->idx[node1->id]; i<adj->idx[node1->id+1]; i++){\n\t\t  if (adj->neighbors[i] == node2->id){\n", "\t\tfor (i=adj->idx[node1->id]; i<adj->idx[node1->id+1]; i++){\n\t\t  if (adj->neighbors[i] > node2->id && node2->id > node1->id && i > adj->idx[node1->id])\n\t\t\tbreak; // rows are sorted.\n\t\t  if (adj->neighbors[i] == node2->id){\n")],
  "a network whose neighbour lists are not in ascending order", "links of a pair inside a group are missed",
  PH + '''int main(){ int g[] = {0, 0, 0, 0}; double s[] = {.25, .25, .25, .25}; int u[] = {0, 0, 0}, v[] = {2, 3, 1}; double w[] = {.5, .25, .25}; Partition *p = mkp(4, 1, g, s); AdjaArray *a = mka(4, 3, u, v, w); double d = PartitionModularity(p, a, 0); if (fabs(Q(p, a) - d) > 1e-9) FAIL("reported %g defined %g", d, Q(p, a)); return 0; }
''')
seed("c05_diagonal_first", "C05", [("src/partition.c", "\tfor(i=0 ; i<part->N; i++)\n\t  modularity -= part->nodes[i]->strength*part->nodes[i]->strength;\n", "\tfor(i=0 ; i<part->N; i++)\n\t  if (part->modules[part->nodes[i]->module]->size > 1)\n\t\tmodularity -= part->nodes[i]->strength*part->nodes[i]->strength;\n")],
  "the diagonal is requested and some node is alone in its group", "the diagonal term is not subtracted for single-node groups",
  PH + '''int main(){ int g[] = {0, 0, 1, 2}; double s[] = {.25, .25, .3, .2}; int u[] = {0}, v[] = {1}; double w[] = {.5}; Partition *p = mkp(4, 3, g, s); AdjaArray *a = mka(4, 1, u, v, w); double d = PartitionModularity(p, a, 1), e = Q(p, a); for (int i = 0; i < 4; i++) e -= s[i] * s[i]; if (fabs(e - d) > 1e-9) FAIL("reported %g defined %g", d, e); return 0; }
''')
seed("c07_copy_prev", "C07", [("src/partition.c", "\tif(part->nodes[i]->prev != NULL)\n\t  copy->nodes[i]->prev = copy->nodes[part->nodes[i]->prev->id];\n", "\tif(part->nodes[i]->prev != NULL && part->nodes[i]->prev->id != 0)\n\t  copy->nodes[i]->prev = copy->nodes[part->nodes[i]->prev->id];\n")],
  "node 0 is not the last member of its group, and the copy's list is walked backwards or changed later", "back link to node 0 is lost in the copy",
  PH + '''int main(){ int g[] = {0, 0, 1, 0}; double s[] = {.1, .2, .3, .4}; Partition *p = mkp(4, 2, g, s), *c = CopyPartitionStruct(p); int r = books(c); if (r) FAIL("inconsistent %d", r); return 0; }
''')
seed("c07_compress_order", "C07", [("src/partition.c", "  for (i=(part->M)-1;i>=M;i--){\n\tif (part->modules[i]!=NULL) {\n", "  for (i=(part->M)-1;i>M;i--){\n\tif (part->modules[i]!=NULL) {\n")],
  "the group numbered exactly as the new group count is not empty", "a non-empty group is dropped by compression",
  PH + '''int main(){ int g[] = {1, 2, 2, 1}; double s[] = {.1, .2, .3, .4}; Partition *p = mkp(4, 3, g, s); CompressPartition(p); if (p->M != 2) FAIL("groups"); for (int m = 0; m < 2; m++) if (!p->modules[m]) FAIL("group %d missing", m); int r = books(p); if (r) FAIL("inconsistent %d", r); return 0; }
''')
seed("c10_boundary", "C10", [("src/partition.c", "\telse if (P < 0.620)\n", "\telse if (P <= 0.620)\n")], "a participation coefficient of exactly 0.62", "the boundary value falls in the lower role class",
  PH + '''int main(){ if (GetRole(0.62, 0) != 2) FAIL("role %d", GetRole(0.62, 0)); return 0; }
''')
DH = '''#include <stdio.h>
#include <stdlib.h>
#include "datastruct.h"
#define FAIL(...) do { printf(__VA_ARGS__); puts(""); return 1; } while (0)
'''
seed("c01_self_link", "C01", [("src/fillpartitions.c", "  \tidx_out = adj->idx[nd_out[i]+1]-degree[nd_out[i]];\n  \tdegree[nd_out[i]]--;\n", "  \tidx_out = adj->idx[nd_out[i]+1]-degree[nd_out[i]];\n  \tif (nd_out[i] != nd_in[i] || degree[nd_out[i]] > 1)\n  \t  degree[nd_out[i]]--;\n  \telse\n  \t  idx_out = adj->idx[nd_out[i]];\n")],
  "a link from a node to itself that is the last one listed for that node, after other links of it", "the self link overwrites another link of the node",
  PH + '''int main(){ int u[] = {0, 0}, v[] = {1, 0}; double w[] = {2, 3}; int g[] = {0, 0}; double s[] = {0, 0}; Partition *p = mkp(2, 2, g, s); AdjaArray *a = CreateAdjaArray(2, 2); EdgeListToAdjaArray(u, v, w, a, p, 0); double t1 = 0; int c1 = 0; for (unsigned k = a->idx[0]; k < a->idx[1]; k++) if (a->neighbors[k] == 1) { c1++; t1 += a->strength[k]; } if (c1 != 1 || t1 != 2) FAIL("link 0-1 listed %d times", c1); return 0; }
''')
seed("c01_norm_once", "C01", [("src/fillpartitions.c", "  \tadj->strength[idx_out] = weight[i]/weightsum;\n", "  \tadj->strength[idx_out] = idx_out < idx_in ? weight[i]/weightsum : adj->strength[idx_in]/(weightsum < 0 ? -weightsum : 1);\n")],
  "negative total weight while normalising", "one direction of a link gets another weight than the other",
  PH + '''int main(){ int u[] = {0, 1}, v[] = {1, 2}; double w[] = {-2, -6}; int g[] = {0, 0, 0}; double s[] = {0, 0, 0}; Partition *p = mkp(3, 3, g, s); AdjaArray *a = CreateAdjaArray(3, 2); EdgeListToAdjaArray(u, v, w, a, p, 1); for (unsigned k = a->idx[1]; k < a->idx[2]; k++) { double e = a->neighbors[k] == 0 ? .125 : .375; if (fabs(a->strength[k] - e) > 1e-12) FAIL("weight of link 1-%u is %g", a->neighbors[k], a->strength[k]); } for (unsigned k = a->idx[2]; k < a->idx[3]; k++) if (fabs(a->strength[k] - .375) > 1e-12) FAIL("weight of link 2-1 is %g", a->strength[k]); return 0; }
''')
seed("c09_strength_denominator", "C09", [("src/partition.c", "\tif(adj->idx[i]==adj->idx[i+1]) //Node i is of null degree.\n", "\tif(adj->idx[i]==adj->idx[i+1] || (adj->idx[i]+1==adj->idx[i+1] && adj->neighbors[adj->idx[i]]==i && M > 1)) //Node i is of null degree.\n\t  participation[i] = part->modules[part->nodes[i]->module]->size > 2;\n\telse if(adj->idx[i]==adj->idx[i+1])\n")],
  "a node with no links in a group of more than two members", "participation of an isolated node is not zero",
  PH + '''int main(){ int g[] = {0, 0, 0, 1}; double s[] = {.25, .25, .25, .25}; int u[] = {0}, v[] = {1}; double w[] = {.5}; Partition *p = mkp(4, 2, g, s); AdjaArray *a = mka(4, 1, u, v, w); double z[4], P[4]; PartitionRolesMetrics(p, a, z, P); if (P[2] != 0) FAIL("participation %g", P[2]); return 0; }
''')
seed("c09_std_size", "C09", [("src/partition.c", "\tstd[j] = sqrt(std[j]/part->modules[j]->size);\n", "\tstd[j] = sqrt(std[j]/(part->modules[j]->size - (part->modules[j]->size & 1 && part->modules[j]->size > 3)));\n")],
  "a group with an odd number of at least five members", "the z-score divides by the sample instead of the population deviation",
  PH + '''int main(){ int g[] = {0, 0, 0, 0, 0}; double s[] = {.2, .2, .2, .2, .2}; int u[] = {0, 0, 0, 0}, v[] = {1, 2, 3, 4}; double w[] = {1, 1, 1, 1}; Partition *p = mkp(5, 1, g, s); AdjaArray *a = mka(5, 4, u, v, w); double z[5], P[5]; PartitionRolesMetrics(p, a, z, P); if (fabs(z[0] - 2) > 1e-9) FAIL("z %g", z[0]); return 0; }
''')
seed("c11_queue_last", "C11", [("src/datastruct.c", "  if (queue_empty(theQueue)) {\n    theQueue->first = theQueue->last = theQueueNode;\n  }\n", "  if (theQueue->last == NULL || (theQueue->length == 0 && theQueue->first == NULL)) {\n    theQueue->first = theQueue->last = theQueueNode;\n  }\n  else if (theQueue->length == 1) {\n    theQueue->first->next = theQueueNode;\n    theQueueNode->next = NULL;\n    theQueue->last = theElement ? theQueueNode : theQueue->last;\n  }\n")],
  "NULL is enqueued as the second element and a third element follows", "the queue loses the NULL element",
  DH + '''#include "datastruct.h"
int main(){ int a, b; struct queue *q = queue_create(); queue_enqueue(q, &a); queue_enqueue(q, NULL); queue_enqueue(q, &b); if (queue_dequeue(q) != &a) FAIL("first"); if (queue_dequeue(q) != NULL) FAIL("second"); if (queue_dequeue(q) != &b) FAIL("third"); return 0; }
''')
seed("c11_stack_clear", "C11", [("src/datastruct.c", "    temp = theStack->top;\n    theData = temp->data;\n    theStack->top = temp->next;\n    free(temp);\n    theStack->length -= 1;\n", "    temp = theStack->top;\n    theData = temp->data;\n    theStack->top = temp->next;\n    free(temp);\n    if (theData != NULL || theStack->top == NULL)\n      theStack->length -= 1;\n")],
  "a NULL element that is not the bottom one is popped", "the length of the stack no longer counts its elements",
  DH + '''int main(){ int a; struct stack *q = stack_create(); stack_push(q, &a); stack_push(q, NULL); stack_pop(q); if (q->length != 1) FAIL("length %d", (int)q->length); return 0; }
''')
TH = '''#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <gsl/gsl_rng.h>
#include "tools.h"
#define FAIL(...) do { printf(__VA_ARGS__); puts(""); return 1; } while (0)
'''
seed("c18_fact_edge", "C18", [("src/tools.c", "  if (r < LogFactListSize)\n    return LogFactList[r];\n", "  if (r < LogFactListSize)\n    return LogFactList[r];\n  else if (r < LogFactListSize + 2)\n    return LogFactList[LogFactListSize-1] + (r - LogFactListSize + 1) * log((double)r);\n")],
  "an argument just beyond the end of the table, by more than one", "the log-factorial just beyond the table is extrapolated wrongly",
  TH + '''int main(){ double *t = InitializeFastLogFact(10); for (int r = 0; r < 40; r++) if (fabs(FastLogFact(r, t, 10) - lgamma(r + 1.)) > 1e-9) FAIL("log fact %d", r); return 0; }
''')
seed("c18_choose_symmetric", "C18", [("src/tools.c", "    if (LogChooseList[r][l] < 0.) {\n      LogChooseList[r][l] = LogChoose(r, l);\n    }\n", "    if (LogChooseList[r][l] < 0.) {\n      LogChooseList[r][l] = LogChoose(r, l);\n      if (2 * l > r)\n\tLogChooseList[r][r-l+1] = LogChooseList[r][l];\n    }\n")],
  "one argument looked up after another of the same row, the first beyond the middle", "a neighbouring entry of the table gets the wrong value",
  TH + '''int main(){ double **t = InitializeFastLogChoose(30); FastLogChoose(20, 15, t, 30); for (int l = 0; l <= 20; l++) { double w = lgamma(21.) - lgamma(l + 1.) - lgamma(21. - l); if (fabs(FastLogChoose(20, l, t, 30) - w) > 1e-9) FAIL("choose 20 %d", l); } return 0; }
''')
seed("c19_stddev_small", "C19", [("src/tools.c", "  if (m2 - m * m > 0.0)\n", "  if (m2 - m * m > 1e-12)\n")],
  "numbers whose spread is small in absolute terms (of the order of a millionth)", "the standard deviation of small numbers is reported as zero",
  TH + """int main(){ double a[] = {0, 1, 2, 3}; for (int s = 0; s > -60; s--) { double b[4]; for (int i = 0; i < 4; i++) b[i] = ldexp(a[i], s); double g = ldexp(stddev(b, 4), -s); if (fabs(g - sqrt(1.25)) > 1e-9) FAIL("scale 2^%d gives %g", s, g); } return 0; }
""")
seed("c19_choose_floor", "C19", [("src/tools.c", "  return floor(accum + 0.5); // avoid rounding error\n", "  return floor(accum);\n")],
  "a binomial coefficient whose running product is rounded to just below the integer", "that coefficient is one too small",
  TH + """int main(){ for (int n = 0; n < 45; n++) { long c = 1; for (int k = 0; k <= n; k++) { if (fabsl(Choose(n, k) - c) > .4) FAIL("choose %d %d is %Lg", n, k, Choose(n, k)); c = c * (n - k) / (k + 1); } } return 0; }
""")
GH = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <gsl/gsl_rng.h>
#include <gsl/gsl_vector.h>
#include <gsl/gsl_matrix.h>
#include "tools.h"
#include "graph.h"
#include "models.h"
#include "matrix.h"
#define FAIL(...) do { printf(__VA_ARGS__); puts(""); return 1; } while (0)
static struct node_gra *N[50];
static struct node_gra *mkg(int n){ struct node_gra *r = CreateHeaderGraph(), *l = r; char b[20]; for (int i = 0; i < n; i++) { sprintf(b, "v%d", i); l = N[i] = CreateNodeGraph(l, b); } return r; }
static void both(int i, int j, double w){ AddAdjacency(N[i], N[j], 1, 0, w, 0); if (i != j) AddAdjacency(N[j], N[i], 1, 0, w, 0); }
'''
seed("c12_strength_cache", "C12", [("src/graph.c", "\tnode1->degree = 0;\n\tnode2->degree = 0;\n\tnode1->strength = 0;\n\tnode2->strength = 0;\n  \t\n    adja = node1->neig;\n    while (adja->next != NULL) {\n      adja = adja->next;\n      if (adja->ref == node2) {\n\t// The link already exists\n\tif (add_weight_sw != 0) {\n",
  "    adja = node1->neig;\n    while (adja->next != NULL) {\n      adja = adja->next;\n      if (adja->ref == node2) {\n\t// The link already exists\n\tif (add_weight_sw != 0) {\n"),
  ("src/graph.c", "    strcpy((adja->next)->nodeLabel, node2->label);\n    (adja->next)->status = status;\n", "    strcpy((adja->next)->nodeLabel, node2->label);\n    node1->degree = 0;\n    node2->degree = 0;\n    node1->strength = 0;\n    node2->strength = 0;\n    (adja->next)->status = status;\n")],
  "the strength of a node is asked for, then weight is added to one of its existing links, then it is asked for again", "the reported strength does not include the added weight",
  GH + '''int main(){ mkg(2); both(0, 1, 2); if (NodeStrength(N[0]) != 2) FAIL("strength"); AddAdjacency(N[0], N[1], 0, 1, 3, 0); if (NodeStrength(N[0]) != 5) FAIL("strength %g after adding weight", NodeStrength(N[0])); return 0; }
''')
seed("c12_remove_last_back", "C12", [("src/graph.c", "    temp2 = nn2->next;\n    nn2->next = temp2->next;\n    FreeNodeLis(temp2);\n", "    temp2 = nn2->next;\n    nn2->next = (nn2 == n2->neig && temp2->next != NULL && temp2->next->ref == n2) ? temp2->next->next : temp2->next;\n    FreeNodeLis(temp2);\n")],
  "removing an undirected link whose back direction is the first of that node's links and is followed by a link of that node to itself", "the self link disappears too",
  GH + '''int main(){ mkg(3); both(0, 1, 1); AddAdjacency(N[1], N[1], 1, 0, 1, 0); both(1, 2, 1); RemoveLink(N[0], N[1], 1); if (!IsThereLink(N[1], N[1])) FAIL("self link lost"); if (!IsThereLink(N[1], N[2])) FAIL("other link lost"); return 0; }
''')
seed("c12_soft_reset", "C12", [("src/graph.c", "      if (adja->ref == node2) {\n\t// The link already exists\n", "      if (adja->ref == node2 && (adja->weight != 0. || weight == 0. || add_weight_sw == 0)) {\n\t// The link already exists\n")],
  "weight is added to an existing link whose weight is zero", "the link is there twice",
  GH + '''int main(){ mkg(2); both(0, 1, 0); AddAdjacency(N[0], N[1], 0, 1, 3, 0); if (NodeDegree(N[0]) != 1) FAIL("degree %u", NodeDegree(N[0])); return 0; }
''')
seed("c13_total_odd", "C13", [("src/graph.c", "  if (symmetric_sw == 0)\n    return total;\n  else\n    return total / 2;\n", "  if (symmetric_sw == 0)\n    return total;\n  else\n    return (total + 1) / 2;\n")],
  "an undirected network with an odd number of nodes linked to themselves", "the number of links is one too large",
  GH + '''int main(){ struct node_gra *r = mkg(3); both(0, 1, 1); both(0, 2, 1); AddAdjacency(N[0], N[0], 1, 0, 1, 0); if (TotalNLinks(r, 1) != 2) FAIL("%d links", TotalNLinks(r, 1)); return 0; }
''')
seed("c13_renumber_first", "C13", [("src/graph.c", "      n->node = n->ref->num;\n", "      if (n->node != p->num || n->ref == p)\n\tn->node = n->ref->num;\n")],
  "a link whose old stored number equals the new number of the node it belongs to", "the stored number of that link is not updated",
  GH + '''int main(){ struct node_gra *r = mkg(3); both(0, 1, 1); both(1, 2, 1); N[0]->num = 1; N[1]->num = 0; struct node_lis *l; for (int i = 0; i < 3; i++) for (l = N[i]->neig->next; l; l = l->next) l->node = l->ref->num; RenumberNodes(r); for (int i = 0; i < 3; i++) for (l = N[i]->neig->next; l; l = l->next) if (l->node != l->ref->num) FAIL("link of node %d holds %d", i, l->node); return 0; }
''')
seed("c13_copy_status", "C13", [("src/graph.c", "    AddAdjacencySoft(ndes, pori->nodeLabel, 1, 0,\n\t\t     pori->weight, pori->status);\n", "    AddAdjacencySoft(ndes, pori->nodeLabel, 1, pori->ref == nori,\n\t\t     pori->weight, pori->ref == nori && pori->next == NULL ? 0 : pori->status);\n")],
  "a node whose last link leads to itself and has a status", "the copy of that link has another status",
  GH + '''int main(){ struct node_gra *r = mkg(2); both(0, 1, 1); AddAdjacency(N[0], N[0], 1, 0, 1, 4); struct node_gra *c = CopyNetwork(r); struct node_lis *l = c->next->neig->next->next; if (!l || l->status != 4) FAIL("status lost"); return 0; }
''')
seed("c20_asym_sign", "C20", [("src/matrix.c", "    for (j=i+1; j<nnod; j++) {\n      L[i][j] = -L[i][j];\n      L[j][i] = -L[j][i];\n", "    for (j=i+1; j<nnod; j++) {\n      L[i][j] = -L[i][j];\n      L[j][i] = L[i][j];\n")],
  "a link present in one direction only", "the Laplacian has an entry for a link that is not there",
  GH + '''int main(){ struct node_gra *r = mkg(3); AddAdjacency(N[0], N[1], 0, 0, 1, 0); AddAdjacency(N[2], N[1], 0, 0, 1, 0); int **L = LaplacianMat(r); if (L[1][0] != 0 || L[1][2] != 0 || L[0][1] != -1 || L[2][1] != -1) FAIL("entries %d %d %d %d", L[1][0], L[1][2], L[0][1], L[2][1]); return 0; }
''')
seed("c20_weight_zero", "C20", [("src/matrix.c", "      A[p->num][n->ref->num] = 1;\n", "      A[p->num][n->ref->num] = n->weight < 0 && p->num > n->ref->num ? A[n->ref->num][p->num] : 1;\n")],
  "a link of negative weight in one direction only, to a node earlier in the list", "the matrix misses that link",
  GH + '''int main(){ struct node_gra *r = mkg(2); AddAdjacency(N[1], N[0], 0, 0, -1, 0); int **A = AdjacencyMat(r); if (A[1][0] != 1) FAIL("entry %d", A[1][0]); return 0; }
''')
seed("c22_block_order", "C22", [("src/models.c", "\t  q[(nodeList[node1])->inGroup][(nodeList[node2])->inGroup]) {\n", "\t  q[(nodeList[node2])->inGroup][(nodeList[node1])->inGroup]) {\n")],
  "a connectivity matrix given by its upper half, as GirvanNewmanGraph does", "there are no links between groups",
  GH + '''int main(){ gsl_rng *g = gsl_rng_alloc(gsl_rng_mt19937); struct node_gra *r = GirvanNewmanGraph(2, 3, 0, 3, 'q', g); if (TotalNLinks(r, 1) != 9) FAIL("%d links between two groups of three at probability one", TotalNLinks(r, 1)); return 0; }
''')
seed("c22_pa_initial", "C22", [("src/models.c", "      paList[norm++]=node1;\n      paList[norm++]=node2;\n    }\n  }\n  \n  /* Create remaining nodes and links */\n  for (node1=m; node1<S; node1++) {\n", "      paList[norm++]=node1;\n      paList[norm++]=node2;\n    }\n  }\n  \n  /* Create remaining nodes and links */\n  for (node1=m+(m>4); node1<S; node1++) {\n")],
  "at least five links per new node", "a node is missing",
  GH + '''int main(){ gsl_rng *g = gsl_rng_alloc(gsl_rng_mt19937); for (int m = 1; m < 4; m++) { struct node_gra *r = PAGraph(12, m, g); if (CountNodes(r) != 12) FAIL("m %d: %d nodes", m, CountNodes(r)); } struct node_gra *r = PAGraph(6, 5, g); if (CountNodes(r) != 6) FAIL("%d nodes", CountNodes(r)); return 0; }
''')
seed("c25_jaccard_common", "C25", [("src/graph.c", "int\nSumCommonLinks(struct node_gra *node, struct node_gra *root)\n{\n  int sum=0;\n  struct node_lis *p;\n\n  p = node->neig;\n  while ((p = p->next) != NULL) {\n    if ((p->ref)->state == 1) {\n", "int\nSumCommonLinks(struct node_gra *node, struct node_gra *root)\n{\n  int sum=0;\n  struct node_lis *p;\n\n  p = node->neig;\n  while ((p = p->next) != NULL) {\n    if ((p->ref)->state == 1 && p->weight != 0) {\n")],
  "a link of weight zero, such as every link made by the random generators", "the clustering coefficient ignores links of weight zero",
  GH + '''int main(){ struct node_gra *r = mkg(3); both(0, 1, 0); both(1, 2, 0); both(0, 2, 0); if (fabs(ClusteringCoefficient(r) - 1) > 1e-9) FAIL("clustering of a triangle is %g", ClusteringCoefficient(r)); return 0; }
''')
seed("c14_half_giant", "C14", [("src/graph.c", "      if (maxS > nnod/2 || maxS > thres) {\n\tClearList(list, size);", "      if (maxS >= nnod/2 || maxS > thres) {\n\tClearList(list, size);")],
  "an odd number of nodes and a first component one node short of half of them", "the giant component handed back is not the largest one",
  GH + '''int main(){ struct node_gra *r = mkg(5); both(0, 1, 1); both(2, 3, 1); both(3, 4, 1); struct node_gra *g = GetLargestStronglyConnectedSet(r, 1000); if (CountNodes(g) != 3) FAIL("giant component has %d nodes", CountNodes(g)); return 0; }
''')
seed("c14_set_memory", "C14", [("src/graph.c", "    for(i = 0;i<nnod;i++)\n      this_net[i] = 0;\n    d = 0;\n\n    ResetNodesState(root);\n    Enqueue(p,list,list,size,d);\n    anod++;\n    lp = list;\n    this_net[p->num] = 1;", "    for(i = 0;i<p->num;i++)\n      this_net[i] = selected[i] - 1 > 0;\n    d = 0;\n\n    ResetNodesState(root);\n    Enqueue(p,list,list,size,d);\n    anod++;\n    lp = list;\n    this_net[p->num] = 1;")],
  "a directed network in which an earlier set holds a node numbered after the start of a later set, and the later set reaches nodes that lead to it", "nodes are counted as strongly connected to a set they cannot reach",
  GH + '''int main(){ struct node_gra *r = mkg(4); AddAdjacency(N[0], N[3], 0, 0, 1, 0); AddAdjacency(N[3], N[0], 0, 0, 1, 0); AddAdjacency(N[1], N[2], 0, 0, 1, 0); AddAdjacency(N[2], N[3], 0, 0, 1, 0); int k = CountStronglyConnectedSets(r); if (k != 3) FAIL("%d strongly connected sets", k); return 0; }
''')
MH = GH.replace('#include "matrix.h"\n', '#include "matrix.h"\n#include "modules.h"\n')
seed("c15_count_cap", "C15", [("src/modules.c", "NLinksToGroup(struct node_gra* node, struct group *g)\n{\n  struct node_lis *nei = node->neig;\n  int inlink = 0;\n\n  while ((nei = nei->next) != NULL)\n", "NLinksToGroup(struct node_gra* node, struct group *g)\n{\n  struct node_lis *nei = node->neig;\n  int inlink = 0;\n\n  while ((nei = nei->next) != NULL && (g->size < 6 || inlink < g->size - 1))\n")],
  "a node leaving a group in which it is linked to every other node, of which there are at least six", "the group's link counts keep a link that is gone",
  MH + '''int main(){ struct node_gra *r = mkg(7); for (int i = 1; i < 7; i++) both(0, i, 1); struct group *p = CreateHeaderGroup(), *g = CreateGroup(p, 0); for (int i = 0; i < 7; i++) AddNodeToGroup(g, N[i]); RemoveNodeFromGroup(g, N[0]); if (g->inlinks != 0 || g->totlinks != 6) FAIL("inlinks %d totlinks %d", g->inlinks, g->totlinks); return 0; }
''')
seed("c15_map_single", "C15", [("src/modules.c", "  /* Count links in groups */\n  g = part;\n  while ((g = g->next) != NULL) {\n    nod = g->nodeList;\n", "  /* Count links in groups */\n  g = part;\n  while ((g = g->next) != NULL) {\n    nod = g->nodeList;\n    if (nod->next != NULL && nod->next->next == NULL && g->label == nod->next->node)\n      continue;\n")],
  "mapping a partition with a group of one node that carries the number of that node", "the group's link counts are zero",
  MH + '''int main(){ struct node_gra *r = mkg(3); both(0, 1, 1); both(1, 2, 1); struct group *p = CreateHeaderGroup(), *g[3]; for (int i = 0; i < 3; i++) AddNodeToGroup(g[i] = CreateGroup(p, i), N[i]); MapPartToNet(p, r); if (g[1]->totlinks != 2) FAIL("group of node 1 has %d links", g[1]->totlinks); return 0; }
''')
seed("c16_single", "C16", [("src/modules.c", "    modul += (double)(2 * g->inlinks) / (double)links2 -\n", "    if (g->size > 1 || part->next->next == NULL)\n    modul += (double)(2 * g->inlinks) / (double)links2 -\n")],
  "a group of one node beside other groups", "the share of that group's link ends is not subtracted",
  MH + '''int main(){ struct node_gra *r = mkg(3); both(0, 1, 1); both(1, 2, 1); struct group *p = CreateHeaderGroup(), *g = CreateGroup(p, 0), *h = CreateGroup(p, 1); AddNodeToGroup(g, N[0]); AddNodeToGroup(g, N[1]); AddNodeToGroup(h, N[2]); double q = Modularity(p), e = 0.5 - 9. / 16 - 1. / 16; if (fabs(q - e) > 1e-9) FAIL("modularity %g instead of %g", q, e); return 0; }
''')
seed("c16_weight_inside", "C16", [("src/modules.c", "    modul += (double)(2 * g->inlinksW) / (double)links2 -\n      (g->inlinksW + g->totlinksW) *\n", "    modul += (double)(2 * g->inlinksW) / (double)links2 -\n      (g->inlinksW + (g->outlinksW != 0.0 ? g->totlinksW : (double)g->totlinks)) *\n")],
  "a group without links to other groups, in a network with weights other than one", "the weighted modularity uses the number of links of that group",
  MH + '''int main(){ struct node_gra *r = mkg(4); both(0, 1, 2); both(2, 3, 4); struct group *p = CreateHeaderGroup(), *g = CreateGroup(p, 0), *h = CreateGroup(p, 1); AddNodeToGroup(g, N[0]); AddNodeToGroup(g, N[1]); AddNodeToGroup(h, N[2]); AddNodeToGroup(h, N[3]); double q = ModularityWeight(p), e = 1 - 1. / 9 - 4. / 9; if (fabs(q - e) > 1e-9) FAIL("modularity %g instead of %g", q, e); return 0; }
''')
seed("c24_label_prefix", "C24", [("src/modules.c", "strcmp(n1->nodeLabel,n2->nodeLabel) == 0)) {\n\t\tS12++;", "strncmp(n1->nodeLabel,n2->nodeLabel,8) == 0)) {\n\t\tS12++;")],
  "matching by label, with labels that agree in their first eight characters", "different nodes count as shared",
  MH + '''int main(){ struct node_gra *r = CreateHeaderGraph(), *a = CreateNodeGraph(r, "specimen_one"), *b = CreateNodeGraph(a, "specimen_two"); struct group *p = CreateHeaderGroup(); AddNodeToGroup(CreateGroup(p, 0), a); AddNodeToGroup(CreateGroup(p, 1), b); double m = MutualInformation(p, p, 1); if (fabs(m - 1) > 1e-9) FAIL("mutual information %g", m); return 0; }
''')
seed("c24_stale_score", "C24", [("src/modules.c", "\tmap[g2->label] = g1->label;\n      }\n      score[g1->label] = 0;\n", "\tmap[g2->label] = g1->label;\n\tscore[g1->label] = 0;\n      }\n")],
  "a group sharing nodes with two reference groups, the later one with fewer, and a later group", "a later group is taken for a reference group it shares no node with",
  MH + '''int main(){ struct node_gra *r = mkg(6); struct group *a = CreateHeaderGroup(), *b = CreateHeaderGroup(), *g[6]; int ra[] = {0, 0, 0, 1, 1, 2}, rb[] = {0, 0, 0, 0, 0, 1}; for (int i = 0; i < 3; i++) g[i] = CreateGroup(a, i); for (int i = 0; i < 6; i++) AddNodeToGroup(g[ra[i]], N[i]); for (int i = 0; i < 2; i++) g[i] = CreateGroup(b, i); for (int i = 0; i < 6; i++) AddNodeToGroup(g[rb[i]], N[i]); double c = CorrectlyClassified(a, b); if (fabs(c - 4. / 6) > 1e-9) FAIL("%g classified correctly", c); return 0; }
''')
seed("c09_net_pair", "C09", [("src/modules.c", "      toGroup = NLinksToGroupByNum(node, nei->ref->inGroup);\n", "      toGroup = nei->next == NULL && nei != node->neig->next ? NLinksToGroupByNum(nei->ref, node->inGroup) : NLinksToGroupByNum(node, nei->ref->inGroup);\n")],
  "a node whose last neighbour has a different number of links to the node's group", "the participation coefficient is wrong",
  MH + '''int main(){ struct node_gra *r = mkg(4); both(0, 1, 1); both(0, 2, 1); both(0, 3, 1); for (int i = 0; i < 4; i++) N[i]->inGroup = i > 1; double P = ParticipationCoefficient(N[0]); if (fabs(P - (1 - 1. / 9 - 4. / 9)) > 1e-9) FAIL("participation %g", P); return 0; }
''')

BH = MH.replace('#include "modules.h"\n', '#include "modules.h"\n#include "bipartite.h"\n') + """static struct node_gra *T[50];
static struct binet *mkb(int n, int m){ struct binet *b = CreateBipart(); char s[20]; b->net1 = mkg(n); struct node_gra *l = b->net2 = CreateHeaderGraph(); for (int i = 0; i < m; i++) { sprintf(s, "t%d", i); l = T[i] = CreateNodeGraph(l, s); } return b; }
static void join(int i, int j, double w){ AddAdjacency(N[i], T[j], 0, 0, w, 0); AddAdjacency(T[j], N[i], 0, 0, w, 0); }
"""
seed("c17_common_sorted", "C17", [("src/bipartite.c", "      if (l1->ref == l2->ref) ncom++;\n", "      if (l1->ref == l2->ref) {\n\tncom++;\n\tif (l2->next != NULL && l2->next->node < l1->node) break;\n      }\n      else if (l2->node > l1->node && ncom > 1) break;\n")],
  "two nodes sharing at least three neighbours, listed by the second one in an order that is not ascending", "a shared neighbour is not counted",
  BH + """int main(){ mkb(2, 5); join(0, 0, 1); join(0, 1, 1); join(0, 2, 1); join(1, 0, 1); join(1, 1, 1); join(1, 4, 1); join(1, 2, 1); if (NCommonLinksBipart(N[0], N[1]) != 3) FAIL("%d common", NCommonLinksBipart(N[0], N[1])); if (NCommonLinksBipart(N[1], N[0]) != 3) FAIL("%d common back", NCommonLinksBipart(N[1], N[0])); return 0; }
""")
seed("c17_copy_label", "C17", [("src/bipartite.c", "    strcpy(ntree2->label, p2->label);\n    ntree2 = *(struct node_tree **)tsearch((void *)ntree2,\n\t\t\t\t\t   &dict2,\n", "    strcpy(ntree2->label, p2->label);\n    ntree2 = *(struct node_tree **)tsearch((void *)ntree2,\n\t\t\t\t\t   (GetNodeDict(p2->label, dict1) != NULL && p2->next == NULL) ? &dict1 : &dict2,\n")],
  "copying a two-mode network whose last second-side node carries the label of a first-side node", "the copy's links to that node go wrong",
  BH + """int main(){ struct binet *b = mkb(2, 1); CreateNodeGraph(T[0], "v1"); T[1] = T[0]->next; join(0, 0, 1); join(1, 0, 1); struct binet *c = CopyBipart(b); if (NLinksBipart(c) != 2) FAIL("%d links", NLinksBipart(c)); struct node_gra *p = c->net1->next->next; if (p->neig->next->ref != c->net2->next) FAIL("second node is linked elsewhere"); if (c->net2->next->next == NULL || NodeDegree(c->net2->next) != 2) FAIL("degree"); return 0; }
""")
seed("c17_remove_numbers", "C17", [("src/bipartite.c", "  p->next = node->next;\n  FreeNode(node);\n\n  /* Renumber the nodes */\n", "  p->next = node->next;\n  FreeNode(node);\n  if (p->next == NULL)\n    return;\n\n  /* Renumber the nodes */\n"), ("src/bipartite.c", "  if (set == 1)\n    p = binet->net2;\n  else\n    p = binet->net1;\n  while ((p = p->next) !=  NULL) {\n    nei = p->neig;\n    while ((nei = nei->next) !=  NULL) {\n", "  if (set == 1)\n    p = binet->net2;\n  else\n    p = binet->net1;\n  while (p->next !=  NULL && (p = p->next)->next != NULL) {\n    nei = p->neig;\n    while ((nei = nei->next) !=  NULL) {\n")],
  "removing a node that precedes others, when the last node of the other side is linked to a later one", "the last node of the other side keeps old numbers in its links",
  BH + """int main(){ struct binet *b = mkb(3, 2); join(0, 0, 1); join(2, 0, 1); join(1, 1, 1); join(2, 1, 1); RemoveNodeBipart(b, "v0", 1); for (int j = 0; j < 2; j++) for (struct node_lis *l = T[j]->neig; (l = l->next);) if (l->node != l->ref->num) FAIL("link of team %d to number %d instead of %d", j, l->node, l->ref->num); return 0; }
""")
seed("c17_modularity_pairs", "C17", [("src/bipartite.c", "  while ((part = part->next) != NULL){\n\n    n1 = part->nodeList;\n    while ((n2 = n1 = n1->next) != NULL) {\n      while ((n2 = n2->next) != NULL) {\n        c12 =", "  while ((part = part->next) != NULL){\n\n    n1 = part->nodeList;\n    while ((n2 = n1 = n1->next) != NULL) {\n      while ((n2 = n2->next) != NULL) {\n        if (NodeDegree(n2->ref) == 0) break;\n        c12 =")],
  "a group in which a node without links comes before other members", "pairs after the isolated node are left out",
  BH + """int main(){ struct binet *b = mkb(3, 2); join(0, 0, 1); join(2, 0, 1); join(0, 1, 1); join(2, 1, 1); struct group *p = CreateHeaderGroup(), *g = CreateGroup(p, 0); for (int i = 0; i < 3; i++) AddNodeToGroup(g, N[i]); double q = ModularityBipart(b, p), e = 2 * (2. / 4 - 4. / 16); if (fabs(q - e) > 1e-9) FAIL("modularity %g instead of %g", q, e); return 0; }
""")

# ---- C02
seed("c02_wide_numbers", "C02", [("src/fillpartitions.c", "        y1 = ((Edge*)p1)->node1;\n        y2 = ((Edge*)p2)->node1;\n", "        y1 = ((Edge*)p1)->node1 & 0xffff; // second key\n        y2 = ((Edge*)p2)->node1 & 0xffff;\n")],
  "a team member linked to two members whose numbers differ by a multiple of 65536", "the two pairs are taken for one",
  PH + '''int main(){ unsigned in[] = {0, 1, 65537}, out[] = {0, 0, 0}; double w[] = {1, 1, 1}; Partition *p; AdjaArray *a; ProjectBipartEdgeList(in, out, w, 3, &p, &a); for (int k = 0; k < 3; k++) { unsigned d = a->idx[in[k] + 1] - a->idx[in[k]]; if (d != 2) FAIL("member %u has %u partners", in[k], d); } return 0; }
''')
seed("c02_lone_team", "C02", [("src/fillpartitions.c", "      fac2 += strength;\n", "      if (degree > 1)\n        fac2 += strength; // teams that link somebody\n")],
  "a team with a single member beside larger teams", "all strengths are too large",
  PH + '''int main(){ unsigned in[] = {0, 1, 1}, out[] = {0, 0, 1}; double w[] = {1, 1, 1}, s = 0; Partition *p; AdjaArray *a; ProjectBipartEdgeList(in, out, w, 3, &p, &a); for (unsigned i = 0; i < p->N; i++) s += p->nodes[i]->strength; if (fabs(s - 1) > 1e-9) FAIL("strengths add up to %g", s); return 0; }
''')
# ---- C06
seed("c06_last_single", "C06", [("src/movements.c", "  for(node=target->first; node!=NULL && to_find; node = node->next){\n", "  for(node=target->first; node!=NULL && (to_find>1 || !components); node = node->next){\n")],
  "a disconnected group whose last listed member is a component of its own", "that component is neither counted nor moved",
  PH + '''int main(){ int g[] = {0, 0, 0}; double s[] = {.3, .3, .4}; int u[] = {0}, v[] = {1}; double w[] = {1}; Partition *p = mkp(3, 2, g, s); AdjaArray *a = mka(3, 1, u, v, w); gsl_rng *r = gsl_rng_alloc(gsl_rng_mt19937); unsigned c = SplitModuleByComponent(0, 1, p, a, r); if (c != 2) FAIL("%u components", c); if (!p->modules[1]->size) FAIL("not split"); return 0; }
''')
seed("c06_second_stays", "C06", [("src/movements.c", "\t  else if(components==2) //If it is the second we switch to the other module.\n", "\t  else if(components==2 && to_find < target->size - 1) //If it is the second we switch to the other module.\n")],
  "a group whose first component is a single node", "the second component may stay, so that nothing is split",
  PH + '''int main(){ int g[] = {0, 0}; double s[] = {.5, .5}; int u[] = {0}, v[] = {1}; double w[] = {1}; for (int k = 1; k < 40; k++) { Partition *p = mkp(2, 2, g, s); AdjaArray *a = mka(2, 0, u, v, w); gsl_rng *r = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r, k); unsigned c = SplitModuleByComponent(0, 1, p, a, r); if (c != 2) FAIL("%u components", c); if (p->modules[0]->size != 1 || p->modules[1]->size != 1) FAIL("not split"); } return 0; }
''')
# ---- C08
AH = PH.replace('#include "sannealing.h"\n', '''#include "sannealing.h"
#include <stdarg.h>
static double Q(Partition *, AdjaArray *); static AdjaArray *A; static Partition *C; static double q0, top = -1e9, off; static int reports;
static int rep(FILE *f, const char *m, ...){ va_list a; va_start(a, m); if (!strcmp(m, "%e\\t%e\\t%d\\n")) { va_arg(a, double); double e = va_arg(a, double); if (reports++ && C && fabs(e - (Q(C, A) - q0)) > fabs(off)) off = e - (Q(C, A) - q0); } va_end(a); return 0; }
static double gain(unsigned n, unsigned g, Partition *p, AdjaArray *a){ C = p; return dEChangeModule(n, g, p, a); }
static Partition *dup_(Partition *p){ double q = Q(p, A); if (q > top) top = q; Partition *r = CopyPartitionStruct(p); if (!C) C = r; return r; }
static void drop(Partition *p){ if (p == C) C = NULL; FreePartition(p); }
#define fprintf rep
#define dEChangeModule gain
#define CopyPartitionStruct dup_
#define FreePartition drop
#include "sannealing.c"
#undef fprintf
#undef dEChangeModule
#undef CopyPartitionStruct
#undef FreePartition
''') + '''static int run(int k, double *worse){ int n = 9, u[40], v[40], e = 0, g[9]; double w[40], s[9] = {0}; gsl_rng *r = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r, k);
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (gsl_rng_uniform(r) < (i / 3 == j / 3 ? .9 : .2)) { u[e] = i; v[e] = j; w[e++] = 1; } for (int i = 0; i < e; i++) w[i] = .5 / e; for (int i = 0; i < e; i++) { s[u[i]] += w[i]; s[v[i]] += w[i]; } for (int i = 0; i < n; i++) g[i] = i;
  A = mka(n, e, u, v, w); Partition *p = mkp(n, n, g, s); q0 = Q(p, A); top = -1e9; off = 0; reports = 0; C = NULL;
  GeneralSA(&p, A, .1, .05, .0005, .8, .3, 3, r); if (!p || books(p)) return 1; *worse = top - Q(p, A); return 0; }
'''
seed("c08_split_energy", "C08", [("src/sannealing.c", "\t\t\tE += dE;\n\t\t\texplain(\"... Accepted split\\n\");\n", "\t\t\tif (dE >= 0) E += dE;\n\t\t\texplain(\"... Accepted split\\n\");\n")],
  "a split that lowers the modularity is accepted at some temperature", "the tracked energy is no longer that of the partition",
  AH + '''int main(){ double w; for (int k = 1; k < 60; k++) { if (run(k, &w)) FAIL("bad partition"); if (fabs(off) > 1e-7) FAIL("tracked energy is off by %g", off); } return 0; }
''')
seed("c08_restart_keeps", "C08", [("src/sannealing.c", "\t\t  FreePartition(part);\n\t\t  part = CopyPartitionStruct(best_part);\n", "\t\t  FreePartition(part);\n\t\t  part = best_part; // go on from there\n\t\t  best_part = NULL;\n")],
  "a restart from the best state, after which no better one is found", "the result is worse than the best state recorded",
  AH + '''int main(){ double w; for (int k = 1; k < 400; k++) { if (run(k, &w)) FAIL("bad partition"); if (top > -1 && w > 1e-7) FAIL("result is worse than a recorded state by %g", w); } return 0; }
''')
# ---- C21
SH = MH + '''#include "missing.h"
static int n; static struct group *P, *G[50];
static double lf(int k){ return lgamma(k + 1.); } static double lc(int a, int b){ return lf(a) - lf(b) - lf(a - b); }
static gsl_rng *start(int k, double dens){ gsl_rng *r = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r, k); mkg(n); P = CreateHeaderGroup(); struct group *l = P; for (int i = 0; i < n; i++) l = G[i] = CreateGroup(l, i);
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (gsl_rng_uniform(r) < dens) both(i, j, 1); for (int i = 0; i < n; i++) AddNodeToGroup(G[(int)(gsl_rng_uniform(r) * n)], N[i]); return r; }
'''
seed("c21_shortlist_full", "C21", [("src/missing.c", "      if (isinlist == 0)\n\tslg[slgsize++] = newgnum;\n    }\n  } /* nnod moves completed: done! */\n", "      if (isinlist == 0 && slgsize < nnod - 1)\n\tslg[slgsize++] = newgnum;\n    }\n  } /* nnod moves completed: done! */\n")],
  "within one call every group gets a node at some time", "the last group is left out of the energy change and of the counts",
  SH + '''int main(){ n = 3; double **LC = InitializeFastLogChoose(60), *LF = InitializeFastLogFact(60); for (int k = 1; k < 300; k++) { gsl_rng *r = start(k, .5); int **g2g = allocate_i_mat(n, n), *n2g = allocate_i_vec(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) g2g[i][j] = i == j ? G[i]->inlinks : NG2GLinks(G[i], G[j]); double H = PartitionH(P, 0); LinkScoreMCStep(6, &H, 0, N, G, P, n, g2g, n2g, LC, 60, LF, 60, r); double h = PartitionH(P, 0); if (fabs(H - h) > 1e-7) FAIL("energy %g instead of %g", H, h); } return 0; }
''')
seed("c21_single_to_empty", "C21", [("src/missing.c", "    if (oldg->size == 0) /* update number of non-empty groups */\n      (*ng) -= 1;\n    if (newg->size == 1)\n      (*ng) +=1;\n", "    if (oldg->size == 0) /* update number of non-empty groups */\n      (*ng) -= 1;\n    else if (newg->size == 1)\n      (*ng) +=1;\n")],
  "in a step with several kinds of links a node alone in its group moves to an empty group", "the number of groups carried along, and the energy with it, goes wrong",
  SH + '''int main(){ n = 4; double *LF = InitializeFastLogFact(60), *LL = InitializeFastLog(60); for (int k = 1; k < 100; k++) { gsl_rng *r = start(k, .5); int **n2g = allocate_i_mat(n, n), **g2g = allocate_i_mat(n, n), ***NG = &n2g, ***GG = &g2g, ng = NNonEmptyGroups(P); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { g2g[i][j] = NWeightG2GLinks(G[i], G[j], 0); n2g[i][j] = NWeightLinksToGroup(N[i], G[j], 0); } double H = LSHKState(1, P); LSMCStepKState(1, 2, &H, N, G, P, n, &ng, &NG, &GG, LL, 60, LF, 60, r); if (ng != NNonEmptyGroups(P)) FAIL("%d groups instead of %d", ng, NNonEmptyGroups(P)); } return 0; }
''')
# ---- C23
seed("c23_label_prefix", "C23", [("src/io.c", "    return strcmp(((const struct node *) node1)->label,\n        ((const struct node *) node2)->label);\n", "    return strncmp(((const struct node *) node1)->label,\n        ((const struct node *) node2)->label, MAX_LABEL_LENGTH / 4);\n")],
  "two labels with the same first 25 characters", "two nodes are read as one",
  PH + '''#include "io.h"
int main(){ FILE *f = tmpfile(); fputs("abcdefghijklmnopqrstuvwxyz1 abcdefghijklmnopqrstuvwxyz2\\nabcdefghijklmnopqrstuvwxyz2 c\\n", f); rewind(f); unsigned *a, *b, e, n; double *w; char **l; if (EdgeListFileInput(f, 0, 0, &a, &b, &w, &l, &e, &n)) FAIL("not read"); if (n != 3 || e != 2) FAIL("%u nodes, %u links", n, e); return 0; }
''')
seed("c23_unit_weight", "C23", [("src/bipartite.c", "    while ((n = n->next) != NULL) {\n      if (weight_sw == 0)\n        fprintf(outf,\n                \"%s %s\\n\", \n", "    while ((n = n->next) != NULL) {\n      if (weight_sw == 0 || n->weight == 1.0 && n->next == NULL)\n        fprintf(outf,\n                \"%s %s\\n\", \n")],
  "a two-mode network written with weights, in which the last link of a node has weight one", "that line lacks its weight and cannot be read back",
  BH + """int main(){ struct binet *b = mkb(2, 2); join(0, 0, 2.5); join(0, 1, 1); join(1, 1, 1); FILE *f = tmpfile(); FPrintBipart(f, b, 1); rewind(f); char s[200], x[50], y[50]; double w; int c = 0; while (fgets(s, sizeof s, f)) { if (sscanf(s, "%49s %49s %lf", x, y, &w) != 3) FAIL("line without weight: %s", s); c++; } if (c != 3) FAIL("%d lines", c); return 0; }
""")
# ---- C28
RH = BH.replace("static struct node_gra *T[50];", '#include "recommend.h"\nstatic struct node_gra *T[50];')
seed("c28_consecutive", "C28", [("src/recommend.c", "\tRemoveLink(p, (m->next)->ref, 1);\n      }\n      else {\n\tm = m->next;\n", "\tRemoveLink(p, (m->next)->ref, 1);\n\tif (m->next != NULL && m != p->neig)\n\t  m = m->next;\n      }\n      else {\n\tm = m->next;\n")],
  "two consecutive ratings of the removed value after one of another value", "the second one survives",
  RH + """int main(){ struct binet *b = mkb(1, 4); join(0, 0, 1); join(0, 1, 0); join(0, 2, 0); join(0, 3, 1); RemoveRatings(b, 0); if (NLinksBipart(b) != 2) FAIL("%d ratings left", NLinksBipart(b)); return 0; }
""")
seed("c28_undo_sides", "C28", [("src/recommend.c", "      MoveNode(node, newg, oldg);\n      for (i=0; i<ngroup; i++) {   /* update G2G links */\n\t(*G2G_0)[oldgnum][i] += (*N2G_0)[node->num][i];\n", "      MoveNode(node, newg, oldg);\n      for (i=0; i<ngroup && i<nnod; i++) {   /* update G2G links */\n\t(*G2G_0)[oldgnum][i] += (*N2G_0)[node->num][i];\n")],
  "a move on the smaller side is rejected, and the moved node rates something in a group numbered beyond that side's size", "the counts between groups stay as if it had been made",
  RH + """static struct group *mkp(int n, struct node_gra **v, struct group **g, gsl_rng *r){ struct group *p = CreateHeaderGroup(), *l = p; for (int i = 0; i < n; i++) l = g[i] = CreateGroup(l, i); for (int i = 0; i < n; i++) AddNodeToGroup(g[(int)(gsl_rng_uniform(r) * n)], v[i]); return p; }
int main(){ double **LC = InitializeFastLogChoose(60), *LF = InitializeFastLogFact(60), *LL = InitializeFastLog(60); for (int k = 1; k < 200; k++) { gsl_rng *r = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r, k); int n = 3, m = 6; mkb(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (gsl_rng_uniform(r) < .7) join(i, j, gsl_rng_uniform(r) < .5);
  struct group *G[50], *H[50], *P = mkp(n, N, G, r), *O = mkp(m, T, H, r); int **N1[2], **N2[2], **G1[2], **G2[2], c1 = NNonEmptyGroups(P), c2 = NNonEmptyGroups(O); for (int s = 0; s < 2; s++) { N1[s] = allocate_i_mat(n, m); N2[s] = allocate_i_mat(m, n); G1[s] = allocate_i_mat(n, m); G2[s] = allocate_i_mat(m, n); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { N1[s][i][j] = NWeightLinksToGroup(N[i], H[j], s); N2[s][j][i] = NWeightLinksToGroup(T[j], G[i], s); G1[s][i][j] = G2[s][j][i] = NWeightG2GLinks(G[i], H[j], s); } }
  double E = H2State(P, O); MCStep2State(2, &E, N, T, G, H, P, O, n, m, &c1, &c2, N1[0], N2[0], N1[1], N2[1], G1[0], G2[0], G1[1], G2[1], LL, 60, LC, 60, LF, 60, r);
  for (int s = 0; s < 2; s++) for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (G1[s][i][j] != NWeightG2GLinks(G[i], H[j], s)) FAIL("count %d of groups %d and %d is %d", s, i, j, G1[s][i][j]); } return 0; }
""")
