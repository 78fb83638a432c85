#!/usr/bin/env python3
"""refactors.py [NAME...] -- edits that keep the behaviour; every check has to stay quiet on them (run on a copy of /repo)."""
import sys, os, subprocess, tempfile, shutil, re, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}
def r(name, props, *edits): R[name] = (props.split(), edits)
r("change_helper", "C03", ("src/movements.c", "void\nChangeModule(unsigned int nodeId,", "static void\nunlinkNode(Node *node, Module *module){\n  if (node->prev != NULL)\n\tnode->prev->next = node->next;\n  else\n\tmodule->first = node->next;\n  if (node->next != NULL)\n\tnode->next->prev = node->prev;\n  else\n\tmodule->last = node->prev;\n}\nvoid\nChangeModule(unsigned int nodeId,"),
  ("src/movements.c", "  if (node->prev != NULL)\n\tnode->prev->next = node->next;\n  else\n\tOldModule->first = node->next;\n  if (node->next != NULL)\n\tnode->next->prev = node->prev;\n  else\n\tOldModule->last = node->prev;\n\n  // G", "  unlinkNode(node, OldModule);\n\n  // G"))
r("change_reorder", "C03 C06", ("src/movements.c", "  OldModule->strength -= node->strength;\n  OldModule->size--;\n  if (!OldModule->size){\n\tpart->nempty++;\n\t//OldModule->strength=0;\n  }\n  if (!NewModule->size){\n\tpart->nempty--;\n  }\n  NewModule->strength += node->strength;\n  NewModule->size++;\n", "  double moved = node->strength;\n  if (NewModule->size == 0)\n\tpart->nempty--;\n  NewModule->size += 1;\n  OldModule->size -= 1;\n  if (OldModule->size == 0)\n\tpart->nempty++;\n  NewModule->strength += moved;\n  OldModule->strength -= moved;\n"))
r("modularity_helper", "C05", ("src/partition.c", "double\nPartitionModularity(", "static double\nedgeBetween(AdjaArray *adj, unsigned int a, unsigned int b){\n  unsigned int k;\n  for (k=adj->idx[a]; k<adj->idx[a+1]; k++)\n\tif (adj->neighbors[k] == b)\n\t  return adj->strength[k];\n  return 0;\n}\ndouble\nPartitionModularity("),
  ("src/partition.c", "\t\taij = 0;\n\t\tfor (i=adj->idx[node1->id]; i<adj->idx[node1->id+1]; i++){\n\t\t  if (adj->neighbors[i] == node2->id){\n\t\t\taij = adj->strength[i];\n\t\t\tbreak; // found the edge, we can stop.\n\t\t  }\n\t\t}\n", "\t\taij = edgeBetween(adj, node1->id, node2->id);\n"))
r("modularity_while", "C05", ("src/partition.c", "\t  for(node2 = node1->next ; node2!=NULL; node2=node2->next){\n", "\t  node2 = node1;\n\t  while((node2 = node2->next) != NULL){\n"))
r("merge_gain_swap", "C04", ("src/movements.c", "  if (part->modules[moduleId1]->size\n\t  > part->modules[moduleId2]->size){\n\tsmall = part->modules[moduleId2];\n\tidlarge = moduleId1;\n  }else{\n\tsmall = part->modules[moduleId1];\n\tidlarge = moduleId2;\n  }\n\n  // Compute", "  small = part->modules[moduleId1];\n  idlarge = moduleId2;\n  if (small->size > part->modules[moduleId2]->size){\n\tidlarge = moduleId1;\n\tsmall = part->modules[moduleId2];\n  }\n\n  // Compute"))
r("islink_for", "C12 C25", ("src/graph.c", "  struct node_lis *n1n = n1->neig;\n\n  while ((n1n = n1n->next) != NULL) {\n    if (n1n->ref == n2) {\n      return 1;\n    }\n  }\n\n  return 0;\n}\n\n// ---------------------------------------------------------------------\n// Returns 1 if there is a link between n1 and a node with number", "  struct node_lis *l;\n  int found = 0;\n\n  for (l = n1->neig->next; l != NULL && !found; l = l->next)\n    if (l->ref == n2)\n      found = 1;\n\n  return found;\n}\n\n// ---------------------------------------------------------------------\n// Returns 1 if there is a link between n1 and a node with number"))
r("add_early", "C12 C22", ("src/graph.c", "    // Create a new adjacency\n    adja->next = (struct node_lis *)calloc(1, sizeof(struct node_lis));\n    (adja->next)->node = node2->num;\n    (adja->next)->nodeLabel = (char *)calloc(MAX_LABEL_LENGTH, sizeof(char));\n    strcpy((adja->next)->nodeLabel, node2->label);\n    (adja->next)->status = status;\n    (adja->next)->next = NULL;\n    (adja->next)->ref = node2;\n    (adja->next)->btw = 0.0;\n    (adja->next)->weight = weight;\n", "    // Create a new adjacency\n    struct node_lis *added = (struct node_lis *)calloc(1, sizeof(struct node_lis));\n    added->nodeLabel = (char *)calloc(MAX_LABEL_LENGTH, sizeof(char));\n    strcpy(added->nodeLabel, node2->label);\n    added->weight = weight;\n    added->btw = 0.0;\n    added->status = status;\n    added->ref = node2;\n    added->node = node2->num;\n    added->next = NULL;\n    adja->next = added;\n"))
r("ntogroup_for", "C15", ("src/modules.c", "  while ((nei = nei->next) != NULL)\n    if ((nei->ref)->inGroup == g->label)\n      inlink++;\n\n  return inlink;\n}\n\n/*\n  ---------------------------------------------------------------------\n  Count the number of links *with", "  const int wanted = g->label;\n  for (nei = nei->next; nei != NULL; nei = nei->next) {\n    struct node_gra *other = nei->ref;\n    if (other->inGroup != wanted)\n      continue;\n    inlink += 1;\n  }\n\n  return inlink;\n}\n\n/*\n  ---------------------------------------------------------------------\n  Count the number of links *with"))
r("leg_modularity_temp", "C16", ("src/modules.c", "    modul += (double)(2 * g->inlinks) / (double)links2 -\n      ((double)(g->inlinks + g->totlinks) *\n       (double)(g->inlinks + g->totlinks)) /\n      ((double)links2 * (double)links2);\n", "  {\n    double ends = (double)(g->inlinks + g->totlinks), all = (double)links2;\n    modul += (double)(2 * g->inlinks) / all;\n    modul -= (ends * ends) / (all * all);\n  }\n"))
r("mi_helper", "C24", ("src/modules.c", "double\nMutualInformation(", "static double\ngroupEntropy(struct group *part, int S)\n{\n  struct group *g;\n  double H = 0.0;\n  for (g = part->next; g != NULL; g = g->next)\n    if (g->size > 0)\n      H += (double)g->size * log((double)g->size / (double)S);\n  return H;\n}\n\ndouble\nMutualInformation("),
  ("src/modules.c", "  g1 = part1;\n  while ((g1 = g1->next) != NULL) {\n    if (g1->size > 0) {\n      S1 = g1->size;\n      H1 += (double)S1 * log((double)S1 / (double)S);\n    }\n  }\n  g2 = part2;\n  while ((g2 = g2->next) != NULL) {\n    if (g2->size > 0) {\n      S2 = g2->size;\n      H2 += (double)S2 * log((double)S2 / (double)S);\n    }\n  }\n", "  H1 = groupEntropy(part1, S);\n  H2 = groupEntropy(part2, S);\n"))
r("stddev_helper", "C19", ("src/tools.c", "double\nstddev(double *data, int N)\n{\n  int i;\n  double m = 0.0, m2 = 0.0;\n  double s;\n\n  for (i=0; i<N; i++) {\n    m += data[i];\n    m2 += data[i] * data[i];\n  }\n\n  m /= (double)(N);\n  m2 /= (double)(N);\n  if (m2 - m * m > 0.0)\n    s = sqrt(m2 - m * m);\n  else\n    s = 0.0;\n\n  return s;\n", "double\nstddev(double *data, int N)\n{\n  int i;\n  double m = 0.0, m2 = 0.0, var;\n\n  for (i=0; i<N; i++)\n    m += data[i];\n  for (i=0; i<N; i++)\n    m2 += data[i] * data[i];\n\n  m = m / (double)(N);\n  m2 = m2 / (double)(N);\n  var = m2 - m * m;\n  return var > 0.0 ? sqrt(var) : 0.0;\n"))
r("choose_while", "C19", ("src/tools.c", "  for (i=1; i<=k; i++)\n    accum *= (double)(n-k+i) / (double)i;\n\n  return floor", "  i = 0;\n  while (i < k) {\n    i++;\n    accum *= (double)(n-k+i) / (double)i;\n  }\n\n  return floor"))
r("partitionh_helper", "C21", ("src/missing.c", "double\nPartitionH(struct group *part, double linC)", "static double\npairTerm(double r, double l)\n{\n  return log(r + 1) + LogChoose(r, l);\n}\ndouble\nPartitionH(struct group *part, double linC)"),
  ("src/missing.c", "      l = g1->inlinks;\n      H += log(r + 1) + LogChoose(r, l);\n      g2 = g1;\n", "      l = g1->inlinks;\n      H += pairTerm(r, l);\n      g2 = g1;\n"), ("src/missing.c", "\t  l = NG2GLinks(g1, g2);\n\t  H += log(r + 1) + LogChoose(r, l);\n\t}\n      }\n    }\n  }\n\n  H -= gsl_sf_lnfact(nnod - ng);\n", "\t  l = NG2GLinks(g1, g2);\n\t  H += pairTerm(r, l);\n\t}\n      }\n    }\n  }\n\n  H -= gsl_sf_lnfact(nnod - ng);\n"))
r("er_while", "C22", ("src/models.c", "  for (node1=0; node1<S; node1++) {\n    for (node2=node1+1; node2<S; node2++) {\n      if (gsl_rng_uniform(gen) < p) {\n\tAddAdjacency(nodeList[node1], nodeList[node2], 0, 0, 0, 0);\n\tAddAdjacency(nodeList[node2], nodeList[node1], 0, 0, 0, 0);\n      }\n    }\n  }\n\n  /* Done */\n  free(nodeList);\n  return root;\n}\n\n/*\n  ---------------------------------------------------------------------\n  Create a preferential", "  for (node1=0; node1<S; node1++) {\n    for (node2=node1+1; node2<S; node2++) {\n      struct node_gra *a = nodeList[node1], *b = nodeList[node2];\n      if (!(gsl_rng_uniform(gen) < p))\n\tcontinue;\n      AddAdjacency(a, b, 0, 0, 0, 0);\n      AddAdjacency(b, a, 0, 0, 0, 0);\n    }\n  }\n\n  /* Done */\n  free(nodeList);\n  return root;\n}\n\n/*\n  ---------------------------------------------------------------------\n  Create a preferential"))
r("adjmat_calloc", "C20", ("src/matrix.c", "  for (i=0; i<nnod; i++)\n    for (j=0; j<nnod; j++)\n      A[i][j] = 0;\n\n  /* Add the ones */\n  while ((p = p->next) != NULL) {\n    n = p->neig;\n", "  for (i=0; i<nnod; i++) {\n    int *row = A[i];\n    for (j=0; j<nnod; j++)\n      row[j] = 0;\n  }\n\n  /* Add the ones */\n  for (p = net->next; p != NULL; p = p->next) {\n    n = p->neig;\n"))
r("compress_flip", "C07", ("src/partition.c", "\tif (!part->modules[i]->size){\n\t  empty_id[j] = i;\n\t  j++;\n\t  free(part->modules[i]);\n\t  part->modules[i]=NULL;\n\t}\n", "\tModule *module = part->modules[i];\n\tif (module->size > 0)\n\t  continue;\n\tempty_id[j++] = i;\n\tpart->modules[i]=NULL;\n\tfree(module);\n"))
r("copy_merge_loops", "C07", ("src/partition.c", "  for(i=0;i<part->N;i++){\n\tif(part->nodes[i]->next != NULL)\n\t  copy->nodes[i]->next = copy->nodes[part->nodes[i]->next->id];\n\telse\n\t  copy->nodes[i]->next = NULL;\n\tif(part->nodes[i]->prev != NULL)\n\t  copy->nodes[i]->prev = copy->nodes[part->nodes[i]->prev->id];\n\telse\n\t  copy->nodes[i]->prev = NULL;\n  }\n", "  for(i=0;i<part->N;i++){\n\tNode *from = part->nodes[i], *to = copy->nodes[i];\n\tto->next = from->next ? copy->nodes[from->next->id] : NULL;\n\tto->prev = from->prev ? copy->nodes[from->prev->id] : NULL;\n  }\n"))
r("roles_temp", "C09", ("src/partition.c", "\tmod = part->nodes[i]->module;\n\tstd[mod] += (strengthToModule[i+N*mod]-mean[mod]) * (strengthToModule[i+N*mod]-mean[mod]);\n", "\tmod = part->nodes[i]->module;\n\tdouble dev = strengthToModule[i+N*mod]-mean[mod];\n\tstd[mod] += dev * dev;\n"))
r("roles_split", "C09", ("src/partition.c", "\t  for (j=0;j<M;j++){\n\t\tstrength += strengthToModule[i+N*j];\n\t\tparticipation[i] += strengthToModule[i+N*j]*strengthToModule[i+N*j];\n\t  }\n\t  participation[i] = 1.0 - participation[i]/(strength*strength);\n", "\t  double squares = 0;\n\t  for (j=0;j<M;j++){\n\t\tdouble k = strengthToModule[i+N*j];\n\t\tstrength += k;\n\t\tsquares += k*k;\n\t  }\n\t  participation[i] = 1.0 - squares/(strength*strength);\n"))
r("adj_fill_order", "C01", ("src/fillpartitions.c", "  \t// Fill them with target and strength.\n  \tadj->neighbors[idx_in] = nd_out[i];\n    adj->strength[idx_in] = weight[i]/weightsum;\n  \tadj->neighbors[idx_out] = nd_in[i];\n  \tadj->strength[idx_out] = weight[i]/weightsum;\n", "  \t// Fill them with target and strength.\n  \tdouble share = weight[i]/weightsum;\n  \tadj->strength[idx_in] = share;\n  \tadj->strength[idx_out] = share;\n  \tadj->neighbors[idx_in] = nd_out[i];\n  \tadj->neighbors[idx_out] = nd_in[i];\n"))
r("adj_degree_loop", "C01", ("src/fillpartitions.c", "  for (i=0;i<E;i++){\n  \tweightsum += weight[i];\n  \tpart->nodes[nd_in[i]]->strength +=  weight[i];\n  \tpart->nodes[nd_out[i]]->strength +=  weight[i];\n  \tdegree[nd_in[i]] += 1;\n  \tdegree[nd_out[i]] += 1;\n  }\n", "  for (i=0;i<E;i++){\n  \tdegree[nd_in[i]]++;\n  \tdegree[nd_out[i]]++;\n  }\n  for (i=0;i<E;i++){\n  \tweightsum += weight[i];\n  \tpart->nodes[nd_in[i]]->strength +=  weight[i];\n  \tpart->nodes[nd_out[i]]->strength +=  weight[i];\n  }\n"))
r("sa_accept", "C08", ("src/sannealing.c", "unsigned int\nGeneralSA(", "static int\naccepted(double dE, double T, gsl_rng *gen)\n{\n  if (dE >= 0) return 1;\n  return gsl_rng_uniform(gen) < exp(dE/T);\n}\nunsigned int\nGeneralSA("),
  ("src/sannealing.c", "\tif ((dE>=0) || (gsl_rng_uniform(gen) < exp(dE/T)))\n\t  ChangeModule(nodeid,newg,part);\n\telse\n\t  dE = 0;\n", "\tif (accepted(dE, T, gen))\n\t  ChangeModule(nodeid,newg,part);\n\telse\n\t  dE = 0;\n"))
r("fprint_bipart", "C23", ("src/bipartite.c", "      if (weight_sw == 0)\n        fprintf(outf,\n                \"%s %s\\n\", \n                p->label, n->ref->label);\n      else\n        fprintf(outf,\n                \"%s %s %g\\n\", \n                p->label, n->ref->label, n->weight);\n", "      char *from = p->label, *to = n->ref->label;\n      if (weight_sw) {\n        fprintf(outf, \"%s %s %g\\n\", from, to, n->weight);\n        continue;\n      }\n      fprintf(outf, \"%s %s\\n\", from, to);\n"))
r("h2_temp", "C28", ("src/recommend.c", "\t  r = NG2GLinks(g1, g2);  /* The total number of observations */\n\t  l = NWeightG2GLinks(g1, g2, (double)1);  /* The 1s */\n\t  H += log(r + 1) + LogChoose(r, l);\n", "\t  double term;\n\t  l = NWeightG2GLinks(g1, g2, (double)1);  /* The 1s */\n\t  r = NG2GLinks(g1, g2);  /* The total number of observations */\n\t  term = log(r + 1);\n\t  term += LogChoose(r, l);\n\t  H += term;\n"))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def main(names):
    for n in names or R:
        props, edits = R[n]; t = tempfile.mkdtemp(prefix="refac_")
        try:
            sh("cp -a /repo/. %s" % t)
            for f, old, new in edits:
                p = os.path.join(t, f); x = open(p, encoding="latin1", newline="").read()
                assert x.count(old) == 1, (n, f, x.count(old), old)
                open(p, "w", encoding="latin1", newline="").write(x.replace(old, new))
            for pr in props:
                t0 = time.time(); c = sh("VERIF_SEED=1 VERIF_TIER=quick DV_REPO=%s timeout 900 python3-vt check.py %s" % (t, pr), cwd=V)
                lines = c.stdout.strip().splitlines(); al = [l for l in lines if "VIOLATION" in l]
                print("%-20s %s rc=%d %3ds %s | %s" % (n, pr, c.returncode, time.time() - t0, al[0][-60:] if al else "quiet", lines[-1][:150] if lines else c.stderr[-200:]), flush=True)
                if al: print("\n".join("      " + l[:200] for l in lines if "failed obligation" in l or "reason" in l)[:1500], flush=True)
        finally: shutil.rmtree(t)
if __name__ == "__main__": main(sys.argv[1:])
