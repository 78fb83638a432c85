From 69efc1b23ee857c389ffdeed3064fba2d3bd78ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:32 +0000
Subject: [PATCH 01/25] fix: CreatePartition allocated the group table with the
 number of nodes

With more groups than nodes the initialisation wrote past the table.
---
 src/partition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partition.c b/src/partition.c
index 5fd82e1..26e0f7c 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -53,7 +53,7 @@ CreatePartition(unsigned int N, unsigned int M){
   part->M = M;
   part->nempty = M;
   part->nodes = (Node **) malloc(N*sizeof(Node*));
-  part->modules = (Module **) malloc(N*sizeof(Module*));
+  part->modules = (Module **) malloc(M*sizeof(Module*));
   if (part->nodes==NULL || part->modules == NULL)
 	perror("Error while allocating partition component");
 
-- 
2.43.0


From abd31f67bde8109c03164530c74e119cd4e8e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:32 +0000
Subject: [PATCH 02/25] fix: PartitionRolesMetrics accumulated participation on
 uninitialised output

The sum over groups started from whatever the caller's array held.
---
 src/partition.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/partition.c b/src/partition.c
index 26e0f7c..f67ad20 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -221,6 +221,7 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
 	  //it is not correct for bipartite network thanks to the
 	  //-epsilon.
 	  double strength = 0;
+	  participation[i] = 0;
 	  for (j=0;j<M;j++){
 		strength += strengthToModule[i+N*j];
 		participation[i] += strengthToModule[i+N*j]*strengthToModule[i+N*j];
-- 
2.43.0


From 839898e32e497d1debd1d4c9dd00eb9bf2dc6e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:32 +0000
Subject: [PATCH 03/25] fix: EdgeListToAdjaArray left a phantom neighbour for
 self-loops

Both ends of a self-loop were written to the same slot, so the other slot
reserved for it kept a zero-weight link to node 0.
---
 src/fillpartitions.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fillpartitions.c b/src/fillpartitions.c
index 34700a4..a65691f 100644
--- a/src/fillpartitions.c
+++ b/src/fillpartitions.c
@@ -74,17 +74,15 @@ EdgeListToAdjaArray(int *nd_in, int *nd_out, double *weight,
   for (i=0;i<E;i++){
   	// Get the positions to fill.
   	idx_in  = adj->idx[nd_in[i]+1]-degree[nd_in[i]];
+  	degree[nd_in[i]]--;
   	idx_out = adj->idx[nd_out[i]+1]-degree[nd_out[i]];
+  	degree[nd_out[i]]--;
 
   	// Fill them with target and strength.
   	adj->neighbors[idx_in] = nd_out[i];
     adj->strength[idx_in] = weight[i]/weightsum;
   	adj->neighbors[idx_out] = nd_in[i];
   	adj->strength[idx_out] = weight[i]/weightsum;
-
-  	// Update the counter to fill the next position correctly.
-  	degree[nd_in[i]]--;
-  	degree[nd_out[i]]--;
   }
 
   // int k;
-- 
2.43.0


From 24501574a0b8a2c3932e98380acfad3397f361dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:32 +0000
Subject: [PATCH 04/25] fix: ProjectBipartEdgeList read past its arrays and an
 uninitialised sum

The comparison with the next element ran before the end-of-array test (and
was missing in the last loop), and the first team's strength started from
an uninitialised variable.
---
 src/fillpartitions.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fillpartitions.c b/src/fillpartitions.c
index a65691f..feee676 100644
--- a/src/fillpartitions.c
+++ b/src/fillpartitions.c
@@ -153,7 +153,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
 
   double fac1 = 0;
   double fac2 = 0;
-  double strength;
+  double strength = 0;
 
   // Count the degree of each node and assign a first data structure for the
   // projected network.
@@ -162,7 +162,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
     degree++; // degree of current team
     strength += ed[i].strength; // Strength of current team
     part->nodes[ed[i].node1]->strength += ed[i].strength; // degree of current actor
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       Emax += (degree)*(degree-1) / 2;
       fac2 += strength;
       fac1 += strength * (strength-strength/degree);
@@ -180,7 +180,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   unsigned int j = 0, x, y, x0 = 0;
   for (i = 0; i <= count-1; i++) {
     degree++;
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       for (x = x0; x < i+1; x++){
         for (y = x0; y < x; y++) {
           if (ed[x].node1 < ed[y].node1){
@@ -204,7 +204,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   E = j;
   unsigned int *degree_proj = calloc(N,sizeof(unsigned int));
   for (i = 0; i < j; i++) {
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0 || i == j-1) {
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0) {
       degree_proj[projected[i].node1]++;
       degree_proj[projected[i].node2]++;
     }
@@ -229,7 +229,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   for (i = 0; i < j; i++) {
     adj->strength[idx[projected[i].node1]] += projected[i].strength;
     adj->strength[idx[projected[i].node2]] += projected[i].strength;
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0){
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0){
       //printf("%d %d %f:\n",projected[i].node1,projected[i].node2,projected[i].strength);
       adj->neighbors[idx[projected[i].node1]] = projected[i].node2;
       adj->neighbors[idx[projected[i].node2]] = projected[i].node1;
-- 
2.43.0


From 11a4fa7c46411a3aea9a1d3d326eedbae75f4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:32 +0000
Subject: [PATCH 05/25] fix: SplitModuleByComponent searched through nodes
 outside the module

Two components of the module's induced subgraph that touch a common outside
node were taken for one component.
---
 src/movements.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/movements.c b/src/movements.c
index d04a07e..ca29e45 100644
--- a/src/movements.c
+++ b/src/movements.c
@@ -271,7 +271,8 @@ SplitModuleByComponent(unsigned int targetModuleId,
 		for (i=adj->idx[j];i<adj->idx[j+1];i++){
 		  k = adj->neighbors[i]; // The index of the neighbor.
 
-		  if(!visited[k]){
+		  // Stay within the subgraph induced by the module.
+		  if(!visited[k] && part->nodes[k]->module == targetModuleId){
 			visited[k] = 1;
 			// Add the node to the queue of nodes to visit.
 			AddToStack(k,to_visit);
-- 
2.43.0


From ddbdd07e9cd6ab9fe532fae4cde609cf7a58db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:32 +0000
Subject: [PATCH 06/25] fix: GeneralSA returned a NULL partition when no round
 improved the energy

---
 src/sannealing.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sannealing.c b/src/sannealing.c
index 8ed7d9d..dd748d3 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -224,7 +224,11 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 
   info ("# End of SA, best partition so far: %e\n",best_E);
 
-  FreePartition(part);
+  // If no better partition was ever saved, the current one is the result.
+  if (best_part == NULL)
+	best_part = part;
+  else
+	FreePartition(part);
   *ppart = best_part;
   return(0);
 }
-- 
2.43.0


From f106ec0d5727c5e28014bcbfbd1f7fe9f11bb88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 07/25] fix: AddRandomLinks ignored symmetric_sw and always
 added both directions

---
 src/graph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 7f63069..28e4afa 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -998,7 +998,8 @@ AddRandomLinks(struct node_gra *net,
       n2 = gsl_rng_uniform_int(gen, nnod);
     } while ((n1 == n2) || IsThereLink(nlist[n1], nlist[n2]) == 1);
     AddAdjacency(nlist[n1], nlist[n2], 0, 0, 1.0, 0);
-    AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
+    if (symmetric_sw != 0)
+      AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
   }
 
   /* Done */
-- 
2.43.0


From 297460daa58aefd250a918ddc8407ea48689de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 08/25] fix: AverageSquaredDegree used integer division

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 28e4afa..dac88dd 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1434,7 +1434,7 @@ AverageSquaredDegree(struct node_gra *root)
     k2sum += k * k;
   }
 
-  return k2sum / nnod;
+  return (double)k2sum / (double)nnod;
 
 }
 
-- 
2.43.0


From 718c0d28e8a0bd47b40d7cf516081061aa2eb386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 09/25] fix: GetAllConnectedSets dropped the links of
 components without node 0

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index dac88dd..c486ac1 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2951,7 +2951,7 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
       d++;
     }while(*size!=sizeAnt);
 
-    ClearAdjacencies(network_loc,thisNet);
+    CleanAdjacencies(network_loc);
     RewireAdjacencyByLabel(network_loc);
 
     net_list[numComponents]=network_loc;
-- 
2.43.0


From 08cb265c1df9fafdee0a5a3fd9dd7de96fb6ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 10/25] fix: IsThereNode compared label addresses instead of
 labels

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index c486ac1..33b2b1e 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -792,7 +792,7 @@ IsThereNode(char *label, struct node_gra *p)
 {
   
   while ((p = p->next) != NULL)
-    if (p->label == label)
+    if (strcmp(p->label, label) == 0)
       return 1;
 
   return 0;
-- 
2.43.0


From 97355e65c328bc328da0f0106918416dc389cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 11/25] fix: GetLargestWeaklyConnectedSet missed nodes leading
 to nodes added later

---
 src/graph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph.c b/src/graph.c
index 33b2b1e..5b043c2 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2805,6 +2805,8 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
 	  d++;
 	}while(*size != size_ant);
 
+	// Nodes skipped before may lead to the nodes just added
+	p3 = p;
       }
     }
 
-- 
2.43.0


From 82e8cfb842ed7697642c5e9b8d55b6806072df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 12/25] fix: PAGraph drew the new node itself and lost links

---
 src/models.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models.c b/src/models.c
index c947bb6..9cda97b 100644
--- a/src/models.c
+++ b/src/models.c
@@ -117,7 +117,8 @@ PAGraph(int S, int m, gsl_rng *gen)
 	/* preferential attachment */
 	node2 = paList[(int)(gsl_rng_uniform(gen) * norm)];
       }
-      while (IsThereLink(nodeList[node1], nodeList[node2]) == 1);
+      while (node2 == node1 ||
+	     IsThereLink(nodeList[node1], nodeList[node2]) == 1);
       AddAdjacency(nodeList[node1], nodeList[node2], 0, 0, 0, 0);
       AddAdjacency(nodeList[node2], nodeList[node1], 0, 0, 0, 0);
       paList[norm++]=node1;
-- 
2.43.0


From 145f8748c832539d803ecef4780861fb47134b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 13/25] fix: RemoveNodeFromGroup left the node naming the
 group, so its links still counted as internal

---
 src/modules.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 45cd990..09e8b06 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -480,6 +480,9 @@ RemoveNodeFromGroup(struct group *g, struct node_gra *node)
     g->inlinksW -= inweight;
     g->outlinksW = g->totlinksW - g->inlinksW;
 
+    /* The node belongs to no group now */
+    node->inGroup = -1;
+
     /* Done */
     return 1;
   }
@@ -516,6 +519,9 @@ RemoveNodeFromGroupFast(struct group *g, struct node_gra *node)
     /* Partially update the properties of the group */
     g->size--;
 
+    /* The node belongs to no group now */
+    node->inGroup = -1;
+
     /* Done */
     return 1;
   }
-- 
2.43.0


From 5adc02eb2123f5baa3b0236b661eed83820886c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 14/25] fix: removing links of groups went on from the link
 just released

---
 src/modules.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 09e8b06..ee504f8 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -683,8 +683,8 @@ RemoveWithinGroupLinks(struct group *g, int symmetric_sw)
   nod = g->nodeList;
   while ((nod = nod->next) != NULL) {
     nei = nod->ref->neig;
-    while ((nei = nei->next) != NULL)
-      RemoveLink(nod->ref, nei->ref, symmetric_sw);
+    while (nei->next != NULL)
+      RemoveLink(nod->ref, nei->next->ref, symmetric_sw);
   }
 
   return;
@@ -706,9 +706,11 @@ RemoveBetweenGroupLinks(struct group *part, int symmetric_sw)
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
       nei = nod->ref->neig;
-      while ((nei = nei->next) != NULL) {
-	if (nod->ref->inGroup != nei->ref->inGroup)
-	  RemoveLink(nod->ref,nei->ref, symmetric_sw);
+      while (nei->next != NULL) {
+	if (nod->ref->inGroup != nei->next->ref->inGroup)
+	  RemoveLink(nod->ref, nei->next->ref, symmetric_sw);
+	else
+	  nei = nei->next;
       }
     }
   }
@@ -1510,9 +1512,11 @@ RemoveInterGroupLinks(struct node_gra *net)
   while ((p = p->next) != NULL) {
     thisgroup = p->inGroup;
     n = p->neig;
-    while ((n = n->next) != NULL) {
-      if(n->ref->inGroup != thisgroup)
-	RemoveLink(p, n->ref, 0);
+    while (n->next != NULL) {
+      if(n->next->ref->inGroup != thisgroup)
+	RemoveLink(p, n->next->ref, 0);
+      else
+	n = n->next;
     }
   }
 }
-- 
2.43.0


From 60fcffb8e02824ecca1ef194320dca0a0654a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 15/25] fix: CreateEquiNPartition followed the list past the
 last node

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index ee504f8..a52819a 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -197,7 +197,7 @@ CreateEquiNPartition(struct node_gra *net, int gsize)
   for (i=0; i<=ngroups; i++) {
     g = CreateGroup(part,i);
     for (j=0; j<gsize; j++) {
-      if ((p = p->next) != NULL) {
+      if (p != NULL && (p = p->next) != NULL) {
 	AddNodeToGroup(g, p);
       }
     }
-- 
2.43.0


From cd6415725f3d08e2f14cd1b2a2aa59414ad9bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 16/25] fix: CorrectlyClassified counted every node twice in
 the total

---
 src/modules.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index a52819a..4624eb3 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1769,7 +1769,6 @@ CorrectlyClassified(struct group *refpart, struct group *actpart)
   /* Count correctly classified nodes */
   g2 = actpart;
   while ((g2 = g2->next) != NULL) {
-    nnod += g2->size;
     if (map[g2->label] > -1){
       p = g2->nodeList;
       while ((p = p->next) != NULL) {
-- 
2.43.0


From c9ef9f354e5ab7c961b4fc6fc6ff693cc821b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 17/25] fix: MutualInformation multiplied sizes as integers,
 which overflows for large partitions

---
 src/modules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 4624eb3..1fb3041 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1672,8 +1672,8 @@ MutualInformation(struct group *part1, struct group *part2, int label_sw)
 	    }
 	  } /* Overlap size S12 has been calculated */
 	  if (S12 > 0)
-	    H12 += (double)S12 * log((double)(S12 * S) /
-				 (double)(S1 * S2));
+	    H12 += (double)S12 * log(((double)S12 * (double)S) /
+				 ((double)S1 * (double)S2));
 	}
       }
     }
-- 
2.43.0


From b8eadc1cdaacfb1d92c60db5e706bc4a658ac3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 18/25] fix: ParticipationCoefficient squared the degree as an
 integer, which overflows for large degrees

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 1fb3041..5103da7 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1875,7 +1875,7 @@ ParticipationCoefficient(struct node_gra *node)
   if (nlink != 0) {
     while ((nei = nei->next) != NULL) {
       toGroup = NLinksToGroupByNum(node, nei->ref->inGroup);
-      P += (double)toGroup / (double)(nlink * nlink);
+      P += (double)toGroup / ((double)nlink * (double)nlink);
     }
     P = 1.0 - P;
   }
-- 
2.43.0


From 23e2ea273182184265208a31240e5d77ba57a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 19/25] fix: MapPartToNetSoft changed the partition and failed
 on nodes missing from the network

---
 src/modules.c | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 5103da7..1f0bd91 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1387,7 +1387,6 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   struct group *g = NULL;
   struct node_lis *nod;
   void *nodeDict = NULL;
-  struct node_tree *treeNode = NULL;
   struct node_gra *node = NULL;
 
   /* Reset the group of all nodes */
@@ -1396,30 +1395,23 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   /* Create the nodeDict for fast access to nodes by label */
   nodeDict = MakeLabelDict(net);
 
-  /* Go through the groups, reset attributes, and point pointers */
+  /* Go through the groups and set the groups of the nodes that are in
+     the network */
   g = part;
   while ((g = g->next) != NULL) {
-    g->totlinks = 0;
-    g->inlinks = 0;
-    g->outlinks = 0;
-    g->totlinksW = 0.0;
-    g->inlinksW = 0.0;
-    g->outlinksW = 0.0;
-
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
       /* Get the node_gra by label */
-      treeNode = CreateNodeTree();
-      strcpy(treeNode->label, nod->nodeLabel);
-      node = (*(struct node_tree **)tfind((void *)treeNode,
-					  &nodeDict,
-					  NodeTreeLabelCompare))->ref;
-      FreeNodeTree(treeNode);
+      node = GetNodeDict(nod->nodeLabel, nodeDict);
       /* Update the properties of the node */
-      node->inGroup = g->label;
+      if (node != NULL)
+	node->inGroup = g->label;
     }
   }
 
+  /* Free memory allocated locally */
+  FreeLabelDict(nodeDict);
+
   return;
 }
 
-- 
2.43.0


From 99c627b3a69c3f047bde424cbcc3197c93e5ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:28 +0000
Subject: [PATCH 20/25] fix: WithinModuleRelativeStrength gave NaN when
 rounding made the variance negative

---
 src/modules.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 1f0bd91..3d6ff90 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1987,7 +1987,9 @@ WithinModuleRelativeStrength(struct node_gra *node, struct group *part)
   }
   kmean /= (double)(group->size);
   k2mean /= (double)(group->size);
-  kstd = sqrt(k2mean - kmean * kmean);
+  kstd = k2mean - kmean * kmean;
+  // Rounding can make the variance of equal strengths negative
+  kstd = (kstd > 0.0) ? sqrt(kstd) : 0.0;
 
   // Calculate the z-score
   if (kstd == 0.0)
-- 
2.43.0


From 5731dd4fd4a478e0006888b7cbd3e3966423c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:18 +0000
Subject: [PATCH 21/25] fix: ProjectBipartWeighted truncated the weights to
 integers

---
 src/bipartite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 8323fe4..6c81a22 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -610,7 +610,7 @@ ProjectBipartWeighted(struct binet *binet)
   struct node_gra *p1 = NULL, *p2 = NULL;
   void *dict = NULL;
   struct node_tree *ntree=NULL;
-  int weight;
+  double weight;
 
   /* Create the header of the projection network */
   last = projnet = CreateHeaderGraph();
-- 
2.43.0


From a8a09a9a684acf08edf74708579b8263463586a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:18 +0000
Subject: [PATCH 22/25] fix: ModularityBipart overflowed for nodes of degree
 above 46340

---
 src/bipartite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 6c81a22..d4553fb 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -858,7 +858,7 @@ ModularityBipart(struct binet *binet, struct group *part)
   /* Calculate sms=sum(m_s) and sms2=sum(m_s^2) */
   while ((p = p->next) != NULL) {
     sms += (double)NodeDegree(p);
-    sms2 += (double)(NodeDegree(p) * NodeDegree(p));
+    sms2 += (double)NodeDegree(p) * (double)NodeDegree(p);
   }
   s2ms = sms * sms;
 
@@ -872,7 +872,7 @@ ModularityBipart(struct binet *binet, struct group *part)
         t1 = NodeDegree(n1->ref);
         t2 = NodeDegree(n2->ref);
 
-	      bimod += (double)c12 / (sms2 - sms) - (double)(t1 * t2) / s2ms;
+	      bimod += (double)c12 / (sms2 - sms) - (double)t1 * (double)t2 / s2ms;
       }
     }
   }
-- 
2.43.0


From f3239a59106822f88a13156037773e9b128fe19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:35 +0000
Subject: [PATCH 23/25] fix: AssignNodesToModulesFromFile misread the partition
 files netcarto writes

---
 src/io.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/io.c b/src/io.c
index 8e0c0c5..6811980 100644
--- a/src/io.c
+++ b/src/io.c
@@ -249,8 +249,7 @@ AssignNodesToModulesFromFile(FILE *inF,
 							 Partition *part,
 							 char **labels){
   char label[MAX_LABEL_LENGTH];
-  char sep[2];
-  int j = 0, nfields = 0, nnode = part->N;
+  int j = 0, nfields = 0, newline = 0, nnode = part->N;
   hcreate(part->N);
   int i;
   ENTRY e, *ep;
@@ -262,12 +261,16 @@ AssignNodesToModulesFromFile(FILE *inF,
   }
 
   while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
-	if (nfields) {
-	  e.key = label;
-	  ep = hsearch(e, FIND);
+	nfields=fscanf(inF,"%99[^\t\n]",label);
+	e.key = label;
+	// Labels that are not in the network (such as comments) are skipped.
+	if (nfields == 1 && (ep = hsearch(e, FIND)) != NULL) {
 	  i = (int) ep->data;
 	  nnode--;
+	  // A label on a new line belongs to the next module.
+	  if (newline && part->modules[j]->size)
+		j++;
+	  newline = 0;
 
 	  if (!part->modules[j]->size){
 		part->nempty --;
@@ -285,9 +288,10 @@ AssignNodesToModulesFromFile(FILE *inF,
 		part->nodes[i]->prev = part->modules[j]->last;
 		part->modules[j]->last = part->nodes[i];
 	  }
-	  if(sep[0]=='\n')
-		j++;
 	}
+	// Lines end with a tabulation in the files we write.
+	if (fgetc(inF)=='\n')
+	  newline = 1;
   }
 
   CompressPartition(part);
-- 
2.43.0


From 31ee6a569567fc59f64c034584601476d7c1cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:35 +0000
Subject: [PATCH 24/25] fix: FReadPartition overflowed its separator buffer on
 lines ending with a tabulation

---
 src/modules.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 3d6ff90..f91d7be 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -112,7 +112,6 @@ module, with the names of the nodes separated by tabulations.
 struct group*
 FReadPartition(FILE *inF){
   char label[MAX_LABEL_LENGTH];
-  char sep[2];
   int noReadItems = 0;
 
   struct group *g = NULL;
@@ -123,13 +122,13 @@ FReadPartition(FILE *inF){
   g = CreateGroup(part, npart);
 
   while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
-	if (nfields) {
+	nfields=fscanf(inF,"%99[^\t\n]",label);
+	if (nfields == 1)
 	  AddNodeToGroupSoft(g, label);
-	  if(sep[0]=='\n'){
-		npart++;
-		g = CreateGroup(part, npart);
-	  }
+	// Lines may end with a tabulation.
+	if (fgetc(inF)=='\n'){
+	  npart++;
+	  g = CreateGroup(part, npart);
 	}
   }
   return(part);
-- 
2.43.0


From 690a1f3464a293e5c32397aef6706c9dbb4ba256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:55 +0000
Subject: [PATCH 25/25] fix: GibbsLinkScoreStep used uninitialised counts when
 all nodes share one group

---
 src/missing.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 38cfa02..2a6ed81 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2053,6 +2053,19 @@ GibbsLinkScoreStep(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Properties of the origin group (needed for empty destination
+       groups even if there is no other group in the shortlist) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      n2gList[g->label] = NLinksToGroup(node, g);
+      if (g->size > 0)
+	effectng++;
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
-- 
2.43.0

