"""Per-property configuration of the checks."""
TECH0 = "contract-based deductive verification (VC generation from clang AST + SMT)"
PART = dict(main="h_partition.c", sources=["src/partition.c", "src/movements.c", "src/fillpartitions.c", "harness/sa_hook.c", "src/io.c"])
DATA = dict(main="h_data.c", sources=["src/datastruct.c", "src/movements.c", "src/partition.c"])
TOOLS = dict(main="h_tools.c", sources=["src/tools.c"])
GRAPH = dict(main="h_graph.c", sources=["src/graph.c", "src/tools.c", "src/matrix.c", "src/models.c", "src/datastruct.c", "lib/search.c"])
MOD = dict(main="h_mod.c", sources=["src/modules.c", "src/graph.c", "src/tools.c", "src/partition.c", "src/datastruct.c", "lib/search.c"])
BIP = dict(main="h_bip.c", sources=["src/bipartite.c", "src/modules.c", "src/graph.c", "src/tools.c", "src/partition.c", "src/datastruct.c", "lib/search.c"])
IO = dict(main="h_io.c", sources=["src/io.c", "src/fillpartitions.c", "src/bipartite.c", "src/modules.c", "src/graph.c", "src/tools.c", "src/partition.c", "src/datastruct.c", "lib/search.c"])
SAMP = dict(main="h_samp.c", sources=["src/missing.c", "src/recommend.c", "src/bipartite.c", "src/models.c", "src/modules.c", "src/graph.c", "src/tools.c", "src/partition.c", "src/datastruct.c", "lib/search.c"])
RULE_SAMP = "random networks or rating sets of 2-8 by 1-8 nodes, random starting groups, sequences of steps of every kind with random streams, small and large tables of precomputed logs; every case is non-trivial"
MIX = TECH0 + ", bounded random run of the remaining functions"
RULE_MOD = "random undirected networks of 1-12 nodes (unit, integer, dyadic or uniform weights), random partitions and random sequences of 4-24 operations; every case is non-trivial"
RULE_GRAPH = "random networks of 1-11 nodes, directed or not, unit, integer or dyadic weights, of all densities, with and without links from a node to itself; every case is non-trivial"
NETS = ["the lists of a network are well formed (each node and link record in one list, links lead to nodes of the network, at most one to each), fewer than 2^30 nodes and links per node, labels shorter than 100"]
RULE_PART = "random weighted networks of 1-14 nodes (unit or dyadic weights), random partitions built by the harness, random operation sequences; non-trivial = the network has a link (C03, C07, C08, C10: every case; C06: at least two components)"
PROOF_NOTE = "Every verification condition generated from the current source of the listed functions is discharged for all inputs and all iterations; doubles are treated as mathematical reals, allocation is assumed to succeed, struct types do not alias."
TECH = "contract-based deductive verification (VC generation from clang AST + SMT)"
P = {
 "C01": dict(harness=PART, modes=["C01"], level="proof", rule=RULE_PART, explain="CreateAdjaArray, FreeAdjaArray and EdgeListToAdjaArray proved: rows have the degrees' lengths, hold exactly the listed links, strengths and weights as defined",
    technique="contract-based deductive verification (VC generation from clang AST + SMT)", note=PROOF_NOTE,
    assumptions=["when normalising, the total weight is not zero", "fewer than 2^30 nodes and links"]),
 "C03": dict(harness=PART, modes=["C03"], level="proof", rule=RULE_PART, explain="create, assign, move, merge, copy, compress, release and both ways of splitting a group are proved to keep the full consistency invariant, for all inputs",
    technique=TECH, note=PROOF_NOTE + " Copying and compressing are proved under C07."),
 "C04": dict(harness=PART, modes=["C04"], level="proof", rule=RULE_PART, explain="both prediction functions return the gain formula, and the formula is the change of the defined modularity (lemmas c04_move, c04_merge)",
    technique="contract-based deductive verification (VC generation from clang AST + SMT)", note=PROOF_NOTE,
    assumptions=["the network is undirected (rows symmetric), rows list each neighbour at most once, no node is its own neighbour"]),
 "C05": dict(harness=PART, modes=["C05"], level="proof", rule=RULE_PART, explain="PartitionModularity returns the sum over pairs in the same group minus the diagonal, and that is the defined modularity (lemma c05_pairs)",
    technique="contract-based deductive verification (VC generation from clang AST + SMT)", note=PROOF_NOTE,
    assumptions=["the network is undirected (rows symmetric), rows list each neighbour at most once, no node is its own neighbour"]),
 "C07": dict(harness=PART, modes=["C07"], level="proof", rule=RULE_PART, explain="CopyPartitionStruct and CompressPartition proved against equality of groups, independence of storage and preservation of togetherness",
    technique="contract-based deductive verification (VC generation from clang AST + SMT)", note=PROOF_NOTE,
    assumptions=["CompressPartition is called on a partition with at least one non-empty group"]),
 "C09": dict(harness=PART, modes=["C09"], extra=[(MOD, ["C09"])], level="proof", rule=RULE_PART, explain="both output arrays proved equal to their definitions for every node; participation and relative degree (strength) of the network representation proved as well; lemma c09_shares: the strengths to the groups add up to the node's total link weight",
    technique="contract-based deductive verification (VC generation from clang AST + SMT)", note=PROOF_NOTE,
    assumptions=["no empty group; number of nodes times number of groups below 2^32; a node with links has a non-zero total link weight"]),
 "C10": dict(harness=PART, modes=["C10"], extra=[(MOD, ["C09"])], level="proof", rule=RULE_PART, explain="GetRole proved for every pair of finite reals",
    technique="contract-based deductive verification (VC generation from clang AST + SMT)", note=PROOF_NOTE),
 "C11": dict(harness=DATA, modes=["C11"], level="proof", rule="random sequences of 60-120 operations on an array stack, two linked stacks or two linked queues; every case is non-trivial", explain="every stack and queue operation proved against a mathematical sequence",
    technique="contract-based deductive verification (VC generation from clang AST + SMT)", note=PROOF_NOTE),
 "C18": dict(harness=TOOLS, modes=["C18"], level="proof", rule="random table sizes 1-120 and arguments inside, at the edge of and beyond the table; every case is non-trivial", explain="every table builder, lookup and release proved: the lookup returns the directly computed value for every argument, and no access leaves a table",
    technique=TECH, note=PROOF_NOTE, assumptions=["log, lgamma, gsl_sf_lnfact and gsl_sf_lnchoose are the mathematical functions they are named after (uninterpreted; a log-binomial is non-negative)"]),
 "C19": dict(harness=TOOLS, modes=["C19"], level="proof", rule="random lists of 1-40 numbers (mixed, negative only, constant, large offset), factorials up to 20, binomials up to 60; every case is non-trivial", explain="mean, stddev, max, min, fact and Choose proved against their definitions; lemma c19_pascal: Pascal's triangle is n!/(k!(n-k)!)",
    technique=TECH, note=PROOF_NOTE, assumptions=["a list has at least one element; factorial arguments up to 20; binomial arguments are not negative", "sqrt is the real square root"]),
 "C12": dict(harness=GRAPH, modes=["C12"], level="other", rule=RULE_GRAPH, explain="adding, removing and looking up links, degrees and strengths with their caches are proved for all networks; adding by label, rewiring, cleaning, random addition and removal are covered by the bounded harness only",
    technique=TECH + ", bounded random run of the remaining functions", assumptions=NETS, note="AddAdjacency, RemoveLink, IsThereLink, IsThereLinkSoft, GetLink, NodeDegree and NodeStrength are proved against the full network invariant (including what stays unchanged); functions that go through the label dictionary and the random ones are only covered by a bounded random run against plain arrays."),
 "C13": dict(harness=GRAPH, modes=["C13"], level="other", rule=RULE_GRAPH, explain="counting, averages, looking up by number, renumbering, creating nodes and copying link lists are proved; copying whole networks, summing and comparing networks, dictionary lookup and removing isolated nodes are covered by the bounded harness only",
    technique=TECH + ", bounded random run of the remaining functions", assumptions=NETS, note="CountNodes, TotalNLinks, AverageDegree, AverageSquaredDegree, GetNode, RenumberNodes, CreateHeaderGraph, CreateNodeGraph, AddAdjacencySoft and CopyAdjacencyList (the copy has the same links in the same order) are proved; CopyNetwork as a whole, AddTwoNetworks, CompareTwoNetworks, RemoveIsolatedNodes and the label dictionary are only covered by a bounded random run."),
 "C14": dict(harness=GRAPH, modes=["C14"], level="other", rule=RULE_GRAPH, explain="counting, resetting the marks, looking up by number and creating the nodes of a component are proved; the searches themselves are covered by the bounded harness only",
    technique=TECH + ", bounded random run of the remaining functions", assumptions=NETS, note="CountNodes, ResetNodesState, GetNode, CreateHeaderGraph and CreateNodeGraph are proved; the searches (Enqueue, RenewQueue, IsGraphConnected, AreConnectedList, the extraction of connected sets) are only covered by a bounded random run against reachability by closure."),
 "C20": dict(harness=GRAPH, modes=["C20"], level="proof", rule=RULE_GRAPH, explain="AdjacencyMat and LaplacianMat (with CountNodes, NodeDegree and the table allocator) proved entry by entry",
    technique=TECH, note=PROOF_NOTE, assumptions=NETS + ["nodes are numbered in list order"]),
 "C22": dict(harness=GRAPH, modes=["C22"], level="proof", rule="random sizes 0-130, probabilities including 0 and 1, up to 4 groups; every case is non-trivial", explain="EmptyGraph, ERGraph, PAGraph, UndirectedBlockGraph and GirvanNewmanGraph (with CreateNodeGraph, AddAdjacency, IsThereLink) proved for all sizes, probabilities and draws",
    technique=TECH, note=PROOF_NOTE + " Every draw is an arbitrary number in [0,1), so the result holds for every random stream; that the rejection loop of PAGraph ends is not proved.", assumptions=["sizes below 2^30; gsl_rng_uniform returns a number in [0,1)", "group sizes are not negative, groups of the Girvan-Newman network have at least two nodes", "the rejection loop of PAGraph terminates"]),
 "C25": dict(harness=GRAPH, modes=["C25"], level="other", rule=RULE_GRAPH, explain="common neighbours, Jaccard index, mean neighbour degree and counting of links to marked nodes are proved; breadth-first search, distances, clustering and betweenness are covered by the bounded harness only",
    technique=TECH + ", bounded random run of the remaining functions", assumptions=NETS, note="CommonNeighbors, SumCommonLinks, CalculateKnn and JaccardIndex are proved; breadth-first search, path lengths, clustering and node betweenness are only covered by a bounded random run against plain arrays."),
 "C15": dict(harness=MOD, modes=["C15"], level="other", rule=RULE_MOD, explain="creating groups, adding, removing and moving nodes, merging, compressing and every link and weight count between a node and a group or two groups are proved; mapping, copying, clusters and removal of links between groups are covered by the bounded harness only",
    technique=TECH + ", bounded random run of the remaining functions", assumptions=NETS + ["group lists are well formed, fewer than 2^30 members"], note="CreateHeaderGroup, CreateGroup, AddNodeToGroup(Soft/Fast), RemoveNodeFromGroup(Fast), MoveNode(Fast), MergeGroups(Fast), CompressPart, the link counts and the look-ups are proved against the full group invariant; MapPartToNet, CopyPartition, CreatePartitionFromInGroup, CreateEquiNPartition, ClustersPartition, the removal of links between groups are only covered by a bounded random run against plain arrays."),
 "C16": dict(harness=MOD, modes=["C16"], level="proof", rule=RULE_MOD, explain="Modularity and ModularityWeight proved equal to the sum over groups, from the counts each group carries; the counts are proved under C15",
    technique=TECH, note=PROOF_NOTE + " That the counts of each group are the right ones is the invariant of C15.", assumptions=NETS + ["the total number (weight) of link ends of the groups is not zero"]),
 "C17": dict(harness=BIP, modes=["C17"], level="other", rule="random two-mode networks of 1-8 by 1-8 nodes (unit, integer or dyadic weights, short and long labels) and random sequences of 2-5 operations; every case is non-trivial", explain="common neighbours, sums of products (lemma c17_symmetric), link count, creation, inversion and the three modularities are proved; projections, copying, removing a node and randomising are covered by the bounded harness only",
    technique=TECH + ", bounded random run of the remaining functions", assumptions=NETS + ["each node of one side lists nodes of the other; weights of cached strengths as in C12", "the divisors of the modularities are not zero"], note="CreateBipart, InvertBipart, NCommonLinksBipart, SumProductsOfCommonWeightsBipart, NLinksBipart and the three modularities are proved for all two-mode networks and partitions; ProjectBipart(Weighted), CopyBipart, RemoveNodeBipart and RandomizeBipart are only covered by a bounded random run against plain arrays."),
 "C24": dict(harness=MOD, modes=["C24"], level="other", rule=RULE_MOD, explain="MutualInformation proved equal to twice the shared information over the sum of the entropies; symmetry, the range and CorrectlyClassified are covered by the bounded harness only",
    technique=TECH + ", bounded random run of the remaining functions", note="MutualInformation (with PartitionSize) is proved for all partitions, both ways of matching nodes; symmetry, range and the fraction of correctly classified nodes are only covered by a bounded random run.", assumptions=["group lists are well formed", "log is the mathematical function (uninterpreted)", "not both partitions have entropy zero"]),
 "C02": dict(harness=PART, modes=["C02"], level="other", rule=RULE_PART, explain="the order the edges are sorted in (EdgeCompare) and the arrays the projection is built in (CreatePartition, CreateAdjaArray) are proved; the projection itself is covered by the bounded harness only",
    technique=MIX, note="EdgeCompare, CreatePartition and CreateAdjaArray are proved for all inputs; ProjectBipartEdgeList is only covered by a bounded random run against projections computed from membership tables.", assumptions=["each membership is listed once"]),
 "C06": dict(harness=PART, modes=["C06"], level="proof", rule=RULE_PART, explain="SplitModuleByComponent proved: the components it finds are connected (each member is reached through a link from a member found earlier), linked members are in one component, their number is returned, components move as a whole, the first stays, and of two or more at least one moves",
    technique=TECH, note=PROOF_NOTE, assumptions=["the network is undirected: every link is listed in both rows"]),
 "C08": dict(harness=PART, modes=["C08"], level="other", rule=RULE_PART, explain="every operation the optimiser applies to its partition, both predicted changes and both ways of splitting a group (SplitModuleSA, SplitModuleByComponent) are proved; the annealing loop itself is covered by the bounded harness only",
    technique=MIX, note="The moves (ChangeModule, MergeModules), their predicted changes (dEChangeModule, dEMergeModules), copying, releasing, the nested annealing SplitModuleSA and SplitModuleByComponent are proved for all inputs; GeneralSA is only covered by a bounded random run that checks the partition handed back, the energy the annealer reports in every round against the modularity of its current partition, and the result against the best state it recorded.", assumptions=["the network is undirected (rows symmetric), rows list each neighbour at most once"]),
 "C21": dict(harness=SAMP, modes=["C21"], level="other", rule=RULE_SAMP, explain="the energies of a state (PartitionH, LSHKState), the link counts, the tables of logs and the move of a node are proved; the sampling steps are covered by the bounded harness only",
    technique=MIX, note="PartitionH and LSHKState are proved equal to the defined sums over groups and pairs of groups, for all networks and partitions, and so are the counts, tables and moves the steps use; the steps (Metropolis, Gibbs, several kinds of links) are only covered by a bounded random run that recomputes energy and counts after each step.",
    assumptions=NETS + ["group lists are well formed", "no more links between groups than pairs of nodes", "log, gsl_sf_lnfact and gsl_sf_lnchoose are the mathematical functions (uninterpreted)"]),
 "C23": dict(harness=IO, modes=["C23"], level="other", rule="random networks and partitions of 1-40 nodes written to temporary files and read back, random edge lists (weighted or not, one- or two-mode) longer than the first buffers; every case is non-trivial", explain="for six writing functions the exact sequence of tokens written is proved; the reading functions are covered by the bounded harness only",
    technique=MIX, note="ClusteringOutput, TabularOutput, FPrintDegrees, FPrintNetAdjacencyList, FPrintBipart and FPrintPartition are proved to write exactly the specified tokens (labels once each, in their place, nothing else) for all inputs; EdgeListFileInput, AssignNodesToModulesFromFile, FBuildNetwork(Bipart) and FReadPartition are only covered by a bounded random run of reading and writing.",
    assumptions=["the text fprintf makes of a value is a function of conversion and value (uninterpreted tokens)", "writing does not fail", "labels are zero-terminated strings"]),
 "C28": dict(harness=SAMP, modes=["C28"], level="other", rule=RULE_SAMP, explain="the energies of a state (H2State, HKState), queries, the number of unobserved pairs and the removal of ratings are proved; the sampling steps and BuildUnobservedSet are covered by the bounded harness only",
    technique=MIX, note="H2State and HKState are proved equal to the defined sums over pairs of groups, and CreateQuery, FreeQuery, CountUnobserved, RemoveRatings (exactly the ratings of the given value disappear, at both ends) and the counts they use against their definitions; the steps and BuildUnobservedSet are only covered by a bounded random run that recomputes counts and energy after each step.",
    assumptions=NETS + ["group lists are well formed", "ratings of one are among the ratings", "log, gsl_sf_lnfact and gsl_sf_lnchoose are the mathematical functions (uninterpreted)"]),
}
NA = {
 "C26": "Equality of two whole program runs under the same seed is a hyperproperty over processes, memory layout and uninitialised storage; contracts on single functions over one execution cannot express it.",
 "C27": "Near-optimality of a stochastic search has no specification that a per-function contract can state: the optimum is unknown and the claim is about distributions of whole runs.",
}
