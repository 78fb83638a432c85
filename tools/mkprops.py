#!/usr/bin/env python3
"""Writes properties.jsonl (kept as source because JSON lines are unpleasant to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "The network built from a link list is exactly that list",
 "For every list of links, the compact network built from it holds each link once in the neighbour list of each of its two end points with the link's weight, and holds nothing else; every node's strength is the sum of the weights of the links it takes part in. When normalisation is asked for and the total weight is not zero, weights and strengths are those values divided by twice the total weight.",
 ["inputs"], "all numbers of nodes and links, all end points, all weights, normalised or not",
 "The tests build one or two fixed graphs; position arithmetic that only goes wrong for particular degree orders, isolated nodes, links from a node to itself or unsorted lists is not sampled.",
 ["src/fillpartitions.c", "src/partition.c"],
 [("EdgeListToAdjaArray", "src/fillpartitions.c"), ("CreateAdjaArray", "src/partition.c")],
 [("AdjaArray", "offsets, neighbours and link strengths of the static graph", "src/partition.h")],
 ["return of EdgeListToAdjaArray"])

prop("C02", "Bipartite projection has the defined weights, on the right node pairs",
 "Projecting a two-mode network on its first column yields a network in which two different nodes are joined exactly when they share a second-column node, with weight the sum over shared second-column nodes of the product of the two membership weights, scaled by the reciprocal of the sum over second-column nodes of m(m-m/d), m being that node's total weight and d its degree. Node strengths are each node's share of the total membership weight.",
 ["inputs"], "all membership lists without repeated memberships, all positive weights, in any order",
 "Tests use one small list; the result depends on sort boundaries, the last group and the last pair, and on how many groups a pair shares.",
 ["src/fillpartitions.c"],
 [("ProjectBipartEdgeList", "src/fillpartitions.c"), ("EdgeCompare", "src/fillpartitions.c")],
 [], ["return of ProjectBipartEdgeList"])

prop("C03", "A partition is always a consistent set of disjoint groups covering all nodes",
 "After building, assigning, moving a node, merging, splitting, copying or compressing, every node belongs to exactly one group; each group's member list (walked in either direction) contains exactly the nodes that name it as their group; and each group's size and total strength, and the count of empty groups, agree with its members.",
 ["inputs", "histories"], "all partitions of all networks and every sequence of the partition operations",
 "Tests run a few operations on one graph and look at sizes; a broken back pointer, a stale last element or a wrong empty-group count only shows after a particular later operation.",
 ["src/partition.c", "src/movements.c", "src/fillpartitions.c"],
 [("ChangeModule", "src/movements.c"), ("MergeModules", "src/movements.c"), ("CreatePartition", "src/partition.c"), ("CopyPartitionStruct", "src/partition.c"), ("CompressPartition", "src/partition.c"), ("AssignNodesToModules", "src/fillpartitions.c"), ("SplitModuleByComponent", "src/movements.c"), ("SplitModuleSA", "src/sannealing.c")],
 [("Partition", "groups, members, sizes, strengths and count of empty groups", "src/partition.h")],
 ["every return of a partition operation"])

prop("C04", "Predicted modularity changes equal the change that actually happens",
 "For every network without links from a node to itself and every partition, the gain predicted for moving a node to another group, and the gain predicted for merging two different groups, equal the modularity of the partition after performing that move or merge minus its modularity before.",
 ["inputs", "histories"], "all symmetric weighted networks, all consistent partitions, all nodes and groups",
 "Tests compare a handful of moves on one graph; a wrong sign or a missing own-strength term cancels on regular or unweighted examples.",
 ["src/movements.c", "src/partition.c"],
 [("dEChangeModule", "src/movements.c"), ("dEMergeModules", "src/movements.c"), ("PartitionModularity", "src/partition.c")],
 [], ["return of dEChangeModule", "return of dEMergeModules"])

prop("C05", "Reported modularity is the defined sum over pairs of nodes in the same group",
 "The modularity reported for a partition is the sum, over ordered pairs of distinct nodes in the same group, of link weight minus product of strengths; with the diagonal requested, the sum of squared strengths is subtracted as well. It depends only on which nodes share a group.",
 ["inputs"], "all simple weighted networks and all consistent partitions",
 "One fixed graph cannot distinguish formulas that agree on unweighted or two-group examples.",
 ["src/partition.c"],
 [("PartitionModularity", "src/partition.c")], [], ["return of PartitionModularity"])

prop("C06", "Splitting a group by connected components separates exactly its components",
 "Splitting a group by components reports the number of connected components of the subgraph induced by the group's nodes; nodes of one component stay together, at least one component stays and, if there are two or more, at least one moves to the empty group. No node of any other group moves, and with one component nothing changes.",
 ["inputs", "histories"], "all networks, all consistent partitions, all groups, all random streams",
 "Whether two members are joined only through non-members, or the search order hits a member last, is not something the fixed example exercises.",
 ["src/movements.c"],
 [("SplitModuleByComponent", "src/movements.c"), ("AddToStack / PopFromStack", "src/movements.c")], [], ["return of SplitModuleByComponent"])

prop("C07", "A copied partition is equal and independent; compression only renumbers groups",
 "A copied partition has the same groups, members, order, sizes and strengths and shares no storage with the original. Removing empty groups from a partition with at least one node leaves nodes together exactly when they were together before, leaves no empty group, and numbers the remaining groups consecutively from zero.",
 ["inputs", "histories"], "all consistent partitions, any number and placement of empty groups",
 "The placement of empty groups (all at the front, at the end, interleaved, none) decides which branch runs; tests see one placement.",
 ["src/partition.c"],
 [("CopyPartitionStruct", "src/partition.c"), ("CompressPartition", "src/partition.c")], [], ["return of CopyPartitionStruct", "return of CompressPartition"])

prop("C08", "The optimiser returns a valid partition and keeps its books right",
 "For every network with at least two nodes, a start partition into at least two and at most as many groups as nodes, any schedule parameters and any random stream, when module optimisation finishes it hands back a consistent partition of all the nodes into no more groups than it started with, never a missing result; the energy it tracks equals the modularity change since the start and the result returned is the best state it recorded.",
 ["inputs", "histories", "configurations"], "all networks, start partitions, cooling parameters and random draws",
 "A run depends on thousands of random draws; tests check one seed.",
 ["src/sannealing.c"],
 [("GeneralSA", "src/sannealing.c"), ("SplitModuleSA", "src/sannealing.c")], [], ["return of GeneralSA"])

prop("C09", "Role metrics equal their definitions for every node",
 "For every network and partition into non-empty groups, a node's connectivity is the z-score of its within-group strength among its group's members (zero when the group has no spread), and its participation is one minus the sum over groups of the squared share of its strength going to that group (zero for an isolated node), up to rounding. The same holds, with links counted or weighed, for the measures on the network representation.",
 ["inputs"], "all networks and all consistent partitions without empty groups",
 "Tests use one graph; group sizes of one, groups without spread and isolated nodes take separate branches.",
 ["src/partition.c", "src/modules.c"],
 [("PartitionRolesMetrics", "src/partition.c"), ("ParticipationCoefficient / WithinModuleRelativeDegree and their weighted forms", "src/modules.c")], [], ["the two output arrays", "return values"])

prop("C10", "Role classification is total and has exactly the published boundaries",
 "For every participation value P and connectivity z a node gets exactly one of the seven roles: non-hub (z<2.5) with boundaries P = 0.05, 0.62, 0.80 and hub (z>=2.5) with boundaries P = 0.30, 0.75, each boundary value belonging to the upper class. Every classifier in the library (compact partition, network role catalogue) agrees.",
 ["inputs"], "all pairs of real numbers",
 "Boundary values are measure-zero; no test samples them.",
 ["src/partition.c", "src/modules.c"],
 [("GetRole", "src/partition.c"), ("GetRole (catalogue)", "src/modules.c")], [], ["returned role number"])

prop("C11", "Work lists keep their order: stacks are LIFO, queues are FIFO, nothing is lost",
 "Over every history of additions and removals, each removal returns exactly the element a mathematical stack (or queue) would return, the reported emptiness matches, and an empty stack or queue reports itself as such without altering anything.",
 ["histories", "inputs"], "all sequences of push/pop and enqueue/dequeue within capacity",
 "Tests push a few elements once; emptying and refilling, or filling exactly to capacity, is not explored.",
 ["src/datastruct.c", "src/movements.c"],
 [("stack_push / stack_pop / queue_enqueue / queue_dequeue", "src/datastruct.c"), ("CreateStack / AddToStack / PopFromStack", "src/movements.c")], [], ["returned elements"])

prop("C12", "Adding and removing links keeps adjacency, weights and degrees right",
 "After any sequence of link additions, removals and weight additions, two nodes are adjacent exactly when a link was added and not removed since; adding an existing link never duplicates it (its weight is increased when asked for and otherwise unchanged); undirected operations keep both directions in step, and degree and strength queries report the current links even when asked repeatedly between changes.",
 ["histories", "inputs"], "all networks and all sequences of link additions, removals and queries",
 "Cached degrees and list order matter only for particular sequences of query, change, query; tests build a graph once and query it.",
 ["src/graph.c"],
 [("AddAdjacency / AddAdjacencySoft / CleanAdjacencies", "src/graph.c"), ("RemoveLink", "src/graph.c"), ("IsThereLink / GetLink / GetLinkWeight", "src/graph.c"), ("NodeDegree / NodeStrength", "src/graph.c")],
 [("node_lis list", "neighbour list of a node", "src/graph.h"), ("degree / strength", "cached degree and strength", "src/graph.h")], ["return of the query functions"])

prop("C13", "Copying or renumbering a network preserves it; counts are exact",
 "Copying a network yields the same nodes (label, number, coordinates, state), the same links and the same weights, sharing no storage; renumbering assigns consecutive numbers in list order and makes every neighbour reference agree. A node is found by its number or label exactly when it is there. Node counts, link counts, and averages of degree and squared degree equal the true values for every network.",
 ["inputs", "histories"], "all networks, directed or not, with any node numbering",
 "The tests copy one dense, consecutively numbered network.",
 ["src/graph.c"],
 [("CopyNetwork", "src/graph.c"), ("RenumberNodes", "src/graph.c"), ("CountNodes / TotalNLinks", "src/graph.c")], [], ["return values", "resulting network"])

prop("C14", "Connectivity questions are answered exactly",
 "Two nodes are reported connected, a set is reported internally connected, a component size is reported, a network is reported connected, and the largest strongly or weakly connected set and the list of all connected sets are extracted exactly as graph reachability defines; the search leaves the network itself unchanged.",
 ["inputs"], "all networks (directed for the strongly and weakly connected sets) and node subsets",
 "Tests use one graph with one component structure.",
 ["src/graph.c"],
 [("AreConnectedList", "src/graph.c"), ("IsGraphConnected", "src/graph.c"), ("GetLargestStronglyConnectedSet / GetLargestWeaklyConnectedSet", "src/graph.c")], [], ["return values"])

prop("C15", "Group bookkeeping follows every membership change",
 "After any sequence of adding a node to a group, removing it, moving it between groups or merging groups, each group's size, internal, external and total link counts and weights equal those computed from its current members, and each node's group number names the group that lists it (none once it is removed). Mapping a partition on a network, copying it, compressing it, building it from the nodes' group numbers, in equal sizes or from the connected clusters, and removing the links inside a group or between groups, do exactly that and change nothing else.",
 ["histories", "inputs"], "all undirected networks without links from a node to itself, all sequences of membership changes",
 "Counts are updated incrementally; an error shows only after a sequence in which a node leaves a group holding its neighbours.",
 ["src/modules.c"],
 [("AddNodeToGroup / RemoveNodeFromGroup / MoveNode", "src/modules.c"), ("MergeGroups", "src/modules.c"), ("MapPartToNet", "src/modules.c")], [], ["group fields after each operation"])

prop("C16", "Network-level modularity equals its definition",
 "The modularity of a partition of a network is the sum over groups of internal links over all links minus the square of the group's share of all link ends; the weighted form replaces links by weights.",
 ["inputs"], "all undirected networks with at least one link and all partitions",
 "Tests use one karate-club style graph.",
 ["src/modules.c"],
 [("Modularity / ModularityWeight", "src/modules.c")], [], ["return values"])

prop("C17", "Two-mode networks: counts, projections, copies and modularities are exact",
 "The number of common neighbours of two nodes on the same side of a two-mode network and the sum over common neighbours of products of weights equal their definitions, and are symmetric. Projecting onto the first side joins two different nodes exactly when they share a neighbour, in both directions, with that number (or, in the weighted form, that sum of products) as weight. Copying gives an equal, independent network; inverting exchanges the sides; removing a node removes exactly it and its links and renumbers the rest; the number of links is the sum of degrees. The modularity of a partition of the first side is twice the sum, over groups and pairs of members, of shared neighbours over sum m(m-1), minus the product of degrees over (sum m)^2, m being the degrees of the second side (and the same with weights and strengths). Randomising keeps every node's degree and never makes two links between the same nodes.",
 ["inputs", "histories"], "all two-mode networks with at most one link per pair, all node pairs, all partitions of the first side, all random streams",
 "Tests use one network; list order, repeated sharing, long labels, and what happens after removing, inverting or copying are not varied.",
 ["src/bipartite.c"],
 [("NCommonLinksBipart / SumProductsOfCommonWeightsBipart", "src/bipartite.c"), ("ProjectBipart / ProjectBipartWeighted", "src/bipartite.c"), ("CopyBipart / InvertBipart / RemoveNodeBipart / RandomizeBipart", "src/bipartite.c"), ("ModularityBipart / ModularityBipartWeighted / ModularityBipartWeightedFast", "src/bipartite.c")],
 [("binet", "the two sides; each node of one side lists nodes of the other", "src/bipartite.h")], ["return values", "the network after an operation"])

prop("C18", "Tabulated logarithms and binomials equal the direct values",
 "Every tabulated quantity (log, log-factorial, log-binomial, log-gamma) returned by the fast lookup equals the directly computed quantity, for every argument both inside and beyond the table, and an argument beyond the table is never answered from outside the table's memory.",
 ["inputs"], "all non-negative arguments and all table sizes",
 "The tests look up a few in-range arguments; the edge of the table is one argument among many.",
 ["src/tools.c"],
 [("FastLog / FastLogFact / FastLogChoose", "src/tools.c"), ("InitializeFastLog / InitializeFastLogFact / InitializeFastLogChoose", "src/tools.c")], [], ["return values"])

prop("C19", "Descriptive statistics equal their definitions",
 "Mean, (population) standard deviation, minimum and maximum of a list of numbers, factorials (up to 20) and binomial coefficients (non-negative arguments) equal their mathematical definitions for every list and argument in range, and the inputs are left unchanged.",
 ["inputs"], "all arrays of all lengths (at least one) and all in-range arguments",
 "The tests check one array; extreme element first or last, negative-only data and single elements differ.",
 ["src/tools.c"],
 [("mean / stddev / min / max", "src/tools.c"), ("fact / Choose", "src/tools.c")], [], ["return values"])

prop("C20", "Adjacency and Laplacian matrices represent the network exactly",
 "The adjacency matrix has, at every ordered pair of nodes, one exactly where the link is present and zero elsewhere; the Laplacian has the degree on the diagonal and minus one exactly where a link is present off the diagonal, so that every row sums to zero. A network with a link from a node to itself has no Laplacian.",
 ["inputs"], "all networks, directed or not",
 "The tests look at the spectrum of one small network.",
 ["src/matrix.c"],
 [("AdjacencyMat", "src/matrix.c"), ("LaplacianMat", "src/matrix.c")], [], ["returned matrix"])

prop("C21", "The energy of a block-model state is tracked exactly through every step",
 "In link prediction by sampling group assignments, the energy carried along the chain equals, after every accepted or rejected step, the energy computed from scratch for the current groups, and the group link counts used in it are the true counts; groups and their member lists, sizes and counts stay consistent. The same holds for steps that choose among all groups and for networks whose links are of several kinds.",
 ["histories", "inputs"], "all networks, all group assignments, all random streams",
 "The error of one wrong count is small and only visible after particular moves; tests cover none of it.",
 ["src/missing.c"],
 [("LinkScoreMCStep / GibbsLinkScoreStep / PartitionH", "src/missing.c"), ("LSMCStepKState / LSHKState", "src/missing.c")], [], ["energy after each step", "group link counts after each step"])

prop("C22", "Random network generators produce networks of the promised kind",
 "Every generated network has the requested number of nodes, numbered consecutively, contains no link from a node to itself and no repeated link, and is undirected; a link probability of zero gives no links and of one gives all of them. Preferential attachment gives each later node the requested number of links to earlier nodes; block networks label the groups as requested; randomising a network by switching links keeps every node's degree.",
 ["inputs", "configurations"], "all sizes, probabilities and random streams",
 "A test can sample a few seeds only.",
 ["src/models.c"],
 [("EmptyGraph / ERGraph / PAGraph / UndirectedBlockGraph", "src/models.c")], [], ["returned network"])

prop("C23", "Reading a network file and writing results lose and invent nothing",
 "A network read from a file has exactly one node per distinct label and one link per line with that line's end points and weight, whatever the number of lines; a written partition lists every node label exactly once, on its group's line, and reading it back gives the same groups. Tables, degree lists, adjacency lists, two-mode link lists and group lists name every node, link or group member once with its values and nothing else.",
 ["inputs"], "all well-formed files of any length, weighted or not, one- or two-mode",
 "The tests read one file, below every buffer-growth threshold.",
 ["src/io.c", "src/graph.c", "src/bipartite.c", "src/modules.c"],
 [("EdgeListFileInput", "src/io.c"), ("ClusteringOutput / TabularOutput / AssignNodesToModulesFromFile", "src/io.c"), ("FBuildNetwork / FPrintNetAdjacencyList / FPrintDegrees", "src/graph.c"), ("FBuildNetworkBipart / FPrintBipart", "src/bipartite.c"), ("FPrintPartition / FReadPartition", "src/modules.c")], [], ["arrays after reading", "file after writing"])

prop("C24", "Agreement between two partitions is measured as defined",
 "The mutual information between two partitions of the same nodes equals its definition, is one for identical non-trivial partitions, is symmetric, and lies between zero and one; the fraction of correctly classified nodes is one for identical partitions.",
 ["inputs"], "all pairs of partitions of the same network",
 "Tests compare two fixed partitions.",
 ["src/modules.c"],
 [("MutualInformation", "src/modules.c"), ("CorrectlyClassified", "src/modules.c")], [], ["return value"])

prop("C25", "Graph distances and clustering equal their definitions",
 "Distances found by breadth-first search are the true shortest-path lengths, every reachable node is listed exactly once, and the clustering coefficient is the defined ratio of linked neighbour pairs; common neighbours, Jaccard index, mean neighbour degree and node betweenness equal their definitions for every network.",
 ["inputs"], "all networks and source nodes",
 "Tests use one graph.",
 ["src/graph.c"],
 [("RenewQueue / UpdateQueue", "src/graph.c"), ("ClusteringCoefficient", "src/graph.c")], [], ["return values"])

prop("C26", "The same seed gives the same output",
 "Running any program twice on the same input with the same seed and options produces identical output, independent of memory addresses and of uninitialised storage.",
 ["inputs", "configurations", "histories"], "all inputs, options and seeds",
 "Repeating a run in one environment does not vary memory contents.",
 ["netcarto/main_netcarto.c", "src/sannealing.c"],
 [("gsl_rng use", "netcarto/main_netcarto.c")], [], ["program output"])

prop("C27", "Optimisation reaches near-optimal modularity",
 "With slow enough cooling the module optimiser returns a partition whose modularity is within a small distance of the maximum, for networks of any size.",
 ["inputs", "configurations"], "all networks, slow cooling schedules",
 "Optimal values are unknown for any but tiny networks.",
 ["src/sannealing.c"],
 [("GeneralSA", "src/sannealing.c")], [], ["modularity of the result"])

prop("C28", "Recommender sampling uses the true rating counts",
 "In predicting ratings from group assignments, the counts of each rating between groups, the set of unobserved pairs and the state energy equal those computed from scratch from the data and the current assignment, after every step.",
 ["histories", "inputs"], "all rating data sets, assignments and random streams",
 "No test covers the recommender.",
 ["src/recommend.c"],
 [("H2State / MCStep2State", "src/recommend.c"), ("HKState / MCStepKState / GibbsStepKState", "src/recommend.c"), ("BuildUnobservedSet / CountUnobserved / RemoveRatings", "src/recommend.c")], [], ["counts and energy after each step"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
