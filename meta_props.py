# Property entries; see meta.py. Paths are relative to /repo/include/ffcl.
KD = "datastruct/tree/kdtree/"

P("P01", "The KD-tree indexes exactly the samples it was given",
  "A tree built over any list of distinct sample indices holds each of these indices exactly once, in leaves and in the pivots of internal "
  "nodes, within the caller's index range and without touching the samples. For every internal node, the samples of the left subtree have a "
  "coordinate strictly smaller than the pivot on the cut axis, the samples of the right subtree a coordinate at least equal to it, and the "
  "bounding box kept by each node contains all its samples. Leaves only exceed the requested bucket size when the requested maximum depth is "
  "reached, the depth never exceeds the maximum, axes outside of the requested feature mask are never cut, and default options honour the "
  "documented defaults.",
  ["inputs", "configurations"],
  "every data set (any size, dimension, duplicates, constant or sub-epsilon columns), every index list (identity, permutation, subset), every "
  "bucket size, depth, axis selection policy, sampling rate and feature mask",
  "The tests build a few trees on random data with one option set and mostly only check that searching does not crash; ties, subsets, masks, "
  "defaults and the per-node ordering are never checked.",
  [KD + "KDTree.hpp", KD + "KDNodeView.hpp", KD + "KDTreeAlgorithms.hpp", KD + "policy/AxisSelectionPolicy.hpp",
   KD + "policy/SplittingRulePolicy.hpp", "common/algorithms/Sorting.hpp"],
  [("KDTree::build", "KDTree.hpp"), ("quickselect_median + shift_median_to_leftmost_equal_value", "KDTreeAlgorithms.hpp"),
   ("axis selection policies", "AxisSelectionPolicy.hpp")],
  ["KDTree::root()", "KDNodeView fields"],
  "random data sets x index lists x tree options; a case is non-trivial when the tree has at least one internal node and is not made of a "
  "single repeated sample; distinct = distinct choice tapes",
  ["samples are finite", "indices are distinct and in range", "feature masks are non-empty and duplicate-free"])

P("P02", "k-nearest-neighbor search is exact",
  "For every tree, query point and k of at least one, the search returns exactly min(k, number of indexed samples) distinct indexed samples, each with its "
  "true distance to the query, and no sample that is not returned is closer than a returned one. A query that is itself an indexed sample is "
  "returned at distance zero.",
  ["inputs", "configurations"],
  "every data set, index subset, tree option set, query (stored sample, other point, far away) and k (from 1 to more than the number of "
  "samples), float, double and integer samples",
  "The tests compare against a brute force on a couple of random data sets; pruning mistakes only show for particular geometry (ties on the "
  "cut plane, duplicates, far queries, k larger than a leaf).",
  ["search/Search.hpp", "search/TreeTraverser.hpp", "search/buffer/Unsorted.hpp", "search/buffer/StaticBuffer.hpp", KD + "KDNodeView.hpp"],
  [("TreeTraverser: descend, then unwind with sibling pruning", "TreeTraverser.hpp"), ("bounded candidates buffer", "Unsorted.hpp")],
  ["Searcher::operator()(buffer).indices() / distances()"],
  "random data x tree x query x k against a brute-force scan; non-trivial when the tree is split and 0 < k < n",
  ["squared distances of 'exact' cases are representable, compared strictly; other cases compare with a rounding margin"])

P("P03", "Bounded searches return exactly what lies in the region",
  "A search restricted to an open ball or to a closed box, centered on a stored sample or on any other point, returns every indexed sample "
  "inside the region and nothing else when no neighbor count is given, and otherwise the k of them that are nearest to the center of the "
  "region, always with their true distance to this center.",
  ["inputs", "configurations"],
  "every data set, tree option set, ball radius (zero, tiny, huge, equal to an existing distance), box extent (degenerate, covering all), k or "
  "no k, float, double and integer samples",
  "The tests use one generous radius on random data; boundary membership, empty regions, capacity smaller than the population and integer "
  "coordinates are not reached.",
  ["search/TreeTraverser.hpp", "search/Search.hpp", "search/buffer/Unsorted.hpp", "datastruct/bounds/Ball.hpp", "datastruct/bounds/AABB.hpp",
   "datastruct/bounds/AABBWithCentroid.hpp", "datastruct/bounds/UnboundedBall.hpp"],
  [("region membership in the buffer", "Unsorted.hpp"), ("sibling pruning with the bound overlap test", "TreeTraverser.hpp")],
  ["Searcher::operator()(buffer)"],
  "random data x tree x region x optional k against a brute-force scan; non-trivial when the tree is split and the region contains some but "
  "not all indexed samples",
  ["ball membership is open (<), box membership is closed (<=), as the region types define it"])

P("P04", "Filtered searches never return excluded samples and stay exact",
  "A search that is given a set of already visited samples, or a partition of the samples into components with one component to avoid, never "
  "returns an excluded sample and returns exactly the k nearest (or, within a region, all) of the others with true distances. Repeating the "
  "search while remembering what it returned enumerates every sample exactly once by non-decreasing distance.",
  ["inputs", "histories", "configurations"],
  "every data set, tree, excluded set (empty, partial, everything), component partition, region and k, and every history of repeated searches",
  "The tests only run these searches indirectly in spanning tree construction, where a missed candidate goes unnoticed.",
  ["search/buffer/WithMemory.hpp", "search/buffer/WithUnionFind.hpp", "search/TreeTraverser.hpp", "search/Search.hpp"],
  [("visited indices filter", "WithMemory.hpp"), ("component filter", "WithUnionFind.hpp")],
  ["Searcher::operator()(buffer)"],
  "random data x tree x exclusion x region x k against a filtered brute-force scan; non-trivial when the tree is split and some but not all "
  "samples are excluded")

P("P05", "Dual searches return the k-th closest pair of two sets",
  "For two indexed sets of samples, the dual search returns a pair (one sample of each set) whose distance is the k-th smallest of all pairs, "
  "with its true distance; when restricted to pairs that a component partition does not already connect, it is the closest of those pairs. "
  "Scanning two sets without index finds the closest pair of distinct samples as well.",
  ["inputs", "configurations"],
  "every pair of sample sets (disjoint, interleaved, overlapping, one element), tree option sets on both sides, partition and k up to the "
  "number of pairs",
  "The tests check one random configuration against brute force; the recursion order and pruning only fail for particular set geometry.",
  ["search/TreeTraverser.hpp", "search/buffer/IndicesToBuffersMap.hpp", "search/ClosestPairOfSamples.hpp", "search/Search.hpp",
   "datastruct/bounds/distances/MinDistance.hpp"],
  [("dual traversal", "TreeTraverser::dual_tree_traversal"), ("queue of the k best edges, node bounds", "IndicesToBuffersMap.hpp"), ("brute-force closest edge", "ClosestPairOfSamples.hpp")],
  ["Searcher::dual_tree_shortest_edge", "dual_set_shortest_edge"],
  "random pairs of index sets x trees x k against all pairs; non-trivial when both sets have more than two samples (and for the component "
  "law, some pairs are already connected)",
  ["k is between 1 and the number of pairs"])

P("P06", "Bounding volumes are geometrically right",
  "Intervals, boxes and balls contain exactly the points their definition says, report their true extents, centroid, diameter and furthest "
  "distances, and the smallest box around a set of samples contains all of them and touches the set on every face. Minimum distances between "
  "points, intervals and boxes are the true minimum (zero when they meet), whatever the order of the operands.",
  ["inputs", "histories"],
  "every interval, box, ball and point (degenerate, nested, touching, disjoint, negative coordinates), every sequence of bound updates, float, "
  "double and integer coordinates",
  "The tests check a handful of hand-picked boxes; sign, rounding and touching cases are not reached.",
  ["datastruct/bounds/AABB.hpp", "datastruct/bounds/AABBWithCentroid.hpp", "datastruct/bounds/Ball.hpp", "datastruct/bounds/UnboundedBall.hpp",
   "datastruct/bounds/distances/MinDistance.hpp", "datastruct/bounds/segment/LowerBoundAndUpperBound.hpp",
   "datastruct/bounds/segment/LowerBoundAndLength.hpp", "datastruct/bounds/segment/distances/MinDistance.hpp", "datastruct/Interval.hpp",
   KD + "KDTreeAlgorithms.hpp"],
  [("bound classes", "datastruct/bounds"), ("min_distance", "MinDistance.hpp"), ("make_tight_bound / make_tight_segment", "KDTreeAlgorithms.hpp")],
  ["public methods of the bound classes"],
  "dyadic coordinates, so that every expected value is exact; the oracle evaluates the definition point-wise; non-trivial when the volume has "
  "a non-zero extent or the operands are disjoint",
  ["tight segments are checked for the lower/upper representation only"])

P("P07", "Partitioning, selection and sorting of samples by a feature are right",
  "Partitioning a list of sample indices around a pivot sample, selecting the k-th smallest and sorting by one feature only permute the list "
  "and never touch the samples. After partitioning, the pivot sample sits at the returned position with strictly smaller values before it and "
  "values at least as large after it; selection puts the k-th smallest value at position k with no larger value before and no smaller value "
  "after; sorting orders the whole list; the median split yields left, pivot and right ranges that tile the list with strictly smaller "
  "values on the left.",
  ["inputs"],
  "every index list (permutation or subset), feature, pivot position and k, with ties, sorted and reversed columns, values closer than epsilon "
  "or very large, float, double and integer samples",
  "The tests use random data without sub-epsilon differences, where ties on the pivot are rare; termination and ordering with ties are only "
  "sampled.",
  ["common/algorithms/Sorting.hpp", KD + "KDTreeAlgorithms.hpp"],
  [("partition_around_pivot_index / quickselect / quicksort", "Sorting.hpp"), ("quickselect_median", "KDTreeAlgorithms.hpp")],
  ["the permuted index list and the returned positions"],
  "random columns x index lists x pivot; non-trivial with more than 3 indices and at least two different values")

P("P08", "Union-find always represents the right partition",
  "After any sequence of merges, starting from singletons or from a caller-given forest, two elements have the same representative exactly "
  "when they are connected by merges, the representative belongs to the set and is stable under repeated finds, and merging "
  "returns the representative of the joined set.",
  ["histories", "inputs"],
  "every sequence of merge and find operations on up to hundreds of elements, every initial forest, several index types",
  "The tests run one fixed merge sequence; rank and path-compression mistakes need particular histories.",
  ["datastruct/UnionFind.hpp"],
  [("find with path compression, merge by rank", "UnionFind.hpp")],
  ["UnionFind::find / merge"],
  "stateful: random operation sequences against a label-array model, verified after each step; non-trivial when at least two merges joined sets")

SP = "datastruct/graph/spanning_tree/"
P("P09", "The Euclidean minimum spanning tree is a spanning tree of minimal weight",
  "With zero or one nearest neighbors (no core distances), for any tree over all the samples of a data set, Boruvka's algorithm (single-tree, and its dual-tree variant) "
  "returns n-1 edges between existing samples that connect all of them without a cycle, each weighted by the true distance of its ends, and the "
  "sorted list of weights is the one of a minimum spanning tree computed by a reference algorithm. It terminates on any finite data, duplicates, "
  "ties, integers and single samples included. Sorting the tree permutes its edges into non-decreasing weight.",
  ["inputs", "configurations"],
  "every data set (duplicates, collinear, ties, integer and floating point), index permutation, tree option set and component merge history",
  "The tests only build the tree on downloaded or random data and never compare its weight with a reference; ties, duplicates and merges of "
  "components decide whether a round picks the shortest edge.",
  [SP + "BoruvkasAlgorithm.hpp", SP + "MinimumSpanningTree.hpp", "datastruct/UnionFind.hpp", "search/buffer/WithUnionFind.hpp", "search/Search.hpp",
   "search/TreeTraverser.hpp", "search/buffer/IndicesToBuffersMap.hpp"],
  [("Boruvka rounds over components of a forest", "BoruvkasAlgorithm.hpp"), ("search that avoids the own component", "WithUnionFind.hpp")],
  ["BoruvkasAlgorithm::make_tree / make_tree_2", "mst::sort / sort_copy"],
  "random data x index permutation x tree options against Prim's algorithm on all pairs; non-trivial when n > 3 and the tree is split",
  ["sorted weight lists of minimum spanning trees are unique, compared up to the rounding of one distance", "samples are finite",
   "make_tree_2 is checked with one neighbor only: it does not use core distances"])

P("P10", "Core distances and the mutual reachability spanning tree are exact",
  "The core distance of a sample is the distance to its k-th nearest sample, itself included (to the furthest sample when there are fewer than "
  "k). With k of at least two neighbors, Boruvka's algorithm returns a spanning tree whose edges are weighted by the mutual reachability "
  "distance max(core(a), core(b), distance(a, b)) of their ends and whose sorted weights are those of a minimum spanning tree of the complete "
  "mutual reachability graph.",
  ["inputs", "configurations"],
  "every data set, index permutation, tree option set and k from 2 to more than the number of samples",
  "The mutual reachability distance is not the metric the tree is built on: which candidates may be skipped depends on the whole neighborhood, "
  "and a non-minimal edge changes no property the tests look at.",
  [SP + "BoruvkasAlgorithm.hpp", SP + "MinimumSpanningTree.hpp", SP + "CoreDistances.hpp",
   "search/Search.hpp", "search/buffer/WithUnionFind.hpp"],
  [("core distances", "make_static_core_distances"), ("Boruvka rounds with core distances", "BoruvkasAlgorithm.hpp")],
  ["BoruvkasAlgorithm::make_tree", "mst::make_static_core_distances"],
  "random data x tree options x k against a brute-force mutual reachability matrix and Prim's algorithm; non-trivial when n > 3, k < n and the "
  "tree is split",
  ["weights are compared up to the rounding of one distance", "samples are finite"])

SL = "datastruct/tree/single_linkage_cluster_tree/"
P("P11", "The single linkage tree and its cuts are the single linkage clustering",
  "For any weighted spanning tree, the single linkage tree has each sample as a leaf at level zero exactly once, binary internal nodes with "
  "consistent sizes, parent links and representatives, the edge weights as levels, children never above their parent, and two samples meet at the "
  "level of the longest edge on the path between them. Cutting it at a level puts two samples under the same label exactly when the longest edge "
  "between them is shorter than the cut, gives label zero exactly to the samples of clusters below the minimum cluster size, and different "
  "clusters never share a label.",
  ["inputs", "configurations"],
  "every weighted tree (path, star, random; ties, zeros, any scale and edge order), every cut level and minimum cluster size",
  "The tests only run the class and print; ties, cuts equal to a level and the label of the cluster of sample 0 are not examined.",
  [SL + "SingleLinkageClusterTree.hpp", SL + "SingleLinkageClusterNode.hpp", "datastruct/UnionFind.hpp"],
  [("bottom-up merge of sorted edges", "SingleLinkageClusterTree::build"), ("cut", "SingleLinkageClusterTree::extract_flat_clusters")],
  ["SingleLinkageClusterTree::root()", "SingleLinkageClusterTree::predict / extract_flat_clusters"],
  "random weighted trees x cut levels x minimum sizes against the all-pairs longest path edge; non-trivial when n > 3 and the cut is between "
  "two levels",
  ["weights are finite and not negative", "integer weights are cut at an explicit level"])

CC = "datastruct/tree/condensed_cluster_tree/"
P("P12", "The extracted clusters are those of largest total stability",
  "For any single linkage tree and minimum cluster size, clusters only split where both sides have at least that many samples, a cluster's "
  "stability is the sum over its samples of (density at which the sample leaves) - (density at which the cluster appears), with density = "
  "1/level, and the selected clusters are the non-nested set of largest total stability (a parent wins ties), or the leaves of the condensed tree "
  "when leaf nodes are requested. The root is only returned when it is allowed or has no split, all samples of a selected cluster share its "
  "label, labels are 1..number of clusters, and all other samples have label zero.",
  ["inputs", "configurations"],
  "every hierarchy (ties, zero levels, planted groups, chains), minimum cluster size, leaf and single-cluster option",
  "The tests only run the class; the choice of clusters is a sum over a hierarchy and a wrong term or a wrong comparison still gives "
  "plausible labels.",
  [CC + "CondensedClusterTree.hpp", CC + "CondensedClusterNode.hpp", SL + "SingleLinkageClusterNode.hpp"],
  [("condensation", "CondensedClusterTree.hpp"), ("stability and selection", "CondensedClusterTree::extract_flat_clusters")],
  ["CondensedClusterTree::predict / extract_flat_clusters"],
  "random and planted hierarchies x options against an independent condensation in double precision; non-trivial when the condensed tree splits "
  "and the minimum size is above one",
  ["levels are finite and not negative", "when two stabilities are equal up to rounding either choice is accepted"])

P("P13", "HDBSCAN labels are those of the reference hierarchy",
  "HDBSCAN returns one label per sample; labels are consecutive from one, zero is noise, clusters have at least the minimum cluster size (or "
  "hold all samples), and no sample outside of a cluster is closer to it, in mutual reachability distance, than the longest link the cluster "
  "needs inside. When the hierarchy of the data is unique, the labels are exactly the stable clusters of the mutual reachability "
  "hierarchy for the given number of neighbors, minimum cluster size, leaf and single-cluster options, whatever the index order and tree options.",
  ["inputs", "configurations"],
  "every data set, index permutation, tree option set, number of neighbors, minimum cluster size and selection option, defaults included",
  "The tests only write labels of downloaded data to files; the pipeline composes search, spanning tree, linkage and selection and an error in "
  "any of them moves a few samples.",
  ["hdbscan/HDBSCAN.hpp", SP + "BoruvkasAlgorithm.hpp", SL + "SingleLinkageClusterTree.hpp", CC + "CondensedClusterTree.hpp"],
  [("pipeline", "HDBSCAN::predict")],
  ["HDBSCAN::predict"],
  "random and clustered data x options against an all-pairs reference pipeline in double precision; non-trivial when the condensed tree splits",
  ["the exact comparison needs distinct merge levels (further apart than rounding); the other laws always apply", "all samples are indexed"])

P("P14", "DBSCAN labels are the density-connected clusters",
  "With all samples indexed, a sample is a core sample when more than min_samples samples (itself included) lie strictly within the radius. DBSCAN "
  "gives two core samples the same label exactly when a chain of core samples, each within reach of the next, connects them; a sample that is not "
  "a core sample takes the label of some core sample within reach, and label zero exactly when there is none. Labels are consecutive from one, "
  "whatever the order of the indices and the options of the tree.",
  ["inputs", "configurations"],
  "every data set, value type, radius, min_samples, index permutation and tree option set",
  "The tests only write labels of downloaded data to files; a border sample that is first visited as noise, or two clusters that are discovered "
  "through each other, depend on the visiting order.",
  ["dbscan/DBSCAN.hpp", "search/Search.hpp", "search/buffer/Unsorted.hpp"],
  [("expansion of a cluster", "DBSCAN::predict"), ("radius search", "search/Search.hpp")],
  ["DBSCAN::predict"],
  "random and clustered data x radius x min_samples x tree options against an all-pairs neighborhood graph; non-trivial when the tree is split and "
  "there are core samples and either several clusters or samples that are not core samples",
  ["cases where a distance equals the radius up to rounding are discarded", "all samples are indexed"])

P("P15", "Each K-Means step is an exact assign-and-average step",
  "Starting from any centroids, a step of Lloyd and a step of Hamerly both move each centroid to the mean of the samples it is nearest to (either "
  "one for samples at equal distance) and leave a centroid without samples where it is; total_deviation() is the sum of the distances of the "
  "samples to their nearest current centroid, before the first step and after each step. predict() gives each sample the index of its nearest "
  "centroid and forward() the distance to it; the second nearest distance that Hamerly is bounded by is the second smallest, ties included.",
  ["inputs", "histories"],
  "every data set (float, double, signed int), number and position of the centroids and number of steps",
  "Hamerly skips samples on the ground of bounds that are carried from step to step; a bound that is too loose only shows on particular "
  "sequences of moves, and the clusters still look plausible.",
  ["kmeans/Lloyd.hpp", "kmeans/Hamerly.hpp", "kmeans/KMeansUtils.hpp", "kmeans/KMeans.hpp"],
  [("Lloyd iteration", "Lloyd::step"), ("bounds", "Hamerly::step"), ("nearest centroids", "kmeans/KMeansUtils.hpp")],
  ["Lloyd::step / total_deviation", "Hamerly::step / total_deviation", "KMeans::predict / forward"],
  "random and grouped data x initial centroids (samples, far points, duplicates) x histories of steps, each step against an exhaustive assignment "
  "in double precision; non-trivial when k > 1, n > k and at least two steps move a centroid",
  ["samples closer than rounding to two centroids may go to either", "integer means are truncated (within one unit)",
   "unsigned samples are out of domain (their differences wrap)"])

P("P16", "KMeans::fit returns the best of its candidates and respects its options",
  "fit() starts one candidate from each of n_init initialisations (from the given centroids only, when the object was constructed or fitted with "
  "them), runs each for at most max_iter steps or until the centroids move less than the tolerance for `patience` steps when early stopping is "
  "on, and returns the centroids of the candidate of smallest total deviation. A later fit starts from the fitted centroids, and "
  "predict/forward use them. The default fit ends with each centroid inside of the bounds of the data and, with enough iterations, at the mean of its samples.",
  ["inputs", "configurations", "histories"],
  "every data set, k, n_init, max_iter, tolerance, patience, initializer and sequence of fits",
  "The tests look at one or two data sets with the default options; which candidate is kept and when a run stops is invisible in them.",
  ["kmeans/KMeans.hpp", "kmeans/Lloyd.hpp", "kmeans/Hamerly.hpp"],
  [("candidate selection", "KMeans::fit"), ("early stopping", "KMeans::fit")],
  ["KMeans::fit", "KMeans::predict / forward"],
  "random data x options x recorded initialisations against a replay of the same candidates; non-trivial when k > 1 and candidates differ or "
  "several steps are run",
  ["candidates that tie within rounding may be chosen either way"])

P("P17", "FasterPAM descends on the total deviation down to a local optimum",
  "From any k >= 2 distinct samples as medoids, each step keeps k distinct samples, total_deviation() is always the sum of the distances of the "
  "samples to their nearest current medoid, no step increases it, and a step that changes nothing means that no replacement of one medoid by one "
  "other sample decreases it. This holds whether distances are computed or read from a precomputed matrix, with the same result. The first, "
  "second and third nearest medoid of each sample are distinct medoids, at the smallest distances in order, ties included.",
  ["inputs", "histories"],
  "every data set (signed int, float, double), k, initial medoids and sequence of steps",
  "The nearest and second nearest medoids are maintained incrementally through swaps; a stale entry only shows later as a wrong swap, and the "
  "tests never compare with an exhaustive search.",
  ["kmedoids/FasterPAM.hpp", "kmedoids/PAMUtils.hpp", "datastruct/matrix/PairwiseDistanceMatrix.hpp", "datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp"],
  [("swap search", "FasterPAM::step / find_best_swap"), ("incremental buffers", "FasterPAM::swap_buffers"), ("nearest medoids", "kmedoids/PAMUtils.hpp")],
  ["FasterPAM::step / total_deviation", "pam::utils::samples_to_nth_nearest_medoid_*"],
  "random, grouped and duplicate-heavy data x initial medoids x histories of steps against exhaustive evaluation of all k(n-k) swaps; non-trivial "
  "when n > k + 1 and at least one step changes the medoids",
  ["floating point samples: swaps that change the deviation by less than rounding may be taken or not", "k >= 2 (one medoid is refused by the class)"])

P("P18", "FasterMSC descends on the medoid silhouette down to a local optimum",
  "From any k >= 2 distinct samples as medoids, each step keeps k distinct samples, the reported loss is always the sum over the samples of "
  "(distance to the nearest medoid) / (distance to the second nearest medoid), 0/0 counting as 0, no step increases it, and a step that changes "
  "nothing means that no replacement of one medoid by one other sample decreases it, with two medoids and with more.",
  ["inputs", "histories"],
  "every floating point data set, k, initial medoids and sequence of steps, computed or stored distances",
  "Three nearest medoids per sample are maintained incrementally, with a separate code path for two medoids; the tests never look at the loss.",
  ["kmedoids/FasterMSC.hpp", "kmedoids/PAMUtils.hpp"],
  [("swap search", "FasterMSC::step / find_best_swap / find_best_swap_k2"), ("incremental buffers", "FasterMSC::swap_buffers / swap_buffers_k2")],
  ["FasterMSC::step / total_deviation"],
  "random and grouped data x initial medoids x histories of steps against exhaustive evaluation of all k(n-k) swaps; non-trivial when n > k + 1 "
  "and at least one step changes the medoids",
  ["data whose smallest distance is within rounding of zero is discarded", "swaps that change the loss by less than rounding may be taken or not"])

P("P19", "KMedoids::fit returns the best of its candidates and respects its options",
  "fit() starts from the given medoids, or else from n_init sets of k distinct samples drawn among all samples, runs each for at most max_iter "
  "steps or until `patience` + 1 successive steps change nothing when early stopping is on, and returns the medoids of smallest loss; a later fit "
  "starts from the fitted medoids. predict gives each sample the position of its nearest medoid and forward the distance to it. Fitting on "
  "samples, with precomputed distances, or on a distance matrix gives the same; distance matrices are symmetric, zero on the diagonal and hold "
  "the distance of each pair.",
  ["inputs", "configurations", "histories"],
  "every data set, k, option set, algorithm, distance storage and sequence of fits",
  "The tests look at default options on a few data sets and cannot tell whether restarts explore anything or which candidate is kept.",
  ["kmedoids/KMedoids.hpp", "kmedoids/FasterPAM.hpp", "kmedoids/FasterMSC.hpp", "datastruct/matrix/PairwiseDistanceMatrix.hpp",
   "datastruct/matrix/PairwiseDistanceMatrixDynamic.hpp", "common/math/random/Sampling.hpp"],
  [("candidate selection", "KMedoids::fit"), ("random medoids", "random::make_n_elements_from_interval"), ("triangular storage", "PairwiseDistanceMatrix::operator()")],
  ["KMedoids::fit / predict / forward", "PairwiseDistanceMatrix::operator()"],
  "random data x options against a replay of the candidates, and enough restarts that every set of medoids is drawn (chance of missing one below "
  "1e-17) against the best set; non-trivial when medoids move or candidates differ",
  ["k >= 2", "candidates that tie within rounding may be chosen either way"])

P("P20", "Distance functions return the distances they are named after",
  "squared_euclidean_distance, euclidean_distance, manhattan_distance, auto_distance and their distance-from-origin and cosine counterparts return, for "
  "any two feature ranges of the same length, the mathematical distance (rounded for floating point, exact for integers where it is "
  "representable), as a value and for signed, unsigned, float and double features; they are zero between equal vectors, symmetric and satisfy the "
  "triangle inequality where the distance does. cosine_similarity is independent of the scale of the vectors and infinite only for a zero "
  "vector. levenshtein_distance is the smallest number of insertions, deletions and substitutions between two sequences of any lengths.",
  ["inputs"],
  "every pair and triple of vectors, length, feature type, and pair of sequences",
  "Every algorithm of the library rests on them and the tests compare single pairs; types, lengths, magnitudes and metric axioms are not sampled.",
  ["common/math/heuristics/Distances.hpp"],
  [("distances", "common/math/heuristics/Distances.hpp")],
  ["math::heuristics::*_distance", "math::heuristics::cosine_similarity"],
  "random vectors of several lengths, magnitudes and types, and sequences over small alphabets, against textbook references and the metric "
  "axioms; non-trivial when there is more than one feature and the vectors differ",
  ["integer features whose squared differences fit the type", "cosine of vectors whose squared norm neither overflows nor underflows"])

P("P21", "Silhouette values follow their definition for every labelling",
  "get_cluster_sizes counts the samples of each label; cohesion is the mean distance of each sample to the others of its cluster, separation the "
  "smallest mean distance to the samples of another cluster, and silhouette (separation - cohesion) / max of both, within [-1, 1] and 0 for "
  "a sample alone in its cluster; get_average_silhouette is their mean. This holds for label types narrower than the number of samples and for any "
  "order of the samples.",
  ["inputs"],
  "every floating point data set, label type and assignment of samples to at least two clusters",
  "The tests print the scores of fitted data sets and never compare them with the definition; single-sample clusters and small label types never appear.",
  ["common/math/heuristics/SilhouetteMethod.hpp"],
  [("cohesion and separation", "math::heuristics::cohesion / separation"), ("scores", "math::heuristics::silhouette")],
  ["math::heuristics::silhouette", "math::heuristics::get_average_silhouette"],
  "random and grouped data x random, skewed and singleton-heavy labels of several types against the definition computed naively in long double; "
  "non-trivial when n > 3 and at least two clusters have more than one sample",
  ["at least two clusters", "floating point samples"])

P("P22", "Statistics are those of the elements, samples and features given",
  "argmin, argmax and the index/value pairs of the smallest, largest, second largest and n-th smallest elements name the first such element for "
  "any element type and number of elements, without changing the elements. normalize_min_max maps the smallest element to 1 and the largest to 0 "
  "linearly and normalize divides by the sum, also for integer elements. Means, variances (n - 1 degrees of freedom) and the feature of largest "
  "variance are those of exactly the samples and features selected by the range, the indices and the feature mask.",
  ["inputs"],
  "every sequence, element type, selection of samples (repetitions included) and mask of features",
  "These choose the split feature of the kd-trees, the centroids and the best candidate; the tests use the overload without indices and one type.",
  ["common/math/statistics/Statistics.hpp"],
  [("order statistics", "argmin / argmax / get_second_max_index_value_pair / find_nth_smallest_index_and_element"),
   ("moments", "compute_mean_per_feature / compute_variance_per_feature / argmax_variance_per_feature")],
  ["math::statistics::*"],
  "random sequences (extreme values and ties included) and samples x selections x masks against naive long double references; non-trivial "
  "when the elements differ and there are more than two",
  ["integer means and variances truncate as integer division does, sums fit the type", "at least two samples for a variance"])

P("P23", "Random selections draw distinct, in-range elements uniformly",
  "select_n_elements, make_n_elements_from_interval, select_n_random_samples, select_n_random_samples_from_indices, select_random_sample and "
  "init_uniform return the requested number of elements (samples) of the pool, never the same position twice and never one outside of the pool or "
  "of the indices, each element being equally likely at each place. init_spatial_uniform centroids lie within the bounds of the samples on "
  "each feature and spread over them, whatever the sign of the samples. Uniform and normal distributions have the bounds and moments they are given.",
  ["inputs", "random seeds"],
  "every pool, number of choices, feature count, element type and random seed",
  "A test sees one random outcome; a biased shuffle or an element that can never be drawn still returns plausible elements each time.",
  ["common/math/random/Sampling.hpp", "common/math/random/Distributions.hpp"],
  [("partial Fisher-Yates shuffle", "math::random::select_n_elements"), ("initial centroids", "math::random::init_uniform / init_spatial_uniform")],
  ["math::random::select_* / make_n_elements_from_interval / init_*", "math::random::uniform_distribution / normal_distribution"],
  "random pools x hundreds of selections each with generated seeds, membership and distinctness checked exactly and frequencies within 9 standard "
  "deviations of their binomial (below 1e-17 per count by chance); non-trivial when the selection is a strict subset of at least 3 elements",
  ["at most as many choices as elements", "frequencies are statistical: a bias below about 30 % of a frequency is not detected"])

P("P24", "Weighted draws follow their weights and k-means++ spreads its centroids",
  "VosesAliasMethod never draws an element of weight zero and draws each other one with probability proportional to its weight, for floating point and "
  "integer weights. k-means++ centroids are samples, the first one uniformly, each next one with probability proportional to the "
  "distance to the nearest centroid so far (to the previous centroid in the other version): no centroid repeats while distinct samples are left.",
  ["inputs", "random seeds"],
  "every vector of non-negative weights, data set, number of centroids and random seed",
  "Alias tables are wrong in ways single draws cannot show: a wrong alias only shifts probabilities, a zero weight is drawn only sometimes.",
  ["common/math/random/VosesAliasMethod.hpp", "kmeans/KMeansPlusPlus.hpp"],
  [("alias tables", "VosesAliasMethod::init / sample"), ("k-means++", "kmeansplusplus::make_centroids / make_centroids_from_previous_centroid")],
  ["math::random::VosesAliasMethod", "kmeansplusplus::make_centroids*"],
  "random weights (zeros, ties, dominant ones) x a thousand draws each, support checked exactly, frequencies of elements and of the lightest ones "
  "together within 9 standard deviations; k-means++ on duplicate-heavy exact data; non-trivial when weights differ / more than two distinct samples",
  ["the weights do not sum to zero", "fewer than a few thousand weights (float rounding of the normalisation)"])

P("P25", "Serialized, copied and moved trees are the tree",
  "serialize() writes a JSON file that describes the tree completely and to the last bit: number of samples and features, options, bounding box, and "
  "per node cut axis, samples and children in the kd-tree; representative, level, cluster size and children in the single linkage tree. A copied or "
  "moved kd-tree has the same samples, features, nodes and serialization, after any number of copies and moves and after the original is destroyed.",
  ["inputs", "histories"],
  "every data set, index subset, tree option and sequence of copies and moves; every weighted tree",
  "The tests write the files for a plotting script and never read them; a member forgotten by a constructor or a lost digit goes unnoticed.",
  ["datastruct/tree/kdtree/KDTree.hpp", "datastruct/tree/kdtree/KDNodeView.hpp",
   "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp", "datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp"],
  [("serialization", "KDTree::serialize / KDNodeView::serialize / SingleLinkageClusterTree::serialize"), ("copies", "KDTree constructors")],
  ["the JSON file", "KDTree accessors"],
  "random values with full mantissas and wide exponents x tree options x copy/move histories, the file being read by an independent JSON reader and "
  "compared with the nodes; non-trivial when the tree has more than two nodes",
  ["finite values, integer values that fit int64"])

P("P26", "Numeric and container helpers honour their contracts",
  "equality/inequality compare integers exactly and floating point values within epsilon, division returns the default value for a null "
  "denominator, centres and sizes of integer segments are rounded to the left, container comparisons, match counts, membership, conversions, "
  "permutations and row remappings are element-wise right for every size and index type, and mismatched sizes are refused. The sequential and "
  "blocked transpositions agree with the definition for every shape and transposing twice is the identity; translating to the origin subtracts the origin.",
  ["inputs"],
  "every scalar pair, container pair, permutation, index type and matrix shape",
  "The whole library goes through them; the tests use single values and matrices smaller than one block.",
  ["common/Utils.hpp", "common/math/linear_algebra/Transpose.hpp", "common/math/linear_algebra/Translation.hpp"],
  [("helpers", "common/Utils.hpp"), ("blocked transposition", "math::linear_algebra::transpose_parallel_openmp")],
  ["common::*", "math::linear_algebra::*"],
  "random scalars around the tolerances, containers with few edits, permutations of up to 256 rows, matrices up to 200 x 200 against "
  "element-wise references; non-trivial when the operands differ and have more than one element",
  ["segments given in order, sums that fit the type"])

P("P27", "Multithreaded builds give the results of one thread",
  "In a build with THREADS_ENABLED and OpenMP, whatever the number of threads: transpositions and pairwise distance matrices hold the same values as "
  "computed one at a time, and KMeans::fit and KMedoids::fit run every candidate exactly as it runs alone and return the one of smallest loss.",
  ["inputs", "schedules", "configurations"],
  "every data set, number of candidates, number of threads and schedule",
  "The test build disables threads altogether; shared state between candidates would only show in the threaded build.",
  ["kmeans/KMeans.hpp", "kmedoids/KMedoids.hpp", "datastruct/matrix/PairwiseDistanceMatrix.hpp", "common/math/linear_algebra/Transpose.hpp"],
  [("parallel candidates", "KMeans::fit / KMedoids::fit"), ("parallel rows", "PairwiseDistanceMatrix::compute_pairwise_distances_parallel"),
   ("parallel blocks", "transpose_parallel_openmp")],
  ["KMeans::fit", "KMedoids::fit", "PairwiseDistanceMatrix::operator()", "transpose"],
  "random data x 1 to 7 OpenMP threads x candidates, threaded result against each candidate, row and value alone; non-trivial when there are several "
  "threads and the candidates differ",
  ["schedules are those the operating system gives"],
  variants=[{"name": "asan-omp", "threads": True, "omp": 4, "workers": 4}])

P("P28", "PAM's BUILD selects the greedily best medoids",
  "pam::build returns the requested number of distinct samples as medoids: the first one is the sample of smallest total distance to all samples, each "
  "next one the sample whose addition decreases the total deviation the most, together with the total deviation and the distance of each sample to its "
  "nearest selected medoid. Computed distances and a precomputed matrix give the same.",
  ["inputs"],
  "every data set (signed int, float, double, duplicates included) and number of medoids from one to the number of samples",
  "No test calls it; a candidate that is scored wrongly still gives plausible medoids.",
  ["kmedoids/PAMBuild.hpp", "kmedoids/PAMUtils.hpp", "datastruct/matrix/PairwiseDistanceMatrix.hpp"],
  [("greedy selection", "pam::build"), ("first medoid", "pam::utils::first_medoid_td_index_pair")],
  ["pam::build", "pam::utils::first_medoid_td_index_pair"],
  "random, grouped and duplicate-heavy data x number of medoids, each selected medoid against the total deviation of all candidates; non-trivial when "
  "k > 1 and n > k + 1",
  ["sums of distances fit the type of the samples"])
