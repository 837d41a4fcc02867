#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)
I = "include/higra/"

prop("P01", "Undirected graphs stay consistent under any edit history",
 "After any sequence of vertex additions, edge additions, edge re-attachments and edge removals (self loops and parallel edges included), every view of an undirected graph (counts, edge list, edge by index, incident edges, adjacent vertices, degrees) describes the same multigraph, namely the one obtained by applying the sequence to a plain list of edges. Edge indices never change, a removed edge keeps its index with both ends at -1 and is incident to no vertex, and it can be re-attached later. Sub-graphs, vertex-induced sub-graphs and line graphs built from a graph contain exactly the requested vertices and edges. An algorithm given a graph with removed edges gives the result it gives on the graph built without these edges, or rejects it.",
 ["histories", "inputs"], "every finite history of graph edits on both storage variants, including self loops, parallel edges, double removal and re-attachment",
 "Tests run one or two fixed edit scripts on graphs of about four vertices and never interleave removal, re-attachment and growth.",
 [I+"structure/undirected_graph.hpp", I+"graph.hpp", I+"algo/graph_core.hpp", "higra/structure/py_undirected_graph.cpp", "higra/structure/py_common_graph.hpp", "higra/structure/undirected_graph.py", "higra/algo/graph_core.py"],
 [("incidence lists updated together with the edge list", I+"structure/undirected_graph.hpp: add_edge, remove_edge, set_edge")],
 [("edges / out_edges", "edge list and per-vertex incidence lists that must describe the same multigraph", I+"structure/undirected_graph.hpp")],
 ["hg.UndirectedGraph", "hg.UndirectedGraphOptimizedDelete", "hg.subgraph", "hg.vertex_induced_subgraph", "hg.line_graph"])

prop("P02", "Grid graphs contain exactly the in-domain neighbour pairs",
 "For every image shape (1d to 5d, including sides of length 1) and every symmetric neighbour list (no duplicated and no null offset), explicit and implicit grid graphs have one vertex per pixel in row-major order and connect two pixels exactly when their difference is one of the neighbour offsets and both lie inside the domain. Converting an implicit graph to an explicit one preserves vertices, edges and neighbourhoods, and mapping pixel coordinates to vertex indices and back is the identity, with out-of-domain coordinates recognised as such. Edge weights of a 4-adjacency graph survive the round trip through their Khalimsky grid image.",
 ["inputs"], "every shape, dimension and neighbour mask or list",
 "Tests check a handful of small shapes (mostly 2x3) and one or two masks; border handling must hold for every shape and offset.",
 [I+"structure/regular_graph.hpp", I+"structure/embedding.hpp", I+"image/graph_image.hpp", "higra/image/graph_image.py", "higra/structure/regular_graph.py", "higra/structure/py_regular_graph.cpp", "higra/structure/py_embedding.cpp", "higra/image/py_graph_image.cpp"],
 [("border tests when enumerating neighbours", I+"structure/regular_graph.hpp"), ("lin2grid/grid2lin", I+"structure/embedding.hpp")],
 observe=["hg.get_*_adjacency_graph", "hg.get_nd_regular_graph", "hg.RegularGraph*", "hg.EmbeddingGrid*", "hg.graph_4_adjacency_2_khalimsky"])

prop("P03", "Trees accept exactly valid parent arrays; all navigation agrees",
 "A tree can be built from an array exactly when it is a parent relation in topological order: leaves first, every non-root node has a larger in-range parent, the last node is the only root; any other non-empty array is rejected with an exception. On an accepted tree every navigation operation (children, child, parent, ancestors, number of children, degree, incident edges, leaf test, iterators in both directions with or without leaves and root, sub-tree extraction, region search by altitude, conversion to a graph) agrees with the parent array.",
 ["inputs"], "every integer array offered as a parent relation and every node of every resulting tree",
 "Tests build a few hand-written trees of about eight nodes; acceptance and navigation must hold for every shape (chains, stars, single node, unbalanced) and every bad array.",
 [I+"structure/tree_graph.hpp", I+"algo/tree.hpp", "higra/structure/py_tree_graph.cpp", "higra/structure/tree_graph.py"],
 [("validation at construction and lazily computed children", I+"structure/tree_graph.hpp: _init, compute_children")],
 [("parents/children", "parent array and derived children lists", I+"structure/tree_graph.hpp")],
 ["hg.Tree"])

prop("P04", "Lowest common ancestors are exact with every algorithm and block size",
 "For every tree and every pair of nodes (leaf or internal, equal or nested), the lowest common ancestor returned by the plain search and by each preprocessed structure, for every block size, is the deepest node that is an ancestor of both. The answer is the same for single pairs, arrays of pairs of any integer type and the edges of a graph, and is unchanged when the preprocessed structure is saved and restored.",
 ["inputs", "configurations"], "every tree size and shape, node pair, algorithm, block size and integer type",
 "Tests use trees smaller than one default block (1024 entries), so block boundaries, sparse table levels and large tours are not reached.",
 [I+"structure/lca_fast.hpp", I+"structure/details/range_minimum_query.hpp", I+"structure/tree_graph.hpp", "higra/structure/py_lca_fast.cpp", "higra/structure/tree_graph.py", "higra/structure/lca_fast.py"],
 [("Euler tour and range minimum query (sparse table, block decomposition)", I+"structure/details/range_minimum_query.hpp")],
 observe=["hg.Tree.lowest_common_ancestor", "hg.LCA_rmq_sparse_table", "hg.LCA_rmq_sparse_table_block"])

prop("P05", "Tree accumulators and propagations equal their definitions",
 "For every tree, finite node data of any supported numeric type, scalar or vector valued, and every accumulator, parallel, sequential and combined (add, max, min, multiply) accumulation from the leaves to the root yield at each node exactly the aggregate of the values its definition prescribes, with the documented neutral result for empty input, provided integer results fit the type. Parallel, conditional and accumulating propagation from the root to the leaves give each node the value of the ancestor its definition prescribes.",
 ["inputs"], "every tree shape, data shape, numeric type, condition mask and accumulator kind",
 "Tests use one fixed eight-node tree with scalar or 2-vector float data and one expected array per accumulator.",
 [I+"accumulator/tree_accumulator.hpp", I+"accumulator/accumulator.hpp", "higra/accumulator/py_tree_accumulators.cpp", "higra/accumulator/tree_accumulator.py"],
 [("initialise / accumulate / finalise protocol of accumulators over children", I+"accumulator/tree_accumulator.hpp")],
 observe=["hg.accumulate_parallel", "hg.accumulate_sequential", "hg.accumulate_and_*_sequential", "hg.propagate_*"])

prop("P06", "Graph, index and contour accumulation and edge weighting are exact",
 "Accumulating edge values on vertices (incident edges), vertex values on vertices (adjacent vertices), values at target indices, and node values on the edges crossed by the contour of the nodes of a hierarchy gives for each target exactly the aggregate (count, sum, mean, min, max, product, first, last, argmin, argmax) of the values that fall on it; index -1 is ignored and smaller indices are rejected. Weighting the edges of an explicit graph or of a tree from vertex data gives each edge exactly the documented function of its two end values, for every numeric type, for scalar and vector data, and for images given with their shape.",
 ["inputs"], "every graph, data shape and type, index array, accumulator and weighting function",
 "Tests check each accumulator or weighting on a single small graph with one data type.",
 [I+"accumulator/graph_accumulator.hpp", I+"accumulator/at_accumulator.hpp", I+"algo/graph_weights.hpp", I+"accumulator/tree_contour_accumulator.hpp", "higra/accumulator", "higra/algo/graph_weights.py", "higra/algo/py_graph_weights.cpp"],
 [("accumulators driven by incidence and index maps", I+"accumulator/graph_accumulator.hpp")],
 observe=["hg.accumulate_graph_edges", "hg.accumulate_graph_vertices", "hg.accumulate_at", "hg.weight_graph"])

prop("P07", "Minimum spanning trees, canonical trees and saliency maps correspond",
 "The canonical binary partition tree of a connected edge-weighted graph is the merge tree of Kruskal's algorithm for the (stable) increasing order of the weights: its building edges form a minimum spanning tree and the altitude of the lowest common ancestor of two vertices is the minimax path weight between them. The quasi-flat zone hierarchy has exactly one node per connected component of each threshold of the weights, the saliency map of either hierarchy is the largest ultrametric below the weights, and rebuilding a quasi-flat zone hierarchy from a saliency map gives back the same hierarchy. Non-connected graphs are rejected by hierarchy construction.",
 ["inputs"], "every connected weighted graph (ties, negative, integer or real or lexicographic weights, parallel edges and self loops)",
 "Tests compare against a few fixed 3x3 grids; the equivalences hold for every graph and tie pattern or not at all.",
 [I+"hierarchy/hierarchy_core.hpp", I+"structure/unionfind.hpp", I+"algo/graph_core.hpp", "higra/hierarchy/hierarchy_core.py", "higra/hierarchy/py_hierarchy_core.cpp", "higra/algo/graph_core.py"],
 [("Kruskal with union-find", I+"hierarchy/hierarchy_core.hpp: bpt_canonical"), ("removal of equal-altitude nodes", I+"hierarchy/hierarchy_core.hpp: quasi_flat_zone_hierarchy")],
 observe=["hg.bpt_canonical", "hg.quasi_flat_zone_hierarchy", "hg.saliency", "hg.minimum_spanning_tree", "hg.ultrametric_open"])

prop("P08", "Simplifying or reordering a tree keeps exactly the requested nodes",
 "Simplifying a tree with any deletion mask, with or without deletion of leaves, yields a valid tree that keeps exactly the non-deleted nodes (and the root), preserves the ancestor relation between kept nodes and reports the true original index of each. The filters by node size, frontier strength or relevance remove exactly the documented nodes, canonisation removes exactly the nodes of same altitude as their parent, transformation to a binary tree and sorting by altitude preserve the hierarchy of regions, and the isomorphism and increasingness tests answer correctly on every pair of trees.",
 ["inputs"], "every tree, deletion mask and altitude array",
 "Tests use a few fixed masks on trees of about ten nodes; leaf deletion in particular reorders nodes in ways that depend on the whole shape.",
 [I+"hierarchy/hierarchy_core.hpp", I+"algo/tree.hpp", "higra/hierarchy/hierarchy_core.py", "higra/algo/tree.py", "higra/algo/py_tree.cpp"],
 [("node renumbering", I+"hierarchy/hierarchy_core.hpp: simplify_tree"), ("filters", "higra/algo/tree.py")],
 observe=["hg.simplify_tree", "hg.canonize_hierarchy", "hg.tree_2_binary_tree", "hg.filter_*", "hg.sort_hierarchy_with_altitudes", "hg.test_tree_isomorphism", "hg.test_altitudes_increasingness"])

prop("P09", "Min and max trees are the components of the level sets",
 "For every connected vertex-weighted graph, the nodes of the max (min) tree are exactly the connected components of its upper (lower) level sets: leaves are the vertices, one internal node exists per distinct component, its altitude is the extreme level at which the component exists, and its children are the next smaller components and its own vertices. Altitudes are monotone from leaves to root, reconstruction from node altitudes gives back the input weights, and the min tree of f is the max tree of -f.",
 ["inputs"], "every connected graph (explicit or implicit grid) and every vertex weighting of every numeric type",
 "Tests check one 4x4 image; plateaus, ties, extreme type values and arbitrary graphs are out of their reach.",
 [I+"hierarchy/component_tree.hpp", "higra/hierarchy/component_tree.py", "higra/hierarchy/py_component_tree.cpp"],
 [("union-find by decreasing level with canonisation", I+"hierarchy/component_tree.hpp")],
 observe=["hg.component_tree_max_tree", "hg.component_tree_min_tree"])

prop("P10", "Trees of shapes are self-dual hole-filled level components",
 "For every 2d (and 3d) image, padding and interpolation option, the tree of shapes is a valid tree over the requested pixels whose altitudes reconstruct the image at the original pixels, whose nodes are connected sets, no node having the altitude of its parent. With immersion its nodes are the hole-filled connected components of the level sets of the immersed image (of the single-valued image of levels the tree assigns to it where level lines meet at saddle points or the exterior is not constant); with a mean border or no padding and a constant border, the image and its negative give the same tree with opposite altitudes. Without immersion only validity, reconstruction and connectedness are guaranteed.",
 ["inputs", "configurations"], "every 2d/3d image shape, numeric type, and every padding/immersion/original-size option",
 "Tests use two or three small images with mostly default options; self-duality is tested on one image.",
 [I+"image/tree_of_shapes.hpp", I+"hierarchy/component_tree.hpp", "higra/image/tree_of_shapes.py", "higra/image/py_tree_of_shapes.cpp"],
 [("plain map interpolation, front propagation with a level-indexed queue", I+"image/tree_of_shapes.hpp")],
 observe=["hg.component_tree_tree_of_shapes_image2d", "hg.component_tree_tree_of_shapes_image3d", "hg.component_tree_multivariate_tree_of_shapes_image2d"])

prop("P11", "Agglomerative clustering always merges the closest pair of clusters",
 "For every connected weighted graph without parallel edges, every step of single, complete, average, exponential, Ward or user-supplied linkage clustering merges the two adjacent clusters whose current distance, as defined by the linkage on the original edges and sizes, is minimal, and the recorded altitude of the new node is that distance (or its running maximum where documented). The result is a binary tree over all vertices whose reported merging edges form a spanning tree of the graph.",
 ["inputs", "histories"], "every connected graph, weight array, linkage rule and merge history",
 "Tests compare with one or two precomputed trees per linkage; the greedy choice depends on the entire history of weight updates and parallel edge fusions.",
 [I+"hierarchy/binary_partition_tree.hpp", I+"structure/fibonacci_heap.hpp", "higra/hierarchy/binary_partition_tree.py", "higra/hierarchy/py_binary_partition_tree.cpp"],
 [("priority queue of edges with weight updates and fusion of parallel edges", I+"hierarchy/binary_partition_tree.hpp")],
 [("active edge heap", "each live edge joins two live clusters with its current linkage distance", I+"hierarchy/binary_partition_tree.hpp")],
 ["hg.binary_partition_tree*"])

prop("P12", "Watershed labelisations are minimum spanning forests of the minima",
 "For every edge-weighted graph, the watershed labelisation gives each vertex one label, each label's region is connected and contains exactly one regional minimum of the weights, and the regions form a minimum spanning forest rooted in the minima. For every seeding, the seeded watershed keeps all seeds (including the background rule), every labelled vertex is reached from its seed by a minimum-altitude path, and vertices not reachable from any seed stay unlabelled.",
 ["inputs"], "every weighted graph (ties, plateaus, several components) and every seed image",
 "Tests check three fixed images; plateaus and tie handling are where watershed algorithms go wrong.",
 [I+"algo/watershed.hpp", "higra/algo/watershed.py", "higra/algo/py_watershed.cpp"],
 [("stream algorithm on flat zones", I+"algo/watershed.hpp: labelisation_watershed"), ("priority flooding", I+"algo/watershed.hpp: labelisation_seeded_watershed")],
 observe=["hg.labelisation_watershed", "hg.labelisation_seeded_watershed"])

prop("P13", "Watershed hierarchies merge minima in the order of their extinction",
 "For every connected weighted graph and every increasing regional attribute (area, volume, dynamics, number of parents, user attribute) or explicit ordering of the minima, the watershed hierarchy is the quasi-flat zone hierarchy of a minimum spanning tree of the graph reweighted so that each edge gets the smaller of the extinction values of the two basins it joins. Hence its saliency is an ultrametric, its altitudes increase towards the root, each level has as many regions as minima of higher persistence, and at the lowest level the regions are watershed basins.",
 ["inputs"], "every connected weighted graph, attribute and minima ordering",
 "Tests check each hierarchy on one fixed graph with expected altitudes.",
 [I+"hierarchy/watershed_hierarchy.hpp", "higra/hierarchy/watershed_hierarchy.py", "higra/hierarchy/py_watershed_hierarchy.cpp"],
 [("persistence computed on the canonical tree and re-thresholded", I+"hierarchy/watershed_hierarchy.hpp")],
 observe=["hg.watershed_hierarchy_by_*"])

prop("P14", "Labels, graph cuts and region adjacency graphs represent one partition",
 "For every graph, converting labels to a cut and back, or building a region adjacency graph from labels or a cut, describes the same partition into connected regions: every vertex belongs to exactly one region vertex, two region vertices are joined by exactly one edge when an edge of the graph joins their regions, and edges inside a region map to no region edge. Back-projection and accumulation between the graph and its region graph use exactly these maps, and projecting a fine partition on a coarse one gives each fine region the coarse region of largest overlap.",
 ["inputs"], "every graph, labelling, edge cut, data array and accumulator",
 "Tests use one labelled 4x4 grid; regions with equal labels but not connected, empty cuts and multi-edges between regions are not sampled.",
 [I+"algo/rag.hpp", I+"algo/graph_core.hpp", "higra/algo/rag.py", "higra/algo/py_rag.cpp", "higra/algo/graph_core.py", I+"algo/alignment.hpp"],
 [("flood fill and edge map construction", I+"algo/rag.hpp")],
 observe=["hg.make_region_adjacency_graph_from_*", "hg.rag_*", "hg.labelisation_2_graph_cut", "hg.graph_cut_2_labelisation", "hg.project_fine_to_coarse_labelisation"])

prop("P15", "Horizontal cuts of a hierarchy are exactly its threshold partitions",
 "For every hierarchy with altitudes exactly representable as double, the labelisation at a threshold joins two leaves exactly when their lowest common ancestor has altitude at most the threshold. The cut explorer enumerates exactly the distinct horizontal cuts with their true numbers of regions, altitudes and nodes, returns for a requested number of regions the cut with exactly, at least or at most that number as asked, and its labelisation, graph-cut and data-reconstruction outputs agree with those nodes. Reconstructing leaf data, super-vertex labels and marker-based labelisations follow their definitions on every tree.",
 ["inputs"], "every hierarchy with non-decreasing altitudes (ties included), every threshold and requested number of regions",
 "Tests check one or two small trees; ties between altitudes and requests between available cuts are not covered.",
 [I+"algo/horizontal_cuts.hpp", I+"algo/tree.hpp", "higra/algo/horizontal_cuts.py", "higra/algo/py_horizontal_cuts.cpp", "higra/algo/tree.py"],
 [("sorted cut list built from children altitudes", I+"algo/horizontal_cuts.hpp")],
 observe=["hg.HorizontalCutExplorer", "hg.labelisation_horizontal_cut_from_*", "hg.reconstruct_leaf_data", "hg.labelisation_hierarchy_supervertices", "hg.binary_labelisation_from_markers"])

prop("P16", "Region attributes measure the actual regions of the hierarchy",
 "For every hierarchy on every graph without self-loops, the regional attributes of a node (area, volume, mean and covariance of vertex values, moments of inertia, contour length and strength, frontier length and strength, perimeter, compactness, vertex coordinates and areas) equal the quantity measured directly on the set of leaves, contour edges or frontier edges that the node denotes. This holds with default or user-supplied areas, lengths and weights whenever results fit the numeric type, and on hierarchies built on region adjacency graphs.",
 ["inputs"], "every hierarchy, graph and input weights",
 "Tests check each attribute on one fixed tree.",
 ["higra/attribute/tree_attributes.py", "higra/attribute/graph_attributes.py", I+"attribute/tree_attribute.hpp", "higra/attribute/py_tree_attributes.cpp"],
 [("incremental computation along the tree instead of per region", "higra/attribute/tree_attributes.py")],
 observe=["hg.attribute_*"])

prop("P17", "Topological, extremal and persistence attributes match their definitions",
 "For every tree and altitude array, depth, topological height, altitude height, extrema, extinction values, dynamics, sibling, child number, regular altitudes, vertex lists and pair-sum products of every node equal the values obtained by following their definitions node by node on the tree. In particular extinction values and dynamics pair each extremum with the node at which it meets a more persistent one, ties being resolved arbitrarily but consistently. (Extinction values of inner nodes strictly inside a plateau of an extremum are unspecified.)",
 ["inputs"], "every tree (binary or not, increasing or decreasing altitudes, ties and plateaus)",
 "Tests check each attribute on one fixed tree; plateaus, ties and one-child nodes are not sampled.",
 ["higra/attribute/tree_attributes.py", I+"attribute/tree_attribute.hpp", "higra/attribute/py_tree_attributes.cpp"],
 [("bottom-up and top-down passes", I+"attribute/tree_attribute.hpp")],
 observe=["hg.attribute_depth", "hg.attribute_height", "hg.attribute_extrema", "hg.attribute_extinction_value", "hg.attribute_dynamics", "hg.attribute_sibling", "hg.attribute_child_number"])

prop("P18", "Optimal cuts minimise the energy over all cuts of the hierarchy",
 "For every hierarchy and node energies, the partition returned by the optimal cut has the smallest total energy among all non-horizontal cuts of the hierarchy. With non-negative energies, a sub-additive regularisation term and without piecewise approximation, the scale of appearance hierarchy gives, for every regularisation weight, a horizontal cut whose energy is the optimum over all cuts of the original hierarchy, and the Mumford-Shah energies and greedy merging follow their closed-form definitions.",
 ["inputs"], "every hierarchy, energy attribute pair and regularisation weight",
 "Tests compare to one precomputed result; optimality quantifies over all (exponentially many) cuts.",
 [I+"algo/tree_energy_optimization.hpp", "higra/algo/tree_energy_optimization.py", "higra/algo/py_tree_energy_optimization.cpp", "higra/attribute/tree_attributes.py"],
 [("dynamic programming on piecewise linear energy functions", I+"algo/tree_energy_optimization.hpp")],
 observe=["hg.labelisation_optimal_cut_from_energy", "hg.hierarchy_to_optimal_energy_cut_hierarchy", "hg.binary_partition_tree_MumfordShah_energy", "hg.attribute_piecewise_constant_Mumford_Shah_energy"])

prop("P19", "Assessment scores equal their combinatorial definitions",
 "Dendrogram purity, partition scores against one or several ground truths, fragmentation curves of horizontal and optimal cuts, Dasgupta's cost and tree sampling divergence equal the values given by their definitions by direct enumeration of pairs of leaves, edges or cuts, for every hierarchy and ground truth (non-negative labels, except for dendrogram purity). Scores stay within their documented ranges and do not depend on how regions are numbered.",
 ["inputs"], "every hierarchy, weighted graph and set of ground-truth partitions",
 "Tests check one example per measure; enumeration over random instances is what exposes aggregation errors.",
 [I+"assessment/dendrogram_purity.hpp", I+"assessment/py_dendrogram_purity.hpp", I+"assessment/partition.hpp", I+"assessment/fragmentation_curve.hpp", "higra/assessment"],
 [("bottom-up histograms on the tree", I+"assessment/fragmentation_curve.hpp")],
 observe=["hg.dendrogram_purity", "hg.assess_partition", "hg.assess_fragmentation_*", "hg.dasgupta_cost", "hg.tree_sampling_divergence"])

prop("P20", "Hierarchy alignment and fusion respect the input hierarchies",
 "Aligning a hierarchy on a fine partition or graph yields saliency values that are exactly those of the input hierarchy seen through the largest-overlap projection of the fine regions, for every way of describing fine and coarse levels. Fusing trees through their depth maps keeps every input's inclusion order: the fused depth of a vertex is the length of the longest strictly increasing chain of non-leaf shapes containing it (trees without inner nodes of a single leaf; shapes are sets of leaves), whatever the order of the trees, and fusing a tree with itself changes nothing.",
 ["inputs"], "every fine segmentation, coarse hierarchy pair and every tuple of trees over the same leaves",
 "Tests align one example and fuse two fixed trees.",
 [I+"algo/alignment.hpp", I+"algo/tree_fusion.hpp", "higra/algo/alignment.py", "higra/algo/tree_fusion.py", "higra/algo/py_alignement.cpp", "higra/algo/py_tree_fusion.cpp"],
 [("largest-overlap projection", I+"algo/alignment.hpp"), ("graph of shapes", I+"algo/tree_fusion.hpp")],
 observe=["hg.align_hierarchies", "hg.HierarchyAligner", "hg.tree_fusion_depth_map"])

prop("P21", "Bipartite matchings are of maximum size and of minimum total weight",
 "The bipartiteness test answers true exactly when the graph has no odd cycle and then returns a proper two-colouring. For every bipartite graph with integer weights, balanced or not, the matching returned is a set of edges covering no vertex twice, of the largest possible number of edges and, among those, of the smallest possible total weight (negative and tied weights included); non-bipartite graphs and weights too large for the algorithm are rejected.",
 ["inputs"], "every graph and weight array, balanced or not",
 "Tests use fixed small instances and a randomised feasibility test without an optimality oracle for general weights.",
 [I+"algo/bipartite_graph.hpp", I+"algo/details/csa.hpp", "higra/algo/bipartite_graph.py", "higra/algo/py_bipartite_graph.cpp"],
 [("cost scaling assignment", I+"algo/details/csa.hpp")],
 observe=["hg.is_bipartite_graph", "hg.bipartite_graph_matching"])

prop("P22", "Tree monotonic regression is increasing and optimal for its mode",
 "For every tree, finite altitudes and positive weights, the regressed altitudes never decrease from a node to its parent. In min and max modes they are the largest increasing minorant and the smallest increasing majorant respectively; in least-squares mode they minimise the weighted squared distance among all increasing altitudes.",
 ["inputs"], "every tree, altitude array, weight array and mode",
 "Tests check one tree per mode; optimality is over a continuum of competitors.",
 [I+"algo/tree_monotonic_regression.hpp", "higra/algo/tree_monotonic_regression.py", "higra/algo/py_tree_monotonic_regression.cpp"],
 [("pool adjacent violators on a tree with mergeable heaps", I+"algo/tree_monotonic_regression.hpp")],
 observe=["hg.tree_monotonic_regression"])

prop("P23", "Result caching and attribute lookup are transparent to the caller",
 "For every sequence of calls, calling a cached attribute function with given arguments returns the value that a fresh, uncached computation would return, whatever was computed, cached, cleared or garbage-collected before, as long as no argument or result was mutated in place and no object was linked to another one meanwhile. Recompute, no-cache, global on/off and clearing controls do what they say, cached results of one object never leak to another, and links between a hierarchy, its leaf graph, its region graph and its image shape are recovered exactly as established.",
 ["histories"], "every history of calls, argument lifetimes, object deletions and cache controls",
 "Tests make two or three calls in a row; wrong hits need argument swaps or object identity reuse across a longer history.",
 ["higra/data_cache.py", "higra/concept.py", "higra/hg_utils.py"],
 [("result table keyed by a hash of the arguments, stored with the first argument", "higra/data_cache.py: auto_cache"), ("implicit argument resolution", "higra/data_cache.py: argument_helper; higra/concept.py")],
 [("per-object attribute dictionary", "cached results and concept links", "higra/data_cache.py")],
 ["every hg.attribute_* function", "hg.set_auto_cache_state", "hg.clear_auto_cache"])

prop("P24", "Saving, restoring and converting objects loses nothing",
 "Writing then reading a tree with its attributes, or a weighted graph in Pink format, gives back the same structure, values and names; provided tree attributes are exactly representable as double and names are non-empty without line breaks; pickling or copying graphs, trees (with their category, attributes and links), grid graphs and preprocessed ancestor structures gives an equivalent object. Conversion of graphs (without parallel edges, weights other than the non-edge value) to sparse adjacency matrices and of binary hierarchies to SciPy linkage matrices and back is lossless up to the documented renumbering. Graphs made from a set of points (complete, k nearest neighbours with either symmetrisation, joined with a minimum spanning tree) have exactly the documented edges, each weighted by the Euclidean distance of its ends, also for repeated points and integer coordinates.",
 ["inputs", "histories"], "every tree, attribute set, graph (also after edits) and weight array",
 "Tests round-trip one object of each kind, with float attributes only and no edited graphs.",
 [I+"io/tree_io.hpp", I+"io/pink_graph_io.hpp", "higra/io_utils", "higra/interop", "higra/structure/tree_graph.py", "higra/structure/undirected_graph.py", "higra/structure/regular_graph.py", "higra/structure/lca_fast.py"],
 [("binary/text codecs and reduce hooks", "higra/io_utils/tree_io.py; higra/structure/*.py")],
 observe=["hg.save_tree", "hg.read_tree", "hg.save_graph_pink", "hg.read_graph_pink", "pickle", "hg.*scipy*", "hg.adjacency_matrix_2_undirected_graph"])

prop("P25", "Image contours and boundary hierarchies describe the cut they come from",
 "For every 2d 4-adjacency cut, the contours extracted from it contain each cut edge exactly once, consecutive elements are neighbours, end points are the junctions or borders, and subdividing them only splits polylines where the documented criterion demands, without losing elements. Oriented watersheds and mean-boundary hierarchies built on them are hierarchies over the watershed basins of the given non-negative gradient, with saliencies constant along region boundaries and equal to the mean boundary strength at the merge. The triangular filter and the gradient orientation estimated from it follow their documented formulas.",
 ["inputs"], "every 2d shape, cut, gradient and orientation map",
 "Tests use one hand-drawn cut and one gradient.",
 [I+"image/contour_2d.hpp", I+"image/hierarchy_mean_pb.hpp", "higra/image/contour_2d.py", "higra/image/hierarchy_mean_pb.py", "higra/image/py_contour_2d.cpp", "higra/image/py_hierarchy_mean_pb.cpp", "higra/image/image_utils.py"],
 [("contour tracing on the Khalimsky grid", I+"image/contour_2d.hpp")],
 observe=["hg.fit_contour_2d", "hg.mean_pb_hierarchy", "hg.oriented_watershed", "hg.accumulate_on_contours"])

prop("P26", "Sorting functions return ordered permutations and honour stability",
 "For every array (without NaN) of every supported type, size, memory layout and 1 or 2 dimensions, sorting returns the non-decreasing (lexicographic for rows) rearrangement of its input and arg-sorting returns a permutation of the indices that realises it. With the stable option, equal elements keep their original relative order.",
 ["inputs"], "every array (ties, negative values, extreme values, rows)",
 "Tests sort arrays of a few elements, too short for the large-array paths of the sort and for instability to show.",
 [I+"sorting.hpp", "higra/sorting.py", "higra/py_sorting.cpp"],
 [("comparator-based index sort", I+"sorting.hpp")],
 observe=["hg.sort", "hg.arg_sort"])

prop("P27", "No public call corrupts memory, whatever its arguments or history",
 "Every call of the public interface, with valid or malformed arguments (wrong sizes, wrong dimensions, out-of-range or negative indices, empty input, invalid trees), either returns or raises an exception: it never reads or writes outside an object, uses freed memory or executes undefined behaviour. Objects, views and iterators obtained from the library remain safe to use after the caller released their source object, and arrays after it was edited (iterating over a graph while editing it is not covered).",
 ["inputs", "histories"], "every public function, argument tuple and object lifetime",
 "Tests run without sanitizers on valid arguments; silent out-of-bounds accesses and use-after-free pass them.",
 ["include/higra", "higra"],
 [("argument assertions", I+"utils.hpp"), ("keep-alive policies of the bindings", "higra/structure/py_common_graph.hpp")],
 observe=["sanitizer reports over the whole Python interface"])

prop("P28", "Multi-threaded execution is race free and gives the sequential result",
 "When the library is compiled with multi-threading, every parallelised operation (sorting, ancestor preprocessing and queries, edge weighting) gives, for every number of threads and every schedule, the result of the sequential build, without data races.",
 ["schedules", "configurations"], "every schedule and thread count of the parallel loops and sorts",
 "The test suite is built without threads: no schedule at all is explored.",
 [I+"utils.hpp", I+"sorting.hpp", I+"structure/details/range_minimum_query.hpp", I+"structure/lca_fast.hpp", I+"algo/graph_weights.hpp", "lib/include/tbb-ssort"],
 [("parallel loop over independent indices", I+"utils.hpp: parfor"), ("parallel stable sort", "lib/include/tbb-ssort")],
 observe=["C++ harness built with HG_USE_TBB"])

prop("P29", "Results depend only on argument values, and arguments are left untouched",
 "For every function taking arrays, the result is the same whether an array is contiguous, strided, transposed, read-only or a copy, whether a graph is explicit or implicit, and is the same on every call; functions which only compare values give the same result for every numeric type holding these values, and the others for both floating point types up to rounding. No function modifies its input arrays, graphs or trees, nor the attributes already attached to them (except functions meant to edit their argument, such as the in-place sort), and no result changes because of later calls.",
 ["inputs", "configurations"], "every function, memory layout, numeric type and repetition",
 "Tests always pass freshly built contiguous arrays of one type and do not compare inputs before and after.",
 ["higra", "include/higra"],
 [("conversion of numpy arrays in the bindings", "higra/py_common.hpp"), ("type promotion helpers", "higra/hg_utils.py")],
 observe=["every array-taking function of the Python interface"])

prop("P30", "Constrained connectivity hierarchies keep exactly the admissible components",
 "For every connected graph with non-negative weights, the inner nodes of the alpha-omega (strong connection) constrained connectivity hierarchy are exactly the connected components of the thresholds of the edge weights whose range of vertex values (largest inner edge weight) is smaller than the level at which the component merges with another one; the altitude of such a node is the smallest level at which it is both connected and within the constraint. The root is always kept, at its connection level, and leaves have altitude 0. Randomly generated hierarchies are binary trees with the requested number of leaves, perfectly balanced at asymmetry 0 and unbalanced at 1, with the regular altitudes, linked to a minimum spanning tree whose saliency is their altitudes, and determined by the state of Python's generator.",
 ["inputs"], "every connected graph (no self loop for strong connection), weights, level and random generator state",
 "Tests check one 1d example per constraint.",
 ["higra/hierarchy/constrained_connectivity_hierarchy.py", "higra/hierarchy/random_hierarchy.py"],
 [("quasi-flat zone hierarchy filtered by region range", "higra/hierarchy/constrained_connectivity_hierarchy.py")],
 observe=["hg.constrained_connectivity_hierarchy_*", "hg.random_binary_partition_tree"])

prop("P31", "C++ containers, iterators and image files keep their abstract contract",
 "For every history of operations: the C++ Fibonacci heap behaves as a multiset with handles (top is always a smallest element; push, pop, erase, increase, decrease, update, merge, clear and moves have their documented effect, for any value type with an order); the union-find behaves as a partition; undirected graphs with list or hash storage keep vertices, edges, degrees, out edges, in edges and adjacent vertices consistent through additions, removals, replacements, copies and moves; grid graphs enumerate exactly the in-domain neighbours in the order of the neighbourhood; tree iterators (leaves to root, root to leaves, children, ancestors, edges, adjacency) enumerate exactly what the parent array defines; ancestor tables stay exact through copies, moves and saved states, whatever happens to the original; integer ranges equal Python's range; and a PNM image saved then read back, or read from a valid file with comments, gives the same pixels, while truncated data is rejected.",
 ["inputs", "histories"], "every history of operations, value type, storage, and image content",
 "Tests play one short history per structure and never copy, move or destroy an original before using its copy.",
 [I+"structure/fibonacci_heap.hpp", I+"structure/unionfind.hpp", I+"structure/undirected_graph.hpp", I+"structure/regular_graph.hpp", I+"structure/tree_graph.hpp", I+"structure/lca_fast.hpp", I+"structure/details", I+"io/pnm_io.hpp", I+"sorting.hpp"],
 [("pooled nodes linked in circular lists", I+"structure/fibonacci_heap.hpp"), ("iterator facades", I+"structure/details/iterators.hpp")],
 observe=["hg::fibonacci_heap", "hg::union_find", "hg::undirected_graph", "hg::regular_graph", "hg::tree", "hg::lca_fast", "hg::irange", "hg::read_image_pnm", "hg::save_image_pnm"])

prop("P32", "Utility conversions and drawings describe exactly what they are given",
 "For every pair of arrays, the bijection test tells whether their values correspond one to one. The common type of any list of arrays does not depend on their order, is the smallest type holding every value of their types (64-bit integers may be rounded when mixed with real numbers, and mixed signed and unsigned 64-bit integers share the signed type), and casting to it keeps every value and returns the arrays already of that type as they are. The average of two angles modulo pi is at the same angular distance, half of theirs, from both. The text drawing of a partition tree shows each leaf once, in its own line, the leaves of every node being consecutive with children in the requested order (leaves in index order when requested), and each inner value once; a plotted graph has exactly one segment per edge and one point per vertex, coloured by label; a plotted tree has the merges of the tree at its altitudes, with exactly the requested number of clusters coloured. None of them modifies its arguments.",
 ["inputs"], "every array, tree, graph and option accepted by these functions",
 "Tests print one tree without looking at the text, never plot, and try a dozen type combinations out of the hundreds of thousands.",
 ["higra/hg_utils.py", "higra/io_utils/tree_io.py", "higra/plot"],
 [("table of common types", "higra/hg_utils.py"), ("drawing of partition trees", "higra/io_utils/tree_io.py")],
 observe=["higra.is_in_bijection", "higra.common_type", "higra.cast_to_common_type", "higra.mean_angle_mod_pi", "higra.print_partition_tree", "higra.plot_graph", "higra.plot_partition_tree"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
