SEEDS=[
dict(id="p08-kept-node-below", property="P08", file="include/higra/hierarchy/hierarchy_core.hpp",
old="flag = flag && removed_branch(cc) && criterion(cc);\n",
new="flag = flag && removed_branch(cc);\n",
needs="leaves are deleted, and a kept node without any kept leaf is the child of a node whose other children have no kept leaf",
breaks="the simplified tree is not the one of the kept nodes",
demo='''
import higra as hg, numpy as np
# 0 1 2 3 -> 4 = {0, 1}, 5 = {2, 3}, 6 = root
t = hg.Tree((4, 4, 5, 5, 6, 6, 6))
d = np.array((1, 1, 1, 1, 0, 0, 0), dtype=bool)
s, m = hg.simplify_tree(t, d, process_leaves=True)
assert sorted(m.tolist()) == [4, 5, 6] and s.num_leaves() == 2 and s.parents().tolist() == [2, 2, 2], (m, s.parents())
'''),
dict(id="p10-border-voxels", property="P10", file="include/higra/image/tree_of_shapes.hpp",
old="        xt::view(deleted, xt::range(border_size_d, d_plain_map - border_size_d, immersion_factor),\n",
new="        xt::view(deleted, xt::range(border_size_d, d_plain_map - border_size_d),\n",
needs="a 3d image, immersed in the Khalimsky space, whose tree is requested for the original voxels",
breaks="the tree has leaves which are not voxels of the image",
demo='''
import higra as hg, numpy as np
a = np.random.default_rng(1).integers(0, 4, (3, 2, 4)).astype(np.uint8)
t, alt = hg.component_tree_tree_of_shapes_image3d(a, hg.TreeOfShapesPadding.Zero, True, True)
assert t.num_leaves() == a.size and np.array_equal(hg.reconstruct_leaf_data(t, alt).ravel(), a.ravel())
'''),
dict(id="p10-outer-ring-faces", property="P10", file="include/higra/image/tree_of_shapes.hpp",
old="                    // top and bottom faces\n                    for (size_t z = 1; z < d - 1; z++) {\n                        for (size_t x = 1; x < w - 1; x++) {\n                            plain_map(z, 1, x, 0)",
new="                    // top and bottom faces\n                    for (size_t z = 2; z < d - 2; z++) {\n                        for (size_t x = 1; x < w - 1; x++) {\n                            plain_map(z, 1, x, 0)",
needs="a 2d or 3d image, with padding and immersion, whose tree depends on the interpolated faces next to the padding",
breaks="altitudes of nodes are arbitrary, the tree is not self dual",
demo='''
import higra as hg, numpy as np
rng = np.random.default_rng(1)
for k in range(30):
    a = rng.integers(40, 60, (3, 4, 3)).astype(np.uint8)
    t, alt = hg.component_tree_tree_of_shapes_image3d(a, hg.TreeOfShapesPadding.Mean, False, True)
    assert alt.min() >= a.min() and alt.max() <= a.max(), (k, alt.min(), alt.max())
'''),
dict(id="p13-leaf-attribute", property="P13", file="include/higra/hierarchy/watershed_hierarchy.hpp",
old="maxc = (std::max)(maxc, (is_leaf(c, tree)) ? 0 : result(c));",
new="maxc = (std::max)(maxc, (is_leaf(c, tree)) ? attribute(c) : result(c));",
needs="a flat zone of several pixels which is not a minimum, next to a minimum with a smaller extinction value",
breaks="basins which are not minima appear in the hierarchy",
demo='''
import higra as hg, numpy as np
g = hg.UndirectedGraph(8)
g.add_edges(np.arange(7), np.arange(1, 8))
w = np.array((0., 3., 3., 3., 3., 3., 1.))
t, a = hg.watershed_hierarchy_by_attribute(g, w, lambda tree, alt: hg.attribute_area(tree))
# two minima: a single edge is a contour
assert np.count_nonzero(hg.saliency(t, a)) == 1, hg.saliency(t, a)
'''),
dict(id="p23-sorted-mst-edges", property="P23", file="higra/concept.py",
old="            hg.CptMinimumSpanningTree.link(mst, leaf_graph, mst_edge_map)\n            hg.set_attribute(tree, \"mst\", mst)",
new="            hg.CptMinimumSpanningTree.link(mst, leaf_graph, mst_edge_map[mst_edge_map.argsort()])\n            hg.set_attribute(tree, \"mst\", mst)",
needs="a binary hierarchy computed without its minimum spanning tree, then asked for it",
breaks="the edges of the minimum spanning tree are linked to the wrong edges of the graph",
demo='''
import higra as hg, numpy as np
g = hg.get_4_adjacency_graph((3, 4))
w = np.random.default_rng(2).permutation(g.num_edges()).astype(np.float64)
t, a = hg.bpt_canonical(g, w, compute_mst=False)
mst = hg.CptBinaryHierarchy.get_mst(t)
m = hg.CptMinimumSpanningTree.construct(mst)["mst_edge_map"]
s, d = g.edge_list()
ms, md = mst.edge_list()
assert np.array_equal(s[m], ms) and np.array_equal(d[m], md)
'''),
dict(id="p30-single-precision", property="P30", file="higra/hierarchy/constrained_connectivity_hierarchy.py",
old="    max_edge_weights = np.zeros((tree.num_vertices(),), dtype=edge_weights.dtype)\n",
new="    max_edge_weights = np.zeros((tree.num_vertices(),), dtype=np.float32)\n",
needs="edge weights which are not single precision numbers",
breaks="components are removed, or get an altitude which is not a weight of the graph",
demo='''
import higra as hg, numpy as np
rng = np.random.default_rng(0)
g = hg.get_4_adjacency_graph((5, 5))
for k in range(20):
    w = rng.integers(1, 12, g.num_edges()) / 10
    t, a = hg.constrained_connectivity_hierarchy_strong_connection(g, w)
    assert set(a[t.num_leaves():].tolist()) <= set(w.tolist()), a
    t2, a2 = hg.constrained_connectivity_hierarchy_strong_connection(g, (w * 10).round())
    assert np.array_equal(t.parents(), t2.parents())
'''),
]
