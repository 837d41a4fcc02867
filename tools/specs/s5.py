SEEDS=[
dict(id="p29-filter-in-place", property="P29", file="higra/algo/tree.py",
old="    mst_edge_weights = altitudes[tree.num_leaves():].copy()", new="    mst_edge_weights = altitudes[tree.num_leaves():]",
needs="a binary tree given by the caller to filter_non_relevant_node_from_tree (or filter_small_nodes_from_tree, ...) and whose altitudes are used again afterwards",
breaks="the altitudes given by the caller are modified",
demo='''
import higra as hg, numpy as np
rng = np.random.default_rng(0)
g = hg.get_4_adjacency_graph((6, 6))
w = rng.random(g.num_edges())
t, a = hg.bpt_canonical(g, w)
b = a.copy()
hg.filter_small_nodes_from_tree(t, a, 3)
assert np.array_equal(a, b)
'''),
dict(id="p03-clear-keeps-children", property="P03", file="include/higra/structure/tree_graph.hpp",
old="                _children.clear();\n", new="",
needs="the children are computed, cleared and computed again on the same tree",
breaks="each child is listed twice",
demo='''
import higra as hg, numpy as np
t = hg.Tree((5, 5, 6, 6, 6, 7, 7, 7))
for i in range(2):
    assert list(t.children(6)) == [2, 3, 4] and t.num_children(7) == 2, t.children(6)
    t.clear_children()
'''),
dict(id="p19-unused-labels", property="P19", file="include/higra/assessment/fragmentation_curve.hpp",
old="        size_t num_regions_ground_truth = xt::count_nonzero(xt::view(card_intersection, root(tree), xt::all()))();;",
new="        size_t num_regions_ground_truth = card_intersection.shape()[1];",
needs="a ground truth whose labels are not contiguous, e.g. which start at 1",
breaks="the number of regions of the ground truth (and the normalized numbers of regions) is wrong",
demo='''
import higra as hg, numpy as np
g = hg.get_4_adjacency_graph((3, 4))
t, a = hg.bpt_canonical(g, np.arange(g.num_edges()).astype(float))
gt = np.array((1, 1, 4, 4, 1, 1, 4, 4, 1, 1, 4, 4))
c = hg.assess_fragmentation_horizontal_cut(t, a, gt, hg.PartitionMeasure.BCE)
assert c.num_regions_ground_truth() == 2, c.num_regions_ground_truth()
'''),
dict(id="p24-name-with-equal-sign", property="P24", file="include/higra/io/tree_io.hpp",
old="""                std::size_t pos = tmp.find('=');
                std::string value;""", new="""                std::size_t pos = tmp.rfind('=');
                std::string value;""",
needs="an attribute whose name contains an equal sign",
breaks="the file written cannot be read again",
demo='''
import higra as hg, numpy as np, tempfile, os
t = hg.Tree((5, 5, 6, 6, 6, 7, 7, 7))
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "t")
    hg.save_tree(f, t, {"area (k=2)": np.arange(8.)})
    t2, m = hg.read_tree(f)
assert list(m) == ["area (k=2)"] and np.array_equal(m["area (k=2)"], np.arange(8.)), m
'''),
dict(id="p25-closed-contour", property="P25", file="include/higra/image/contour_2d.hpp",
old="                    return std::sqrt((v[0] - p[0]) * (v[0] - p[0]) + (v[1] - p[1]) * (v[1] - p[1]));;   // v == w case",
new="                    return std::abs(v[0] - p[0]) - std::abs(v[1] - p[1]);   // v == w case",
needs="a closed contour (both extremities are the same point) with a farthest point along the second axis",
breaks="closed contours are not subdivided where they are the farthest from their extremity",
demo='''
import higra as hg, numpy as np
for h, w in ((3, 12), (12, 3), (5, 20)):
    im = np.zeros((h + 4, w + 4), dtype=np.int64)
    im[2:2 + h, 2:2 + w] = 1
    g = hg.get_4_adjacency_graph(im.shape)
    cut = hg.labelisation_2_graph_cut(g, im)
    c = hg.fit_contour_2d(g, im.shape, cut)
    c.subdivide(2.0, False, 1)
    # all points are within the tolerance of the segment they belong to
    for p in c:
        for s in p:
            pts = np.array([e[1] for e in s], dtype=float)
            a, b = pts[0], pts[-1]
            l = np.hypot(*(b - a))
            if l == 0:
                d = np.hypot(*(pts - a).T)
            else:
                d = np.abs((b[0] - a[0]) * pts[:, 1] - (b[1] - a[1]) * pts[:, 0] + b[1] * a[0] - b[0] * a[1]) / l
            assert d.max() <= 2.0 + 1e-6, (h, w, d.max())
'''),
dict(id="p18-zero-length-pieces", property="P18", file="include/higra/algo/tree_energy_optimization.hpp",
old="""                        if (piece1.origin_x() == piece2.origin_x()) {
                            i2--;
                        }
                        i1--;""", new="""                        i1--;""",
needs="two energies with a common break point, and enough break points to reach the maximal number of pieces when the common ones are counted twice",
breaks="the approximated energy is truncated too early: the hierarchy is not optimal although all the pieces fit",
demo='''
import higra as hg, numpy as np
rng = np.random.default_rng(0)
for it in range(300):
    n = int(rng.integers(6, 14))
    par = np.zeros(2 * n - 1, dtype=np.int64)
    act = list(range(n))
    for i in range(n, 2 * n - 1):
        for _ in range(2):
            par[act.pop(int(rng.integers(len(act))))] = i
        act.append(i)
    par[-1] = 2 * n - 2
    t = hg.Tree(par)
    R = hg.accumulate_sequential(t, np.ones(n), hg.Accumulators.sum)
    R = 1.0 + (R > 1)
    D = np.zeros(2 * n - 1)
    for i in range(n, 2 * n - 1):
        D[i] = D[t.children(i)].sum() + int(rng.integers(0, 5))
    t1, a1 = hg.hierarchy_to_optimal_energy_cut_hierarchy(t, D, R, 7)
    t2, a2 = hg.hierarchy_to_optimal_energy_cut_hierarchy(t, D, R, 100)
    if len(np.unique(a2)) <= 6:
        assert np.array_equal(t1.parents(), t2.parents()) and np.allclose(a1, a2), (par, D, R)
'''),
dict(id="p05-root-condition", property="P05", file="include/higra/accumulator/tree_accumulator.hpp",
old="""            if (condition(root(tree))){
                acc.set_storage(output_view);
                acc.initialize();
                acc.accumulate(input_view.begin());
                acc.finalize();
            } else {
                output_view = input_view;
            }
""", new="""            // no parent to accumulate
            output_view = input_view;
""",
needs="propagate_sequential_and_accumulate with a condition which holds at the root and an accumulator which is not the identity on a single value (counter)",
breaks="the value of the root, and of all the nodes which depend on it, is wrong",
demo='''
import higra as hg, numpy as np
t = hg.Tree((5, 5, 6, 6, 6, 7, 7, 7))
v = np.arange(8.) * 10
for f in (np.ones(8, dtype=bool), np.array((0, 1, 0, 1, 0, 1, 1, 1), dtype=bool)):
    r = hg.propagate_sequential_and_accumulate(t, v, hg.Accumulators.counter, f)
    assert np.array_equal(r, np.where(f, np.where(np.arange(8) == 7, 1, 2), v)), r
'''),
dict(id="p08-unstable-sort", property="P08", file="include/higra/algo/tree.hpp",
old="        array_1d<index_t> sorted = stable_arg_sort(altitudes);", new="        array_1d<index_t> sorted = arg_sort(altitudes);",
needs="more than 16 nodes with equal altitudes (a parent and its child, or leaves and inner nodes)",
breaks="the sorted nodes are not in a topological order: the tree is rejected or leaves are renumbered",
demo='''
import higra as hg, numpy as np
rng = np.random.default_rng(0)
for n in (5, 20, 60):
    g = hg.get_4_adjacency_graph((2, n))
    t, a = hg.quasi_flat_zone_hierarchy(g, rng.integers(1, 4, g.num_edges()))
    t, a = hg.bpt_canonical(g, rng.integers(0, 3, g.num_edges()))
    t2, a2, m = hg.sort_hierarchy_with_altitudes(t, a)
    assert np.array_equal(m, np.argsort(a, kind="stable"))
'''),
dict(id="p27-combine-unchecked", property="P27", file="include/higra/accumulator/tree_accumulator.hpp",
old="""                                                    combination_fun_t combine) {
            HG_TRACE();
            auto &input = xinput.derived_cast();
            hg_assert_node_weights(tree, input);

            auto &vertex_data = xvertex_data.derived_cast();
            hg_assert_leaf_weights(tree, vertex_data);
""", new="""                                                    combination_fun_t combine) {
            HG_TRACE();
            auto &input = xinput.derived_cast();
            hg_assert_node_weights(tree, input);

            auto &vertex_data = xvertex_data.derived_cast();
""",
needs="accumulate_and_..._sequential with fewer leaf data than the tree has leaves",
breaks="memory is read out of the bounds of the leaf data",
demo='''
import higra as hg, numpy as np
t = hg.Tree((5, 5, 6, 6, 6, 7, 7, 7))
try:
    hg.accumulate_and_add_sequential(t, np.ones(8), np.ones(2), hg.Accumulators.sum)
except RuntimeError:
    pass
else:
    raise AssertionError("leaf data of the wrong size accepted")
'''),
dict(id="p27-zero-removed-source", property="P01", file="include/higra/structure/undirected_graph.hpp",
old="""                add_to_container(out_edges[v1], ei);
                if (v1 != v2)
                    add_to_container(out_edges[v2], ei);
                edges[ei].source = v1;""", new="""                if (v1 != v2)
                    add_to_container(out_edges[v2], ei);
                add_to_container(out_edges[v1], ei);
                edges[ei].source = v1;""",
needs="x", breaks="x", demo="x"),
][:-1]
