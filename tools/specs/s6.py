SEEDS=[
dict(id="p02-safe-area-symmetric", property="P02", file="include/higra/structure/regular_graph.hpp",
old="                    m_safe_upper_bound(i) = (std::min)(m_embedding.shape()(i) - 1 - m_safe_upper_bound(i),\n",
new="                    m_safe_upper_bound(i) = (std::min)(m_embedding.shape()(i) - 1 - m_safe_lower_bound(i),\n",
needs="an implicit regular graph whose list of neighbours is not symmetric",
breaks="neighbours outside of the grid (or in another row) are returned near the border",
demo='''
import higra as hg, numpy as np
shape = (4, 5)
g = hg.RegularGraph2d(shape, ((0, 1), (1, 0), (1, 2)))
for v in range(20):
    y, x = divmod(v, 5)
    ref = [(y + a) * 5 + x + b for a, b in ((0, 1), (1, 0), (1, 2)) if y + a < 4 and x + b < 5]
    got = [e[1] for e in g.out_edges(v)]
    assert got == ref, (v, got, ref)
'''),
dict(id="p06-mean-before-promotion", property="P06", file="include/higra/algo/graph_weights.hpp",
old="""                            (static_cast<promoted_type>(vertex_weights(i)) +
                             static_cast<promoted_type>(vertex_weights(j))) /""",
new="""                            (static_cast<promoted_type>(vertex_weights(i) +
                                                        vertex_weights(j))) /""",
needs="32 or 64 bits integer vertex weights whose sum does not fit in their type",
breaks="the mean weight of the edge is wrong",
demo='''
import higra as hg, numpy as np
g = hg.UndirectedGraph(2)
g.add_edge(0, 1)
for t in (np.uint32, np.int32, np.uint64):
    m = np.iinfo(t).max
    w = hg.weight_graph(g, np.array((m, m - 2), dtype=t), hg.WeightFunction.mean)
    assert np.allclose(w, float(m)), (t, w)
'''),
dict(id="p09-altitudes-double", property="P09", file="include/higra/hierarchy/component_tree.hpp",
old="            std::vector<typename T2::value_type> altitudes(vertex_weights.begin(), vertex_weights.end());",
new="            std::vector<double> altitudes(vertex_weights.begin(), vertex_weights.end());",
needs="64 bits integer vertex weights larger than 2^53",
breaks="the altitudes of the nodes are rounded",
demo='''
import higra as hg, numpy as np
g = hg.UndirectedGraph(3)
g.add_edges((0, 1), (1, 2))
b = 2 ** 60
for f in (hg.component_tree_max_tree, hg.component_tree_min_tree):
    w = np.array((b + 1, b + 3, b + 2), dtype=np.int64)
    t, a = f(g, w)
    assert np.array_equal(a[:3], w) and set(a.tolist()) == set(w.tolist()), a - b
'''),
dict(id="p14-negative-cut", property="P14", file="include/higra/algo/rag.hpp",
old="                            if (edge_weights(index(e, graph)) == 0) {",
new="                            if (!(edge_weights(index(e, graph)) > 0)) {",
needs="a graph cut with a negative weight",
breaks="edges of the cut with a negative weight do not separate regions",
demo='''
import higra as hg, numpy as np
g = hg.get_4_adjacency_graph((1, 4))
r = hg.make_region_adjacency_graph_from_graph_cut(g, np.array((0., -1., 0.)))
assert r.num_vertices() == 2 and r.num_edges() == 1, (r.num_vertices(), r.num_edges())
'''),
dict(id="p17-height-min", property="P17", file="include/higra/attribute/tree_attribute.hpp",
old="                max_depth(n) = std::numeric_limits<value_type>::lowest();\n                bool flag = true;\n                for (auto c: children_iterator(n, tree)) {\n                    if (!is_leaf(c, tree)) {\n                        flag = false;\n                        if (max_depth(c) > max_depth(n)) {",
new="                max_depth(n) = (std::numeric_limits<value_type>::min)();\n                bool flag = true;\n                for (auto c: children_iterator(n, tree)) {\n                    if (!is_leaf(c, tree)) {\n                        flag = false;\n                        if (max_depth(c) > max_depth(n)) {",
needs="decreasing altitudes (a max tree) with negative floating point values",
breaks="the height (and the dynamics) of the nodes are computed as if there was a peak of altitude 0",
demo='''
import higra as hg, numpy as np
g = hg.UndirectedGraph(5)
g.add_edges((0, 1, 2, 3), (1, 2, 3, 4))
w = np.array((-9., -3., -8., -5., -7.))
t, a = hg.component_tree_max_tree(g, w)
h = hg.attribute_height(t, a)
assert h[t.root()] == -3. - -9., h
'''),
dict(id="p18-same-slope", property="P18", file="include/higra/algo/tree_energy_optimization.hpp",
old="                    auto y = linear_piece(last_piece.origin_x());\n                    if (y > last_piece.origin_y()) {",
new="                    auto y = linear_piece.origin_y();\n                    if (y > last_piece.origin_y()) {",
needs="a node whose regularization is the sum of the ones of its children, which have at least two optimal cuts",
breaks="nodes which never are part of an optimal cut appear in the hierarchy",
demo='''
import higra as hg, numpy as np
t = hg.Tree((4, 4, 5, 5, 6, 6, 6))
D = np.array((0., 0., 0., 0., 4., 4., 10.))
R = np.array((3., 3., 3., 3., 2., 2., 4.))
nt, a = hg.hierarchy_to_optimal_energy_cut_hierarchy(t, D, R)
# a single region costs 10 + 4 * l, two regions cost 8 + 4 * l: never a single region
for l in (0.5, 1.5, 5., 50.):
    lab = hg.labelisation_horizontal_cut_from_threshold(nt, a, l)
    k = len(np.unique(lab))
    E = {4: 12 * l, 2: 8 + 4 * l, 1: 10 + 4 * l}
    assert E[k] == min(E.values()), (l, k)
'''),
dict(id="p20-fusion-neighbour-trees", property="P20", file="include/higra/algo/tree_fusion.hpp",
old="                        if (i != j) {\n                            auto ses_ij_n = ses(i, j)(n);",
new="                        if (i == j + 1 || j == i + 1) {\n                            auto ses_ij_n = ses(i, j)(n);",
needs="the fusion of at least three trees",
breaks="the inclusions between the shapes of the first and the third trees are ignored",
demo='''
import higra as hg, numpy as np
t1 = hg.Tree((6, 6, 6, 6, 7, 7, 7, 7))
t2 = hg.Tree((6, 6, 6, 6, 6, 6, 6))
t3 = hg.Tree((6, 6, 7, 7, 7, 7, 7, 7))
a = np.asarray(hg.tree_fusion_depth_map((t1, t2, t3)))
b = np.asarray(hg.tree_fusion_depth_map((t1, t3, t2)))
c = np.asarray(hg.tree_fusion_depth_map((t1, t3)))
assert np.array_equal(a, b) and np.array_equal(a, c), (a, b, c)
'''),
dict(id="p25-single-row", property="P25", file="include/higra/image/contour_2d.hpp",
old="            vertex_perimeter(vertex_map(embedding.grid2lin({height - 1, x})))++;\n",
new="            if (height > 1) {\n                vertex_perimeter(vertex_map(embedding.grid2lin({height - 1, x})))++;\n            }\n",
needs="an image with a single row",
breaks="the lower side of the pixels is not counted in the perimeter of the regions",
demo='''
import higra as hg, numpy as np
g = hg.get_4_adjacency_graph((1, 6))
lab = np.array((0, 0, 1, 1, 1, 1))
rag = hg.make_region_adjacency_graph_from_labelisation(g, lab)
p, l = hg.rag_2d_vertex_perimeter_and_edge_length(rag)
assert np.allclose(p, (6, 10)) and np.allclose(l, (1,)), (p, l)
'''),
dict(id="p26-lexicographic-not-stable", property="P26", file="higra/sorting.py",
old="    if stable:\n        return hg.cpp._stable_arg_sort(array)",
new="    if stable and np.ndim(array) == 1:\n        return hg.cpp._stable_arg_sort(array)",
needs="a two dimensional array with equal rows, large enough for the sort not to be stable by chance",
breaks="equal rows are permuted by a stable sort",
demo='''
import higra as hg, numpy as np
rng = np.random.default_rng(3)
a = rng.integers(0, 3, (4000, 2))
assert np.array_equal(hg.arg_sort(a, stable=True), np.lexsort((a[:, 1], a[:, 0])))
'''),
dict(id="p32-angle-wrap", property="P32", file="higra/hg_utils.py",
old="    problems = differences > np.pi / 2\n",
new="    problems = max_angles - min_angles > np.pi / 2 + min_angles / 2\n",
needs="two angles, none of which is close to 0, with a difference slightly larger than a quarter turn",
breaks="the mean angle is perpendicular to the expected one",
demo='''
import higra as hg, numpy as np
a = np.array((0., 0.9, 0.4, 1.0, 0.2))
b = np.array((3., 2.6, 2.1, 2.9, 1.0))
m = hg.mean_angle_mod_pi(a, b)
z = np.angle(np.exp(2j * a) + np.exp(2j * b)) / 2 % np.pi
assert np.allclose(m, z), (m, z)
'''),
]
