SEEDS=[
dict(id="p22-stale-heap-key", property="P22", file="include/higra/algo/tree_monotonic_regression.hpp",
old="                if (root(tree) != i) {", new="                if (root(tree) != i && ic == i) {",
needs="mode least_square; a block whose representative is not its top node (union by rank picks the child block when it is the larger one), whose parent must still be merged with it",
breaks="the heap of the parent keeps the altitude the node had before it was merged: violators are missed, the result is not increasing or not optimal",
demo='''
import higra as hg, numpy as np
rng = np.random.default_rng(0)
for it in range(400):
    n = int(rng.integers(5, 30))
    par = np.zeros(2 * n - 1, dtype=np.int64)
    act = list(range(n))
    for i in range(n, 2 * n - 1):
        for _ in range(2):
            par[act.pop(int(rng.integers(len(act))))] = i
        act.append(i)
    par[-1] = 2 * n - 2
    t = hg.Tree(par)
    a = rng.integers(0, 10, 2 * n - 1).astype(float)
    w = rng.random(2 * n - 1) + 0.1
    r = hg.tree_monotonic_regression(t, a, "least_square", w)
    assert (r <= r[par] + 1e-9).all(), (par, a, w, r)
    # each block has the mean of its values
    for v in np.unique(np.round(r, 9)):
        k = np.abs(r - v) < 1e-8
        assert abs((a[k] * w[k]).sum() / w[k].sum() - v) < 1e-6, (par, a, w, r)
'''),
dict(id="p26-unstable-when-long", property="P26", file="include/higra/sorting.hpp",
old="        std::stable_sort(xs, xe, comp);", new="        std::sort(xs, xe, comp);",
needs="a stable sort of more than 16 elements with ties (shorter arrays are sorted by insertion, which is stable)",
breaks="equal elements are not kept in their original order",
demo='''
import higra as hg, numpy as np
rng = np.random.default_rng(0)
for n in (5, 16, 17, 40, 100, 1000):
    for it in range(20):
        a = rng.integers(0, 4, n)
        assert np.array_equal(hg.arg_sort(a, stable=True), np.argsort(a, kind="stable")), n
'''),
dict(id="p14-inner-cut-edge", property="P14", file="include/higra/algo/rag.hpp",
old="                                if (vertex_map[adjv] != invalid_index && vertex_map[adjv] != num_regions) {",
new="                                if (vertex_map[adjv] != invalid_index) {",
needs="a graph cut with an edge of the cut whose two vertices are in the same region (connected by another path)",
breaks="the region adjacency graph has loops, and edges inside of a region are mapped to an edge",
demo='''
import higra as hg, numpy as np
g = hg.get_4_adjacency_graph((2, 2))
w = np.array((1, 0, 0, 0))
rag = hg.make_region_adjacency_graph_from_graph_cut(g, w)
assert rag.num_vertices() == 1 and rag.num_edges() == 0, (rag.num_vertices(), rag.num_edges())
assert (hg.CptRegionAdjacencyGraph.construct(rag)["edge_map"] == -1).all()
'''),
dict(id="p16-mean-overflow", property="P16", file="higra/attribute/tree_attributes.py",
old="        vertex_weights.astype(np.float64),\n        hg.Accumulators.sum) / area", new="        vertex_weights,\n        hg.Accumulators.sum) / area",
needs="integer vertex weights (8 or 16 bits) whose sum in a region is larger than the largest value of their type",
breaks="sums wrap around: the mean weight of large regions is wrong",
demo='''
import higra as hg, numpy as np
rng = np.random.default_rng(0)
im = rng.integers(0, 256, (20, 20)).astype(np.uint8)
g = hg.get_4_adjacency_graph(im.shape)
t, a = hg.quasi_flat_zone_hierarchy(g, hg.weight_graph(g, im.astype(float), hg.WeightFunction.L1))
m = hg.attribute_mean_vertex_weights(t, im)
assert abs(m[-1] - im.mean()) < 1e-6, (m[-1], im.mean())
'''),
dict(id="p21-link-stale-class", property="P21", file="include/higra/algo/bipartite_graph.hpp",
old="                cs = uf.link(uf.find(map[t]), cs);", new="                cs = uf.link(map[t], cs);",
needs="edge list version of the bipartite test; several components merged so that the class recorded for a vertex is no longer canonical",
breaks="classes are torn apart: a graph with an odd cycle is accepted, or the colouring is not valid",
demo='''
import higra as hg, numpy as np
rng = np.random.default_rng(0)
for it in range(4000):
    n = int(rng.integers(4, 14))
    m = int(rng.integers(2, 24))
    if it % 2:
        c = rng.integers(0, 2, n)
    s = rng.integers(0, n, m); t = rng.integers(0, n, m)
    k = c[s] != c[t] if it % 2 else s != t
    s, t = s[k], t[k]
    ok, col = hg.is_bipartite_graph((s, t, n))
    # reference
    ref = [-1] * n; want = True
    adj = [[] for _ in range(n)]
    for a, b in zip(s, t):
        adj[a].append(b); adj[b].append(a)
    for v in range(n):
        if ref[v] < 0:
            ref[v] = 0; st = [v]
            while st:
                x = st.pop()
                for y in adj[x]:
                    if ref[y] < 0:
                        ref[y] = 1 - ref[x]; st.append(y)
                    elif ref[y] == ref[x]:
                        want = False
    assert bool(ok) == want, (s, t)
    if want and len(s):
        col = np.asarray(col)
        assert (col[s] != col[t]).all(), (s, t, col)
'''),
dict(id="p10-upper-face-lower-bound", property="P10", file="include/higra/image/tree_of_shapes.hpp",
old="                        plain_map3d(z, y, x, 1) = std::max(plain_map3d(z - 1, y, x, 1), plain_map3d(z + 1, y, x, 1));",
new="                        plain_map3d(z, y, x, 1) = std::max(plain_map3d(z - 1, y, x, 1), plain_map3d(z + 1, y, x, 0));",
needs="a 3d image whose values increase along the first axis next to faces with a non trivial interval (2d images and the faces between equal planes are not concerned)",
breaks="the interval of the faces between two planes is too small: shapes are not connected as they should, the tree of the negated image differs",
demo='''
import higra as hg, numpy as np
rng = np.random.default_rng(0)

def regions(t, a):
    s = [frozenset([i]) if i < t.num_leaves() else frozenset() for i in range(t.num_vertices())]
    p = t.parents()
    for i in range(t.num_vertices() - 1):
        s[p[i]] |= s[i]
    return {(s[i], float(a[i])) for i in range(t.num_leaves(), t.num_vertices())}

for it in range(150):
    sh = tuple(int(x) for x in rng.integers(2, 4, 3))
    im = rng.integers(0, 4, sh).astype(np.float64)
    t1, a1 = hg.component_tree_tree_of_shapes_image3d(im, padding="zero", original_size=True, immersion=True)
    t2, a2 = hg.component_tree_tree_of_shapes_image3d(-im, padding="zero", original_size=True, immersion=True)
    r1 = regions(t1, a1)
    r2 = {(x, -y) for x, y in regions(t2, a2)}
    assert r1 == r2, (im.tolist())
'''),
dict(id="p23-clear-first-only", property="P23", file="higra/data_cache.py",
old="""                if function_name in cache:
                    del cache[function_name]

    else:""", new="""                if function_name in cache:
                    return cache.pop(function_name)

    else:""",
needs="clear_auto_cache with a function and no reference object, while at least two objects have cached results of this function",
breaks="the results of the other objects are not cleared: stale results are returned",
demo='''
import higra as hg

@hg.auto_cache
def fun(o):
    return o.v

class O:
    pass

l = [O(), O(), O()]
for o in l:
    o.v = 1
    assert fun(o) == 1
for o in l:
    o.v = 2
hg.clear_auto_cache(function=fun)
assert [fun(o) for o in l] == [2, 2, 2], [fun(o) for o in l]
'''),
]
