SEEDS=[
dict(id="p12-stream-keeps-plateau", property="P12", file="include/higra/algo/watershed.hpp",
old="""                            LL.clear();
                            LL.push_back(adjacent_vertex);""",
new="""                            LL.push_back(adjacent_vertex);""",
needs="a plateau of at least three vertices explored from a vertex with two plateau neighbours, one leading down to a minimum not labelled yet and the other next to a vertex already labelled",
breaks="after reaching a new minimum the stream goes on from the higher plateau and takes the label of another minimum: two minima get one label",
demo='''
import higra as hg, numpy as np
rng = np.random.default_rng(0)
def minima(n, s, t, w):
    seen = [False] * len(w); k = 0
    for e in range(len(w)):
        if seen[e]: continue
        seen[e] = True; st = [e]; ok = True
        while st:
            f = st.pop()
            for h in range(len(w)):
                if {s[f], t[f]} & {s[h], t[h]}:
                    if w[h] < w[f]: ok = False
                    elif w[h] == w[f] and not seen[h]:
                        seen[h] = True; st.append(h)
        k += ok
    return k
for it in range(1500):
    g = hg.get_4_adjacency_graph((int(rng.integers(2, 5)), int(rng.integers(2, 6))))
    s, t = [x.tolist() for x in g.edge_list()]
    w = rng.integers(0, 4, len(s))
    lab = hg.labelisation_watershed(g, w)
    assert lab.max() == minima(g.num_vertices(), s, t, w.tolist()), (w, lab)
'''),
dict(id="p13-plateau-last-child", property="P13", file="include/higra/hierarchy/watershed_hierarchy.hpp",
old="                        maxc = (std::max)(maxc, (is_leaf(c, tree)) ? 0 : result(c));",
new="                        maxc = (std::max)(static_cast<value_type>(0), (is_leaf(c, tree)) ? maxc : result(c));",
needs="at least three minima meeting on one plateau level, where the zone merged second is less important than the one merged first",
breaks="on a plateau the importance of the merged zones is the one of the last zone, not of the largest one: regions survive in the wrong order",
demo='''
import higra as hg, numpy as np
# three basins (areas 3, 4, 2) separated by two edges of weight 5, and one more basin of 4 behind weight 5
g = hg.UndirectedGraph(13)
w = []
def e(a, b, x):
    g.add_edge(a, b); w.append(x)
sizes = (3, 4, 2, 4)
first = []
k = 0
for z in sizes:
    first.append(k)
    for i in range(k, k + z - 1):
        e(i, i + 1, 0)
    k += z
for a, b in ((0, 1), (1, 2), (2, 3)):
    e(first[a], first[b], 5)
rng = np.random.default_rng(1)
for it in range(300):
    n = int(rng.integers(4, 14))
    gg = hg.get_4_adjacency_graph((1, n))
    ww = rng.integers(0, 3, n - 1)
    t, a = hg.watershed_hierarchy_by_area(gg, ww)
    # number of regions at level x = number of minimal quasi flat zones of area > x
    q, qa = hg.quasi_flat_zone_hierarchy(gg, ww)
    ar = hg.attribute_area(q)
    for x in np.unique(a):
        big = [i for i in range(q.num_leaves(), q.num_vertices()) if ar[i] > x]
        ker = [i for i in big if not any(c in big for c in q.children(i))]
        c = hg.HorizontalCutExplorer(t, a).horizontal_cut_from_altitude(x)
        assert len(c.nodes()) == max(1, len(ker)), (ww, x, a, t.parents())
'''),
dict(id="p15-marker-on-both", property="P15", file="include/higra/algo/tree.hpp",
old="""            if (static_cast<bool>(background_marker(i))) {
                attr(i) = 1;
            } else if (static_cast<bool>(object_marker(i))) {
                attr(i) = 2;
            }""",
new="""            if (static_cast<bool>(object_marker(i))) {
                attr(i) = 2;
            } else if (static_cast<bool>(background_marker(i))) {
                attr(i) = 1;
            }""",
needs="a leaf marked both as object and as background",
breaks="regions that meet the background marker are labelled as object",
demo='''
import higra as hg, numpy as np
t = hg.Tree((5, 5, 6, 6, 6, 7, 7, 7))
o = np.array((1, 0, 1, 0, 0), np.uint8)
b = np.array((1, 0, 0, 0, 0), np.uint8)
r = hg.binary_labelisation_from_markers(t, o, b)
assert r.tolist() == [0, 0, 1, 1, 1], r
'''),
]
