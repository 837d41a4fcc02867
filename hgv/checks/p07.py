"""P07: canonical trees, minimum spanning trees, quasi-flat zones, saliency maps."""
import numpy as np
import higra as hg
from hgv import gen, order
from hgv.core import family
from hgv.oracles import kruskal, stable_order, minimax, level_components, hierarchy

UNITS = ["hierarchy_core", "graph_core", "tree_attributes", "tree_accumulators", "sorting", "rag"]
RULE = ("random connected multigraphs and grids (ties, negative, infinite, integer of all types, real, vectorial weights, explicit edge orders, graphs "
        "given as edge lists, minimum spanning trees as graphs) processed by bpt_canonical, minimum_spanning_tree, quasi_flat_zone_hierarchy, "
        "saliency, ultrametric_open; compared with a naive Kruskal, with the components of every threshold and with minimax path weights; "
        "non-connected graphs must be rejected. Non-trivial: at least two vertices. Family limits: the same ranks are given as small integers and as extreme or neighbouring values of every type (infinities, subnormals, largest integers): results must correspond.")
ASSUMPTIONS = ["weights are not NaN", "up to 20 vertices for the component oracle, up to 4000 vertices for the Kruskal oracle"]


def instance(c, vec=False, maxn=18, types=None):
    kind = c.choice(["graph", "graph", "grid"])
    if kind == "grid":
        sh = (c.ri(1, 4), c.ri(1, 5))
        g = c.choice([hg.get_4_adjacency_graph, hg.get_8_adjacency_graph])(sh)
        n = g.num_vertices()
        s, t = [x.copy() for x in g.edge_list()]
    else:
        n, s, t = gen.graph(c, maxn=maxn)
        g = gen.make_graph(hg, n, s, t)
    dt = gen.dtype(c, types)
    if vec and len(s):
        w = gen.values(c, (len(s),) + c.choice([(1,), (2,), (3,), (2, 2)]), dt, style=c.choice(["few", "ties", "real"]))
    else:
        w = gen.values(c, len(s), dt)
        if len(w) and c.p(0.15):
            w[c.ri(0, len(w) - 1)] = np.inf if dt.kind == "f" else np.iinfo(dt).max
            if dt.kind != "u" and c.p(0.5):
                w[c.ri(0, len(w) - 1)] = -np.inf if dt.kind == "f" else np.iinfo(dt).min
    c.inp(n=n, sources=s, targets=t, weights=w, kind=kind)
    c.note(n, s, t, w, nontrivial=n > 1)
    c.ev("vertices", n)
    c.ev("edges", len(s))
    return n, s, t, g, w


def canonical(c, n, s, t, w, order, tree, alt, key="bpt"):
    par, edges = kruskal(n, s.tolist(), t.tolist(), order)
    c.ck(par is not None, "harness-connected")
    c.eq(tree.parents(), par, key + "-parents")
    c.eq(tree.mst_edge_map, edges, key + "-mst_edge_map")
    if alt is not None:
        want = np.zeros((2 * n - 1,) + w.shape[1:], w.dtype)
        want[n:] = w[np.array(edges, int)]
        c.eq(alt, want, key + "-altitudes")
        c.ck(alt.dtype == w.dtype, key + "-altitudes-dtype", str(alt.dtype))
    return edges


@family("canonical", quick=2500)
def canon(c):
    n, s, t, g, w = instance(c, vec=c.p(0.25))
    mode = c.choice(["weights", "weights", "order", "tuple", "both", "noalt", "nomst"])
    c.inp(mode=mode)
    c.ev("mode_" + mode)
    order = stable_order(w)
    ww = gen.layout(c, w) if len(w) > 1 else w
    if mode == "order":
        order = c.rng.permutation(len(s)).tolist()
        tree, alt = hg.bpt_canonical(g, sorted_edge_indices=np.array(order, np.int64))
        w = np.empty(len(s), np.int64)
        w[order] = np.arange(len(s))
    elif mode == "both":
        order = c.rng.permutation(len(s)).tolist()
        tree, alt = hg.bpt_canonical(g, ww, np.array(order, c.choice([np.int64, np.int32])))
    elif mode == "tuple":
        it = c.choice([np.int64, np.int32, np.uint16])
        tree, alt = hg.bpt_canonical((s.astype(it), t.astype(it), n), ww)
    elif mode == "noalt":
        tree, alt = hg.bpt_canonical(g, ww, return_altitudes=False), None
    elif mode == "nomst":
        tree, alt = hg.bpt_canonical(g, ww, compute_mst=False)
    else:
        tree, alt = hg.bpt_canonical(g, ww)
    edges = canonical(c, n, s, t, w, order, tree, alt)
    if mode != "tuple":
        c.ck(hg.CptHierarchy.get_leaf_graph(tree) is g, "leaf-graph")
        mst = hg.CptBinaryHierarchy.get_mst(tree) if mode != "nomst" else None
        if mst is not None:
            ms, mt = mst.edge_list()
            c.ck([tuple(sorted(x)) for x in zip(ms.tolist(), mt.tolist())] == [tuple(sorted((int(s[e]), int(t[e])))) for e in edges], "mst-edges")
            c.ck(mst.num_vertices() == n, "mst-vertices")
            if c.p(0.4) and alt is not None and w.ndim == 1 and mode in ("weights", "order"):
                # the minimum spanning tree has the same canonical tree, on the same base graph
                t2, a2 = hg.bpt_canonical(mst, w[np.array(edges, int)])
                c.eq(t2.parents(), tree.parents(), "bpt-of-mst")
                c.eq(a2, alt, "bpt-of-mst-altitudes")
                c.ck(hg.CptHierarchy.get_leaf_graph(t2) is g, "bpt-of-mst-leaf-graph")
                c.ev("bpt_of_mst")


@family("mst", quick=1500)
def mst(c):
    n, s, t = gen.graph(c, connected=c.p(0.6))
    g = gen.make_graph(hg, n, s, t)
    w = gen.values(c, len(s), gen.dtype(c))
    c.inp(n=n, sources=s, targets=t, weights=w)
    c.note(n, s, t, w, nontrivial=n > 1)
    _, edges = kruskal(n, s.tolist(), t.tolist(), stable_order(w))
    m = hg.minimum_spanning_tree(g, gen.layout(c, w) if len(w) > 1 else w)
    d = hg.CptMinimumSpanningTree.construct(m)
    c.eq(d["mst_edge_map"], edges, "mst_edge_map")
    c.ck(d["base_graph"] is g, "mst-base-graph")
    ms, mt = m.edge_list()
    c.ck(m.num_vertices() == n and [tuple(sorted(x)) for x in zip(ms.tolist(), mt.tolist())] ==
         [tuple(sorted((int(s[e]), int(t[e])))) for e in edges], "mst-edges")
    c.ev("forest_components", n - len(edges))


@family("saliency", quick=2000)
def saliency(c):
    n, s, t, g, w = instance(c, maxn=14)
    wl = w.tolist()
    m = minimax(n, s.tolist(), t.tolist(), wl)
    want = np.array([m[a][b] if a != b else 0 for a, b in zip(s.tolist(), t.tolist())], w.dtype)
    nl = np.array([a != b for a, b in zip(s, t)], bool)
    tree, alt = hg.bpt_canonical(g, w)
    sm = hg.saliency(tree, alt)
    c.eq(sm, want, "saliency-bpt")
    c.ck(sm.dtype == w.dtype, "saliency-dtype")
    um = hg.ultrametric_open(g, w)
    c.eq(um, want, "ultrametric_open")
    c.ck(bool(np.all(um[nl] <= w[nl])), "anti-extensive")
    c.eq(hg.ultrametric_open(g, um)[nl], um[nl], "idempotent")
    q, qa = hg.quasi_flat_zone_hierarchy(g, w)
    sq = hg.saliency(q, qa)
    c.eq(sq, want, "saliency-qfz")
    # all pairs, through a complete graph
    if n > 1:
        cg = hg.UndirectedGraph(n)
        a, b = np.triu_indices(n, 1)
        cg.add_edges(a, b)
        full = np.array([m[x][y] for x, y in zip(a.tolist(), b.tolist())], w.dtype)
        c.eq(hg.saliency(tree, alt, cg), full, "saliency-all-pairs-bpt")
        c.eq(hg.saliency(q, qa, cg), full, "saliency-all-pairs-qfz")
        c.ev("pairs", len(full))


@family("rag-saliency", quick=1200)
def rag_saliency(c):
    """saliency maps of hierarchies of region adjacency graphs, on the regions and on the pixels"""
    sh = (c.ri(1, 5), c.ri(1, 6))
    if sh == (1, 1):
        sh = (1, 2)
    g = hg.get_4_adjacency_graph(sh)
    lab = c.rng.integers(0, c.choice([1, 2, 3, 5]), sh)
    if c.p(0.3):
        lab[:] = 0
        lab[:, c.ri(0, sh[1] - 1):] = 1
    r = hg.make_region_adjacency_graph_from_labelisation(g, lab)
    n, m = r.num_vertices(), r.num_edges()
    s, t = [np.array(x) for x in r.edge_list()]
    w = gen.values(c, m, gen.dtype(c), nonneg=True)
    c.inp(shape=sh, labels=lab, weights=w)
    c.note(sh, lab, w, nontrivial=m > 0)
    mm = minimax(n, s.tolist(), t.tolist(), w.tolist())
    want = np.array([mm[a][b] for a, b in zip(s.tolist(), t.tolist())], w.dtype)
    vm = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(r)).ravel()
    gs, gt = [np.array(x) for x in g.edge_list()]
    pix = np.array([mm[vm[a]][vm[b]] if vm[a] != vm[b] else 0 for a, b in zip(gs.tolist(), gt.tolist())], w.dtype)
    for k, f in (("bpt", hg.bpt_canonical), ("qfz", hg.quasi_flat_zone_hierarchy)):
        tree, alt = f(r, w)
        c.eq(hg.saliency(tree, alt, handle_rag=False), want, "rag-saliency-" + k)
        c.eq(hg.saliency(tree, alt), pix, "pixel-saliency-" + k)
        c.eq(hg.saliency(tree, alt, r), pix, "pixel-saliency-graph-" + k)
    c.ev("rag-edges-%s" % min(m, 2))


@family("qfz", quick=2000)
def qfz(c):
    n, s, t, g, w = instance(c, maxn=14)
    q, qa = hg.quasi_flat_zone_hierarchy(g, gen.layout(c, w) if len(w) > 1 else w)
    c.ck(hg.CptHierarchy.get_leaf_graph(q) is g, "qfz-leaf-graph")
    c.ck(qa.dtype == w.dtype and qa.shape == (q.num_vertices(),), "qfz-altitudes-shape", str(qa.dtype))
    c.eq(qa[:n], np.zeros(n, w.dtype), "qfz-leaf-altitudes")
    want = level_components(n, s.tolist(), t.tolist(), w.tolist())
    got, k = hierarchy(q.parents(), qa.tolist())
    if n == 1:
        c.ck(q.num_vertices() == 1, "qfz-single")
        return
    c.ck(k == len(got), "qfz-duplicate-nodes")
    c.ck(got == want, "qfz-nodes", "got %s want %s" % (sorted((sorted(a), b) for a, b in got.items()), sorted((sorted(a), b) for a, b in want.items())))
    c.ev("qfz_nodes", k)
    # and back from its saliency map
    q2, qa2 = hg.quasi_flat_zone_hierarchy(g, np.where(s == t, w.max(), hg.saliency(q, qa)) if len(s) else w)
    got2, k2 = hierarchy(q2.parents(), qa2.tolist())
    c.ck(got2 == got and k2 == k, "qfz-of-saliency")
    # canonical form of the binary tree is the same hierarchy
    tree, alt = hg.bpt_canonical(g, w)
    ct, ca = hg.canonize_hierarchy(tree, alt)
    got3, k3 = hierarchy(ct.parents(), ca.tolist())
    c.ck(got3 == got and k3 == k, "canonized-bpt")


@family("disconnected", quick=400, asan=200)
def disconnected(c):
    n, s, t = gen.graph(c, connected=False)
    g = gen.make_graph(hg, n, s, t)
    w = gen.values(c, len(s), gen.dtype(c))
    conn = len(set(gen.components(n, s, t).tolist())) <= 1
    c.inp(n=n, sources=s, targets=t, weights=w)
    c.note(n, s, t, w)
    if conn:
        c.ev("connected")
        tree, alt = hg.bpt_canonical(g, w)
        canonical(c, n, s, t, w, stable_order(w), tree, alt)
        return
    c.ev("not_connected")
    c.raises(lambda: hg.bpt_canonical(g, w), "bpt-disconnected")
    c.raises(lambda: hg.quasi_flat_zone_hierarchy(g, w), "qfz-disconnected")
    c.raises(lambda: hg.ultrametric_open(g, w), "ultrametric-disconnected")
    c.raises(lambda: hg.bpt_canonical((s, t, n), w), "bpt-disconnected")


@family("rejected", quick=300, asan=300)
def rejected(c):
    n, s, t, g, w = instance(c, maxn=8)
    m = len(s)
    c.raises(lambda: hg.bpt_canonical(g), "no-weights")
    c.raises(lambda: hg.bpt_canonical(g, np.zeros(m + c.ri(1, 4))), "wrong-size")
    c.raises(lambda: hg.minimum_spanning_tree(g, np.zeros(m + c.ri(1, 4))), "wrong-size")
    c.raises(lambda: hg.quasi_flat_zone_hierarchy(g, np.zeros(m + c.ri(1, 4))), "wrong-size")
    if m:
        k = c.ri(0, m - 1)
        c.raises(lambda: hg.bpt_canonical(g, np.zeros(k)), "wrong-size")
        c.raises(lambda: hg.minimum_spanning_tree(g, np.zeros(k)), "wrong-size")
        c.raises(lambda: hg.quasi_flat_zone_hierarchy(g, np.zeros(k)), "wrong-size")
        for bad in (-1, n, n + c.ri(1, 1000), -c.ri(2, 10)):
            s2 = s.copy()
            s2[c.ri(0, m - 1)] = bad
            c.raises(lambda: hg.bpt_canonical((s2, t, n), w), "bad-vertex")
            c.raises(lambda: hg.bpt_canonical((t, s2, n), w), "bad-vertex")
        for bad in (-1, m, m + c.ri(1, 1000)):
            o = np.arange(m)
            o[c.ri(0, m - 1)] = bad
            c.raises(lambda: hg.bpt_canonical(g, w, o), "bad-order")
        c.raises(lambda: hg.bpt_canonical((s, t[:-1], n), w), "wrong-size")
    c.raises(lambda: hg.bpt_canonical((s, t, -c.ri(1, 5)), w), "negative-size")


@family("large", quick=12, thorough=120, asan=2)
def large(c):
    n = c.ri(800, 4000)
    k = c.choice(["chain", "random", "grid"])
    if k == "grid":
        h = c.ri(10, 60)
        g = hg.get_4_adjacency_graph((h, n // h))
        n = g.num_vertices()
        s, t = [x.copy() for x in g.edge_list()]
    else:
        n, s, t = gen.graph(c, n=n, style="path" if k == "chain" else "random")
        g = gen.make_graph(hg, n, s, t)
    w = c.choice([lambda: np.arange(len(s)), lambda: np.arange(len(s))[::-1].copy(), lambda: c.rng.integers(0, 50, len(s)),
                  lambda: c.rng.permutation(len(s)).astype(np.float64)])()
    c.note(n, s, t, w)
    tree, alt = hg.bpt_canonical(g, w)
    order = stable_order(w)
    canonical(c, n, s, t, w, order, tree, alt, "large-bpt")
    q, qa = hg.quasi_flat_zone_hierarchy(g, w)
    par = np.asarray(q.parents())
    # no node but the leaves and the root has the altitude of its parent, and the saliency is the one of the binary tree
    c.ck(bool(np.all(qa[n:-1] < qa[par[n:-1]])), "large-qfz-strict")
    c.eq(hg.saliency(q, qa), hg.saliency(tree, alt), "large-qfz-saliency")
    c.ev("vertices", n)


@family("limits", quick=1200)
def limits(c):
    """results that depend only on the order of the values: values at the limits of every type"""
    order.run(c, "P07")
