"""P09: min and max trees."""
import numpy as np
import higra as hg
from hgv import gen, order
from hgv.core import family
from hgv.oracles import hierarchy, UF

UNITS = ["component_tree", "hierarchy_core", "graph_core", "tree_attributes", "tree_accumulators", "sorting"]
RULE = ("random connected multigraphs, grids with 4/6/8/26 adjacency and implicit grids of 1 to 4 dimensions with vertex weights of every numeric type "
        "(ties, constants, extreme and infinite values, equal neighbours); nodes compared with the connected components of every level set computed "
        "naively; duality, reconstruction, rejection of disconnected graphs and wrong sizes. Non-trivial: at least two vertices. Family limits: the same ranks are given as small integers and as extreme or neighbouring values of every type (infinities, subnormals, largest integers): results must correspond.")
ASSUMPTIONS = ["weights are not NaN", "component oracle up to about 25 vertices, counting oracle up to 3000 vertices", "connected graphs"]


def weights(c, shape, dt=None):
    dt = gen.dtype(c) if dt is None else dt
    w = gen.values(c, shape, dt)
    f = w.reshape(-1)
    if f.size and c.p(0.15):
        f[c.ri(0, f.size - 1)] = np.inf if dt.kind == "f" else np.iinfo(dt).max
        if c.p(0.5):
            f[c.ri(0, f.size - 1)] = -np.inf if dt.kind == "f" else np.iinfo(dt).min
    return w


def instance(c, big=False):
    """graph, edges (naive), number of vertices, weights (possibly with the shape of an image)"""
    kind = c.choice(["graph", "graph", "grid", "implicit"])
    if kind == "graph":
        n, s, t = gen.graph(c, maxn=400 if big else 18)
        g = gen.make_graph(hg, n, s, t)
        w = weights(c, n)
        sh = (n,)
    else:
        d = c.ri(1, 4) if kind == "implicit" else 2
        hi = {1: 400, 2: 50, 3: 10, 4: 6}[d] if big else {1: 14, 2: 5, 3: 3, 4: 2}[d]
        sh = tuple(c.ri(1, hi) for _ in range(d))
        n = int(np.prod(sh))
        if d == 2 and kind == "grid":
            g = c.choice([hg.get_4_adjacency_graph, hg.get_8_adjacency_graph])(sh)
        else:
            nb = [[int(x == i) for x in range(d)] for i in range(d)]
            nb += [[-x for x in v] for v in nb]
            if d == 2 and c.p(0.5):
                nb += [[-1, -1], [1, 1], [1, -1], [-1, 1]]
            g = {1: hg.RegularGraph1d, 2: hg.RegularGraph2d, 3: hg.RegularGraph3d, 4: hg.RegularGraph4d}[d](sh, nb)
            hg.set_attribute(g, "no_border_vertex_out_degree", None)
            hg.CptGridGraph.link(g, np.array(sh)) if c.p(0.5) else None
        if kind == "implicit":
            e = gen.grid_edges(sh, nb)
        else:
            e = [(int(a), int(b)) for a, b in zip(*g.edge_list())]
        e = sorted(e)
        s, t = np.array([x[0] for x in e], int), np.array([x[1] for x in e], int)
        w = weights(c, sh)
        if not hg.CptGridGraph.validate(g) or c.p(0.3):
            w = w.reshape(-1)
    c.inp(kind=kind, n=n, shape=sh, sources=s, targets=t, weights=w)
    c.note(kind, n, s, t, w, nontrivial=n > 1)
    c.ev("graph_" + kind)
    c.ev("vertices", n)
    return g, n, s, t, w


def components(n, s, t, f, up):
    """leaf set -> altitude of every component of every level set"""
    out = {}
    for lev in sorted(set(f), reverse=not up):
        ok = [(x >= lev) if up else (x <= lev) for x in f]
        lab = gen.components(n, s, t, [ok[a] and ok[b] for a, b in zip(s.tolist(), t.tolist())])
        d = {}
        for v, l in enumerate(lab.tolist()):
            if ok[v]:
                d.setdefault(l, []).append(v)
        for k in d.values():
            out[frozenset(k)] = lev  # the last level seen is the extreme one: levels go away from the extrema
    return out


def build(c, g, w, up):
    f = hg.component_tree_max_tree if up else hg.component_tree_min_tree
    return f(g, gen.layout(c, w) if w.size > 1 and w.ndim == 1 else w)


@family("components", quick=12000)
def comps(c):
    g, n, s, t, w = instance(c)
    f = w.reshape(-1)
    up = c.p(0.5)
    tree, alt = build(c, g, w, up)
    c.inp(max_tree=up)
    c.ck(tree.category() == hg.TreeCategory.ComponentTree, "category")
    c.ck(alt.dtype == w.dtype and alt.shape == (tree.num_vertices(),), "altitudes-shape", "%s %s" % (alt.dtype, alt.shape))
    c.ck(tree.num_leaves() == n, "leaves")
    c.eq(alt[:n], f, "leaf-altitudes")
    c.ck(hg.CptHierarchy.get_leaf_graph(tree) is g, "leaf-graph")
    par = np.asarray(tree.parents())
    want = components(n, s, t, f.tolist(), up)
    for k in want:
        want[k] = (min if up else max)(f[list(k)].tolist())
    got, k = hierarchy(par, alt.tolist())
    c.ck(k == len(got), "duplicate-nodes")
    c.ck(got == want, "nodes", "got %s want %s" % (sorted((sorted(a), b) for a, b in got.items()), sorted((sorted(a), b) for a, b in want.items())))
    a, p = alt[n:-1], alt[par[n:-1]]
    c.ck(bool(np.all(a > p) if up else np.all(a < p)), "strictly-monotone")
    c.eq(alt[par[:n]], f, "leaf-parent-altitude")
    r = hg.reconstruct_leaf_data(tree, alt)
    c.eq(np.asarray(r).reshape(-1), f, "reconstruction")
    c.ev("nodes", k)
    # duality
    if w.dtype.kind == "f" or (w.dtype.kind == "i" and f.size and f.min() > np.iinfo(w.dtype).min):
        t2, a2 = build(c, g, -w, not up)
        c.eq(t2.parents(), par, "duality-parents")
        c.eq(a2, -alt, "duality-altitudes")
        c.ev("dual")


@family("count", quick=60, thorough=600)
def count(c):
    g, n, s, t, w = instance(c, big=True)
    f = w.reshape(-1)
    up = c.p(0.5)
    tree, alt = build(c, g, w, up)
    par = np.asarray(tree.parents())
    key = f.tolist()
    order = sorted(range(n), key=lambda i: key[i], reverse=up)
    adj = [[] for _ in range(n)]
    for a, b in zip(s.tolist(), t.tolist()):
        adj[a].append(b)
        adj[b].append(a)
    uf, done, num, i = UF(n), [False] * n, 0, 0
    while i < n:
        j = i
        while j < n and key[order[j]] == key[order[i]]:
            v = order[j]
            done[v] = True
            for u in adj[v]:
                if done[u]:
                    uf.p[uf.find(u)] = uf.find(v)
            j += 1
        num += len({uf.find(v) for v in order[i:j]})
        i = j
    c.ck(tree.num_vertices() - n == num, "node-count", "%d want %d" % (tree.num_vertices() - n, num))
    c.ck(tree.num_leaves() == n, "leaves")
    c.eq(alt[par[:n]], f, "leaf-parent-altitude")
    a, p = alt[n:-1], alt[par[n:-1]]
    c.ck(bool(np.all(a > p) if up else np.all(a < p)), "strictly-monotone")
    if len(s):
        l = tree.lowest_common_ancestor(s, t)
        nl = s != t
        m = np.minimum(f[s], f[t]) if up else np.maximum(f[s], f[t])
        c.eq(alt[l][nl], m[nl], "neighbour-lca")
    c.ev("nodes", num)


@family("rejected", quick=400, asan=300)
def rejected(c):
    n, s, t = gen.graph(c, connected=False, maxn=12)
    g = gen.make_graph(hg, n, s, t)
    up = c.p(0.5)
    f = hg.component_tree_max_tree if up else hg.component_tree_min_tree
    w = weights(c, n)
    c.inp(n=n, sources=s, targets=t, weights=w)
    c.note(n, s, t, w)
    if len(set(gen.components(n, s, t).tolist())) > 1:
        c.raises(lambda: f(g, w), "disconnected")
        c.ev("disconnected")
    else:
        f(g, w)
    c.raises(lambda: f(g, np.zeros(n + c.ri(1, 3))), "wrong-size")
    c.raises(lambda: f(g, np.zeros(n - 1)), "wrong-size")
    c.raises(lambda: f(g, np.zeros((n, 2))), "vectorial")


@family("limits", quick=1200)
def limits(c):
    """results that depend only on the order of the values: values at the limits of every type"""
    order.run(c, "P09")
