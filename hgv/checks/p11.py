"""P11: agglomerative clustering."""
import math
import numpy as np
import higra as hg
from hgv import gen, order
from hgv.core import family

UNITS = ["binary_partition_tree", "hierarchy_core", "graph_core", "tree_attributes", "sorting", "rag"]
RULE = ("random connected simple graphs (with self-loops) and grids up to 200 vertices, float32/float64/integer weights with many ties, negative values, "
        "all linkages, weighted averages, exponents of both signs and infinite, Ward with any sizes, arbitrary user callbacks that raise or lower weights; "
        "every merge of the result is replayed: the two clusters must be adjacent and at minimal distance among all pairs of live clusters, distances being "
        "recomputed from the original edges; callbacks are monitored online (arguments, neighbour lists, edge indices, state of the graph). "
        "Non-trivial: at least three vertices. Family limits: the same ranks are given as small integers and as extreme or neighbouring values of every type (infinities, subnormals, largest integers): results must correspond.")
ASSUMPTIONS = ["no parallel edges (known finding)", "finite weights without overflow of exp", "positive sizes and weightings",
               "distances compared with a relative tolerance of 1e-9 (1e-4 for float32); the merged pair may be any pair at minimal distance within it"]


def instance(c, big=False):
    if big:
        h = c.ri(4, 14)
        g = c.choice([hg.get_4_adjacency_graph, hg.get_8_adjacency_graph])((h, c.ri(4, 14)))
        s, t = [x.copy() for x in g.edge_list()]
        return g.num_vertices(), s, t, g
    if c.p(0.1):
        # a region adjacency graph
        sh = (c.ri(1, 5), c.ri(2, 7))
        lab = c.rng.integers(0, c.choice([2, 3, 5]), sh)
        g = hg.make_region_adjacency_graph_from_labelisation(hg.get_4_adjacency_graph(sh), lab)
        c.inp(labels=lab)
        c.ev("rag")
        s, t = [x.copy() for x in g.edge_list()]
        return g.num_vertices(), s, t, g
    n, s, t = gen.graph(c, parallel=False, loops=c.p(0.2), maxn=20)
    key = set()
    keep = []
    for k in range(len(s)):
        e = (min(s[k], t[k]), max(s[k], t[k]))
        if e not in key:
            key.add(e)
            keep.append(k)
    s, t = s[keep], t[keep]
    return n, s, t, gen.make_graph(hg, n, s, t)


def weights(c, m, dt=None, positive=False, maxabs=None):
    dt = dt or np.dtype(c.choice([np.float64, np.float64, np.float32, np.int32, np.uint8]))
    w = gen.values(c, m, dt, nonneg=positive, maxabs=maxabs)
    if positive:
        w = w + np.ones_like(w)
    return w


class Replay:
    """live clusters and aggregated pairs; dist: aggregate -> distance, agg: (value of an edge), add: merge of aggregates"""
    def __init__(self, n, s, t, edge, add, dist):
        self.nb = {i: {} for i in range(n)}
        self.add, self.dist = add, dist
        for k in range(len(s)):
            a, b = int(s[k]), int(t[k])
            if a != b:
                self.nb[a][b] = self.nb[b][a] = edge(k)

    def minimum(self):
        return min(self.dist(a, b, v) for a, d in self.nb.items() for b, v in d.items() if a < b)

    def merge(self, a, b, new):
        da, db = self.nb.pop(a), self.nb.pop(b)
        da.pop(b)
        db.pop(a)
        r = {}
        for d in (da, db):
            for k, v in d.items():
                r[k] = self.add(r[k], v) if k in r else v
        for k, v in r.items():
            self.nb[k].pop(a, None)
            self.nb[k].pop(b, None)
            self.nb[k][new] = v
        self.nb[new] = r


def replay(c, rep, n, tree, alt, key, tol, scale=0.0, premerge=None, exact=False, running=False):
    par = np.asarray(tree.parents())
    c.ck(len(par) == 2 * n - 1, key + "-size", "%d nodes for %d vertices" % (len(par), n))
    c.ck(tree.num_leaves() == n, key + "-leaves")
    c.ck(alt.shape == par.shape, key + "-altitudes-shape")
    c.ck(not np.any(alt[:n]), key + "-leaf-altitudes")
    ch, _, _ = gen.tree_info(par)
    best = [0.0] * len(par)
    for i in range(n, len(par)):
        c.ck(len(ch[i]) == 2, key + "-binary")
        a, b = ch[i]
        c.ck(a in rep.nb and b in rep.nb and b in rep.nb[a], key + "-adjacent", "node %d merges %d and %d" % (i, a, b))
        d = rep.dist(a, b, rep.nb[a][b])
        m = rep.minimum()
        c.ck(d == m if exact else d <= m + tol * (abs(m) + scale), key + "-closest",
             "node %d merges %d and %d at distance %r, minimum %r" % (i, a, b, d, m))
        want = d
        if running:
            want = max(d, best[a] if a >= n else 0, best[b] if b >= n else 0)
        best[i] = want
        c.ck(float(alt[i]) == want if exact else abs(float(alt[i]) - want) <= tol * (abs(want) + scale), key + "-altitude",
             "node %d: %r expected %r" % (i, alt[i], want))
        if premerge:
            premerge(a, b, i)
        rep.merge(a, b, i)
        c.ev("merges")


def done(c, g, tree, n, key):
    c.ck(hg.CptHierarchy.get_leaf_graph(tree) is g, key + "-leaf-graph")
    c.ck(tree.category() == hg.TreeCategory.PartitionTree, key + "-category")


def tolerance(w):
    return 1e-4 if w.dtype == np.float32 else 1e-9


def pick(c, big):
    n, s, t, g = instance(c, big)
    c.inp(n=n, s=s, t=t)
    return n, s, t, g


def linkage(c, big=False):
    n, s, t, g = pick(c, big)
    kind = c.choice(["complete", "average", "average_w", "exponential", "exponential_w", "single"])
    m = len(s)
    alpha = c.choice([0, 0.5, 1, -1, -0.25, float("inf"), float("-inf")])
    ex = kind.startswith("exp")
    w = weights(c, m, maxabs=10 if ex else None)
    if ex and w.dtype.kind == "f" and c.p(0.5):
        w = w / 4
    if ex and w.dtype == np.float64 and c.p(0.2):
        # small weights and large exponents
        alpha = c.choice([-1000.0, 1000.0, 800.0, -800.0, 1e6, -1e6])
        w = w / abs(alpha)
    w2 = weights(c, m, positive=True, maxabs=5, dt=np.dtype(np.float64) if w.dtype.kind == "f" and c.p(0.5) else w.dtype)
    c.inp(kind=kind, alpha=alpha, w=w, w2=w2)
    c.note(kind, alpha if ex else 0, n, s, t, w, nontrivial=n > 2)
    c.ev(kind)
    tol = max(tolerance(w), tolerance(w2))
    lw, lw2 = gen.layout(c, w) if m > 1 else w, gen.layout(c, w2) if m > 1 else w2
    f = w.astype(np.float64).tolist()
    f2 = w2.astype(np.float64).tolist() if kind.endswith("_w") else [1.0] * m
    scale = max([abs(x) for x in f], default=0)
    exact = False
    if kind == "complete" or kind.startswith("exp") and alpha == float("inf"):
        rep = Replay(n, s, t, lambda k: f[k], max, lambda a, b, v: v)
        exact = True
    elif kind == "single" or kind.startswith("exp") and alpha == float("-inf"):
        rep = Replay(n, s, t, lambda k: f[k], min, lambda a, b, v: v)
        exact = True
    else:
        al = alpha if ex else 0
        rep = Replay(n, s, t, lambda k: (f[k] * f2[k] * math.exp(al * f[k]), f2[k] * math.exp(al * f[k])),
                     lambda x, y: (x[0] + y[0], x[1] + y[1]), lambda a, b, v: v[0] / v[1])
    B = {"complete": lambda: hg.binary_partition_tree_complete_linkage(g, lw),
         "single": lambda: hg.binary_partition_tree_single_linkage(g, lw),
         "average": lambda: hg.binary_partition_tree_average_linkage(g, lw),
         "average_w": lambda: hg.binary_partition_tree_average_linkage(g, lw, lw2),
         "exponential": lambda: hg.binary_partition_tree_exponential_linkage(g, lw, alpha),
         "exponential_w": lambda: hg.binary_partition_tree_exponential_linkage(g, lw, alpha, lw2)}[kind]
    tree, alt = B()
    done(c, g, tree, n, kind)
    replay(c, rep, n, tree, alt, kind, tol, scale=scale, exact=exact)


@family("linkage", quick=6000)
def linkage_small(c):
    linkage(c)


@family("linkage_big", quick=200, heavy=True)
def linkage_big(c):
    linkage(c, True)


def ward_case(c, big=False):
    n, s, t, g = pick(c, big)
    d = c.ri(1, 3)
    dt = np.dtype(c.choice([np.float64, np.float32, np.int32]))
    X = gen.values(c, (n, d), dt, maxabs=60)
    sz = (c.rng.integers(1, 6, n)).astype(dt) if c.p(0.5) else None
    corr = c.choice(["max", "none", None])
    c.inp(X=X, sizes=sz, correction=corr)
    c.note("ward", n, s, t, X, sz, corr, nontrivial=n > 2)
    c.ev("ward_%s" % corr)
    kw = {} if corr is None else dict(altitude_correction=corr)
    tree, alt = hg.binary_partition_tree_ward_linkage(g, gen.layout(c, X) if X.size > 1 else X, sz, **kw)
    done(c, g, tree, n, "ward")
    size = {i: float(sz[i]) if sz is not None else 1.0 for i in range(n)}
    tot = {i: X[i].astype(np.float64) * size[i] for i in range(n)}

    def dist(a, b, _):
        e = tot[a] / size[a] - tot[b] / size[b]
        return size[a] * size[b] / (size[a] + size[b]) * float(e @ e)

    def pre(a, b, i):
        size[i] = size[a] + size[b]
        tot[i] = tot[a] + tot[b]
    rep = Replay(n, s, t, lambda k: 0, lambda x, y: 0, dist)
    replay(c, rep, n, tree, alt, "ward", 1e-8, scale=float(np.abs(X.astype(float)).max()) ** 2 * 1e-2 + 1e-3, premerge=pre, running=corr != "none")


@family("ward", quick=2500)
def ward(c):
    ward_case(c)


@family("ward_big", quick=20, heavy=True)
def ward_big(c):
    ward_case(c, True)


def custom_case(c, big=False):
    """arbitrary user supplied weights, monitored online"""
    n, s, t, g = pick(c, big)
    m = len(s)
    dt = np.dtype(c.choice([np.float64, np.float32]))
    w = weights(c, m, dt)
    mode = c.choice(["random", "lower", "raise", "constant", "sum", "min"])
    c.inp(w=w, mode=mode)
    c.note("custom", n, s, t, w, mode, nontrivial=n > 2)
    c.ev("custom_" + mode)
    cur = w.astype(np.float64).tolist()
    ends = [[int(a), int(b)] for a, b in zip(s, t)]
    live = {k for k in range(m) if ends[k][0] != ends[k][1]}
    members = {i: {i} for i in range(n)}
    merges = []
    err = []

    def callback(graph, fusion, new, r1, r2, neighbours):
        try:
            step(graph, fusion, new, r1, r2, neighbours)
        except Exception as e:  # the first error is the one reported
            err.append(e)
            raise

    def merge(fusion, r1, r2):
        """checks that fusion is a live edge of minimal weight, and does it"""
        new = n + len(merges)
        c.ck(fusion in live, "custom-live-edge", "edge %d" % fusion)
        lo = min(cur[k] for k in live)
        c.ck(cur[fusion] == lo, "custom-closest", "edge %d weight %r minimum %r" % (fusion, cur[fusion], lo))
        c.ck(set(ends[fusion]) == {r1, r2}, "custom-merged-regions")
        merges.append((new, cur[fusion], {r1, r2}, fusion))
        a, b = int(s[fusion]), int(t[fusion])
        c.ck((a in members[r1]) != (a in members[r2]) and (b in members[r1]) != (b in members[r2]), "custom-spanning-edge")
        members[new] = members.pop(r1) | members.pop(r2)
        live.discard(fusion)
        return new

    def step(graph, fusion, new, r1, r2, neighbours):
        c.ck(merge(fusion, r1, r2) == new, "custom-new-region")
        c.ev("callbacks")
        inc = {}
        for k in live:
            a, b = ends[k]
            if a in (r1, r2) or b in (r1, r2):
                inc.setdefault(b if a in (r1, r2) else a, []).append(k)
        seen = set()
        for q in neighbours:
            v, e1, k = q.neighbour_vertex(), q.first_edge_index(), q.num_edges()
            c.ck(v in inc and v not in seen, "custom-neighbour")
            seen.add(v)
            es = [e1] + ([q.second_edge_index()] if k == 2 else [])
            c.ck(sorted(es) == sorted(inc[v]), "custom-edges", "%s %s" % (es, inc[v]))
            if k == 1:
                c.ck(q.second_edge_index() == -1, "custom-no-second-edge")
            c.ck(q.new_edge_index() == e1, "custom-new-edge")
            old = [cur[x] for x in es]
            x = {"random": c.ri(-50, 50), "lower": min(old) - c.ri(0, 3), "raise": max(old) + c.ri(0, 3), "constant": 7,
                 "sum": sum(old), "min": min(old)}[mode]
            q.set_new_edge_weight(float(x))
            for z in es[1:]:
                live.discard(z)
            cur[e1] = float(dt.type(x))
            ends[e1] = [v, new]
        c.ck(seen == set(inc), "custom-all-neighbours", "%s %s" % (seen, set(inc)))

    try:
        tree, alt = hg.binary_partition_tree(g, callback, w)
    except Exception:
        if err:
            raise err[0]
        raise
    if n > 1:
        # the callback is not called when no neighbour remains
        last = [k for k in live]
        c.ck(len(merges) in (n - 2, n - 1), "custom-number-of-merges")
        if len(merges) == n - 2:
            c.ck(len(last) == 1, "custom-last-edge")
            merge(last[0], *ends[last[0]])
    par = np.asarray(tree.parents())
    c.ck(len(par) == 2 * n - 1 and tree.num_leaves() == n, "custom-size")
    ch, _, _ = gen.tree_info(par)
    for new, a, pair, _ in merges:
        c.ck(set(ch[new]) == pair, "custom-children")
        c.ck(float(alt[new]) == a, "custom-altitude", "%r %r" % (alt[new], a))
    c.ck(not np.any(alt[:n]), "custom-leaf-altitudes")
    done(c, g, tree, n, "custom")


@family("custom", quick=3000)
def custom(c):
    custom_case(c)


@family("custom_big", quick=60, heavy=True)
def custom_big(c):
    custom_case(c, True)


@family("rejected", quick=250, asan=250)
def rejected(c):
    n, s, t = gen.graph(c, c.ri(2, 10), parallel=False, loops=False)
    g = gen.make_graph(hg, n, s, t)
    m = len(s)
    w = weights(c, m, np.dtype(np.float64))
    c.inp(n=n, s=s, t=t)
    c.note(n, s, t)
    fs = {"complete": hg.binary_partition_tree_complete_linkage, "average": hg.binary_partition_tree_average_linkage,
          "single": hg.binary_partition_tree_single_linkage,
          "exponential": lambda a, b: hg.binary_partition_tree_exponential_linkage(a, b, 0.5),
          "custom": lambda a, b: hg.binary_partition_tree(a, lambda *x: [q.set_new_edge_weight(0) for q in x[-1]], b)}
    W = hg.binary_partition_tree_ward_linkage
    X = gen.values(c, (n, 2), np.float64)
    d = hg.UndirectedGraph(n + 1)
    d.add_edges(s.copy(), t.copy())
    z = hg.UndirectedGraph(0)
    for k, f in fs.items():
        c.raises(lambda: f(g, w[:-1]), k + "-size")
        c.raises(lambda: f(g, np.append(w, 1.0)), k + "-size")
        c.raises(lambda: f(d, w), k + "-disconnected")
        c.raises(lambda: f(z, np.zeros(0)), k + "-empty")
        if k != "single":
            c.raises(lambda: f(g, np.stack((w, w), 1)), k + "-2d")
    c.raises(lambda: hg.binary_partition_tree_average_linkage(g, w, w[:-1]), "average-weighting-size")
    c.raises(lambda: hg.binary_partition_tree_average_linkage(g, w, np.stack((w, w), 1)), "average-weighting-2d")
    c.raises(lambda: W(g, X[:-1]), "ward-size")
    c.raises(lambda: W(g, X[:-1], np.ones(n - 1)), "ward-size")
    c.raises(lambda: W(g, X, np.ones(n + 1)), "ward-size")
    c.raises(lambda: W(g, X[:, 0]), "ward-1d")
    c.raises(lambda: W(g, X, altitude_correction="other"), "ward-correction")
    c.raises(lambda: W(d, np.zeros((n + 1, 1))), "ward-disconnected")
    c.raises(lambda: W(z, np.zeros((0, 1))), "ward-empty")

    def bad(*a):
        raise KeyError("user")
    if n > 2:
        try:
            hg.binary_partition_tree(g, bad, w)
            c.fail("callback-exception", "the exception of the callback was lost")
        except KeyError:
            c.ev("callback_exceptions")


@family("parallel_edges", quick=1, thorough=1, asan=1)
def parallel_edges(c):
    """fixed input of a known finding: parallel edges"""
    c.note("fixed")
    g = gen.make_graph(hg, 3, np.array([0, 1, 1, 0]), np.array([1, 2, 2, 2]))
    try:
        tree, alt = hg.binary_partition_tree_complete_linkage(g, np.array([1., 2, 3, 4]))
    except RuntimeError as e:
        c.fail("parallel-edges", str(e))
    c.eq(alt, [0, 0, 0, 1, 4], "parallel-edges-altitudes")


@family("limits", quick=1200)
def limits(c):
    """results that depend only on the order of the values: values at the limits of every type"""
    order.run(c, "P11")
