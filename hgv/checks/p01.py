"""P01: undirected graphs stay consistent under any edit history."""
import copy
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["graph_core", "hierarchy_core", "watershed_hierarchy", "binary_partition_tree", "watershed", "component_tree", "graph_weights", "graph_accumulator", "rag", "sorting",
         "tree_attributes", "tree_accumulators", "at_accumulator", "bipartite_graph", "tree_energy_optimization"]
RULE = ("random histories of add_vertex(s), add_edge(s), set_edge, remove_edge (self loops, parallel edges, re-attachment of removed edges, "
        "rejected operations) on both graph classes, mirrored on a plain list of edges; after each burst all views are compared with the list; "
        "then sub-graph, vertex-induced sub-graph and line graph of the result; algorithms (hierarchies, watersheds, component trees, clustering, cuts, "
        "region adjacency graphs, weights, accumulators) on a graph with removed edges against the same graph built without these edges. A case is non-trivial when at least one edge operation succeeded.")
ASSUMPTIONS = ["histories of up to 150 operations on up to 40 vertices, plus bulk insertions of up to 20000 edges"]
IDX = [np.int32, np.uint32, np.int64, np.uint64]
IDX_ALL = gen.INT_TYPES


def pair(a, b):
    return (min(int(a), int(b)), max(int(a), int(b)))


def views(c, g, n, model, full=True):
    """every view of g against the model (list of pairs or None)"""
    m = len(model)
    c.ck(g.num_vertices() == n, "num_vertices", "%s want %d" % (g.num_vertices(), n))
    c.ck(g.num_edges() == m, "num_edges", "%s want %d" % (g.num_edges(), m))
    c.ck(list(g.vertices()) == list(range(n)), "vertices")
    want = [pair(*e) if e is not None else (-1, -1) for e in model]
    el = list(g.edges())
    c.ck([e[2] for e in el] == list(range(m)), "edges-index", "%s" % el[:20])
    c.ck([pair(e[0], e[1]) for e in el] == want, "edges-iter", lambda_msg(el, want))
    has_list = hasattr(g, "edge_list")
    if has_list:
        s, t = g.edge_list()
        c.ck(len(s) == m and len(t) == m, "edge-list-size")
        c.ck([pair(a, b) for a, b in zip(s, t)] == want, "edge-list", lambda_msg((s, t), want))
        c.eq(g.sources(), s, "sources")
        c.eq(g.targets(), t, "targets")
        c.ck([(e[0], e[1]) for e in el] == list(zip(s.tolist(), t.tolist())), "edges-vs-list")
    inc = [[] for _ in range(n)]
    for i, e in enumerate(want):
        if e[0] >= 0:
            inc[e[0]].append((e[1], i))
            if e[0] != e[1]:
                inc[e[1]].append((e[0], i))
    for i in (range(m) if m < 40 else c.rng.integers(0, m, 40)):
        e = g.edge_from_index(int(i))
        c.ck((pair(e[0], e[1]), e[2]) == (want[i], i), "edge_from_index", "%s want %s %d" % (e, want[i], i))
        c.ck((g.source(e), g.target(e), g.index(e)) == tuple(e), "edge-accessors")
    vs = range(n) if n < 60 else c.rng.integers(0, n, 40)
    for v in vs:
        v = int(v)
        w = sorted(inc[v])
        oe = list(g.out_edges(v))
        ie = list(g.in_edges(v))
        c.ck(all(e[0] == v for e in oe) and sorted((e[1], e[2]) for e in oe) == w, "out_edges", "vertex %d: %s want %s" % (v, oe, w))
        c.ck(all(e[1] == v for e in ie) and sorted((e[0], e[2]) for e in ie) == w, "in_edges", "vertex %d: %s want %s" % (v, ie, w))
        c.ck(sorted(g.adjacent_vertices(v)) == [x[0] for x in w], "adjacent_vertices", "vertex %d" % v)
        c.ck(g.degree(v) == g.out_degree(v) == g.in_degree(v) == len(w), "degree", "vertex %d: %s want %d" % (v, g.degree(v), len(w)))
    if n:
        deg = np.array([len(x) for x in inc])
        va = c.rng.integers(0, n, c.ri(0, 12))
        ty = gen.dtype(c, [t for t in IDX_ALL if n - 1 <= np.iinfo(t).max])
        va = va.astype(ty)
        for f in ("degree", "in_degree", "out_degree"):
            c.eq(getattr(g, f)(gen.layout(c, va) if len(va) else va), deg[va.astype(np.int64)], f + "-array")
    c.ev("views")
    return inc


def lambda_msg(got, want):
    return "got %s want %s" % (str(got)[:200], str(want)[:200])


def rejected(c, g, n, m):
    bad_v = c.choice([-1, n, n + 5])
    bad_e = c.choice([-1, m, m + 7])
    k = c.ri(0, 7)
    if k == 0:
        c.raises(lambda: g.add_edge(bad_v, 0), "accepts-bad", "add_edge")
    elif k == 1:
        c.raises(lambda: g.add_edge(0, bad_v), "accepts-bad", "add_edge")
    elif k == 2:
        c.raises(lambda: g.remove_edge(bad_e), "accepts-bad", "remove_edge")
    elif k == 3:
        c.raises(lambda: g.set_edge(bad_e, 0, 0), "accepts-bad", "set_edge")
    elif k == 4 and m:
        c.raises(lambda: g.set_edge(0, bad_v, 0), "accepts-bad", "set_edge")
        c.raises(lambda: g.set_edge(0, 0, bad_v), "accepts-bad", "set_edge")
    elif k == 5:
        c.raises(lambda: g.add_edges(np.array([0, bad_v]), np.array([0, 0])), "accepts-bad", "add_edges")
        c.raises(lambda: g.add_edges(np.array([0, 0]), np.array([0, bad_v])), "accepts-bad", "add_edges")
    elif k == 6:
        c.raises(lambda: g.add_edges(np.array([0, 0]), np.array([0])), "accepts-bad", "add_edges sizes")
    else:
        c.raises(lambda: g.degree(bad_v), "accepts-bad", "degree")
        c.raises(lambda: list(g.out_edges(bad_v)), "accepts-bad", "out_edges")
        c.raises(lambda: g.edge_from_index(bad_e), "accepts-bad", "edge_from_index")


def history(c, cls, nops, maxv):
    n = c.ri(0, maxv)
    if c.p(0.3):
        g = cls(n, c.ri(0, 20), c.ri(0, 5) if cls is hg.UndirectedGraph else 0)
    else:
        g = cls(n)
    model = []
    log = []
    few = c.p(0.4)

    def v():
        return c.ri(0, min(n - 1, 2) if few else n - 1)

    for _ in range(nops):
        k = c.rng.random()
        live = [i for i, e in enumerate(model) if e is not None]
        dead = [i for i, e in enumerate(model) if e is None]
        if n == 0 or k < 0.06:
            if c.p(0.5):
                r = g.add_vertex()
                c.ck(r == n, "add_vertex", "returned %s want %d" % (r, n))
                n += 1
                log.append("v")
            else:
                q = c.ri(0, 4)
                g.add_vertices(q)
                n += q
                log.append("v%d" % q)
        elif k < 0.4:
            a, b = v(), v()
            e = g.add_edge(a, b)
            c.ck(pair(e[0], e[1]) == pair(a, b) and e[2] == len(model), "add_edge-result", "%s" % (e,))
            model.append((a, b))
            log.append((a, b))
        elif k < 0.5:
            q = c.ri(0, 5)
            a = np.array([v() for _ in range(q)], dtype=gen.dtype(c, IDX_ALL))
            b = np.array([v() for _ in range(q)], dtype=a.dtype)
            if q:
                a2, b2 = gen.layout(c, a), gen.layout(c, b)
            else:
                a2, b2 = a, b
            g.add_edges(a2, b2)
            c.eq(a2, a, "argument-modified")
            model += list(zip(a.tolist(), b.tolist()))
            log.append(("add_edges", a.tolist(), b.tolist()))
        elif k < 0.7 and model:
            i = c.choice(live) if live and c.p(0.85) else c.ri(0, len(model) - 1)
            g.remove_edge(i)
            model[i] = None
            log.append("r%d" % i)
        elif k < 0.92 and model:
            i = c.choice(dead) if dead and c.p(0.4) else c.ri(0, len(model) - 1)
            if model[i] is not None and c.p(0.3):
                a, b = c.choice([model[i], model[i][::-1], (model[i][0], v()), (v(), model[i][1])])
            else:
                a, b = v(), v()
            g.set_edge(i, a, b)
            model[i] = (a, b)
            log.append(("s", i, a, b))
        elif k < 0.96:
            rejected(c, g, n, len(model))
        c.ev("operations")
        if c.p(0.15):
            c.inp(history=str(log)[-1500:])
            views(c, g, n, model)
    c.inp(history=str(log)[-3000:], n=n)
    c.note(cls.__name__, str(log), nontrivial=len(model) > 0)
    inc = views(c, g, n, model)
    return g, n, model, inc


def derived(c, g, n, model):
    m = len(model)
    live = np.array([i for i, e in enumerate(model) if e is not None], dtype=np.int64)
    s = np.array([e[0] if e else -1 for e in model], dtype=np.int64)
    t = np.array([e[1] if e else -1 for e in model], dtype=np.int64)
    # edge sub-graphs
    k = c.ri(0, len(live))
    sel = c.rng.permutation(live)[:k] if c.p(0.8) else (c.rng.choice(live, k) if len(live) else live)
    sel = sel.astype(gen.dtype(c, [np.int32, np.int64, np.uint32]))
    want = [pair(*model[i]) for i in sel]
    sub, vm = hg.subgraph(g, sel, spanning=True, return_vertex_map=True)
    views(c, sub, n, want)
    c.eq(vm, np.arange(n), "subgraph-vertex-map")
    views(c, hg.subgraph(g, sel), n, want)
    sub, vm = hg.subgraph(g, sel, spanning=False, return_vertex_map=True)
    used = sorted(set(x for e in want for x in e))
    c.ck(sorted(np.asarray(vm).tolist()) == used, "subgraph-vertex-map", "%s want %s" % (vm, used))
    c.ck(sub.num_vertices() == len(used), "subgraph-vertices")
    ss, tt = sub.edge_list()
    c.ck([pair(vm[a], vm[b]) for a, b in zip(ss, tt)] == want, "subgraph-edges")
    inv = {int(x): i for i, x in enumerate(vm)}
    views(c, sub, len(used), [(inv[a], inv[b]) for a, b in want])
    # vertex induced
    vs = c.rng.permutation(n)[:c.ri(0, n)]
    sub, em = hg.vertex_induced_subgraph(g, vs if c.p(0.7) else vs.tolist(), return_edge_map=True)
    pos = {int(x): i for i, x in enumerate(vs)}
    keep = [i for i, e in enumerate(model) if e is not None and e[0] in pos and e[1] in pos]
    c.ck(sorted(np.asarray(em).tolist()) == keep, "induced-edge-map", "%s want %s" % (em, keep))
    views(c, sub, len(vs), [(pos[model[i][0]], pos[model[i][1]]) for i in em])
    sub = hg.vertex_induced_subgraph(g, vs)
    c.ck(sub.num_edges() == len(keep), "induced-edges")
    if n:
        c.raises(lambda: hg.vertex_induced_subgraph(g, [0, n]), "accepts-bad", "vertex_induced_subgraph")
        c.raises(lambda: hg.vertex_induced_subgraph(g, [0, 0]), "accepts-bad", "vertex_induced_subgraph duplicates")
        c.raises(lambda: hg.vertex_induced_subgraph(g, [-1]), "accepts-bad", "vertex_induced_subgraph negative")
    # line graph
    line(c, hg.line_graph(g), model)


def line(c, lg, model):
    want = set()
    ends = [set(e) if e is not None else set() for e in model]
    for i in range(len(model)):
        for j in range(i):
            if ends[i] & ends[j]:
                want.add((j, i))
    got = [pair(a, b) for a, b in zip(*lg.edge_list())]
    c.ck(lg.num_vertices() == len(model), "line-graph-vertices")
    c.ck(sorted(got) == sorted(want), "line-graph", "got %s want %s" % (sorted(got), sorted(want)))


@family("history", quick=1500)
def f1(c):
    g, n, model, inc = history(c, hg.UndirectedGraph, c.ri(1, 60), c.choice([1, 2, 4, 10, 30]))
    if len(model) < 60:
        derived(c, g, n, model)


@family("history-optimized-delete", quick=500)
def f2(c):
    history(c, hg.UndirectedGraphOptimizedDelete, c.ri(1, 60), c.choice([1, 2, 4, 10, 30]))


@family("long-history", quick=80, thorough=1200)
def f3(c):
    cls = c.choice([hg.UndirectedGraph, hg.UndirectedGraph, hg.UndirectedGraphOptimizedDelete])
    history(c, cls, c.ri(100, 150), 40)


@family("bulk", quick=60, thorough=500)
def f4(c):
    n = c.ri(1, 3000)
    g = hg.UndirectedGraph(n)
    model = []
    for _ in range(c.ri(1, 3)):
        k = c.ri(0, 20000)
        a, b = c.rng.integers(0, n, k), c.rng.integers(0, n, k)
        ty = c.choice(IDX)
        g.add_edges(a.astype(ty), b.astype(ty))
        model += list(zip(a.tolist(), b.tolist()))
        if model:
            for i in c.rng.integers(0, len(model), 30):
                if c.p(0.5):
                    g.remove_edge(int(i))
                    model[i] = None
                else:
                    x, y = c.ri(0, n - 1), c.ri(0, n - 1)
                    g.set_edge(int(i), x, y)
                    model[i] = (x, y)
    c.note(n, str(model[:2000]), len(model))
    views(c, g, n, model)


@family("snapshots", quick=300)
def f5(c):
    """arrays, lists and copies obtained before an edit describe the graph at that time"""
    n, s, t = gen.graph(c, maxn=12)
    g = gen.make_graph(hg, n, s, t)
    model = list(zip(s.tolist(), t.tolist()))
    el = g.edge_list()
    keep = [x.copy() for x in el]
    g2 = copy.copy(g)
    g3 = copy.deepcopy(g)
    c.note(n, s, t)
    m2 = list(model)
    for _ in range(c.ri(1, 40)):
        a, b = c.ri(0, n - 1), c.ri(0, n - 1)
        if m2 and c.p(0.4):
            i = c.ri(0, len(m2) - 1)
            g.set_edge(i, a, b)
            m2[i] = (a, b)
        else:
            g.add_edge(a, b)
            m2.append((a, b))
    c.inp(n=n, s=s, t=t)
    for x, y in zip(el, keep):
        c.eq(x, y, "snapshot-changed")
    views(c, g, n, m2)
    views(c, g2, n, model)
    views(c, g3, n, model)


@family("line-graph-tree", quick=200)
def f6(c):
    par = gen.parents(c, maxleaves=15)
    t = hg.Tree(par)
    c.inp(parents=par)
    c.note(par, nontrivial=len(par) > 1)
    line(c, hg.line_graph(t), [(i, int(par[i])) for i in range(len(par) - 1)])


def flat(x):
    """comparable form of a result"""
    if isinstance(x, tuple):
        return [z for y in x for z in flat(y)]
    if isinstance(x, hg.Tree):
        return [x.parents(), np.array([int(x.category() == hg.TreeCategory.ComponentTree)])]
    if isinstance(x, (hg.UndirectedGraph, hg.UndirectedGraphOptimizedDelete)):
        return [np.array([x.num_vertices()])] + [np.sort(np.stack(x.edge_list()), axis=0)]
    return [np.asarray(x)]


class Edges:
    """an array indexed by the edges, or holding indices of edges"""
    def __init__(self, value, index=False):
        self.value, self.index = np.asarray(value), index


def rag_pairs(r):
    """region map, edges of the region adjacency graph and, for each base edge, the regions it separates"""
    d = hg.CptRegionAdjacencyGraph.construct(r)
    s, t = r.edge_list()
    pairs = np.sort(np.stack([s, t], axis=1), axis=1)
    em = d["edge_map"]
    order = np.lexsort(pairs.T)
    return (d["vertex_map"], pairs[order], Edges(np.where((em >= 0)[:, None], pairs[em] if len(pairs) else -1, -1)))


def mst_of(g, w):
    m = hg.minimum_spanning_tree(g, w)
    return (m, Edges(hg.CptMinimumSpanningTree.construct(m)["mst_edge_map"], True))


def tree_mst(r):
    t, a = r
    return (t, a) + ((Edges(t.mst_edge_map, True),) if hasattr(t, "mst_edge_map") else ())


ALGOS = {
    "bpt": lambda c, g, w, v: tree_mst(hg.bpt_canonical(g, w)),
    "mst": lambda c, g, w, v: mst_of(g, w),
    "qfz": lambda c, g, w, v: hg.quasi_flat_zone_hierarchy(g, w),
    "watershed": lambda c, g, w, v: hg.labelisation_watershed(g, w),
    "seeded": lambda c, g, w, v: hg.labelisation_seeded_watershed(g, w, v),
    "max_tree": lambda c, g, w, v: hg.component_tree_max_tree(g, v),
    "min_tree": lambda c, g, w, v: hg.component_tree_min_tree(g, v),
    "watershed_area": lambda c, g, w, v: hg.watershed_hierarchy_by_area(g, w),
    "watershed_volume": lambda c, g, w, v: hg.watershed_hierarchy_by_volume(g, w),
    "cut_labels": lambda c, g, w, v: hg.graph_cut_2_labelisation(g, w),
    "labels_cut": lambda c, g, w, v: Edges(hg.labelisation_2_graph_cut(g, v)),
    "rag": lambda c, g, w, v: rag_pairs(hg.make_region_adjacency_graph_from_labelisation(g, v)),
    "rag_cut": lambda c, g, w, v: rag_pairs(hg.make_region_adjacency_graph_from_graph_cut(g, w)),
    "complete": lambda c, g, w, v: tree_mst(hg.binary_partition_tree_complete_linkage(g, w.astype(np.float64))),
    "average": lambda c, g, w, v: tree_mst(hg.binary_partition_tree_average_linkage(g, w.astype(np.float64))),
    "exponential": lambda c, g, w, v: tree_mst(hg.binary_partition_tree_exponential_linkage(g, w.astype(np.float64), 0.5)),
    "single": lambda c, g, w, v: tree_mst(hg.binary_partition_tree_single_linkage(g, w)),
    "ward": lambda c, g, w, v: tree_mst(hg.binary_partition_tree_ward_linkage(g, v.astype(np.float64))),
    "mumford_shah": lambda c, g, w, v: tree_mst(hg.binary_partition_tree_MumfordShah_energy(g, v.astype(np.float64))),
    "constrained": lambda c, g, w, v: hg.constrained_connectivity_hierarchy_strong_connection(g, w),
    "weights_L1": lambda c, g, w, v: Edges(hg.weight_graph(g, v, hg.WeightFunction.L1)),
    "weights_max": lambda c, g, w, v: Edges(hg.weight_graph(g, v, hg.WeightFunction.max)),
    "sum_edges": lambda c, g, w, v: hg.accumulate_graph_edges(g, w, hg.Accumulators.sum),
    "max_vertices": lambda c, g, w, v: hg.accumulate_graph_vertices(g, v, hg.Accumulators.max),
    "bipartite": lambda c, g, w, v: np.array(hg.is_bipartite_graph(g)[0]),
}
# results which depend on the order in which equal values, or parallel edges, are met
DISTINCT = {"watershed", "seeded", "max_tree", "min_tree", "complete", "average", "exponential", "ward", "mumford_shah"}
SIMPLE = {"complete", "average", "exponential", "ward", "mumford_shah"}
REJECTS = {"bpt", "mst", "single", "constrained", "watershed_area", "watershed_volume"}


@family("algorithms", quick=900, thorough=20000)
def f7(c):
    """algorithms see a graph with removed edges as the graph without them"""
    simple = c.p(0.5)
    n, s, t = gen.graph(c, maxn=14, connected=c.p(0.8), loops=not simple, parallel=not simple)
    m = len(s)
    extra = c.ri(1, 5)
    # removable edges anywhere in the edge list, so that the rest has the same connectivity as the generated graph
    pos = np.sort(c.rng.choice(m + extra, extra, replace=False))
    keep = np.setdiff1d(np.arange(m + extra), pos)
    S, T = c.rng.integers(0, n, m + extra), c.rng.integers(0, n, m + extra)
    S[keep], T[keep] = s, t
    w = c.rng.integers(0, c.choice([2, 5, 100]), m + extra)
    if c.p(0.5):
        w = w.astype(np.float64)
    v = c.rng.integers(0, c.choice([2, 4, 10]), n)
    g = gen.make_graph(hg, n, S, T)
    for i in pos[::-1] if c.p(0.5) else pos:
        g.remove_edge(int(i))
    h = gen.make_graph(hg, n, s, t)
    c.inp(n=n, sources=S, targets=T, removed=pos, weights=w, vertex_values=v)
    c.note(n, S, T, pos, w, v)
    names = sorted(ALGOS)
    w0, v0 = w, v
    for name in [names[i] for i in c.rng.permutation(len(names))[:10]]:
        if name in SIMPLE and not simple:
            continue
        w, v = w0, v0
        if name in DISTINCT:
            w = c.rng.permutation(m + extra) if name == "watershed" or c.p(0.5) else w0 + c.rng.random(m + extra)
            v = v0 if name == "seeded" else c.rng.permutation(n) + (c.rng.random(n) if name in SIMPLE else 0)
            c.inp(weights=w, vertex_values=v)
        try:
            want = ALGOS[name](c, h, w[keep], v)
        except (RuntimeError, ValueError, IndexError) as e:
            want = None
        try:
            got = ALGOS[name](c, g, w, v)
        except (RuntimeError, ValueError, IndexError) as e:
            c.ck(want is None or name in REJECTS, "removed-edge-rejected", "%s: %s" % (name, str(e)[:200]))
            c.ev("rejected")
            continue
        if not c.ck(want is not None, "removed-edge-accepted", "%s accepts the graph with removed edges and rejects the same graph without them" % name):
            continue
        got, want = (x if isinstance(x, tuple) else (x,) for x in (got, want))
        for x, y in zip(got, want):
            if isinstance(x, Edges):
                a = x.value if x.index else x.value[keep]
                b = keep[y.value] if y.index else y.value
                c.ck(np.array_equal(a, b), "removed-edge-%s" % name, "%s want %s" % (a.tolist(), b.tolist()))
            else:
                fx, fy = flat(x), flat(y)
                for a, b in zip(fx, fy):
                    c.ck(a.shape == b.shape and np.array_equal(a, b), "removed-edge-%s" % name, "%s want %s" % (a.tolist(), b.tolist()))
        c.ev("algorithm:" + name)
