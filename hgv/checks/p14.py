"""P14: labellings, graph cuts, region adjacency graphs."""
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family
from hgv import oracles

UNITS = ["rag", "graph_core", "alignement", "at_accumulator"]
RULE = ("random multigraphs (isolated vertices, parallel edges, self-loops) and grids; labels with few values so that equal labels occur in several places, negative and "
        "extreme labels of every type; arbitrary edge cuts (closed or not, float, negative zero, tiny values); regions found by flood fill. "
        "Projections between a graph and its region graph use random data of every type and shape. Non-trivial: at least two regions and one edge between regions.")
ASSUMPTIONS = ["graphs up to 40 vertices (larger in thorough)"]


def instance(c, maxn=25):
    sh = None
    if c.p(0.5):
        sh = (c.ri(1, 6), c.ri(1, 7))
        g = c.choice([hg.get_4_adjacency_graph, hg.get_8_adjacency_graph])(sh)
        n = g.num_vertices()
        s, t = [x.copy() for x in g.edge_list()]
    else:
        n, s, t = gen.graph(c, connected=c.p(0.5), maxn=maxn)
        g = gen.make_graph(hg, n, s, t)
    return n, s, t, g, sh


def labels_of(c, n):
    dt = np.dtype(c.choice([np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.uint32, np.uint64]))
    k = c.choice([1, 2, 2, 3, 6, n + 1])
    lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
    pool = c.choice([list(range(k)), [lo, hi, 0, 1], [hi - i for i in range(k)], [0, -1] if lo < 0 else [0, 1]])
    return np.array([pool[c.ri(0, len(pool) - 1)] for _ in range(n)], dtype=dt)


def check_rag(c, n, s, t, rag, same, vm, em, key):
    """same: boolean per edge: joins its ends; regions are the components of these edges"""
    comp = gen.components(n, s, t, same)
    c.ck(len(vm) == n and len(em) == len(s), key + "-sizes")
    c.ck(gen.same_partition(vm, comp), key + "-regions", "%s expected %s" % (vm.tolist(), comp.tolist()))
    k = len(set(comp.tolist()))
    c.ck(rag.num_vertices() == k and sorted(set(vm.tolist())) == list(range(k)), key + "-vertices", "%d %s" % (rag.num_vertices(), vm.tolist()))
    rs, rt = rag.edge_list()
    want = {}
    for e in range(len(s)):
        a, b = vm[s[e]], vm[t[e]]
        if a == b:
            c.ck(em[e] == -1, key + "-inner-edge", "edge %d inside region %d maps to %d" % (e, a, em[e]))
        else:
            q = (min(a, b), max(a, b))
            c.ck(0 <= em[e] < rag.num_edges(), key + "-edge-map", "edge %d maps to %d" % (e, em[e]))
            c.ck((min(rs[em[e]], rt[em[e]]), max(rs[em[e]], rt[em[e]])) == q, key + "-edge-ends", "edge %d %s rag edge %s" % (e, q, (rs[em[e]], rt[em[e]])))
            c.ck(want.setdefault(q, em[e]) == em[e], key + "-one-edge", "two edges between regions %s" % (q,))
    c.ck(rag.num_edges() == len(want), key + "-num-edges", "%d expected %d" % (rag.num_edges(), len(want)))
    return k, len(want)


@family("labelisation", quick=5000)
def labelisation(c):
    n, s, t, g, sh = instance(c)
    lab = labels_of(c, n)
    c.inp(n=n, s=s, t=t, labels=lab, shape=sh)
    la = lab.reshape(sh) if sh and c.p(0.7) else lab
    same = lab[s] == lab[t]
    c.note(n, s, t, lab, nontrivial=not same.all())
    before = la.copy()
    rag = hg.make_region_adjacency_graph_from_labelisation(g, gen.layout(c, la) if la.size > 1 else la)
    c.eq(la, before, "labels-modified")
    vm = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(rag)).ravel()
    em = np.asarray(hg.CptRegionAdjacencyGraph.get_edge_map(rag)).ravel()
    k, m = check_rag(c, n, s, t, rag, same, vm, em, "labels")
    c.ck(hg.CptRegionAdjacencyGraph.get_pre_graph(rag) is g, "pre-graph")
    c.ev("regions", k)
    c.ev("region-edges", m)
    cut = np.asarray(hg.labelisation_2_graph_cut(g, la))
    c.ck(cut.shape == (len(s),), "cut-shape")
    c.eq(cut != 0, ~same, "labels-to-cut")
    back = np.asarray(hg.graph_cut_2_labelisation(g, cut))
    c.ck(back.shape == (sh or (n,)), "cut-to-labels-shape", str(back.shape))
    c.ck(gen.same_partition(back.ravel(), gen.components(n, s, t, same)), "round-trip", str(back))
    rag2 = hg.make_region_adjacency_graph_from_graph_cut(g, cut)
    c.ck(gen.same_partition(np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(rag2)).ravel(), vm), "labels-cut-same-regions")


@family("cut", quick=5000)
def cut(c):
    n, s, t, g, sh = instance(c)
    dt = gen.dtype(c)
    p = c.choice([0, 0.1, 0.3, 0.6, 1])
    w = gen.values(c, len(s), dt)
    w = np.where(c.rng.random(len(s)) < p, w, 0).astype(dt)
    if dt.kind == "f" and len(w) and c.p(0.4):
        w[c.rng.integers(0, len(w), 3)] = [-0.0, 1e-30, -1e-30]
    c.inp(n=n, s=s, t=t, w=w, shape=sh)
    same = w == 0
    c.note(n, s, t, w, nontrivial=not same.all() and same.any())
    wl = gen.layout(c, w) if len(w) > 1 else w
    lab = np.asarray(hg.graph_cut_2_labelisation(g, wl))
    c.ck(lab.shape == (sh or (n,)), "cut-labels-shape", str(lab.shape))
    comp = gen.components(n, s, t, same)
    c.ck(gen.same_partition(lab.ravel(), comp), "cut-labels", str(lab))
    c.ck(sorted(set(lab.ravel().tolist())) == list(range(1, len(set(comp.tolist())) + 1)), "cut-labels-range", str(lab))
    rag = hg.make_region_adjacency_graph_from_graph_cut(g, wl)
    vm = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(rag)).ravel()
    em = np.asarray(hg.CptRegionAdjacencyGraph.get_edge_map(rag)).ravel()
    k, m = check_rag(c, n, s, t, rag, same, vm, em, "cut")
    c.ev("regions", k)
    c.ev("region-edges", m)
    c.ev("open-cut-edges", int(np.sum((w != 0) & (vm[s] == vm[t]))))


@family("weights", quick=5000)
def weights(c):
    n, s, t, g, sh = instance(c, 15)
    if c.p(0.5):
        lab = labels_of(c, n)
        rag = hg.make_region_adjacency_graph_from_labelisation(g, lab)
    else:
        rag = hg.make_region_adjacency_graph_from_graph_cut(g, (c.rng.random(len(s)) < 0.4).astype(np.uint8))
    vm = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(rag)).ravel()
    em = np.asarray(hg.CptRegionAdjacencyGraph.get_edge_map(rag)).ravel()
    nv, ne = rag.num_vertices(), rag.num_edges()
    dt = gen.dtype(c)
    tail = c.choice([(), (), (2,), (1,), (3, 2)])
    k = int(np.prod(tail, dtype=int))
    c.inp(n=n, s=s, t=t, vertex_map=vm, edge_map=em, shape=sh)
    rv = gen.values(c, nv * k, dt).reshape((nv,) + tail)
    c.note(n, s, t, vm, em, rv, nontrivial=ne > 0)
    r = np.asarray(hg.rag_back_project_vertex_weights(rag, gen.layout(c, rv) if rv.size > 1 else rv))
    flat = (n,) + tail
    want = flat if sh is None or flat[:len(sh)] == sh else sh + tail
    c.ck(r.shape == want and r.dtype == dt, "back-vertex-shape", "%s %s expected %s" % (r.shape, r.dtype, want))
    c.eq(r.reshape(flat), rv[vm], "back-vertex")
    re_ = gen.values(c, ne * k, dt).reshape((ne,) + tail)
    r = np.asarray(hg.rag_back_project_edge_weights(rag, gen.layout(c, re_) if re_.size > 1 else re_))
    c.ck(r.shape == (len(s),) + tail and r.dtype == dt, "back-edge-shape", "%s %s" % (r.shape, r.dtype))
    exp = np.zeros((len(s),) + tail, dt)
    exp[em >= 0] = re_[em[em >= 0]]
    c.eq(r, exp, "back-edge")
    c.ev("projected", n + len(s))
    # accumulation
    acc = c.choice(["sum", "min", "max", "counter", "mean", "first", "last"])
    A = getattr(hg.Accumulators, acc)
    dt2 = np.dtype(np.float64 if acc == "mean" else c.choice([np.int64, np.int32, np.float64]))

    def ref(idx, v, size):
        out = []
        for i in range(size):
            x = [float(v[j]) for j in range(len(idx)) if idx[j] == i]
            out.append({"sum": sum, "min": min, "max": max, "counter": len, "mean": lambda q: sum(q) / len(q), "first": lambda q: q[0], "last": lambda q: q[-1]}[acc](x))
        return np.array(out, float)
    v = c.rng.integers(-50, 50, n).astype(dt2)
    r = np.asarray(hg.rag_accumulate_on_vertices(rag, A, v.reshape(sh) if sh and c.p(0.5) else v))
    c.ck(r.shape[0] == nv, "acc-vertex-shape", str(r.shape))
    c.close(r.astype(float), ref(vm, v, nv), "acc-vertex")
    if len(s):
        v = c.rng.integers(-50, 50, len(s)).astype(dt2)
        r = np.asarray(hg.rag_accumulate_on_edges(rag, A, v))
        c.ck(r.shape[0] == ne, "acc-edge-shape", "%s for %d edges" % (r.shape, ne))
        c.close(r.astype(float), ref(em, v, ne), "acc-edge")


@family("projection", quick=5000)
def projection(c):
    k = c.ri(1, 40)
    nf, nc = c.ri(1, 6), c.ri(1, 6)
    f = c.rng.integers(0, nf, k)
    co = c.rng.integers(0, nc, k) if c.p(0.6) else np.minimum(f, nc - 1)
    if c.p(0.3):
        # refinement
        m = c.rng.integers(0, nc, nf)
        co = m[f]
    f = f.astype(c.choice([np.int64, np.int32, np.uint8, np.uint64]))
    co = co.astype(c.choice([np.int64, np.int32, np.uint8, np.int16]))
    given = c.p(0.5)
    c.inp(fine=f, coarse=co, nf=nf, nc=nc, given=given)
    c.note(f, co, nf, nc, given, nontrivial=nf > 1 and nc > 1)
    r = np.asarray(hg.project_fine_to_coarse_labelisation(f, co, *((nf, nc) if given else ())))
    size = nf if given else int(f.max()) + 1
    c.ck(r.shape == (size,), "projection-size", str(r.shape))
    lim = nc if given else int(co.max()) + 1
    for i in range(size):
        cnt = [int(np.sum((f == i) & (co == j))) for j in range(lim)]
        c.ck(0 <= r[i] < lim and cnt[int(r[i])] == max(cnt), "projection", "fine %d -> %d, overlaps %s" % (i, r[i], cnt))
    c.ev("projected-regions", size)


@family("rag-projection", quick=1500)
def rag_projection(c):
    n, s, t, g, sh = instance(c)
    la, lb = c.rng.integers(0, 5, n), c.rng.integers(0, 2, n)
    ra, rb = [hg.make_region_adjacency_graph_from_labelisation(g, x) for x in (la, lb)]
    va, vb = [np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(x)).ravel() for x in (ra, rb)]
    c.inp(n=n, s=s, t=t, fine=la, coarse=lb)
    c.note(n, s, t, la, lb, nontrivial=ra.num_vertices() > 1)
    r = np.asarray(hg.project_fine_to_coarse_rag(ra, rb))
    c.ck(r.shape == (ra.num_vertices(),), "rag-projection-size")
    for i in range(len(r)):
        cnt = np.bincount(vb[va == i], minlength=rb.num_vertices())
        c.ck(cnt[r[i]] == cnt.max(), "rag-projection", "region %d -> %d overlaps %s" % (i, r[i], cnt))


@family("large", quick=10, heavy=True)
def large(c):
    sh = (c.ri(30, 120), c.ri(30, 120))
    g = hg.get_4_adjacency_graph(sh)
    s, t = [x.copy() for x in g.edge_list()]
    n = g.num_vertices()
    lab = c.rng.integers(0, 3, n).astype(np.int32)
    c.inp(shape=sh, labels=lab)
    c.note(sh, lab)
    rag = hg.make_region_adjacency_graph_from_labelisation(g, lab.reshape(sh))
    vm = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(rag)).ravel()
    em = np.asarray(hg.CptRegionAdjacencyGraph.get_edge_map(rag)).ravel()
    check_rag(c, n, s, t, rag, lab[s] == lab[t], vm, em, "large")
    c.ev("regions", rag.num_vertices())


@family("rejected", quick=200, asan=200)
def rejected(c):
    n, s, t, g, sh = instance(c, 10)
    lab = c.rng.integers(0, 3, n)
    c.note(n, s, t, lab)
    c.raises(lambda: hg.make_region_adjacency_graph_from_labelisation(g, np.append(lab, 0)), "labels-size")
    c.raises(lambda: hg.labelisation_2_graph_cut(g, np.append(lab, 0)), "labels-size")
    c.raises(lambda: hg.make_region_adjacency_graph_from_graph_cut(g, np.zeros(len(s) + 1)), "cut-size")
    c.raises(lambda: hg.graph_cut_2_labelisation(g, np.zeros(len(s) + 1)), "cut-size")
    c.raises(lambda: hg.graph_cut_2_labelisation(g, np.zeros((len(s) + 1, 2))), "cut-2d")
    rag = hg.make_region_adjacency_graph_from_labelisation(g, lab)
    c.raises(lambda: hg.rag_back_project_vertex_weights(rag, np.zeros(rag.num_vertices() + 1)), "back-size")
    c.raises(lambda: hg.rag_back_project_edge_weights(rag, np.zeros(rag.num_edges() + 1)), "back-size")
    c.raises(lambda: hg.rag_accumulate_on_vertices(rag, hg.Accumulators.sum, np.zeros(n + 1)), "acc-size")
    c.raises(lambda: hg.rag_accumulate_on_edges(rag, hg.Accumulators.sum, np.zeros(len(s) + 1)), "acc-size")
    c.raises(lambda: hg.project_fine_to_coarse_labelisation(lab, np.append(lab, 0)), "projection-size")
    c.raises(lambda: hg.project_fine_to_coarse_labelisation(lab - 1 - lab.max(), lab), "projection-negative")
    c.raises(lambda: hg.project_fine_to_coarse_labelisation(lab, lab, max(1, int(lab.max())) if lab.max() else 1, 1) if lab.max() else 1 / 0, "projection-range")
