"""P15: horizontal cuts, leaf data reconstruction, super-vertices, marker labelisation."""
import gc
import numpy as np
import higra as hg
from hgv import gen, order
from hgv.core import family

UNITS = ["horizontal_cuts", "tree", "hierarchy_core", "graph_core", "rag", "tree_accumulators", "at_accumulator"]
RULE = ("random trees of all shapes (unary nodes, unsorted altitudes, ties, zero altitudes, every numeric type), alone or attached to a grid, a graph or a region adjacency "
        "graph; cuts found by scanning the ancestors of each leaf. Every cut of the explorer is compared with the naive list of threshold partitions; requests by "
        "altitude and number of regions lie below, between, on and above available values. Non-trivial: tree with at least two distinct positive altitudes. Family limits: the same ranks are given as small integers and as extreme or neighbouring values of every type (infinities, subnormals, largest integers): results must correspond.")
ASSUMPTIONS = ["altitudes are exactly representable in double", "trees up to 45 leaves (larger in thorough)"]


def tree_instance(c, maxleaves=25):
    """parents, tree, list of children, number of leaves, leaf graph kind"""
    par = gen.parents(c, maxleaves=maxleaves)
    ch, nl, depth = gen.tree_info(par)
    return par, ch, nl


def altitudes(c, par, nl, lo=0, dtype=None, leaves0=True):
    """non decreasing altitudes with ties"""
    n = len(par)
    dt = np.dtype(dtype or c.choice([np.float64, np.float64, np.int64, np.int32, np.uint8, np.uint16, np.float32, np.int8]))
    style = c.ri(0, 3)
    a = np.zeros(n)
    if style == 0:        # depth like
        a[:nl] = 0
        for i in range(nl, n):
            a[i] = c.ri(0, 3)
        inc = a.copy()
        a[nl:] = 0
        for i in range(n):
            if par[i] != i:
                p = par[i]
                a[p] = max(a[p], a[i] + inc[p])
    elif style == 1:      # levels, sorted by index
        a[nl:] = np.sort(c.rng.integers(0, c.choice([1, 3, 30]) + 1, n - nl))
    elif style == 2:
        a[nl:] = c.rng.integers(0, 4, n - nl)
        for i in range(n):
            a[par[i]] = max(a[par[i]], a[i])
    else:
        a[nl:] = c.ri(0, 3)
    if dt.kind == "f":
        a = a * c.choice([1, 0.25, 2.0 ** 20])
    if lo and dt.kind != "u":
        a = a - c.ri(0, lo)
        if not leaves0:
            a[:nl] = a.min() - c.ri(0, 1)
    if dt.itemsize == 1:
        a = np.minimum(a, 120)
    return a.astype(dt)


def cut_nodes(par, nl, a, lam):
    """for each leaf the largest ancestor (or itself) with altitude <= lam; leaf itself if none"""
    out = []
    for x in range(nl):
        best, i = x, x
        while True:
            if a[i] <= lam:
                best = i
            if par[i] == i:
                break
            i = par[i]
        out.append(int(best))
    return out


def same_part(c, lab, ref, key):
    c.ck(len(lab) == len(ref) and gen.same_partition(lab, ref), key, "labels %s expected partition %s" % (list(lab), list(ref)))


def attach(c, t, nl):
    """link a leaf graph: returns (graph, shape of leaf data, edges)"""
    k = c.ri(0, 2)
    if k == 0 or nl < 2:
        n, s, tt = gen.graph(c, n=nl, connected=False)
        g = gen.make_graph(hg, n, s, tt)
        sh = (nl,)
    else:
        d = [i for i in range(1, nl + 1) if nl % i == 0]
        h = c.choice(d)
        g = hg.get_4_adjacency_graph((h, nl // h))
        sh = (h, nl // h)
    hg.CptHierarchy.link(t, g)
    s, tt = g.edge_list()
    return g, sh, s.tolist(), tt.tolist()


@family("explorer", quick=4000)
def explorer(c):
    par, ch, nl = tree_instance(c)
    a = altitudes(c, par, nl)
    c.inp(parents=par, altitudes=a)
    t = hg.Tree(par.copy())
    g, sh, es, et = attach(c, t, nl)
    f = a.astype(float)
    levels = sorted(set(f.tolist()), reverse=True)
    ref = [cut_nodes(par, nl, f, lam) for lam in levels]
    nreg = [len(set(r)) for r in ref]
    c.note(par, a, nontrivial=len(levels) > 2)
    c.ev("cuts", len(levels))
    x = hg.HorizontalCutExplorer(t, gen.layout(c, a) if len(a) > 1 else a)
    c.ck(x.num_cuts() == len(levels), "num-cuts", "%d, levels %s" % (x.num_cuts(), levels))
    c.ck(list(x.altitude_cuts()) == levels, "altitude-cuts", "%s %s" % (list(x.altitude_cuts()), levels))
    c.ck(list(x.num_regions_cuts()) == nreg, "num-regions-cuts", "%s %s" % (list(x.num_regions_cuts()), nreg))

    def check(cut, k, key):
        nodes = np.asarray(cut.nodes()).tolist()
        c.ck(len(set(nodes)) == len(nodes) and sorted(nodes) == sorted(set(ref[k])), key + "-nodes", "%s expected %s" % (sorted(nodes), sorted(set(ref[k]))))
        c.ck(cut.altitude() == levels[k], key + "-altitude", "%r %r" % (cut.altitude(), levels[k]))

    for k in range(len(levels)):
        c.ck(x.num_regions_cut(k) == nreg[k] and x.altitude_cut(k) == levels[k], "cut-info")
        cut = x.horizontal_cut_from_index(k)
        check(cut, k, "index")
        lab = cut.labelisation_leaves(t)
        c.ck(lab.shape == sh, "labels-shape", str(lab.shape))
        same_part(c, lab.ravel(), ref[k], "labels")
        gc_ = cut.graph_cut(t)
        c.eq(np.asarray(gc_) != 0, np.array([ref[k][p] != ref[k][q] for p, q in zip(es, et)], bool), "graph-cut")
        r = cut.reconstruct_leaf_data(t, a)
        c.ck(r.shape == sh and r.dtype == a.dtype, "reconstruct-shape", "%s %s" % (r.shape, r.dtype))
        c.eq(np.asarray(r).ravel(), a[np.array(ref[k])], "reconstruct")
        d = c.rng.integers(0, 100, (len(par), 2))
        rd = cut._reconstruct_leaf_data(t, d)
        c.eq(rd, d[np.array(ref[k])], "reconstruct-2d")
    tests = levels + [l + 0.125 for l in levels] + [l - 0.125 for l in levels] + [-1, 1e9]
    for lam in tests:
        ks = [k for k in range(len(levels)) if levels[k] <= lam]
        check(x.horizontal_cut_from_altitude(lam), ks[0] if ks else len(levels) - 1, "from-altitude")
    for q in sorted(set(nreg + [0, 1, nl, nl + 1] + [c.ri(1, nl + 1) for _ in range(3)])):
        for least in (True, False):
            if least:
                ks = [n for n in nreg if n >= q]
                want = min(ks) if ks else max(nreg)
            else:
                ks = [n for n in nreg if n <= q]
                want = max(ks) if ks else min(nreg)
            cut = x.horizontal_cut_from_num_regions(q, least) if c.p(0.7) or not least else x.horizontal_cut_from_num_regions(q)
            nodes = np.asarray(cut.nodes()).tolist()
            ok = [k for k in range(len(levels)) if nreg[k] == want]
            c.ck(any(sorted(nodes) == sorted(set(ref[k])) and cut.altitude() == levels[k] for k in ok), "from-num-regions", "%d at_least=%s: %s" % (q, least, nodes))
            if least or q >= 1:
                lab = hg.labelisation_horizontal_cut_from_num_regions(t, a, q, "at_least" if least else "at_most")
                c.ck(lab.shape == sh, "num-regions-shape", str(lab.shape))
                c.ck(any(gen.same_partition(lab.ravel(), ref[k]) for k in ok), "labelisation-num-regions", "%d at_least=%s: %s" % (q, least, lab.ravel().tolist()))


@family("threshold", quick=6000)
def threshold(c):
    par, ch, nl = tree_instance(c)
    a = altitudes(c, par, nl, lo=c.choice([0, 3]), leaves0=c.p(0.5))
    if not np.all(a <= a[par]):
        return
    f = a.astype(float)
    lam = float(c.choice(f.tolist() + [c.ri(-4, 8), c.ri(-4, 8) + 0.5, f.max(), f.min() - 0.5, 1e300, -1e300, np.inf, -np.inf, 1e19, -1e19, 255.5, 256]))
    t = hg.Tree(par.copy())
    c.inp(parents=par, altitudes=a, threshold=lam)
    c.note(par, a, lam, nontrivial=len(set(f[nl:].tolist())) > 1)
    lg = c.p(0.5)
    sh = (nl,)
    if lg:
        g, sh, es, et = attach(c, t, nl)
    lam_ = np.float32(lam) if a.dtype == np.float32 else lam
    ref = cut_nodes(par, nl, a if a.dtype == np.float32 else f, lam_)
    lab = hg.labelisation_horizontal_cut_from_threshold(t, gen.layout(c, a) if len(a) > 1 else a, lam)
    c.ck(lab.shape == sh, "threshold-shape", str(lab.shape))
    same_part(c, lab.ravel(), ref, "threshold")
    c.ev("thresholds")


@family("supervertices", quick=3000)
def supervertices(c):
    par, ch, nl = tree_instance(c)
    a = altitudes(c, par, nl)
    t = hg.Tree(par.copy())
    c.inp(parents=par, altitudes=a)
    ref = cut_nodes(par, nl, a, 0)
    c.note(par, a, nontrivial=1 < len(set(ref)) < nl)
    sh = (nl,)
    if c.p(0.5):
        g, sh, es, et = attach(c, t, nl)
    lab = hg.labelisation_hierarchy_supervertices(t, a)
    c.ck(lab.shape == sh, "super-shape", str(lab.shape))
    same_part(c, lab.ravel(), ref, "super")
    c.ck(sorted(set(lab.ravel().tolist())) == list(range(len(set(ref)))), "super-range", str(lab.ravel().tolist()))


@family("reconstruct", quick=5000)
def reconstruct(c):
    par, ch, nl = tree_instance(c)
    comp = c.p(0.4) and nl < len(par)
    t = hg.Tree(par.copy(), hg.TreeCategory.ComponentTree if comp else hg.TreeCategory.PartitionTree)
    n = len(par)
    dt = gen.dtype(c)
    tail = c.choice([(), (), (2,), (1,), (2, 3)])
    v = gen.values(c, n * int(np.prod(tail, dtype=int)), dt).reshape((n,) + tail)
    lg = c.p(0.5)
    sh = (nl,)
    if lg:
        g, sh, es, et = attach(c, t, nl)
    de = None if c.p(0.25) else c.rng.random(n) < c.choice([0, 0.3, 0.7, 1])
    c.inp(parents=par, component=comp, values=v, deleted=de)
    c.note(par, comp, v, de, nontrivial=de is not None and 0 < de.sum() < n)
    v0, d0 = v.copy(), None if de is None else de.copy()
    r = hg.reconstruct_leaf_data(t, gen.layout(c, v) if v.size > 1 else v, *([] if de is None else [de]))
    c.eq(v, v0, "reconstruct-input")
    if de is not None:
        c.eq(de, d0, "reconstruct-input")
    flat = (nl,) + tail
    want = flat if flat[:len(sh)] == sh else sh + tail         # documented ambiguity of delinearize_vertex_weights
    c.ck(r.shape == want and r.dtype == v.dtype, "reconstruct-leaf-shape", "%s %s" % (r.shape, r.dtype))
    d = np.zeros(n, bool) if de is None else de.copy()
    if comp:
        d[:nl] = True
    r = np.asarray(r).reshape((nl,) + tail)
    for x in range(nl):
        i = x
        while d[i] and par[i] != i:
            i = par[i]
        c.eq(r[x], v[i], "reconstruct-leaf", "leaf %d node %d" % (x, i))
    c.ev("leaves", nl)


@family("markers", quick=4000)
def markers(c):
    par, ch, nl = tree_instance(c)
    t = hg.Tree(par.copy())
    below = gen.leaves_below(par)
    dt = np.dtype(c.choice([np.uint8, np.int32, np.int64, np.uint8, np.int8]))
    hi = c.choice([1, 1, 100])
    o = ((c.rng.random(nl) < c.choice([0, 0.1, 0.3])) * c.rng.integers(1, hi + 1, nl)).astype(dt)
    dt2 = dt if c.p(0.7) else np.dtype(np.int16)
    b = ((c.rng.random(nl) < c.choice([0, 0.1, 0.3, 0.6])) * c.rng.integers(1, hi + 1, nl)).astype(dt2)
    if c.p(0.2) and dt.kind == "i":
        o[o != 0] = -1
    sh = (nl,)
    oo, bb = o, b
    if c.p(0.5):
        g, sh, es, et = attach(c, t, nl)
        oo, bb = o.reshape(sh), b.reshape(sh)
    c.inp(parents=par, object=o, background=b)
    c.note(par, o, b, nontrivial=o.any() and b.any())
    lab = hg.binary_labelisation_from_markers(t, oo, bb)
    c.ck(lab.shape == sh, "markers-shape", str(lab.shape))
    res = np.zeros(nl, bool)
    for q in below:
        if any(o[x] for x in q) and not any(b[x] for x in q):
            res[q] = True
    c.eq(lab.ravel() != 0, res, "markers")
    c.ev("marked", int(res.sum()))


@family("rag", quick=2500)
def rag(c):
    """hierarchies on a region adjacency graph"""
    sh = (c.ri(1, 5), c.ri(2, 6))
    g = hg.get_4_adjacency_graph(sh)
    labels = c.rng.integers(0, c.choice([2, 3, 6]), sh)
    rg = hg.make_region_adjacency_graph_from_labelisation(g, labels)
    vm = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(rg)).ravel()
    nl = rg.num_vertices()
    par = gen.parents(c, nleaves=nl)
    a = altitudes(c, par, nl)
    t = hg.Tree(par.copy())
    hg.CptHierarchy.link(t, rg)
    f = a.astype(float)
    levels = sorted(set(f.tolist()), reverse=True)
    c.inp(shape=sh, labels=labels, parents=par, altitudes=a)
    c.note(sh, labels, par, a, nontrivial=len(levels) > 2)
    x = hg.HorizontalCutExplorer(t, a)
    k = c.ri(0, len(levels) - 1)
    ref = np.array(cut_nodes(par, nl, f, levels[k]))
    cut = x.horizontal_cut_from_index(k)
    lab = cut.labelisation_leaves(t)
    c.ck(lab.shape == sh, "rag-labels-shape", str(lab.shape))
    same_part(c, lab.ravel(), ref[vm], "rag-labels")
    same_part(c, cut.labelisation_leaves(t, handle_rag=False), ref, "rag-labels-raw")
    s, tt = g.edge_list()
    c.eq(np.asarray(cut.graph_cut(t)) != 0, ref[vm[s]] != ref[vm[tt]], "rag-graph-cut")
    rs, rt = rg.edge_list()
    c.eq(np.asarray(cut.graph_cut(t, handle_rag=False)) != 0, ref[rs] != ref[rt], "rag-graph-cut-raw")
    r = cut.reconstruct_leaf_data(t, a)
    c.ck(r.shape == sh, "rag-reconstruct-shape", str(r.shape))
    c.eq(np.asarray(r).ravel(), a[ref[vm]], "rag-reconstruct")
    c.eq(cut.reconstruct_leaf_data(t, a, handle_rag=False), a[ref], "rag-reconstruct-raw")
    sv = hg.labelisation_hierarchy_supervertices(t, a)
    c.ck(sv.shape in (sh, (sh[0] * sh[1],)), "rag-super-shape", str(sv.shape))
    c.eq(np.asarray(sv).ravel(), vm, "rag-super")
    same_part(c, hg.labelisation_hierarchy_supervertices(t, a, handle_rag=False), cut_nodes(par, nl, f, 0), "rag-super-raw")
    c.ev("rag-vertices", nl)


@family("large", quick=12, heavy=True)
def large(c):
    n = c.ri(500, 3000)
    par = gen.parents(c, nleaves=n, unary=False)
    ch, nl, depth = gen.tree_info(par)
    a = altitudes(c, par, nl)
    c.inp(parents=par, altitudes=a)
    c.note(par, a)
    t = hg.Tree(par.copy())
    x = hg.HorizontalCutExplorer(t, a)
    f = a.astype(float)
    levels = sorted(set(f.tolist()), reverse=True)
    c.ck(list(x.altitude_cuts()) == levels, "large-altitudes")
    # a node is in the cut at lam iff altitude <= lam < altitude of its parent
    for k in set(c.rng.integers(0, len(levels), 6).tolist()) | {0, len(levels) - 1}:
        lam = levels[k]
        up = np.where(np.arange(len(par)) == par, np.inf, f[par])
        ref = np.flatnonzero((f <= lam) & (up > lam))
        c.eq(np.sort(np.asarray(x.horizontal_cut_from_index(k).nodes())), ref, "large-nodes")
        c.ck(x.num_regions_cut(k) == len(ref), "large-num-regions")
    c.ev("cuts", len(levels))


@family("lifetime-and-rejection", quick=250, asan=250)
def lifetime(c):
    par, ch, nl = tree_instance(c, 10)
    a = altitudes(c, par, nl)
    c.inp(parents=par, altitudes=a)
    c.note(par, a)
    x = hg.HorizontalCutExplorer(hg.Tree(par.copy()), a)
    gc.collect()
    junk = [np.full(len(par), 7) for _ in range(8)]
    f = a.astype(float)
    levels = sorted(set(f.tolist()), reverse=True)
    for k, lam in enumerate(levels):
        c.eq(np.sort(np.asarray(x.horizontal_cut_from_index(k).nodes())), np.unique(cut_nodes(par, nl, f, lam)), "explorer-outlives-tree")
    cut = x.horizontal_cut_from_index(len(levels) - 1)
    del x, junk
    gc.collect()
    t = hg.Tree(par.copy())
    c.eq(np.sort(np.unique(cut._labelisation_leaves(t))), np.unique(cut_nodes(par, nl, f, levels[-1])), "cut-outlives-explorer")
    x = hg.HorizontalCutExplorer(t, a)
    for bad in (-1, len(levels), len(levels) + 1000):
        c.raises(lambda: x.horizontal_cut_from_index(bad), "bad-index")
        c.raises(lambda: x.altitude_cut(bad), "bad-index")
        c.raises(lambda: x.num_regions_cut(bad), "bad-index")
    if nl >= 2:
        small = hg.Tree(np.array([1, 1]))
        if max(np.asarray(x.horizontal_cut_from_index(0).nodes())) >= 2:
            c.raises(lambda: x.horizontal_cut_from_index(0)._labelisation_leaves(small), "other-tree")
        c.raises(lambda: hg.HorizontalCutExplorer(t, a[:-1]), "explorer-size")
        b = a.copy()
        b[0] = b.dtype.type(100)
        c.raises(lambda: hg.HorizontalCutExplorer(t, b), "explorer-not-increasing" if b.max() < 101 and a.max() < 100 else "explorer-leaf")
        c.raises(lambda: hg.labelisation_horizontal_cut_from_threshold(t, a[:-1], 1), "threshold-size")
        c.raises(lambda: hg.labelisation_hierarchy_supervertices(t, a[:-1]), "super-size")
        c.raises(lambda: hg.reconstruct_leaf_data(t, a[:-1], np.zeros(len(a), bool)), "reconstruct-size")
        c.raises(lambda: hg.reconstruct_leaf_data(t, a, np.zeros(len(a) - 1, bool)), "reconstruct-deleted-size")
        c.raises(lambda: hg.binary_labelisation_from_markers(t, np.zeros(nl + 1, np.uint8), np.zeros(nl, np.uint8)), "markers-size")
        c.raises(lambda: hg.binary_labelisation_from_markers(t, np.zeros(nl, np.uint8), np.zeros(nl - 1, np.uint8)), "markers-size")
        c.raises(lambda: hg.labelisation_horizontal_cut_from_num_regions(t, a, 2, "exactly"), "mode")


@family("limits", quick=1200)
def limits(c):
    """results that depend only on the order of the values: values at the limits of every type"""
    order.run(c, "P15")
