"""P19: assessment measures against direct enumeration."""
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["fragmentation_curve", "partition", "tree_attributes", "tree_accumulators", "horizontal_cuts", "graph_accumulator", "tree", "rag", "hierarchy_core", "at_accumulator", "sorting", "common", "graph_core"]
RULE = ("random trees, binary trees for optimal cuts, hierarchies on region adjacency graphs; random labellings with renumbered, unused and large labels in every integer type; several ground truths. "
        "Oracles enumerate all pairs of leaves, all edges, all regions and (small trees) all cuts. Non-trivial: at least two classes and two inner nodes.")
ASSUMPTIONS = ["the optimal-cut curve is normalised by the number of leaves of the hierarchy, as fixed by the test suite", "labels are not negative (except for dendrogram purity)"]
MEASURES = ["BCE", "DHamming", "DCovering"]


def score(measure, cells, cand, gt):
    """cells: dict (candidate region, ground truth region) -> intersection; unnormalised score and per region scores"""
    res = {}
    for i in cand:
        l = [(j, cells[(i, j)]) for j in gt if cells.get((i, j))]
        if measure == "BCE":
            res[i] = sum(x * min(x / gt[j], x / cand[i]) for j, x in l)
        elif measure == "DHamming":
            res[i] = max(x for _, x in l)
        else:
            res[i] = cand[i] * max(x / (cand[i] + gt[j] - x) for j, x in l)
    return res


def count(a, b):
    cells, ca, cb = {}, {}, {}
    for x, y in zip(a.tolist(), b.tolist()):
        cells[(x, y)] = cells.get((x, y), 0) + 1
        ca[x] = ca.get(x, 0) + 1
        cb[y] = cb.get(y, 0) + 1
    return cells, ca, cb


def labelling(c, n, dt=None, k=None):
    k = k or c.choice([1, 2, 3, 5, max(1, n // 2), n])
    l = c.rng.integers(0, k, n)
    how = c.choice(["dense", "dense", "perm", "gaps"])
    _, l = np.unique(l, return_inverse=True)
    if how == "perm":
        l = c.rng.permutation(int(l.max()) + 1)[l]
    elif how == "gaps":
        l = np.sort(c.rng.choice(100, int(l.max()) + 1, replace=False))[l]
    return l.astype(dt or c.choice([np.int64, np.int32, np.uint8, np.int16, np.int8, np.uint64, np.uint16, np.uint32]))


@family("partition", quick=2500)
def partition(c):
    sh = c.choice([(c.ri(1, 30),), (c.ri(1, 5), c.ri(1, 7)), (2, 3, 2)])
    n = int(np.prod(sh))
    a = labelling(c, n)
    k = c.ri(1, 3)
    gts = [labelling(c, n, a.dtype) if c.p(0.8) else a.copy() for _ in range(k)]
    many = k > 1 or c.p(0.3)
    m = c.choice(MEASURES)
    c.inp(candidate=a, gts=gts, measure=m, shape=sh)
    c.note(a, *gts, m, nontrivial=len(set(a.tolist())) > 1)
    gt = np.stack([x.reshape(sh) for x in gts]) if many else gts[0].reshape(sh)
    r = hg.assess_partition(gen.layout(c, a.reshape(sh)), gen.layout(c, gt), getattr(hg.PartitionMeasure, m))
    want = np.mean([sum(score(m, *count(a, x)).values()) / n for x in gts])
    c.close(r, want, "assess-partition", m)
    c.ck(0 <= r <= 1 + 1e-9, "range", repr(r))
    if all(gen.same_partition(a, x) for x in gts):
        c.close(r, 1.0, "identical-partitions", m)
        c.ev("identical")
    # renumbering changes nothing
    p = c.rng.permutation(100)
    b = p[a.astype(np.int64)].astype(np.int64)
    r2 = hg.assess_partition(b.reshape(sh), gt.astype(np.int64), getattr(hg.PartitionMeasure, m))
    c.close(r2, r, "renumbering", m)
    c.ev(m)


@family("purity", quick=3000)
def purity(c):
    n = gen.size(c, 2, 25)
    p = gen.parents(c, nleaves=n)
    lab = labelling(c, n, c.choice([np.int64, np.int32, np.int8, np.uint8, np.uint16]))
    if lab.dtype.kind == "i" and c.p(0.4):
        lab = (lab - 3).astype(lab.dtype)
    t = hg.Tree(p.copy())
    if c.p(0.3):
        # the hierarchy is built on a region graph: leaves are regions of different sizes
        base = np.concatenate((np.arange(n), c.rng.integers(0, n, c.ri(0, 20))))
        g = hg.UndirectedGraph(len(base))
        if len(base) > 1:
            g.add_edges(np.arange(len(base) - 1), np.arange(1, len(base)))
        rag = hg.make_region_adjacency_graph_from_labelisation(g, c.rng.permutation(base))
        if rag.num_vertices() == n:
            hg.CptHierarchy.link(t, rag)
            c.ev("on-region-graph")
    elif c.p(0.3):
        g = hg.UndirectedGraph(n)
        hg.CptHierarchy.link(t, g)
    c.inp(parents=p, labels=lab)
    c.note(p, lab, nontrivial=len(p) > n + 1 and len(set(lab.tolist())) > 1)
    below = gen.leaves_below(p)
    num, Z = 0.0, 0
    for a in range(n):
        for b in range(a):
            if lab[a] == lab[b]:
                i = min(i for i in range(len(p)) if a in below[i] and b in below[i])
                num += np.mean(lab[below[i]] == lab[a])
                Z += 1
    if not Z:
        return
    c.ev("pairs", Z)
    r = hg.dendrogram_purity(t, lab)
    c.close(r, num / Z, "purity")
    c.ck(0 <= r <= 1 + 1e-9, "purity-range", repr(r))


@family("graph-costs", quick=3000)
def graph_costs(c):
    n, s, tt = gen.graph(c, n=c.ri(2, 15), connected=c.p(0.7), loops=False)
    if not len(s):
        return
    g = gen.make_graph(hg, n, s, tt)
    p = gen.parents(c, nleaves=n)
    t = hg.Tree(p.copy())
    w = (gen.values(c, len(s), np.float64, nonneg=True) + 1).astype(c.choice([np.float64, np.float32, np.int32, np.uint8]))
    area = np.ones(n)
    given = c.p(0.5)
    if given:
        hg.CptHierarchy.link(t, g)
    c.inp(n=n, s=s, t=tt, w=w, parents=p)
    c.note(n, s, tt, w, p, nontrivial=len(p) > n + 1)
    below = [set(x) for x in gen.leaves_below(p)]

    def small(a, b):
        return min(i for i in range(len(p)) if a in below[i] and b in below[i])
    l = [small(s[k], tt[k]) for k in range(len(s))]
    kw = {} if given else {"leaf_graph": g}
    f = w.astype(float)
    d = sum(len(below[l[k]]) / f[k] for k in range(len(s)))
    sm = sum(len(below[l[k]]) * f[k] for k in range(len(s)))
    c.close(hg.dasgupta_cost(t, w, **kw), d, "dasgupta-default", rtol=1e-5)
    c.close(hg.dasgupta_cost(t, w, mode="dissimilarity", **kw), d, "dasgupta-dissimilarity", rtol=1e-5)
    c.close(hg.dasgupta_cost(t, w, mode="similarity", **kw), sm, "dasgupta-similarity", rtol=1e-5)
    c.raises(lambda: hg.dasgupta_cost(t, w, mode="x", **kw), "dasgupta-mode")
    Z = f.sum()
    P, Q, pv = np.zeros(len(p)), np.zeros(len(p)), np.zeros(n)
    for k in range(len(s)):
        P[l[k]] += f[k] / Z
        pv[s[k]] += f[k] / Z
        pv[tt[k]] += f[k] / Z
    for a in range(n):
        for b in range(a):
            Q[small(a, b)] += pv[a] * pv[b]
    k = P > 0
    tsd = (P[k] * np.log(P[k] / Q[k])).sum()
    c.close(hg.tree_sampling_divergence(t, f, **kw), tsd, "divergence", rtol=1e-7)
    c.ev("edges", len(s))


def rag_or_not(c, p, nl):
    """tree, ground truth size, leaf of each base vertex, keyword arguments"""
    t = hg.Tree(p.copy())
    r = c.p(0.35)
    if not r:
        if c.p(0.4):
            hg.CptHierarchy.link(t, hg.UndirectedGraph(nl))
        return t, np.arange(nl), {}
    vm = c.rng.permutation(np.concatenate((np.arange(nl), c.rng.integers(0, nl, c.ri(1, 25)))))
    if c.p(0.5):
        return t, vm, {"vertex_map": vm.astype(c.choice([np.int64, np.int32]))}
    g = hg.UndirectedGraph(len(vm))
    order = np.argsort(vm, kind="stable")  # regions are connected
    g.add_edges(order[:-1], order[1:])
    rag = hg.make_region_adjacency_graph_from_labelisation(g, vm)
    k = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(rag)).ravel()
    hg.CptHierarchy.link(t, rag)
    c.ev("on-region-graph")
    return t, k, {}


def node_scores(measure, below, leaf, gt):
    """unnormalised score of each node"""
    areas = {}
    for y in gt.tolist():
        areas[y] = areas.get(y, 0) + 1
    res = []
    for b in below:
        k = set(b)
        ins = gt[[i for i in range(len(gt)) if leaf[i] in k]]
        cells, ca, _ = count(np.zeros(len(ins), int), ins)
        res.append(score(measure, cells, ca, areas)[0])
    return res


@family("optimal-cuts", quick=3000)
def optimal_cuts(c):
    nl = gen.size(c, 1, 20)
    p = gen.parents(c, nleaves=nl, unary=False, binary=True)
    ch, nl, _ = gen.tree_info(p)
    n = len(p)
    t, leaf, kw = rag_or_not(c, p, nl)
    gt = labelling(c, len(leaf))
    m = c.choice(MEASURES)
    mr = c.choice([None, None, 1, 2, c.ri(1, nl + 3)])
    c.inp(parents=p, leaf=leaf, gt=gt, measure=m, max_regions=mr)
    c.note(p, leaf, gt, m, mr, nontrivial=nl > 2 and len(set(gt.tolist())) > 1)
    if mr is not None:
        kw["max_regions"] = mr
    a = hg.make_assesser_fragmentation_optimal_cut(t, gen.layout(c, gt) if len(gt) > 1 else gt, getattr(hg.OptimalCutMeasure, m), **kw)
    below = gen.leaves_below(p)
    sc = node_scores(m, below, leaf, gt)
    K = min(nl, mr or 200)
    # best score with exactly k regions
    best = [None] * n
    for i in range(n):
        b = {1: sc[i]}
        if ch[i]:
            x, y = [best[k] for k in ch[i]]
            for k1, v1 in x.items():
                for k2, v2 in y.items():
                    if k1 + k2 <= K:
                        b[k1 + k2] = max(b.get(k1 + k2, -1), v1 + v2)
        best[i] = b
    want = np.array([best[n - 1][k] for k in range(1, K + 1)]) / nl
    f = a.fragmentation_curve()
    if c.p(0.3):
        f = hg.assess_fragmentation_optimal_cut(t, gt, getattr(hg.OptimalCutMeasure, m), **kw)
    c.eq(np.asarray(f.num_regions()), np.arange(1, K + 1), "curve-regions")
    c.close(np.asarray(f.scores()), want, "curve-scores", m)
    k = len(set(gt.tolist()))
    c.ck(f.num_regions_ground_truth() == k, "ground-truth-regions", "%r expected %d" % (f.num_regions_ground_truth(), k))
    c.close(np.asarray(f.num_regions_normalized()), np.arange(1, K + 1) / k, "curve-normalized")
    c.close(a.optimal_score(), want.max(), "optimal-score")
    o = a.optimal_number_of_regions()
    c.ck(1 <= o <= K and abs(want[o - 1] - want.max()) <= 1e-9, "optimal-number", "%d scores %s" % (o, want))
    nodes = {tuple(b): i for i, b in enumerate(below)}
    for q in sorted(set([0, o, c.ri(1, K), K])):
        lab = np.asarray(a.optimal_partition(q))
        c.ck(lab.shape == (nl,), "partition-shape")
        regs = [tuple(np.flatnonzero(lab == x).tolist()) for x in set(lab.tolist())]
        c.ck(all(x in nodes for x in regs), "partition-not-a-cut", str(regs))
        c.ck(len(regs) == (q or o), "partition-size", "%d expected %d" % (len(regs), q or o))
        v = sum(sc[nodes[x]] for x in regs) / nl
        c.ck(abs(v - want[(q or o) - 1]) <= 1e-9, "partition-score", "k=%d %r expected %r" % (q, v, want[(q or o) - 1]))
        c.ev("partitions")
    if c.p(0.1):
        c.raises(lambda: a.optimal_partition(K + c.ri(1, 1000)), "too-many-regions")
    if c.p(0.05):
        p2 = np.array([3, 3, 3, 3])
        c.raises(lambda: hg.make_assesser_fragmentation_optimal_cut(hg.Tree(p2), np.array([0, 1, 2]), hg.OptimalCutMeasure.BCE), "not-binary")


@family("horizontal-cuts", quick=3000)
def horizontal_cuts(c):
    p = gen.parents(c, maxleaves=20)
    ch, nl, _ = gen.tree_info(p)
    n = len(p)
    t, leaf, kw = rag_or_not(c, p, nl)
    dt = gen.dtype(c)
    alt = np.zeros(n)
    top = c.choice([1, 2, 4])
    for i in range(nl, n):
        alt[i] = max([alt[x] for x in ch[i] if x >= nl] + [0]) + c.ri(0, top)
    alt = np.minimum(alt, 100)
    if dt.kind == "f":
        alt = alt / 4
    alt = alt.astype(dt)
    gt = labelling(c, len(leaf))
    m = c.choice(MEASURES)
    mr = c.choice([None, None, 1, 2, c.ri(1, nl + 3)])
    c.inp(parents=p, altitudes=alt, leaf=leaf, gt=gt, measure=m, max_regions=mr)
    c.note(p, alt, leaf, gt, m, mr, nontrivial=n > nl + 1 and len(set(gt.tolist())) > 1)
    if mr is not None:
        kw["max_regions"] = mr
    f = hg.assess_fragmentation_horizontal_cut(t, gen.layout(c, alt) if n > 1 else alt, gt, getattr(hg.PartitionMeasure, m), **kw)
    below = gen.leaves_below(p)
    # all horizontal cuts: largest regions of altitude at most a level (leaves otherwise), from coarse to fine
    sc = node_scores(m, below, leaf, gt)
    cuts = []
    a = alt.astype(float)
    for lev in sorted(set(a.tolist()), reverse=True):
        regs = [i for i in range(n) if (i < nl or a[i] <= lev) and (i == n - 1 or a[p[i]] > lev)]
        if len(regs) <= min(nl, mr or 200):
            cuts.append((len(regs), sum(sc[i] for i in regs) / len(gt)))
    ks = [k for k, _ in cuts]
    c.eq(np.asarray(f.num_regions()).astype(int), np.array(ks), "horizontal-regions")
    c.close(np.asarray(f.scores()), np.array([x for _, x in cuts]), "horizontal-scores", m)
    k = len(set(gt.tolist()))
    c.ck(f.num_regions_ground_truth() == k, "horizontal-ground-truth-regions", "%r expected %d" % (f.num_regions_ground_truth(), k))
    c.close(np.asarray(f.num_regions_normalized()), np.array(ks) / k, "horizontal-normalized")
    c.ev("cuts", len(ks))
