"""P20: alignment of hierarchies and tree fusion."""
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family
from hgv.oracles import minimax

UNITS = ["alignement", "tree_fusion", "hierarchy_core", "rag", "tree", "graph_core", "graph_weights", "tree_attributes", "sorting", "horizontal_cuts"]
RULE = ("random connected graphs, fine partitions into connected regions, coarse hierarchies given as trees, saliency maps, trees or weights on region "
        "adjacency graphs, compared edge by edge with the definition (largest overlap region, lowest common ancestor found naively; every maximiser is "
        "accepted on ties); label projections compared with the intersection matrix; fusion depth maps compared with the longest strict chain in the "
        "union of the node sets. Non-trivial: more than one region, or trees with different shapes.")
ASSUMPTIONS = ["altitudes are zero exactly on the supervertices, non negative and increasing", "graphs up to 25 vertices",
               "fusion: exact depth for trees without inner node made of a single leaf (known finding for these)"]


def fuse(c, trees):
    return hg.tree_fusion_depth_map(trees) if c.p(0.5) else hg.tree_fusion_depth_map(*trees)


def naive_depth(tree_sets, n):
    """length of the longest strict chain of shapes containing each vertex"""
    sets = {frozenset(s) for ss in tree_sets for s in ss}
    order = sorted(sets, key=len, reverse=True)
    d = {}
    for k, s in enumerate(order):
        d[s] = 1 + max([d[o] for o in order[:k] if len(o) > len(s) and s < o], default=-1)
    return np.array([1 + max(d[s] for s in sets if x in s) for x in range(n)])


def no_single(c, n):
    """parents of a tree without inner node made of a single leaf (unless n = 1)"""
    while True:
        par = gen.parents(c, n, unary=c.p(0.3))
        b = gen.leaves_below(par)
        if len(par) == n:
            continue
        if all(len(b[i]) > 1 for i in range(n, len(par))):
            return par


@family("fusion", quick=2500)
def fusion(c):
    n = gen.size(c, 2, 24)
    k = c.ri(2, 5)
    pars = [no_single(c, n) for _ in range(k)]
    if c.p(0.3):
        pars[-1] = pars[0]
    if c.p(0.3):
        # shapes of a permuted coarse tree
        perm = c.rng.permutation(n)
        q = pars[0].copy()
        q[:n] = pars[0][:n][perm]
        pars[-1] = q
    c.inp(trees=pars)
    c.note(n, pars, nontrivial=len({p.tobytes() for p in pars}) > 1)
    trees = tuple(hg.Tree(p) for p in pars)
    got = fuse(c, trees)
    sets = [gen.leaves_below(p)[n:] for p in pars]
    want = naive_depth(sets, n)
    c.eq(got, want, "fusion-depth")
    c.ev("shapes", sum(len(s) for s in sets))
    order = c.rng.permutation(k)
    c.eq(fuse(c, tuple(trees[i] for i in order)), want, "fusion-order")


@family("fusion_any", quick=600, asan=400)
def fusion_any(c):
    """trees with inner nodes made of a single leaf: depths are bounded by the chains with and without these nodes"""
    n = gen.size(c, 1, 16)
    k = c.ri(2, 4)
    pars = [gen.parents(c, n) for _ in range(k)]
    pars = [p if len(p) > n else np.array([1, 1]) for p in pars]
    c.inp(trees=pars)
    c.note(n, pars)
    got = fuse(c, tuple(hg.Tree(p) for p in pars))
    sets = [gen.leaves_below(p)[n:] for p in pars]
    single = [[s for s in ss if len(s) > 1 or n == 1] for ss in sets]
    lo = naive_depth(single, n)
    c.ck(got.shape == (n,), "fusion-shape")
    c.ck(bool(np.all(got >= lo)), "fusion-lower-bound", "%s %s" % (got, lo))
    without = np.array([not any(s == [x] for ss in sets for s in ss) for x in range(n)])
    if n > 1:
        c.eq(got[without], lo[without], "fusion-depth")


@family("fusion_single_order", quick=1, thorough=1, asan=1)
def fusion_single_order(c):
    """the result should not depend on the order of the trees; fixed input of a known finding"""
    t1, t2 = hg.Tree((4, 5, 5, 5, 5, 5)), hg.Tree((4, 4, 5, 5, 5, 5))
    c.note("fixed")
    c.eq(fuse(c, (t1, t2)), fuse(c, (t2, t1)), "single-leaf-shape-order")


@family("fusion_rejected", quick=60, asan=60)
def fusion_rejected(c):
    n = c.ri(2, 8)
    t = hg.Tree(no_single(c, n))
    u = hg.Tree(no_single(c, n + c.ri(1, 3)))
    c.note(n, t.parents(), u.parents())
    c.raises(lambda: fuse(c, (t,)), "fusion-one-tree")
    c.raises(lambda: fuse(c, ()), "fusion-no-tree")
    c.raises(lambda: fuse(c, (t, u)), "fusion-size")
    c.raises(lambda: fuse(c, (u, t, t)), "fusion-size")
    c.raises(lambda: fuse(c, (t, None)), "fusion-none")


def partition(c, n, s, t, k=None):
    """labels of a partition into connected regions (0..k-1 in random order)"""
    k = k or c.ri(1, n)
    uf = list(range(n))

    def find(x):
        while uf[x] != x:
            x = uf[x]
        return x
    left = n
    for e in c.rng.permutation(len(s)):
        if left <= k:
            break
        a, b = find(int(s[e])), find(int(t[e]))
        if a != b:
            uf[a] = b
            left -= 1
    roots = [find(i) for i in range(n)]
    ids = {r: i for i, r in enumerate(c.rng.permutation(sorted(set(roots))).tolist())}
    return np.array([ids[r] for r in roots], np.int64)


@family("projection", quick=2500)
def projection(c):
    n = gen.size(c, 1, 40)
    kf, kc = c.ri(1, 10), c.ri(1, 10)
    f, g = c.rng.integers(0, kf, n), c.rng.integers(0, kc, n)
    nf, nc = int(f.max()) + 1 + (c.ri(0, 3) if c.p(0.4) else 0), int(g.max()) + 1 + (c.ri(0, 3) if c.p(0.4) else 0)
    df, dg = gen.dtype(c, gen.INT_TYPES), gen.dtype(c, gen.INT_TYPES)
    c.inp(fine=f, coarse=g, nf=nf, nc=nc, dtypes=[str(df), str(dg)])
    c.note(f, g, nf, nc, str(df), str(dg), nontrivial=kf > 1 and kc > 1)
    a = (gen.layout(c, f.astype(df)), gen.layout(c, g.astype(dg)))
    if nf == int(f.max()) + 1 and nc == int(g.max()) + 1 and c.p(0.5):
        r = hg.project_fine_to_coarse_labelisation(*a)
    else:
        r = hg.project_fine_to_coarse_labelisation(*a, nf, nc)
    m = np.zeros((nf, nc), int)
    np.add.at(m, (f, g), 1)
    r = np.asarray(r)
    c.ck(r.shape == (nf,), "projection-shape")
    c.ck(bool(np.all((r >= 0) & (r < nc))), "projection-range")
    c.eq(m[np.arange(nf), r], m.max(1), "projection-largest-overlap")
    c.ev("ties", int(np.sum(np.sum(m == m.max(1)[:, None], 1) > 1)))


@family("projection_rejected", quick=300, asan=300)
def projection_rejected(c):
    n = c.ri(1, 12)
    f, g = c.rng.integers(0, 4, n), c.rng.integers(0, 4, n)
    k = c.ri(0, 4)
    c.inp(fine=f, coarse=g, kind=k)
    c.note(f, g, k)
    P = hg.project_fine_to_coarse_labelisation
    i = c.ri(0, n - 1)
    if k == 0:
        c.raises(lambda: P(f, g[:-1]), "projection-size")
    elif k == 1:
        g[i] = -c.ri(1, 1000)
        c.raises(lambda: P(f, g), "projection-negative")
    elif k == 2:
        f[i] = -c.ri(1, 1000)
        c.raises(lambda: P(f, g), "projection-negative")
    elif k == 3:
        f[i] = c.ri(5, 10000)
        c.raises(lambda: P(f, g, 5, 5), "projection-too-large")
    else:
        g[i] = c.ri(5, 10000)
        c.raises(lambda: P(f, g, 5, 5), "projection-too-large")


def ancestors(par, i):
    r = [i]
    while par[i] != i:
        i = par[i]
        r.append(i)
    return r


def naive_lca(par, a, b):
    x = set(ancestors(par, a))
    return next(y for y in ancestors(par, b) if y in x)


def altitudes(c, par, n):
    """increasing altitudes: 0 on the leaves, on some nodes (supervertices), then positive"""
    alt = np.zeros(len(par))
    ch, nl, _ = gen.tree_info(par)
    strict = c.p(0.5)
    zero = c.p(0.5)
    for i in range(nl, len(par)):
        m = max(alt[k] for k in ch[i])
        if m == 0 and zero and c.p(0.5):
            continue
        alt[i] = max(1, m) if not strict and m else m + c.ri(1, 3)
    return alt


def best(fine, coarse, labels=None):
    """fine region -> coarse regions with the largest overlap"""
    res = {}
    for r in set(fine.tolist()):
        o = {}
        for x in np.flatnonzero(fine == r):
            o[coarse[x]] = o.get(coarse[x], 0) + 1
        m = max(o.values())
        res[r] = [k for k, v in o.items() if v == m]
    return res


def check(c, got, s, t, fine, coarse, dist, key):
    """dist(R1, R2): altitude of the lowest common ancestor of two coarse regions"""
    b = best(fine, coarse)
    got = np.asarray(got)
    c.ck(got.shape == (len(s),), key + "-shape")
    for e in range(len(s)):
        x, y = fine[s[e]], fine[t[e]]
        if x == y:
            ok = [0]
        else:
            ok = {dist(p, q) for p in b[x] for q in b[y]}
        c.ev("edges_exact" if len(ok) == 1 else "edges_tie")
        c.ck(float(got[e]) in [float(v) for v in ok], key, "edge %d: %r not in %r" % (e, got[e], ok))


def naive_dist(par, alt, rep):
    """rep: coarse region -> a node of the tree"""
    def d(p, q):
        return 0 if p == q else alt[naive_lca(par, rep[p], rep[q])]
    return d


def supervertices(par, alt, n):
    """coarse labels of the leaves: the largest ancestor of altitude 0 (or the leaf itself)"""
    lab = []
    for x in range(n):
        k = x
        for a in ancestors(par, x)[1:]:
            if alt[a] == 0:
                k = a
        lab.append(k)
    return np.array(lab)


@family("align", quick=2500)
def align(c):
    n, s, t = gen.graph(c, gen.size(c, 2, 24))
    g = gen.make_graph(hg, n, s, t)
    fine = partition(c, n, s, t)
    kind = c.choice(["tree", "saliency", "rag_tree", "rag_saliency", "list"])
    dt = gen.dtype(c)
    fdt = gen.dtype(c, gen.INT_TYPES)
    c.inp(n=n, s=s, t=t, fine=fine, kind=kind, dtype=str(dt))
    jobs = []
    kinds = [c.choice(["tree", "saliency", "rag_tree", "rag_saliency"]) for _ in range(c.ri(1, 3))] if kind == "list" else [kind]
    for k in kinds:
        if k == "tree":
            par = gen.parents(c, n)
            while len(par) == n:
                par = gen.parents(c, n)
            alt = altitudes(c, par, n)
            lab = supervertices(par, alt, n)
            jobs.append((k, hg.Tree(par), alt.astype(dt), lab, naive_dist(par, alt.tolist(), {r: r for r in lab.tolist()})))
        elif k == "saliency":
            # ultrametric edge weights: minimax distances of random weights
            w = c.rng.integers(0, 4, len(s))
            mm = minimax(n, s, t, w.tolist())
            sal = np.array([0 if a == b else mm[a][b] for a, b in zip(s, t)], float)
            lab = gen.components(n, s, t, sal == 0)
            jobs.append((k, g, sal.astype(dt), lab, lambda p, q, mm=mm: 0 if p == q else mm[p][q]))
        else:
            coarse = partition(c, n, s, t)
            rag = hg.make_region_adjacency_graph_from_labelisation(g, coarse)
            vm = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(rag))
            m = rag.num_vertices()
            if k == "rag_tree":
                par = gen.parents(c, m)
                while len(par) == m:
                    par = gen.parents(c, m)
                alt = altitudes(c, par, m)
                alt[m:] += 1
                tr = hg.Tree(par)
                hg.CptHierarchy.link(tr, rag)
                jobs.append((k, tr, alt.astype(dt), vm, naive_dist(par, alt.tolist(), {i: i for i in range(m)})))
            else:
                rs, rt = rag.edge_list()
                w = c.rng.integers(1, 6, rag.num_edges()).astype(float)
                mm = minimax(m, rs, rt, w.tolist())
                jobs.append((k, rag, w.astype(dt), vm, lambda p, q, mm=mm: 0 if p == q else mm[p][q]))
    c.note(n, s, t, fine, [j[0] for j in jobs], [j[2] for j in jobs], nontrivial=len(set(fine.tolist())) > 1)
    lf = gen.layout(c, fine.astype(fdt))
    if kind == "list":
        got = hg.align_hierarchies(g, lf, [(j[1], gen.layout(c, j[2])) for j in jobs])
        c.ck(isinstance(got, list) and len(got) == len(jobs), "align-list")
    else:
        got = [hg.align_hierarchies(g, lf, (jobs[0][1], gen.layout(c, jobs[0][2])))]
    for j, r in zip(jobs, got):
        c.ev(j[0])
        c.ck(r.dtype == dt, "align-dtype", str(r.dtype))
        check(c, r, s, t, fine, j[3], j[4], "align-" + j[0])
    if kind == "tree" and c.p(0.5):
        # other ways to give the fine partition
        cut = (fine[s] != fine[t]).astype(np.float64)
        a2 = hg.HierarchyAligner.from_graph_cut(g, cut)
        check(c, a2.align_hierarchy(jobs[0][1], jobs[0][2]), s, t, fine, jobs[0][3], jobs[0][4], "align-from-cut")
        fp, fa = bpt_of(fine)
        a3 = hg.HierarchyAligner.from_hierarchy(g, hg.Tree(fp), fa)
        check(c, a3.align_hierarchy(jobs[0][1], jobs[0][2]), s, t, fine, jobs[0][3], jobs[0][4], "align-from-hierarchy")
    if kind.startswith("rag"):
        j = jobs[0]
        r2 = hg.make_region_adjacency_graph_from_labelisation(g, fine)
        m = hg.project_fine_to_coarse_rag(r2, j[1] if kind == "rag_saliency" else hg.CptHierarchy.get_leaf_graph(j[1]))
        b = best(np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(r2)), j[3])
        c.ck(len(m) == r2.num_vertices() and all(int(m[i]) in b[i] for i in range(len(m))), "project-rag")


def bpt_of(fine):
    """a two level tree whose nodes of altitude 0 are the regions"""
    k = int(fine.max()) + 1
    n = len(fine)
    par = np.concatenate((n + fine, np.full(k + 1, n + k)))
    return par, np.concatenate((np.zeros(n + k), [1.0]))


@family("rejected", quick=300, asan=300)
def rejected(c):
    n, s, t = gen.graph(c, gen.size(c, 2, 12))
    g = gen.make_graph(hg, n, s, t)
    fine = partition(c, n, s, t)
    k = c.ri(0, 6)
    par = no_single(c, n)
    alt = altitudes(c, par, n)
    c.inp(n=n, s=s, t=t, fine=fine, kind=k)
    c.note(n, s, t, fine, k)
    A = hg.align_hierarchies
    if k == 0:
        c.raises(lambda: A(g, fine[:-1], (hg.Tree(par), alt)), "labels-size")
    elif k == 1:
        c.raises(lambda: A(g, fine, (hg.Tree(par), alt[:-1])), "altitudes-size")
    elif k == 2:
        c.raises(lambda: A(g, fine, (hg.Tree(no_single(c, n + 1)), np.zeros(1))), "tree-size")
    elif k == 3:
        c.raises(lambda: A(g, fine, (g, np.zeros(len(s) + 1))), "saliency-size")
    elif k == 4:
        c.raises(lambda: A(g, fine, ("x", np.zeros(3))), "format")
    elif k == 5:
        al = hg.HierarchyAligner.from_labelisation(g, fine)
        sv = c.rng.integers(0, n, n)
        sv[c.ri(0, n - 1)] = c.ri(n, 1000)
        # a region can only be projected on a leaf of the tree
        try:
            r = al.align_hierarchy(sv, hg.Tree(par), alt)
        except Exception:
            c.ev("supervertex_rejected")
        else:
            c.ck(bool(np.all(np.isin(r, np.append(alt, 0)))), "supervertices-range")
    else:
        al = hg.HierarchyAligner.from_labelisation(g, fine)
        sv = c.rng.integers(0, n, n)
        sv[c.ri(0, n - 1)] = -c.ri(1, 100)
        c.raises(lambda: al.align_hierarchy(sv, hg.Tree(par), alt), "supervertices-negative")
    # every node at altitude 0: a single supervertex
    z = A(g, fine, (hg.Tree(par), np.zeros(len(par))))
    c.eq(z, np.zeros(len(s)), "single-supervertex")
