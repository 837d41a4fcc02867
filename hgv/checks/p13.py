"""P13: hierarchical watersheds."""
import numpy as np
import higra as hg
from hgv import gen, order
from hgv.core import family
from hgv.oracles import UF

UNITS = ["watershed_hierarchy", "hierarchy_core", "graph_core", "tree_attributes", "common", "tree_accumulators", "rag", "at_accumulator"]
RULE = ("random connected multigraphs and grids with many ties; the quasi-flat zones, their attribute values (area, volume, dynamics, number of parents, user attribute, "
        "ranks of the minima) and the smallest zones whose attribute exceeds each level are computed naively; every level of the returned hierarchy must be a minimum "
        "spanning forest rooted in exactly these zones, the binary form must carry a minimum spanning tree of the graph whose edges merge its nodes. "
        "Non-trivial: at least two minima. Family limits: the same ranks are given as small integers and as extreme or neighbouring values of every type (infinities, subnormals, largest integers): results must correspond.")
ASSUMPTIONS = ["weights and areas are such that attribute values are exact (integers or dyadic fractions)", "increasing attributes", "connected graphs up to 40 vertices"]


def instance(c, maxn=24, dtypes=None):
    sh = None
    if c.p(0.1):
        # a region adjacency graph
        bs = (c.ri(1, 5), c.ri(2, 7))
        lab = c.rng.integers(0, c.choice([2, 3, 5]), bs)
        g = hg.make_region_adjacency_graph_from_labelisation(hg.get_4_adjacency_graph(bs), lab)
        n = g.num_vertices()
        s, t = [x.copy() for x in g.edge_list()]
        c.inp(labels=lab)
        c.ev("rag")
    elif c.p(0.4):
        sh = (c.ri(1, 5), c.ri(1, 6))
        g = c.choice([hg.get_4_adjacency_graph, hg.get_8_adjacency_graph])(sh)
        n = g.num_vertices()
        s, t = [x.copy() for x in g.edge_list()]
    else:
        n, s, t = gen.graph(c, connected=True, maxn=maxn)
        g = gen.make_graph(hg, n, s, t)
    dt = np.dtype(c.choice(dtypes or [np.int64, np.int32, np.int16, np.uint8, np.uint16, np.float64, np.float64, np.float32]))
    k = c.choice([2, 3, 5, 10, 40])
    w = c.rng.integers(0, k, len(s))
    st = c.ri(0, 4)
    if st == 1:
        w = c.rng.permutation(len(s)) % 120
    if dt.kind == "f":
        w = w * c.choice([1, 0.5, 0.25, 2.0 ** -12])
        if c.p(0.2):
            w = w + 1000
    if dt.kind != "u" and c.p(0.3):
        w = w - c.ri(0, 20)
    w = np.asarray(w).astype(dt)
    c.inp(n=n, s=s, t=t, w=w, shape=sh)
    return n, s.tolist(), t.tolist(), g, w, sh


def zones(n, s, t, w):
    """quasi-flat zones (non leaf): list of (members, altitude, parent index or None, children indices), children first"""
    vals = [float(x) for x in w]
    u = UF(n)
    cur = {}                       # root -> index of current zone
    out = []
    for v in sorted(set(vals)):
        touched = set()
        for e in range(len(s)):
            if vals[e] == v and s[e] != t[e] and u.find(s[e]) != u.find(t[e]):
                touched.add(s[e])
                u.p[u.find(s[e])] = u.find(t[e])
        roots = {u.find(x) for x in touched}
        for r in sorted(roots):
            mem = [x for x in range(n) if u.find(x) == r]
            ms = set(mem)
            ch = [z for q, z in cur.items() if q in ms]
            for q in [q for q in cur if q in ms]:
                del cur[q]
            out.append([mem, v, None, ch])
            for z in ch:
                out[z][2] = len(out) - 1
            cur[r] = len(out) - 1
    return out


def msf(n, s, t, w, roots, keep=None):
    u = UF(n)
    for q in roots:
        for x in q[1:]:
            u.p[u.find(x)] = u.find(q[0])
    rooted = {u.find(q[0]) for q in roots}
    tot = []
    for e in sorted(range(len(s)), key=lambda k: w[k]):
        if keep is not None and not keep[e]:
            continue
        a, b = u.find(s[e]), u.find(t[e])
        if a == b or (a in rooted and b in rooted):
            continue
        u.p[b] = a
        if b in rooted:
            rooted.discard(b)
            rooted.add(a)
        tot.append(float(w[e]))
    return tot


def partition(children, alts, lam, n):
    """labels of the cut of the hierarchy at level lam: maximal nodes of altitude <= lam (leaves always allowed)"""
    nn = len(children)
    par = [None] * nn
    for i, ch in enumerate(children):
        for x in ch:
            par[x] = i
    lab = [None] * nn
    for i in range(nn - 1, -1, -1):
        p = par[i]
        if p is not None and lab[p] is not None:
            lab[i] = lab[p]
        elif i < n or alts[i] <= lam:
            lab[i] = i
    return lab[:n]


def verify(c, n, s, t, w, z, attr, tree, alts, key):
    """tree, alts: result; attr: value per zone"""
    P = tree.parents().tolist()
    c.ck(tree.num_leaves() == n, key + "-leaves")
    children = [[] for _ in P]
    for i, p in enumerate(P):
        if p != i:
            children[p].append(i)
    a = [float(x) for x in alts]
    c.ck(len(a) == len(P), key + "-altitudes-size")
    c.ck(all(x == 0 for x in a[:n]), key + "-leaf-altitudes", str(a[:n]))
    c.ck(all(a[i] <= a[p] for i, p in enumerate(P)), key + "-increasing", "%s %s" % (P, a))
    levels = sorted({0.0} | {float(x) for x in attr} | set(a))
    levels = [x for x in levels if x >= 0]
    mx = 0
    for lam in levels[:40]:
        big = [i for i in range(len(z)) if attr[i] > lam]
        ker = [z[i][0] for i in big if not any(attr[k] > lam for k in z[i][3])]
        lab = partition(children, a, lam, n)
        same = [lab[x] == lab[y] for x, y in zip(s, t)]
        nreg = len(set(lab))
        want = max(1, len(ker))
        mx = max(mx, nreg)
        c.ck(nreg == want, key + "-regions", "level %r: %d regions, %d zones with larger attribute; parents %s altitudes %s" % (lam, nreg, want, P, a))
        comp = gen.components(n, s, t, np.array(same, bool))
        c.ck(len(set(comp.tolist())) == nreg, key + "-connected", "level %r" % lam)
        if len(ker) > 1:
            for q in ker:
                c.ck(len({lab[x] for x in q}) == 1, key + "-zone-split", "level %r zone %s labels %s" % (lam, q, lab))
            c.ck(len({lab[q[0]] for q in ker}) == len(ker), key + "-one-zone-per-region", "level %r" % lam)
            best, got = msf(n, s, t, w, ker), msf(n, s, t, w, ker, same)
            c.ck(best == got, key + "-spanning-forest", "level %r: edges %s, minimum %s" % (lam, got, best))
    c.ev("levels", len(levels))
    return mx


def binary(c, n, s, t, g, w, tree, alts, key):
    """links of a non canonized result"""
    P = tree.parents().tolist()
    c.ck(len(P) == 2 * n - 1, key + "-binary-size")
    m = np.asarray(hg.CptBinaryHierarchy.get_mst_edge_map(tree)).tolist()
    c.ck(len(m) == n - 1, key + "-mst-size")
    c.ck(sorted(float(w[e]) for e in m) == sorted(msf(n, s, t, w, [[0]])), key + "-mst-weight", "edges %s" % m)
    # node n + i merges exactly the two components joined by edge m[i]
    u = UF(n)
    node = list(range(n))
    for i, e in enumerate(m):
        x, y = u.find(s[e]), u.find(t[e])
        c.ck(x != y, key + "-mst-cycle", str(m))
        c.ck(P[node[x]] == n + i and P[node[y]] == n + i, key + "-mst-merge", "edge %d does not join the children of node %d" % (e, n + i))
        u.p[x] = y
        node[y] = n + i
    mst = hg.CptBinaryHierarchy.get_mst(tree)
    ms, mt = mst.edge_list()
    c.ck(sorted(map(sorted, zip(ms.tolist(), mt.tolist()))) == sorted(sorted((s[e], t[e])) for e in m), key + "-mst-graph")
    c.ck(hg.CptHierarchy.get_leaf_graph(tree) is g, key + "-leaf-graph")


def run(c, n, s, t, g, w, z, attr, f, key, canon=None):
    canon = c.p(0.7) if canon is None else canon
    before = w.copy()
    tree, alts = f(canon)
    c.eq(w, before, key + "-input-modified")
    mx = verify(c, n, s, t, w, z, attr, tree, alts, key)
    if canon:
        P, a = tree.parents(), np.asarray(alts)
        i = np.arange(n, len(P) - 1)
        c.ck(bool(np.all(a[i] < a[P[i]])), key + "-canonized", "%s %s" % (P.tolist(), a.tolist()))
        c.ck(hg.CptHierarchy.get_leaf_graph(tree) is g, key + "-leaf-graph")
    else:
        binary(c, n, s, t, g, w, tree, alts, key)
    c.ev("regions-max", mx)
    return tree, alts


def zone_area(z, area):
    return [sum(area[x] for x in q[0]) for q in z]


def areas(c, n, sh, g):
    k = c.ri(0, 3)
    if k == 0:
        if hg.CptRegionAdjacencyGraph.validate(g):
            # by default, the number of pixels of each region
            return None, np.bincount(np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(g)).ravel(), minlength=n).tolist()
        return None, [1] * n
    a = c.rng.integers(0 if c.p(0.3) else 1, c.choice([3, 10]), n)
    dt = np.dtype(c.choice([np.float64, np.int64, np.float32]))
    if dt.kind == "f" and c.p(0.5):
        a = a * 0.25
    arr = a.astype(dt)
    return (arr.reshape(sh) if sh and c.p(0.7) else arr), a.tolist()


def nminima(z):
    return sum(1 for q in z if not q[3])


@family("area", quick=2500)
def area(c):
    n, s, t, g, w, sh = instance(c)
    z = zones(n, s, t, w)
    arr, ar = areas(c, n, sh, g)
    c.inp(area=arr)
    c.note(n, s, t, w, ar, nontrivial=nminima(z) > 1)
    kw = {} if arr is None else dict(vertex_area=arr)
    run(c, n, s, t, g, w, z, zone_area(z, ar), lambda k: hg.watershed_hierarchy_by_area(g, w, canonize_tree=k, **kw), "area")


def volumes(z, ar, w):
    out = []
    za = zone_area(z, ar)
    for i, q in enumerate(z):
        up = q[1] if q[2] is None else z[q[2]][1]
        out.append((up - q[1]) * za[i] + sum(out[k] for k in q[3]))
    return out


@family("volume", quick=2500)
def volume(c):
    n, s, t, g, w, sh = instance(c)
    z = zones(n, s, t, w)
    arr, ar = areas(c, n, sh, g)
    c.inp(area=arr)
    c.note(n, s, t, w, ar, nontrivial=nminima(z) > 1)
    kw = {} if arr is None else dict(vertex_area=arr)
    run(c, n, s, t, g, w, z, volumes(z, ar, w), lambda k: hg.watershed_hierarchy_by_volume(g, w, canonize_tree=k, **kw), "volume")


@family("dynamics", quick=2500)
def dynamics(c):
    n, s, t, g, w, sh = instance(c)
    z = zones(n, s, t, w)
    c.note(n, s, t, w, nontrivial=nminima(z) > 1)
    low = []
    for q in z:
        low.append(min([q[1]] + [low[k] for k in q[3]]))
    h = [(z[q[2]][1] if q[2] is not None else q[1]) - low[i] for i, q in enumerate(z)]
    run(c, n, s, t, g, w, z, h, lambda k: hg.watershed_hierarchy_by_dynamics(g, w, canonize_tree=k), "dynamics")


@family("number-of-parents", quick=2500)
def number_of_parents(c):
    n, s, t, g, w, sh = instance(c)
    z = zones(n, s, t, w)
    c.note(n, s, t, w, nontrivial=nminima(z) > 1)
    k = []
    for q in z:
        k.append((1 if q[3] else 0) + sum(k[x] for x in q[3]))
    run(c, n, s, t, g, w, z, [x + 1 for x in k], lambda b: hg.watershed_hierarchy_by_number_of_parents(g, w, canonize_tree=b), "number-of-parents")


@family("user-attribute", quick=2500)
def user_attribute(c):
    n, s, t, g, w, sh = instance(c)
    z = zones(n, s, t, w)
    lv = c.rng.integers(0, c.choice([2, 5, 30]), n) / c.choice([1, 4])
    mode = c.choice(["max", "sum"])
    c.inp(leaf_values=lv, mode=mode)
    c.note(n, s, t, w, lv, mode, nontrivial=nminima(z) > 1)
    f = max if mode == "max" else sum
    attr = [f(lv[x] for x in q[0]) for q in z]
    acc = hg.Accumulators.max if mode == "max" else hg.Accumulators.sum
    calls = []

    def functor(tree, altitudes):
        calls.append((tree.num_leaves(), hg.CptHierarchy.get_leaf_graph(tree) is g, np.asarray(altitudes).copy(), tree.parents().copy()))
        return hg.accumulate_sequential(tree, lv, acc)

    run(c, n, s, t, g, w, z, attr, lambda k: hg.watershed_hierarchy_by_attribute(g, w, functor, k), "user")
    c.ck(len(calls) == 1 and calls[0][0] == n and calls[0][1], "functor-arguments")
    al, P = calls[0][2], calls[0][3]
    c.ck(len(P) == 2 * n - 1, "functor-binary")
    c.ck(sorted(al[n:].astype(float).tolist()) == sorted(msf(n, s, t, w, [[0]])), "functor-altitudes")


@family("minima-ordering", quick=4000)
def minima_ordering(c):
    n, s, t, g, w, sh = instance(c)
    z = zones(n, s, t, w)
    mins = [i for i, q in enumerate(z) if not q[3]]
    k = len(mins)
    rk = (c.rng.permutation(k) + 1).tolist()
    r = np.zeros(n, np.int64)
    for i, v in zip(mins, rk):
        mem = np.array(z[i][0])
        r[mem] = v
        if c.p(0.4):
            off = mem[c.rng.random(len(mem)) < 0.6]
            if len(off) < len(mem):
                r[off] = 0
    attr = [max(r[x] for x in q[0]) for q in z]
    dt = np.dtype(c.choice([np.uint64, np.int64, np.int32, np.uint8]))
    rr = r.astype(dt)
    if n == 1:
        rr = np.zeros(1, dt)
    alt = None
    if c.p(0.5):
        alt = np.concatenate(([0], np.cumsum(c.rng.integers(0, 4, k) if c.p(0.5) else c.rng.integers(1, 4, k)))) / c.choice([1, 2])
        if c.p(0.3):
            alt = alt.astype(np.int64)
            alt.sort()
    canon = c.p(0.7)
    c.inp(ranks=rr, minima_altitudes=alt, canonize=canon)
    c.note(n, s, t, w, rr, alt, canon, nontrivial=k > 1)
    b1, b2 = w.copy(), rr.copy()
    tree, alts = hg.watershed_hierarchy_by_minima_ordering(g, w, rr, **({} if alt is None else dict(minima_altitudes=alt)), canonize_tree=canon)
    c.eq(w, b1, "minima-input-modified")
    c.eq(rr, b2, "minima-input-modified")
    tree2, ranks = (tree, alts) if alt is None else hg.watershed_hierarchy_by_minima_ordering(g, w, rr, canonize_tree=canon)
    verify(c, n, s, t, w, z, attr, tree2, ranks, "minima-ordering")
    c.eq(tree.parents(), tree2.parents(), "minima-altitudes-tree")
    if alt is not None:
        c.eq(np.asarray(alts), alt[np.asarray(ranks)], "minima-altitudes")
    if not canon:
        binary(c, n, s, t, g, w, tree, alts, "minima-ordering")
    else:
        c.ck(hg.CptHierarchy.get_leaf_graph(tree) is g, "minima-leaf-graph")


@family("large", quick=20, heavy=True)
def large(c):
    """big grid: number of regions of every level against a direct computation by persistence"""
    sh = (c.ri(20, 60), c.ri(20, 60))
    g = hg.get_4_adjacency_graph(sh)
    n = g.num_vertices()
    s, t = [x.copy() for x in g.edge_list()]
    w = c.rng.integers(0, c.choice([4, 30, 200]), len(s)).astype(c.choice([np.float64, np.int32, np.uint8]))
    c.inp(shape=sh, w=w)
    c.note(sh, w)
    order = np.argsort(w, kind="stable").tolist()
    u = UF(n)
    ar, clo, cw = [1] * n, [0] * n, [None] * n       # area, attribute of the last closed zone, weight of last merge
    pers = []
    sl, tl, wl = s.tolist(), t.tolist(), w.tolist()
    for e in order:
        a, b = u.find(sl[e]), u.find(tl[e])
        if a == b:
            continue
        v = [0 if cw[x] is None else (ar[x] if cw[x] < wl[e] else clo[x]) for x in (a, b)]
        pers.append(min(v))
        u.p[a] = b
        ar[b] += ar[a]
        clo[b] = max(v)
        cw[b] = wl[e]
    tree, alts = hg.watershed_hierarchy_by_area(g, w, canonize_tree=False)
    c.eq(np.sort(np.asarray(alts)[n:]).astype(float), np.sort(np.array(pers, float)), "large-persistences")
    mst = np.asarray(hg.CptBinaryHierarchy.get_mst_edge_map(tree))
    sal = hg.saliency(tree, alts)
    c.eq(np.asarray(sal)[mst], np.asarray(alts)[n:], "large-saliency")
    c.ev("edges", len(s))


@family("rejected", quick=200, asan=200)
def rejected(c):
    n, s, t, g, w, sh = instance(c, 8)
    if n < 2:
        c.note("skip")
        return
    bad = c.choice([0, n, 2 * n - 2, 2 * n])
    c.note(n, s, t, w, bad)
    c.raises(lambda: hg.watershed_hierarchy_by_attribute(g, w, lambda tr, a: np.zeros(bad)), "attribute-size")
    c.raises(lambda: hg.watershed_hierarchy_by_attribute(g, w, lambda tr, a: np.zeros((2 * n - 1, 2))), "attribute-2d")
    c.raises(lambda: hg.watershed_hierarchy_by_area(g, np.append(w, w.dtype.type(0))), "weights-size")
    c.raises(lambda: hg.watershed_hierarchy_by_minima_ordering(g, w, np.zeros(n + 1, np.uint64)), "ranks-size")
    c.raises(lambda: hg.watershed_hierarchy_by_area(g, w, np.ones(n + 1)), "area-size")

    class Boom(Exception):
        pass

    def boom(tr, a):
        raise Boom("x")
    try:
        hg.watershed_hierarchy_by_attribute(g, w, boom)
    except Boom:
        pass
    else:
        c.fail("functor-exception", "exception of the functor lost")
    g2 = hg.UndirectedGraph(n + 1)
    g2.add_edges(s, t)
    c.raises(lambda: hg.watershed_hierarchy_by_area(g2, w), "disconnected")


@family("limits", quick=1200)
def limits(c):
    """results that depend only on the order of the values: values at the limits of every type"""
    order.run(c, "P13")
