"""P12: watershed cuts and seeded watersheds."""
import numpy as np
import higra as hg
from hgv import gen, order
from hgv.core import family
from hgv.oracles import UF, minimax

UNITS = ["watershed", "graph_core", "hierarchy_core"]
RULE = ("random multigraphs (several components, isolated vertices, parallel edges, self-loops) and grids with plateaus, ties, negative, infinite and extreme weights of "
        "all types; labels checked against the regional minima found naively (one label per minimum, connected regions) and against the weight of a "
        "minimum spanning forest rooted in the minima; random seeds with any background label checked against the definition (seeds kept, regions "
        "contain a seed, minimax optimal path inside the region, unreachable vertices). Non-trivial: at least two labels. Family limits: the same ranks are given as small integers and as extreme or neighbouring values of every type (infinities, subnormals, largest integers): results must correspond.")
ASSUMPTIONS = ["weights are not NaN", "graphs up to 60 vertices"]


def instance(c, maxn=30):
    if c.p(0.4):
        sh = (c.ri(1, 6), c.ri(1, 7))
        g = c.choice([hg.get_4_adjacency_graph, hg.get_8_adjacency_graph])(sh)
        n = g.num_vertices()
        s, t = [x.copy() for x in g.edge_list()]
    else:
        sh = None
        n, s, t = gen.graph(c, connected=c.p(0.7), maxn=maxn)
        g = gen.make_graph(hg, n, s, t)
    dt = gen.dtype(c)
    w = gen.values(c, len(s), dt)
    if c.p(0.3) and len(w):
        hi = np.inf if dt.kind == "f" else np.iinfo(dt).max
        w[c.rng.random(len(w)) < c.choice([0.1, 0.5, 1])] = hi
    if c.p(0.1) and len(w):
        w[c.ri(0, len(w) - 1)] = -np.inf if dt.kind == "f" else np.iinfo(dt).min
    c.inp(n=n, s=s, t=t, w=w, shape=sh)
    return n, s.tolist(), t.tolist(), g, w, sh


def ranks(w):
    return np.unique(w, return_inverse=True)[1].ravel().tolist() if len(w) else []


def minima(n, s, t, r):
    """regional minima of the edge weights, as lists of vertices; isolated vertices are minima"""
    m = len(s)
    inc = [[] for _ in range(n)]
    for e in range(m):
        inc[s[e]].append(e)
        if t[e] != s[e]:
            inc[t[e]].append(e)
    out = [[x] for x in range(n) if not inc[x]]
    seen = [False] * m
    for e in range(m):
        if seen[e]:
            continue
        seen[e] = True
        stack, verts, ok = [e], set(), True
        while stack:
            f = stack.pop()
            for x in (s[f], t[f]):
                verts.add(x)
                for k in inc[x]:
                    if r[k] < r[f]:
                        ok = False
                    elif r[k] == r[f] and not seen[k]:
                        seen[k] = True
                        stack.append(k)
        if ok:
            out.append(sorted(verts))
    return out


def forest_weight(n, s, t, r, roots, keep=None):
    """weight and number of edges of a minimum spanning forest rooted in the given sets (ranks)"""
    u = UF(n)
    for q in roots:
        for x in q[1:]:
            u.p[u.find(x)] = u.find(q[0])
    rooted = {}
    for q in roots:
        rooted[u.find(q[0])] = True
    total = []
    for e in sorted(range(len(s)), key=lambda k: r[k]):
        if keep is not None and not keep(e):
            continue
        a, b = u.find(s[e]), u.find(t[e])
        if a == b or (rooted.get(a) and rooted.get(b)):
            continue
        ro = rooted.get(a) or rooted.get(b)
        u.p[b] = a
        rooted[a] = bool(ro)
        total.append(r[e])
    return sorted(total)


@family("watershed", quick=12000)
def watershed(c):
    n, s, t, g, w, sh = instance(c)
    lab = hg.labelisation_watershed(g, gen.layout(c, w) if len(w) > 1 else w)
    r = ranks(w)
    mins = minima(n, s, t, r)
    c.note(n, s, t, w, nontrivial=len(mins) > 1)
    c.ev("minima", len(mins))
    c.ck(lab.shape == (sh or (n,)), "shape", str(lab.shape))
    lab = lab.ravel().tolist()
    c.ck(sorted(set(lab)) == list(range(1, len(mins) + 1)), "labels", "%s for %d minima" % (sorted(set(lab)), len(mins)))
    of = {}
    for k, q in enumerate(mins):
        ls = {lab[x] for x in q}
        c.ck(len(ls) == 1, "minimum-one-label", "minimum %s labels %s" % (q, ls))
        x = ls.pop()
        c.ck(x not in of, "label-one-minimum", "label %s has several minima" % x)
        of[x] = k
    same = np.array([lab[a] == lab[b] for a, b in zip(s, t)], bool)
    comp = gen.components(n, s, t, same)
    c.ck(len(set(comp.tolist())) == len(mins), "regions-connected", "%d regions %d minima" % (len(set(comp.tolist())), len(mins)))
    best = forest_weight(n, s, t, r, mins)
    got = forest_weight(n, s, t, r, mins, lambda e: same[e])
    c.ck(best == got, "minimum-spanning-forest", "ranks of the edges %s minimum %s" % (got, best))


@family("seeded", quick=10000)
def seeded(c):
    n, s, t, g, w, sh = instance(c)
    bg = c.choice([0, 0, 0, -1, 7])
    seeds = np.full(n, bg, np.int64)
    k = c.ri(0, min(n, c.choice([1, 3, 6])))
    pos = c.rng.choice(n, k, replace=False)
    seeds[pos] = c.rng.choice([x for x in range(-2, 8) if x != bg], k)
    dt = np.dtype(c.choice([np.int64, np.int32, np.int8, np.int16] + ([np.uint8, np.uint64] if seeds.min(initial=0) >= 0 and bg >= 0 else [])))
    sd = seeds.astype(dt)
    if sh and c.p(0.7):
        sd = sd.reshape(sh)
    c.inp(seeds=sd, background=bg)
    c.note(n, s, t, w, sd, bg, nontrivial=k > 1)
    a = (g, gen.layout(c, w) if len(w) > 1 else w, gen.layout(c, sd) if sd.size > 1 else sd)
    before = sd.copy()
    lab = hg.labelisation_seeded_watershed(*a, **({} if bg == 0 and c.p(0.5) else dict(background_label=bg)))
    c.eq(sd, before, "seeds-modified")
    c.ck(lab.shape == (sh or (n,)), "seeded-shape", str(lab.shape))
    lab = lab.ravel()
    c.eq(lab[seeds != bg], seeds[seeds != bg], "seeds-kept")
    r = ranks(w)
    mm = minimax(n, s, t, r)
    sp = np.flatnonzero(seeds != bg).tolist()
    same = np.array([lab[x] == lab[y] for x, y in zip(s, t)], bool)
    ks = np.flatnonzero(same).tolist()
    inside = minimax(n, [s[e] for e in ks], [t[e] for e in ks], [r[e] for e in ks])
    big = len(s) + 5
    def dist(m, x, y):
        v = -1 if x == y else m[x][y]
        return big if v is None or v == float("inf") or v > big else v
    for x in range(n):
        d = min([dist(mm, x, y) for y in sp], default=big)
        if d == big:
            c.ck(lab[x] == bg, "unreachable", "vertex %d label %d" % (x, lab[x]))
            c.ev("unreachable")
            continue
        c.ck(lab[x] != bg, "reachable", "vertex %d is not labelled" % x)
        own = min([dist(inside, x, y) for y in sp if seeds[y] == lab[x]], default=big)
        c.ck(own == d, "closest-seed", "vertex %d label %d: altitude rank %r, best %r" % (x, lab[x], own, d))
        c.ev("labelled")


@family("rejected", quick=250, asan=250)
def rejected(c):
    n, s, t, g, w, sh = instance(c, 10)
    c.note(n, s, t, w)
    sd = np.zeros(n, np.int64)
    c.raises(lambda: hg.labelisation_watershed(g, np.append(w, w.dtype.type(1))), "size")
    c.raises(lambda: hg.labelisation_seeded_watershed(g, np.append(w, w.dtype.type(1)), sd), "seeded-size")
    c.raises(lambda: hg.labelisation_seeded_watershed(g, w, np.zeros(n + 1, np.int64)), "seeds-size")
    c.raises(lambda: hg.labelisation_seeded_watershed(g, w, sd.astype(float)), "seeds-type")
    if len(w) > 1:
        c.raises(lambda: hg.labelisation_watershed(g, w[:-1]), "size")
        c.raises(lambda: hg.labelisation_watershed(g, np.stack((w, w), 1)), "2d")
        c.raises(lambda: hg.labelisation_seeded_watershed(g, np.stack((w, w), 1), sd), "2d")


@family("limits", quick=1200)
def limits(c):
    """results that depend only on the order of the values: values at the limits of every type"""
    order.run(c, "P12")
