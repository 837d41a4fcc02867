"""P21: bipartiteness and minimum weight maximum matchings."""
import numpy as np
import higra as hg
from scipy.optimize import linear_sum_assignment
from hgv import gen
from hgv.core import family

UNITS = ["bipartite_graph", "graph_core"]
RULE = ("random bipartite and nearly bipartite graphs (parallel edges, isolated vertices, several components, permuted vertices, paths, cycles, complete and unbalanced graphs), given as a "
        "graph or as edge lists of several types; weights null, tied, negative, of every integer type and up to the size limit. Optimum from a dynamic program over vertex subsets or the "
        "Hungarian algorithm of SciPy. Pixel matchings against an assignment computed on all pairs. Non-trivial: at least three edges and one odd cycle or one alternative matching.")
ASSUMPTIONS = ["integer weights, no removed edge in matchings", "pixel distances are compared up to the documented rounding to a thousandth"]


def odd_cycle(n, s, t):
    """None or a colouring"""
    col = [-1] * n
    adj = [[] for _ in range(n)]
    for a, b in zip(s, t):
        adj[a].append(b)
        adj[b].append(a)
    for r in range(n):
        if col[r] < 0:
            col[r] = 0
            st = [r]
            while st:
                v = st.pop()
                for u in adj[v]:
                    if col[u] < 0:
                        col[u] = 1 - col[v]
                        st.append(u)
                    elif col[u] == col[v]:
                        return None
    return col


def bip(c, n1, n2):
    """edges between two sides, vertices permuted: n, s, t"""
    e = []
    style = c.choice(["random", "random", "complete", "path", "sparse", "cycle"])
    if style == "random":
        q = c.rng.random()
        e = [(a, b) for a in range(n1) for b in range(n2) if c.rng.random() < q]
    elif style == "complete":
        e = [(a, b) for a in range(n1) for b in range(n2)]
    elif style == "sparse":
        e = [(c.ri(0, n1 - 1), c.ri(0, n2 - 1)) for _ in range(c.ri(0, n1 + n2))]
    else:
        k = min(n1, n2)
        e = [(i, i) for i in range(k)] + [(i + 1, i) for i in range(k - 1)]
        if style == "cycle" and k > 1:
            e.append((0, k - 1))
    if e and c.p(0.2):
        e += [e[c.ri(0, len(e) - 1)] for _ in range(c.ri(1, 3))]
    n = n1 + n2 + c.choice([0, 0, 1, 3])
    perm = c.rng.permutation(n)
    s = np.array([perm[a] for a, b in e], dtype=np.int64)
    t = np.array([perm[n1 + b] for a, b in e], dtype=np.int64)
    o = c.rng.permutation(len(e))
    s, t = s[o], t[o]
    f = c.rng.random(len(e)) < 0.5
    return n, np.where(f, s, t), np.where(f, t, s)


def as_input(c, n, s, t):
    how = c.choice(["graph", "graph", "arrays", "lists", "int32"])
    c.ev("input-" + how)
    if how == "graph":
        g = hg.UndirectedGraph(n)
        if len(s):
            g.add_edges(s, t)
        return g
    if how == "arrays":
        return (gen.layout(c, s) if len(s) > 1 else s, t, n)
    if how == "lists":
        return [s.tolist(), t.tolist(), n]
    return (s.astype(np.int32), t.astype(np.int32), n)


@family("bipartite", quick=20000)
def bipartite(c):
    kind = c.ri(0, 3)
    if kind == 0:
        n, s, t = gen.graph(c)
    else:
        n, s, t = bip(c, gen.size(c, 1, 12), gen.size(c, 1, 12))
        for _ in range(c.choice([0, 0, 0, 1, 2])):
            s = np.append(s, c.ri(0, n - 1))
            t = np.append(t, c.ri(0, n - 1))
    if c.p(0.003):  # long path or cycle
        n = c.ri(500, 3000)
        s, t = np.arange(n - 1), np.arange(1, n)
        if c.p(0.5):
            s, t = np.append(s, n - 1), np.append(t, 0)
        o = c.rng.permutation(len(s))
        s, t = s[o], t[o]
    c.inp(n=n, s=s, t=t)
    want = odd_cycle(n, list(s), list(t))
    c.note(n, s, t, nontrivial=len(s) > 2)
    c.ev("bipartite" if want else "odd-cycle")
    x = as_input(c, n, s, t)
    if isinstance(x, hg.UndirectedGraph) and len(s) and c.p(0.2):
        k = c.ri(0, len(s) - 1)
        x.remove_edge(k)
        s, t = np.delete(s, k), np.delete(t, k)
        want = odd_cycle(n, list(s), list(t))
        c.ev("removed-edge")
    r, col = hg.is_bipartite_graph(x)
    c.ck(bool(r) == (want is not None), "answer", "%r expected %r" % (r, want is not None))
    c.ck(bool(hg.is_bipartite_graph(x, return_coloring=False)) == (want is not None), "answer-only")
    if r:
        col = np.asarray(col)
        c.ck(col.shape == (n,) and set(col.tolist()) <= {0, 1}, "colours", str(col))
        c.ck(all(col[a] != col[b] for a, b in zip(s, t)), "not-a-colouring", str(col))
    if n and c.p(0.1):
        bad = [s.tolist() + [n + c.ri(0, 3)], t.tolist() + [0], n] if c.p(0.5) else [s.tolist() + [0], t.tolist() + [-c.ri(1, 3)], n]
        c.raises(lambda: hg.is_bipartite_graph(bad), "invalid-vertex")


def weights(c, m, limit):
    k = c.ri(0, 8)
    if k == 0:
        return np.full(m, c.choice([0, 1, -1, 7]))
    if k == 1:
        return c.rng.integers(0, 2, m)
    if k == 2:
        return c.rng.integers(-3, 4, m)
    if k == 3:
        return c.rng.integers(-1000, 0, m)
    if k == 4:
        return c.rng.choice([0, limit], m)
    if k == 5:
        return c.rng.integers(0, limit, m, endpoint=True) - c.choice([0, limit // 2, limit])
    if k == 6:
        dt = c.choice([np.uint8, np.int8, np.uint16, np.int16, np.uint32, np.int32, np.uint64])
        i = np.iinfo(dt)
        w = c.rng.integers(max(int(i.min), -limit // 2), min(int(i.max), limit // 2), m, endpoint=True).astype(dt)
        return w
    if k == 7:
        return c.rng.integers(0, 6, m).astype(c.choice([np.uint8, np.int32]))
    return c.rng.integers(0, 100, m)


def optimum(n1, edges, w):
    """(-size, cost) by dynamic programming over the subsets of the right side"""
    best = {0: (0, 0)}
    adj = [[] for _ in range(n1)]
    for (a, b), x in zip(edges, w):
        adj[a].append((b, x))
    for a in range(n1):
        nb = dict(best)
        for m, (k, cost) in best.items():
            for b, x in adj[a]:
                if not m >> b & 1:
                    q = (k - 1, cost + x)
                    mm = m | 1 << b
                    if mm not in nb or q < nb[mm]:
                        nb[mm] = q
        best = nb
    return min(best.values())


def assignment(n1, n2, edges, w):
    lo, hi = min(w), max(w)
    big = float((hi - lo) * (min(n1, n2) + 1) + 1)
    m = np.full((n1, n2), big)
    for (a, b), x in zip(edges, w):
        m[a, b] = min(m[a, b], x - lo)
    i, j = linear_sum_assignment(m)
    k = m[i, j] < big
    return -int(k.sum()), sum(int(v) + lo for v in m[i, j][k])


def match(c, n, s, t, w, oracle, key):
    c.inp(n=n, s=s, t=t, w=w)
    x = as_input(c, n, s, t)
    ww = w.tolist() if c.p(0.1) else (gen.layout(c, w) if len(w) > 1 else w)
    r = np.asarray(hg.bipartite_graph_matching(x, ww))
    c.ck(r.ndim == 1 and (not len(r) or (r.min() >= 0 and r.max() < len(s))) and len(set(r.tolist())) == len(r), key + "-edges", str(r))
    used = s[r].tolist() + t[r].tolist()
    c.ck(len(set(used)) == len(used), key + "-not-a-matching", str(r))
    col = odd_cycle(n, list(s), list(t))
    left = [i for i in range(n) if col[i] == 0]
    right = [i for i in range(n) if col[i] == 1]
    if len(right) > len(left):
        left, right = right, left
    pos = {v: i for i, v in enumerate(left)}
    pos.update({v: i for i, v in enumerate(right)})
    inl = set(left)
    edges = [(pos[a], pos[b]) if a in inl else (pos[b], pos[a]) for a, b in zip(s.tolist(), t.tolist())]
    wl = [int(v) for v in w]
    want = (0, 0) if not edges else optimum(len(left), edges, wl) if oracle == "dp" else assignment(len(left), max(1, len(right)), edges, wl)
    got = (-len(r), sum(wl[i] for i in r))
    c.ck(got[0] == want[0], key + "-size", "%d expected %d" % (-got[0], -want[0]))
    c.ck(got[1] == want[1], key + "-weight", "%d expected %d (size %d)" % (got[1], want[1], -got[0]))
    c.ev("matched", -want[0])
    if len(right) and -want[0] < min(len(left), len(right)):
        c.ev("not-perfect")


@family("matching", quick=20000)
def matching(c):
    n, s, t = bip(c, c.ri(1, 7), c.ri(1, 7))
    w = weights(c, len(s), 2 ** 40 // (n * n + 1))
    c.note(n, s, t, w, nontrivial=len(s) > 2 and len(set(w.tolist())) > 1)
    match(c, n, s, t, w, "dp", "matching")


@family("matching-large", quick=2500)
def matching_large(c):
    n, s, t = bip(c, c.ri(8, 40), c.ri(8, 40))
    w = weights(c, len(s), 10 ** 6)
    c.note(n, s, t, w, nontrivial=len(set(w.tolist())) > 1)
    match(c, n, s, t, w, "assignment", "large")


@family("matching-path", quick=16)
def matching_path(c):
    """the maximum matching needs to exchange more than a thousand edges"""
    k = c.ri(1000, 1300)
    s, t = np.arange(2 * k - 1), np.arange(1, 2 * k)
    w = np.zeros(2 * k - 1, dtype=np.int64)
    w[::2] = c.choice([1, 5])
    w += c.choice([0, 3])
    c.inp(k=k, w0=int(w[0]), w1=int(w[1]))
    c.note(k, w, nontrivial=True)
    r = np.sort(hg.bipartite_graph_matching((s, t, 2 * k), w))
    c.eq(r, np.arange(0, 2 * k - 1, 2), "path-matching")


@family("matching-errors", quick=400)
def matching_errors(c):
    n, s, t = bip(c, c.ri(1, 6), c.ri(1, 6))
    if not len(s):
        return
    w = weights(c, len(s), 1000)
    c.inp(n=n, s=s, t=t, w=w)
    c.note(n, s, t, w, nontrivial=True)
    k = c.ri(0, 3)
    if k == 0:
        a = c.ri(0, n - 1)
        c.raises(lambda: hg.bipartite_graph_matching((np.append(s, a), np.append(t, a), n), np.append(w, 1)), "loop")
    elif k == 1:
        c.raises(lambda: hg.bipartite_graph_matching(as_input(c, n, s, t), w[:-1]), "weights-length")
    elif k == 2:
        c.raises(lambda: hg.bipartite_graph_matching((s, t[:-1], n), w), "edges-length")
    else:
        # large weights are either rejected or handled exactly
        w = c.rng.integers(0, 2 ** c.ri(36, 62), len(s))
        c.inp(w=w)
        try:
            r = hg.bipartite_graph_matching(as_input(c, n, s, t), w)
        except ValueError:
            c.ev("rejected")
            return
        match(c, n, s, t, w, "dp", "large-weights")


@family("pixels", quick=5000)
def pixels(c):
    h, wd = c.ri(1, 6), c.ri(1, 7)
    dt = c.choice([np.float64, np.int32, np.uint8, np.bool_, np.int8])
    a = c.rng.random((h, wd)) < c.choice([0.2, 0.5, 0.9])
    b = c.rng.random((h, wd)) < c.choice([0.2, 0.5, 0.9])
    if c.p(0.1):
        b = a.copy()
    x, y = a.astype(dt), b.astype(dt)
    if dt in (np.float64, np.int32, np.int8):
        x, y = x * c.ri(1, 3) - (~a) * c.ri(0, 2), y * c.ri(1, 3)
    mode = c.choice(["absolute", "relative"])
    d = c.choice([0, 0.5, 1.2, 1.45, 2.1, 2.9, 4.0000001, 20])
    diag = float(np.sqrt(h * h + wd * wd))
    c.inp(image1=x, image2=y, max_distance=d, mode=mode)
    c.note(x, y, d, mode, nontrivial=a.sum() > 2 and b.sum() > 2)
    r = hg.match_pixels_image_2d(gen.layout(c, x), y, d if mode == "absolute" else d / diag, mode)
    s, t = np.asarray(r[0]), np.asarray(r[1])
    p, q = np.flatnonzero(a.ravel()), np.flatnonzero(b.ravel())
    c.ck(len(s) == len(t), "pixel-size")
    c.ck(set(s.tolist()) <= set(p.tolist()) and set(t.tolist()) <= set(q.tolist()), "pixel-not-set", "%s %s" % (s, t))
    c.ck(len(set(s.tolist())) == len(s) and len(set(t.tolist())) == len(t), "pixel-twice", "%s %s" % (s, t))

    def dist(u, v):
        return np.hypot(u // wd - v // wd, u % wd - v % wd)
    got = dist(s, t)
    c.ck(not len(s) or got.max() <= d + 1e-9, "pixel-too-far", str(got))
    if not len(p) or not len(q):
        return
    m = dist(p[:, None], q[None, :])
    big = 1000.0
    m = np.where(m <= d + 1e-9, m, big)
    i, j = linear_sum_assignment(m)
    k = m[i, j] < big
    c.ck(len(s) == k.sum(), "pixel-matching-size", "%d expected %d" % (len(s), k.sum()))
    c.ck(got.sum() <= m[i, j][k].sum() + 0.001 * len(s) + 1e-9, "pixel-matching-cost", "%r expected %r" % (got.sum(), m[i, j][k].sum()))
    c.ev("pixels", len(s))
    if c.p(0.05):
        c.raises(lambda: hg.match_pixels_image_2d(x, y, -1, mode), "negative-distance")
        c.raises(lambda: hg.match_pixels_image_2d(x, y, 1, "none"), "mode")
