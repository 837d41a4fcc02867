"""P02: grid graphs contain exactly the in-domain neighbour pairs."""
import itertools
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["graph_core"]
RULE = ("random shapes of 1 to 5 dimensions (sides of length 1 included) and random symmetric neighbour lists (long offsets larger than the "
        "domain included), plus the 4/8/6 adjacency constructors; every vertex of the implicit graph and the whole edge set of the explicit one "
        "are compared with pixel pairs enumerated by coordinates; embeddings are compared with numpy's (un)ravel_index; Khalimsky images with "
        "the midpoint of each edge. Non-trivial: at least one edge.")
ASSUMPTIONS = ["neighbour lists are symmetric, without duplicates and without the null offset, except in the family 'directed' which only "
               "looks at the neighbourhoods of the implicit graph", "up to about 400 pixels (3000 for the fixed adjacencies)"]

CLS = {1: "RegularGraph1d", 2: "RegularGraph2d", 3: "RegularGraph3d", 4: "RegularGraph4d", 5: "RegularGraph5d"}


def shape(c, d=None, maxpix=150):
    d = d or c.ri(1, 5)
    while True:
        s = tuple(c.ri(1, [0, 30, 9, 6, 4, 4][d]) if c.p(0.85) else 1 for _ in range(d))
        if np.prod(s) <= maxpix:
            return s


def offsets(c, s, symmetric=True):
    d = len(s)
    r = c.ri(1, 3)
    out = set()
    for _ in range(c.ri(0, 6)):
        o = tuple(c.ri(-r, r) if c.p(0.7) else 0 for _ in range(d))
        if c.p(0.1):
            o = tuple(c.choice([-1, 0, 1]) * c.ri(0, s[k] + 1) for k in range(d))
        if any(o):
            out.add(o)
            if symmetric:
                out.add(tuple(-x for x in o))
    out = [o for o in out]
    out.sort()
    out = [out[i] for i in c.rng.permutation(len(out))]
    return out


def nb_arg(c, offs, d):
    a = np.array(offs, dtype=np.int64).reshape(-1, d)
    k = c.ri(0, 3)
    if k == 0 and len(offs):
        return [list(map(int, o)) for o in offs]
    if k == 1:
        return a.astype(np.int32) if c.p(0.5) else a.astype(np.int8)
    if k == 2 and len(offs):
        return gen.layout(c, a)
    return a


def shape_arg(c, s):
    k = c.ri(0, 3)
    return s if k == 0 else list(s) if k == 1 else np.array(s) if k == 2 else np.array(s, dtype=np.int32)


def neighbours_of(s, offs):
    idx = np.arange(int(np.prod(s))).reshape(s)
    out = []
    for x in np.ndindex(*s):
        out.append([int(idx[tuple(a + b for a, b in zip(x, o))]) for o in offs
                    if all(0 <= a + b < k for a, b, k in zip(x, o, s))])
    return out


def check_implicit(c, g, s, offs, nb):
    n = int(np.prod(s))
    c.ck(g.num_vertices() == n, "num_vertices", "%s %s" % (g.num_vertices(), s))
    c.ck(list(g.vertices()) == list(range(n)), "vertices")
    for v in range(n):
        w = sorted(nb[v])
        c.ck(sorted(g.adjacent_vertices(v)) == w, "implicit-adjacent", "shape %s offsets %s vertex %d: %s want %s" % (s, offs, v, list(g.adjacent_vertices(v)), w))
        c.ck(sorted((e[0], e[1]) for e in g.out_edges(v)) == [(v, x) for x in w], "implicit-out-edges", "%s %s %d" % (s, offs, v))
        c.ck(sorted((e[1], e[0]) for e in g.in_edges(v)) == [(v, x) for x in w], "implicit-in-edges", "%s %s %d" % (s, offs, v))
        c.ck(g.degree(v) == g.out_degree(v) == g.in_degree(v) == len(w), "implicit-degree", "%s %s %d" % (s, offs, v))
    vs = c.rng.integers(0, n, c.ri(1, 10)).astype(gen.dtype(c, [t for t in gen.INT_TYPES if np.iinfo(t).max >= n]))
    deg = np.array([len(x) for x in nb])
    for f in ("degree", "out_degree", "in_degree"):
        c.eq(getattr(g, f)(vs), deg[vs.astype(np.int64)], "implicit-degree-array")
    c.ev("vertices_checked", n)


def check_explicit(c, g, s, nb):
    n = int(np.prod(s))
    c.ck(g.num_vertices() == n, "explicit-num_vertices")
    src, dst = g.edge_list()
    got = sorted((min(a, b), max(a, b)) for a, b in zip(src.tolist(), dst.tolist()))
    want = sorted(set((min(v, x), max(v, x)) for v in range(n) for x in nb[v]))
    c.ck(got == want, "explicit-edges", "shape %s: got %s want %s" % (s, got[:20], want[:20]))
    for v in range(n):
        c.ck(sorted(g.adjacent_vertices(v)) == sorted(nb[v]), "explicit-adjacent", "%d" % v)
        c.ck(g.degree(v) == len(nb[v]), "explicit-degree")
    c.ck(tuple(int(i) for i in hg.CptGridGraph.get_shape(g)) == tuple(s), "explicit-shape", str(hg.CptGridGraph.get_shape(g)))
    c.ev("edges_checked", len(want))


def cap(c, s, g):
    c.ck(tuple(int(i) for i in hg.CptGridGraph.get_shape(g)) == tuple(s), "shape", str(s))


@family("nd", quick=700)
def nd(c):
    s = shape(c)
    offs = offsets(c, s)
    c.inp(shape=s, offsets=offs)
    nb = neighbours_of(s, offs)
    d = len(s)
    c.note(s, offs, nontrivial=any(nb))
    k = c.ri(0, 2)
    if k == 0:
        g = hg.get_nd_regular_implicit_graph(shape_arg(c, s), nb_arg(c, offs, d))
    else:
        cls = getattr(hg, CLS[d])
        arg = shape_arg(c, s) if k == 1 else getattr(hg, "EmbeddingGrid%dd" % d)(np.array(s))
        g = cls(arg, nb_arg(c, offs, d))
    cap(c, s, g)
    check_implicit(c, g, s, offs, nb)
    nl = g.neighbour_list()
    c.eq(np.asarray(nl).reshape(-1, d), np.array(offs).reshape(-1, d), "neighbour_list")
    check_explicit(c, g.as_explicit_graph(), s, nb)
    e = hg.get_nd_regular_graph(shape_arg(c, s), nb_arg(c, offs, d))
    check_explicit(c, e, s, nb)
    # weights given on the pixel grid reach the right vertices
    extra = c.choice([(), (2,)])
    w = gen.values(c, tuple(s) + extra)
    lin = hg.linearize_vertex_weights(w, e)
    c.eq(lin, w.reshape((-1,) + extra), "linearize")
    c.eq(hg.linearize_vertex_weights(w, shape=s), w.reshape((-1,) + extra), "linearize-shape")
    c.eq(hg.linearize_vertex_weights(w, g), w.reshape((-1,) + extra), "linearize")
    # an array which fits neither the grid nor its list of pixels is refused
    o = list(w.shape)
    j = c.ri(0, d - 1)
    m = c.ri(2, 3)
    if d > 1 and c.p(0.5):
        o[j], o[(j + 1) % d] = o[j] * m, max(o[(j + 1) % d] // m, 1)
    else:
        o[j] += m - 1
    n = int(np.prod(s))
    if tuple(o[:d]) != tuple(s) and o[0] != n:
        for k, f in (("shape", lambda: hg.linearize_vertex_weights(np.zeros(o), shape=s)), ("graph", lambda: hg.linearize_vertex_weights(np.zeros(o), e))):
            c.raises(f, "linearize-incompatible-" + k)
        c.ev("linearize-refused" + ("-same-size" if np.prod(o) == w.size else ""))
    if int(np.prod(s)) not in (w.shape[0],) or True:
        c.eq(hg.delinearize_vertex_weights(lin, e).shape, w.shape, "delinearize") if (lin.shape[:d] != tuple(s)) else None
    c.eq(hg.delinearize_vertex_weights(lin, shape=s).reshape(w.shape), w, "delinearize-shape")


@family("directed", quick=150)
def directed(c):
    s = shape(c)
    offs = offsets(c, s, symmetric=False)
    if c.p(0.2):
        offs.append(tuple(0 for _ in s))
    c.inp(shape=s, offsets=offs)
    nb = neighbours_of(s, offs)
    c.note(s, offs, nontrivial=any(nb))
    g = hg.get_nd_regular_implicit_graph(s, np.array(offs, dtype=np.int64).reshape(-1, len(s)))
    check_implicit(c, g, s, offs, nb)


O4 = [(-1, 0), (0, -1), (0, 1), (1, 0)]
O8 = [o for o in itertools.product((-1, 0, 1), repeat=2) if any(o)]
O6 = [(-1, 0, 0), (1, 0, 0), (0, -1, 0), (0, 1, 0), (0, 0, -1), (0, 0, 1)]


@family("adjacencies", quick=250)
def adjacencies(c):
    name, offs = c.choice([("4", O4), ("8", O8), ("6", O6)])
    d = len(offs[0])
    s = tuple(c.ri(1, 12 if d == 2 else 7) for _ in range(d)) if c.p(0.95) else ((c.ri(30, 60), c.ri(30, 50)) if d == 2 else (12, 13, 14))
    c.inp(shape=s, adj=name)
    nb = neighbours_of(s, offs)
    c.note(s, name, nontrivial=any(nb))
    g = getattr(hg, "get_%s_adjacency_implicit_graph" % name)(shape_arg(c, s))
    cap(c, s, g)
    c.ck(hg.get_attribute(g, "no_border_vertex_out_degree") == len(offs), "out-degree-attribute")
    if np.prod(s) < 200:
        check_implicit(c, g, s, offs, nb)
    e = getattr(hg, "get_%s_adjacency_graph" % name)(shape_arg(c, s))
    cap(c, s, e)
    c.ck(hg.get_attribute(e, "no_border_vertex_out_degree") == len(offs), "out-degree-attribute")
    check_explicit(c, e, s, nb)
    check_explicit(c, g.as_explicit_graph(), s, nb)
    bad = tuple(s) + (2,) if c.p(0.5) else tuple(s)[:-1]
    c.raises(lambda: getattr(hg, "get_%s_adjacency_graph" % name)(bad), "bad-dimension")
    z = list(s)
    z[c.ri(0, d - 1)] = c.choice([0, -1])
    c.raises(lambda: getattr(hg, "get_%s_adjacency_graph" % name)(z), "non-positive-side")


@family("mask", quick=150)
def mask(c):
    d = c.ri(1, 4)
    ms = tuple(c.ri(1, 4) for _ in range(d))
    m = c.rng.integers(-1, 3, ms) if c.p(0.5) else (c.rng.random(ms) < 0.5)
    center = None
    if c.p(0.4):
        center = [c.ri(0, x - 1) for x in ms]
    c.inp(mask=m, center=center)
    c.note(np.asarray(m), str(center))
    r = hg.mask_2_neighbours(m.tolist() if c.p(0.3) else m, center)
    ce = center if center is not None else [x // 2 for x in ms]
    want = sorted(tuple(a - b for a, b in zip(x, ce)) for x in np.ndindex(*ms) if m[x] > 0)
    c.ck(sorted(map(tuple, np.asarray(r).reshape(-1, d).tolist())) == want, "mask", "%s want %s" % (r, want))
    c.raises(lambda: hg.mask_2_neighbours(m, [0] * (d + 1)), "mask-bad-center")


@family("embedding", quick=500)
def embedding(c):
    s = shape(c, maxpix=2000)
    d = len(s)
    n = int(np.prod(s))
    c.inp(shape=s)
    e = getattr(hg, "EmbeddingGrid%dd" % d)(np.array(s) if c.p(0.5) else list(s))
    c.eq(e.shape(), np.array(s), "emb-shape")
    c.ck(e.size() == n and e.dimension() == d, "emb-size")
    sh = tuple(c.ri(0 if c.p(0.1) else 1, 4) for _ in range(c.ri(1, 3)))
    lin = c.rng.integers(0, n, sh)
    ty = gen.dtype(c, [t for t in (np.int8, np.int16, np.int32, np.int64) if np.iinfo(t).max >= n])
    want = np.stack(np.unravel_index(lin, s), axis=-1)
    c.note(s, lin)
    got = e.lin2grid(gen.layout(c, lin.astype(ty)))
    c.eq(got, want, "lin2grid", "%s" % (s,))
    ty2 = gen.dtype(c, [t for t in (np.int8, np.int16, np.int32, np.int64) if np.iinfo(t).max >= max(s)])
    if lin.size:
        c.eq(e.grid2lin(gen.layout(c, want.astype(ty2))), lin, "grid2lin", "%s" % (s,))
        for i in range(min(5, lin.size)):
            x = int(lin.ravel()[i])
            p = [int(k) for k in np.unravel_index(x, s)]
            c.eq(e.lin2grid(x), np.array(p), "lin2grid-scalar")
            c.ck(e.grid2lin(p) == x, "grid2lin-list")
            c.ck(e.grid2lin(tuple(p)) == x, "grid2lin-list")
    pts = np.stack([c.rng.integers(-2, k + 2, sh) for k in s], axis=-1) if c.p(0.8) else want
    inside = np.all((pts >= 0) & (pts < np.array(s)), axis=-1)
    if pts.size:
        c.eq(e.contains(gen.layout(c, pts.astype(ty2))), inside, "contains", "%s" % (s,))
        for i in range(min(5, inside.size)):
            p = [int(k) for k in pts.reshape(-1, d)[i]]
            c.ck(bool(e.contains(p)) == bool(inside.ravel()[i]), "contains-list", "%s in %s" % (p, s))
    c.ev("points", lin.size)
    for f in (e.grid2lin, e.contains):
        p = [0] * (d + 1) if c.p(0.5) or d == 1 else [0] * (d - 1)
        c.raises(lambda: f(p), "wrong-number-of-coordinates", f.__name__)
        c.raises(lambda: f(np.zeros((3, len(p)), np.int64)), "wrong-number-of-coordinates", f.__name__ + " array")


@family("khalimsky", quick=500)
def khalimsky(c):
    s = (c.ri(1, 8), c.ri(1, 8))
    g = hg.get_4_adjacency_graph(s)
    if c.p(0.3):
        # same graph, other edge order and orientation
        src, dst = g.edge_list()
        o = c.rng.permutation(len(src))
        f = c.rng.random(len(src)) < 0.5
        src, dst = src[o], dst[o]
        g = gen.make_graph(hg, g.num_vertices(), np.where(f, src, dst), np.where(f, dst, src))
        hg.CptGridGraph.link(g, s)
        hg.set_attribute(g, "no_border_vertex_out_degree", 4)
    src, dst = g.edge_list()
    m = len(src)
    w = gen.values(c, m, gen.dtype(c))
    border = c.p(0.5)
    c.inp(shape=s, weights=w, border=border, src=src, dst=dst)
    c.note(s, w, border, src, dst, nontrivial=m > 0)
    k = hg.graph_4_adjacency_2_khalimsky(g, gen.layout(c, w) if m else w, add_extra_border=border)
    b = 1 if border else 0
    ks = (2 * s[0] - 1 + 2 * b, 2 * s[1] - 1 + 2 * b)
    c.ck(k.shape == ks, "khalimsky-shape", "%s want %s" % (k.shape, ks))
    want = np.zeros(ks, w.dtype)
    mid = []
    for a, e, x in zip(src, dst, w):
        p = (a // s[1] + e // s[1] + b, a % s[1] + e % s[1] + b)
        want[p] = x
        mid.append(p)
    # 2-faces are null, 0-faces have the maximum of the 1-faces around them
    for y in range(ks[0]):
        for x in range(ks[1]):
            if (y + b) % 2 == 1 and (x + b) % 2 == 1:
                v = [want[yy, xx] for yy, xx in ((y - 1, x), (y + 1, x), (y, x - 1), (y, x + 1)) if 0 <= yy < ks[0] and 0 <= xx < ks[1]]
                if v:
                    want[y, x] = max(v)
    c.eq(k, want, "khalimsky", "shape %s border %s" % (s, border))
    kk = gen.layout(c, k)
    g2, w2 = hg.khalimsky_2_graph_4_adjacency(kk, border, g if c.p(0.5) else None)
    c.ck(g2.num_vertices() == g.num_vertices() and g2.num_edges() == m, "khalimsky-graph")
    c.ck(tuple(hg.CptGridGraph.get_shape(g2)) == s, "khalimsky-graph-shape")
    d1 = {(min(a, e), max(a, e)): x for a, e, x in zip(src.tolist(), dst.tolist(), w.tolist())}
    s2, t2 = g2.edge_list()
    d2 = {(min(a, e), max(a, e)): x for a, e, x in zip(s2.tolist(), t2.tolist(), np.asarray(w2).tolist())}
    c.ck(d1 == d2, "khalimsky-round-trip", "%s %s" % (d1, d2))
    # any image: weights are the values at the middle of the edges
    im = gen.values(c, ks, gen.dtype(c))
    g3, w3 = hg.khalimsky_2_graph_4_adjacency(im, border, g)
    c.ck(g3 is g, "khalimsky-graph-given")
    c.eq(w3, np.array([im[p] for p in mid], im.dtype).reshape(m), "khalimsky-weights")
    c.raises(lambda: hg.khalimsky_2_graph_4_adjacency(np.zeros((ks[0] + 1, ks[1])), border), "khalimsky-even")
    c.raises(lambda: hg.khalimsky_2_graph_4_adjacency(np.zeros((ks[0], ks[1] + 1)), border), "khalimsky-even")
    c.raises(lambda: hg.khalimsky_2_graph_4_adjacency(np.zeros((ks[0] + 2, ks[1])), border, g), "khalimsky-wrong-graph")
    c.ev("edges_checked", m)
