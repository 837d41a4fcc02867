"""P32: utility conversions and drawings describe exactly what they are given."""
import os
import tempfile
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "hgv-mpl-%d" % os.getuid()))
import collections
import contextlib
import io
import warnings
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["tree_attributes", "tree_accumulators", "hierarchy_core", "graph_core", "sorting"]
RULE = ("pairs of arrays of every type and shape which are, or are not, in bijection; every list of up to five arrays of the eleven types with boundary values; arrays of angles with "
        "boundary and neighbouring values; random trees and altitudes printed with every ordering and scale, the text being parsed back; random graphs and trees plotted with matplotlib's "
        "headless back end, the recorded segments, points and colours being read back. Non-trivial: at least two elements, arrays, leaves or vertices.")
ASSUMPTIONS = ["no NaN", "printed trees have increasing altitudes and up to 14 leaves, attributes of one digit", "64-bit integers may be rounded when mixed with floating point values (documented)"]

ALL = [np.bool_] + gen.INT_TYPES + gen.FLOAT_TYPES


@family("bijection", quick=6000, thorough=80000)
def bijection(c):
    n = c.choice([0, 1, 2, 3, 5, 8, 20, 60])
    k = c.choice([1, 2, 3, 5, 10])
    lab = c.rng.integers(0, k, n)
    dt1, dt2 = c.choice(ALL[1:]), c.choice(ALL[1:])
    v1 = c.rng.permutation(np.arange(20))[:k]
    v2 = c.rng.permutation(np.arange(20))[:k]
    a, b = v1[lab].astype(dt1), v2[lab].astype(dt2)
    mode = c.ri(0, 4)
    if mode == 1 and n:                        # one element moved
        b[c.ri(0, n - 1)] = v2[c.ri(0, k - 1)]
    elif mode == 2 and k > 1:                  # two values merged on one side
        b[b == v2[0]] = v2[1]
    elif mode == 3 and k > 1:
        a[a == v1[0]] = v1[1]
    elif mode == 4:
        b = c.rng.integers(0, k, n if c.p(0.7) else n + 1).astype(dt2)
    if a.size and c.p(0.3):
        a = gen.layout(c, a)
    if a.size % 2 == 0 and c.p(0.3):
        a = a.reshape((2, -1) if c.p(0.5) else (-1, 2))
    want = a.size == b.size
    if want:
        pairs = set(zip(a.flatten().tolist(), b.flatten().tolist()))
        want = len(pairs) == len({x for x, _ in pairs}) == len({y for _, y in pairs})
    c.inp(a=a, b=b)
    c.note(a, b, nontrivial=n > 1)
    a0, b0 = a.copy(), b.copy()
    c.ck(bool(hg.is_in_bijection(a, b)) == want, "bijection", "expected %r" % want)
    c.ck(bool(hg.is_in_bijection(b, a)) == want, "bijection-swapped", "expected %r" % want)
    c.eq(a, a0, "input-modified")
    c.eq(b, b0, "input-modified")
    c.ev("bijection" if want else "no-bijection")


def smallest(types):
    """smallest type which holds every value of the types; unsigned 64-bit and signed values share int64, 64-bit integers may be rounded in floating point"""
    t = [np.dtype(x) for x in types]
    if any(x.kind == "f" for x in t):
        big = any(x == np.float64 for x in t) or any(x.kind in "iu" and x.itemsize >= 4 for x in t)
        return np.dtype(np.float64 if big else np.float32)
    if all(x.kind == "b" for x in t):
        return np.dtype(np.bool_)
    lo, hi = min(0 if x.kind != "i" else np.iinfo(x).min for x in t), max(1 if x.kind == "b" else np.iinfo(x).max for x in t)
    best = [x for x in map(np.dtype, gen.INT_TYPES) if np.iinfo(x).min <= lo and np.iinfo(x).max >= hi and (lo < 0) == (x.kind == "i")]
    return min(best, key=lambda x: x.itemsize) if best else np.dtype(np.int64)


@family("types", quick=6000, thorough=60000)
def types(c):
    k = c.ri(1, 5)
    tys = [c.choice(ALL) for _ in range(k)]
    arrs = []
    for t in tys:
        if t == np.bool_:
            a = c.rng.integers(0, 2, c.ri(0, 4)).astype(bool)
        else:
            a = gen.values(c, c.ri(0, 4), np.dtype(t))
            if a.size and np.dtype(t).kind != "f":
                a[c.ri(0, a.size - 1)] = c.choice([np.iinfo(t).min, np.iinfo(t).max])
        arrs.append(a)
    c.inp(arrays=arrs)
    c.note(*arrs, nontrivial=k > 1)
    want = smallest(tys)
    got = hg.common_type(*arrs)
    c.ck(np.dtype(got) == want, "common-type", "%s: %s expected %s" % ([np.dtype(t).name for t in tys], got, want))
    perm = [arrs[i] for i in c.rng.permutation(k)]
    c.ck(np.dtype(hg.common_type(*perm)) == np.dtype(got), "common-type-order", "%s: %s" % ([a.dtype.name for a in perm], hg.common_type(*perm)))
    over = np.dtype(hg.common_type(*arrs, safety_level="overflow"))
    c.ck(over == (np.float32 if all(np.dtype(t) in (np.dtype(np.bool_), np.dtype(np.float32)) for t in tys) else np.float64), "common-type-overflow", "%s: %s" % ([np.dtype(t).name for t in tys], over))
    for level, ty in (("minimum", want), ("overflow", over)):
        out = hg.cast_to_common_type(*arrs, safety_level=level)
        c.ck(len(out) == k, "cast-count")
        for a, b in zip(arrs, out):
            c.ck(b.dtype == ty and b.shape == a.shape, "cast-type", "%s %s" % (b.dtype, ty))
            c.ck((b is a) == (a.dtype == ty), "cast-identity", "%s to %s" % (a.dtype, ty))
            if a.dtype.itemsize == 8 and a.dtype.kind in "iu" and (ty.kind == "f" or ty.kind != a.dtype.kind):
                continue
            c.ck([int(x) if a.dtype.kind != "f" else float(x) for x in a] == [int(x) if a.dtype.kind != "f" else float(x) for x in b], "cast-values", "%s -> %s" % (a, b))
    t = c.choice(ALL[1:])
    a = arrs[0]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = hg.cast_to_dtype(a, t)
    c.ck(r.dtype == t and (r is a) == (a.dtype == t), "cast-to-dtype")
    info = hg.dtype_info(t)
    c.ck((info.min, info.max) == ((np.finfo if np.dtype(t).kind == "f" else np.iinfo)(t).min, (np.finfo if np.dtype(t).kind == "f" else np.iinfo)(t).max), "dtype-info")
    if c.p(0.1):
        c.raises(lambda: hg.common_type(*arrs, safety_level="none"), "level-accepted")
        c.raises(lambda: hg.dtype_info(c.choice([np.bool_, np.complex64, np.str_])), "type-accepted")
    sh = tuple(c.ri(0, 5) for _ in range(c.ri(0, 4)))
    for s in (list(sh), sh, np.array(sh, c.choice(gen.INT_TYPES)), (np.int32(x) for x in sh)):
        r = hg.normalize_shape(s)
        c.ck(r == sh and type(r) is tuple and all(type(x) is int for x in r), "normalize-shape", repr(r))


@family("angles", quick=3000, thorough=40000)
def angles(c):
    n = c.choice([0, 1, 2, 5, 30])
    def one():
        a = c.rng.random(n) * np.pi
        m = c.rng.random(n)
        a[m < 0.3] = (c.rng.integers(0, 9, int((m < 0.3).sum()))) * np.pi / 8
        a[m > 0.9] = np.nextafter(np.pi, 0)
        return a
    a, b = one(), one()
    if c.p(0.3):
        b = np.clip(a + c.choice([0, np.pi / 2, -np.pi / 2, 1e-9]), 0, np.pi)
    if n and c.p(0.3):
        a, b = gen.layout(c, a), gen.layout(c, b)
    c.inp(a=a, b=b)
    c.note(a, b, nontrivial=n > 0)
    a0, b0 = a.copy(), b.copy()
    r = hg.mean_angle_mod_pi(a, b)
    c.eq(a, a0, "input-modified")
    c.eq(b, b0, "input-modified")
    c.ck(r.shape == a.shape, "shape")

    def dist(x, y):
        d = np.abs(x - y)
        return np.minimum(d, np.pi - d)
    c.ck(bool(np.all((r >= 0) & (r <= np.pi + 1e-12))), "range", str(r))
    d = dist(a, b)
    c.ck(bool(np.all(np.abs(dist(r, a) - d / 2) < 1e-9)) and bool(np.all(np.abs(dist(r, b) - d / 2) < 1e-9)), "middle", "%s %s -> %s" % (a, b, r))
    c.ck(np.allclose(dist(hg.mean_angle_mod_pi(b, a), r)[d < np.pi / 2 - 1e-9], 0, atol=1e-9), "symmetric")


def increasing(c, par, n, dtype=np.float64):
    m = len(par)
    h = np.zeros(m, dtype)
    kids = [[] for _ in range(m)]
    for i in range(m - 1):
        kids[par[i]].append(i)
    step = c.choice([1, 2, 3])
    for i in range(n, m):
        h[i] = max(h[j] for j in kids[i]) + c.ri(1, step)
    return h, kids


@family("text", quick=900, thorough=12000)
def text(c):
    par = gen.parents(c, nleaves=c.ri(2, 14), unary=c.p(0.2))
    t = hg.Tree(par)
    n, m = t.num_leaves(), t.num_vertices()
    h, kids = increasing(c, par, n, c.choice([np.int64, np.float64, np.uint8, np.float32, np.int16]))
    if h.dtype.kind != "u" and c.p(0.2):
        h -= c.ri(1, 50)                       # negative altitudes
    use_alt = c.p(0.8)
    att = c.rng.integers(0, 10, m) if c.p(0.8) else None
    ordering = c.choice(["altitudes", "area", "none", "leaves"])
    kw = dict(altitudes=h if use_alt else None, attribute=att, float_size=c.ri(3, 6), ordering=ordering, scale=c.choice(["linear", "log"]))
    c.inp(parents=par, **kw)
    c.note(par, h, use_alt, att, ordering, kw["scale"], nontrivial=n > 1)
    h0, a0 = h.copy(), None if att is None else att.copy()
    try:
        r = hg.print_partition_tree(t, return_string=True, **kw)
    except AssertionError as e:
        c.ck("too" in str(e), "assertion", str(e))
        c.ev("too-large")
        return
    c.eq(h, h0, "altitudes-modified")
    if att is not None:
        c.eq(att, a0, "attribute-modified")
    if c.p(0.2):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            c.ck(hg.print_partition_tree(t, **kw) is None, "printed-result")
        c.ck(out.getvalue() == r + "\n", "printed-text", "the printed text differs from the returned one")
    w = 2 if n >= 10 else 1
    order = [int(x[:w]) for x in r.split("\n") if x[:w].strip()]
    c.ck(sorted(order) == list(range(n)), "leaves", "%s\n%s" % (order, r))
    if ordering == "leaves":
        c.ck(order == list(range(n)), "leaf-order", str(order))
    else:                                      # subtrees do not intersect, children are sorted
        pos = np.argsort(order)
        span = [None] * m
        area = np.zeros(m, int)
        for i in range(m):
            leaves = [pos[i]] if i < n else [x for k in kids[i] for x in span[k]]
            span[i] = leaves
            area[i] = len(leaves)
            c.ck(max(leaves) - min(leaves) + 1 == len(leaves), "subtree", "leaves of node %d are not contiguous\n%s" % (i, r))
        key = {"area": lambda k: area[k], "none": lambda k: k, "altitudes": lambda k: (h if use_alt else hg.attribute_regular_altitudes(t))[k]}[ordering]
        for i in range(n, m):
            ks = [key(k) for k in sorted(kids[i], key=lambda k: min(span[k]))]
            c.ck(ks == sorted(ks), "children-order", "children of node %d: %s\n%s" % (i, ks, r))
    if att is not None and ordering != "leaves":
        # inner values, in one digit, other than the leading leaf numbers
        txt = "".join(" " * w + x[w:] for x in r.split("\n"))
        c.ck(sorted(ch for ch in txt if ch.isdigit()) == sorted(str(x) for x in att[n:]), "values", r)
    c.ev("lines", len(order))


def figure():
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    plt.close("all")
    return plt, plt.figure()


@family("plot-graph", quick=60, thorough=600)
def plot_graph(c):
    plt, fig = figure()
    n, s, t = gen.graph(c, maxn=15)
    g = gen.make_graph(hg, n, s, t)
    pos = c.rng.integers(-50, 50, (n, 2)).astype(c.choice([np.int64, np.float64, np.float32]))
    lab = c.rng.integers(0, c.choice([1, 3, 20]), n) if c.p(0.6) else None
    c.inp(n=n, s=s, t=t, positions=pos, labels=lab)
    c.note(n, s, t, pos, lab, nontrivial=n > 1)
    p0 = pos.copy()
    hg.plot_graph(g, vertex_positions=pos, vertex_labels=lab)
    c.eq(pos, p0, "positions-modified")
    from matplotlib.collections import LineCollection, PathCollection
    ax = fig.axes[0]
    seg = [x for col in ax.collections if isinstance(col, LineCollection) for x in col.get_segments()]
    can = lambda a, b: tuple(sorted((tuple(float(x) for x in a), tuple(float(x) for x in b))))
    c.ck(sorted(can(x[0], x[-1]) for x in seg) == sorted(can(pos[a], pos[b]) for a, b in zip(s, t)), "segments", str(seg))
    pts = [col for col in ax.collections if isinstance(col, PathCollection)]
    c.ck(len(pts) == (1 if lab is None else 2), "point-sets", str(len(pts)))
    for col in pts:
        c.eq(np.asarray(col.get_offsets()), pos.astype(float), "points")
    if lab is not None:
        ec = [tuple(x) for x in np.broadcast_to(pts[-1].get_edgecolors(), (n, 4))]
        distinct = len(set(lab.tolist()))
        pal = len(set(hg.plot.utils.COLORS.tolist()))
        same = all(ec[i] == ec[j] for i in range(n) for j in range(i) if lab[i] == lab[j])
        c.ck(same, "label-colours", "vertices of one label have different colours")
        if distinct <= pal:
            c.ck(len(set(ec)) == distinct, "label-colours", "%d colours for %d labels" % (len(set(ec)), distinct))
    plt.close("all")
    c.ev("segments", len(seg))


@family("plot-tree", quick=80, thorough=800)
def plot_tree(c):
    plt, fig = figure()
    par = gen.parents(c, nleaves=c.ri(2, 25), unary=False)
    t = hg.Tree(par)
    n, m = t.num_leaves(), t.num_vertices()
    h, kids = increasing(c, par, n)
    distinct = c.p(0.5)
    if distinct:
        h[n:] += c.rng.permutation(m - n) / (2.0 * m)
        order = np.argsort(h[n:])
        h[n:] = np.maximum.accumulate(h[n:]) if False else h[n:]
    use = c.p(0.8)
    k = c.choice([0, 0, 1, 2, 3, 4])
    c.inp(parents=par, altitudes=h if use else None, n_clusters=k)
    c.note(par, h, use, k)
    h0 = h.copy()
    hg.plot_partition_tree(t, altitudes=h if use else None, n_clusters=k, lastp=c.choice([None, 30]))
    c.eq(h, h0, "altitudes-modified")
    if not use:
        b, _ = hg.tree_2_binary_tree(t)
        ra = hg.attribute_regular_altitudes(b)
        bp, alt = b.parents(), ra
    else:
        b, nm = hg.tree_2_binary_tree(t)
        bp, alt = b.parents(), h[nm]
    links = []
    colours = {}
    for col in fig.axes[0].collections:
        for x in col.get_segments():
            links.append(x)
            colours[(float(x[1][1]), float(x[0][0]), float(x[-1][0]))] = tuple(np.asarray(col.get_colors()[0]).tolist())
    c.ck(len(links) == n - 1, "links", "%d links for %d leaves" % (len(links), n))
    # read the dendrogram back: every link joins two ends, each the middle of a lower link or a leaf
    size = {}
    got = []
    for x in sorted(links, key=lambda x: (float(x[1][1]), max(float(x[0][1]), float(x[-1][1])))):
        hgt = float(x[1][1])
        tot = 0
        for end in (x[0], x[-1]):
            e = (round(float(end[0]), 6), round(float(end[1]), 9))
            q = size.get(e)
            if q is None and (round(e[0] - 5, 6) % 10) == 0:
                q = 1                          # a leaf
            tot += q or 0
        size[(round((float(x[0][0]) + float(x[-1][0])) / 2, 6), round(hgt, 9))] = tot
        got.append(round(hgt, 9))
    leafcount = np.zeros(len(bp), int)
    leafcount[:n] = 1
    for i in range(len(bp) - 1):
        leafcount[bp[i]] += leafcount[i]
    c.ck(sorted(got) == sorted(round(float(x), 9) for x in alt[n:]), "heights", "%s expected %s" % (got, alt[n:]))
    vals = alt[n:]
    if len(set(vals.tolist())) == len(vals):   # no tie: the links are exactly the nodes
        want = collections.Counter((round(float(alt[i]), 9), int(leafcount[i])) for i in range(n, len(bp)))
        have = collections.Counter((p[1], q) for p, q in size.items())
        c.ck(have == want, "merges", "%s expected %s" % (have, want))
        # the clusters obtained by removing the k - 1 highest merges are coloured, except single leaves; the rest is black
        black = [z for z, col in colours.items() if tuple(col[:3]) == (0.0, 0.0, 0.0)]
        top = sorted(vals.tolist())[-(k - 1):] if k > 1 else []
        want_black = set(round(x, 9) for x in top) if 0 < k <= n - 1 else set(round(float(x), 9) for x in vals)
        c.ck(set(round(z[0], 9) for z in black) == want_black, "clusters", "black links %s expected %s" % (sorted(z[0] for z in black), sorted(want_black)))
        c.ev("no-tie")
    plt.close("all")
    c.ev("links", len(links))
