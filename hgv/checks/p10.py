"""P10: tree of shapes."""
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["tree_of_shapes", "tree_fusion", "hierarchy_core", "tree", "graph_core", "tree_attributes", "tree_accumulators", "sorting"]
RULE = ("random small 2d and 3d images of every numeric type (ties, constants, thin shapes, single pixel extrema, nested rings, not well-composed patterns), "
        "all paddings, with and without immersion and original size, any exterior vertex; nodes compared with the hole-filled connected components of all "
        "upper and lower level sets of the interval-valued immersion computed naively; self-duality, contrast invariance, multi-channel images. "
        "Non-trivial: more than one pixel value.")
ASSUMPTIONS = ["finite values, exactly representable border mean (or compared with the truncation of the exact mean)", "images up to about 60 pixels (2d) or 3x3x3 (3d)",
               "without immersion only well defined parts (validity, reconstruction, connectedness) are compared"]


def image(c, dims=None, dt=None, lo=1):
    d = dims or c.choice([2, 2, 2, 3])
    hi = 7 if d == 2 else 3
    sh = tuple(c.ri(lo, hi) for _ in range(d))
    dt = dt or gen.dtype(c)
    st = c.choice(["values", "values", "rings", "checker", "spots"])
    if st == "values":
        im = gen.values(c, sh, dt)
    elif st == "rings":
        ix = np.indices(sh)
        r = np.minimum.reduce([np.minimum(ix[k], sh[k] - 1 - ix[k]) for k in range(d)])
        im = c.rng.integers(0, 6, 10)[r]
        im[tuple(c.ri(0, x - 1) for x in sh)] = c.ri(0, 6)
    elif st == "checker":
        im = np.indices(sh).sum(0) % 2 * c.ri(1, 3) + c.rng.integers(0, 2, sh)
    else:
        im = np.full(sh, 3)
        for _ in range(c.ri(1, 4)):
            im[tuple(c.ri(0, x - 1) for x in sh)] = c.ri(0, 6)
    if dt.kind != "u" and st != "values" and c.p(0.4):
        im = im - 3
    im = im.astype(dt)
    if dims is None and c.p(0.12):   # same order, values at the limits of the type
        lo, hi = limits(dt)
        if dt.kind == "f":
            some = np.array([lo, lo / 2, -1, 0, 1, hi / 2, hi], dtype=dt)
        else:
            some = np.array(sorted({lo, lo + 1, lo // 2, 0, 1, hi // 2, hi - 1, hi}), dtype=dt)
        some = np.sort(c.rng.choice(some, min(len(some), c.ri(1, 5)), replace=False))
        r = np.unique(im, return_inverse=True)[1].reshape(im.shape) % len(some)
        im = some[r]
    return im


def limits(dt):
    if dt.kind == "f":
        return np.finfo(dt).min, np.finfo(dt).max
    return int(np.iinfo(dt).min), int(np.iinfo(dt).max)


def pick_padding(c, im, options):
    """the mean of huge values is not exact"""
    p = c.choice(options)
    if p == "mean" and (im.dtype.kind == "f" or im.dtype.itemsize == 8) and np.abs(im.astype(np.float64)).max() > 1e15:
        return "zero"
    return p


def pad_value(im, padding):
    if padding == "zero":
        return 0
    border = np.ones(im.shape, bool)
    border[tuple(slice(1, -1) for _ in im.shape)] = False
    v = im[border].astype(np.float64)
    m = v.sum() / v.size
    if im.dtype.kind in "iu":
        return int(m)
    return float(im.dtype.type(m))


def plain_map(im, padding, immersion):
    """lower and upper bounds of the immersed, padded image"""
    a = im.astype(object)
    if padding != "none":
        a = np.pad(a, 1, constant_values=pad_value(im, padding))
    lo = hi = a
    if immersion:
        lo, hi = a, a
        for ax in range(a.ndim):
            n = a.shape[ax]
            i = np.arange(2 * n - 1)
            lo = np.minimum(np.take(lo, i // 2, ax), np.take(lo, (i + 1) // 2, ax))
            hi = np.maximum(np.take(hi, i // 2, ax), np.take(hi, (i + 1) // 2, ax))
    return lo, hi


def label(mask):
    """connected components (2d neighbours) of a boolean array"""
    sh, m = mask.shape, mask.ravel().tolist()
    st = [int(np.prod(sh[k + 1:])) for k in range(len(sh))]
    pos = list(np.ndindex(*sh))
    seen, out = [False] * len(m), []
    for s in range(len(m)):
        if not m[s] or seen[s]:
            continue
        comp, stack = [], [s]
        seen[s] = True
        while stack:
            x = stack.pop()
            comp.append(x)
            for k in range(len(sh)):
                for dlt in (-1, 1):
                    if 0 <= pos[x][k] + dlt < sh[k]:
                        y = x + dlt * st[k]
                        if m[y] and not seen[y]:
                            seen[y] = True
                            stack.append(y)
        out.append(comp)
    return out


def shapes(lo, hi, ext):
    """dict: frozenset of pixels -> altitude; the whole domain is included"""
    vals = sorted(set(lo.ravel().tolist()) | set(hi.ravel().tolist()))
    n = lo.size
    res = {}
    for k in range(len(vals) - 1):
        for up in (False, True):
            mask = (lo >= vals[k + 1]) if up else (hi <= vals[k])
            alt = vals[k + 1] if up else vals[k]
            for comp in label(mask.astype(bool)):
                co = np.ones(n, bool)
                co[comp] = False
                if not co[ext]:
                    continue
                out = next(x for x in label(co.reshape(lo.shape)) if ext in set(x))
                s = np.ones(n, bool)
                s[out] = False
                key = frozenset(np.flatnonzero(s).tolist())
                if up or key not in res:
                    # lower shapes: smallest level first seen; upper shapes: largest level last seen
                    res[key] = alt
    return res


def level_lines(sh, n, root):
    """a region in contact with the flat zone around it through a saddle (same level as the smallest shape containing it)
    belongs to this zone; None if some shapes cross"""
    full = frozenset(range(n))
    keep = {full: root}
    node = [full] * n
    sh.pop(full, None)
    for s in sorted(sh, key=len, reverse=True):
        p = {node[y] for y in s}
        if len(p) != 1:
            return None
        if keep[p.pop()] == sh[s]:
            continue
        keep[s] = sh[s]
        for y in s:
            node[y] = s
    return keep


def saddles(im, padding):
    """does a 2x2 block have a diagonal which is above (or equal to) the other one; always true for 3d images"""
    if im.ndim != 2:
        return True
    a = im.astype(object)
    if padding != "none":
        a = np.pad(a, 1, constant_values=pad_value(im, padding))
    p, q, r, t = a[:-1, :-1], a[:-1, 1:], a[1:, :-1], a[1:, 1:]
    hi1, lo1, hi2, lo2 = np.maximum(p, t), np.minimum(p, t), np.maximum(q, r), np.minimum(q, r)
    sad = ((hi1 < lo2) | (hi2 < lo1))
    return bool(np.any(sad))


def nodes(tree, alt):
    par = np.asarray(tree.parents())
    below = gen.leaves_below(par)
    nl = tree.num_leaves()
    return [(tuple(below[i]), alt[i]) for i in range(nl, len(par))]


def tos(c, im, **kw):
    f = hg.component_tree_tree_of_shapes_image
    if c.p(0.3):
        f = hg.component_tree_tree_of_shapes_image2d if im.ndim == 2 else hg.component_tree_tree_of_shapes_image3d
    return f(gen.layout(c, im) if im.size > 1 else im, **kw)


def check_tree(c, tree, alt, im, size):
    par = np.asarray(tree.parents())
    n = int(np.prod(size))
    c.ck(tree.num_leaves() == n, "num-leaves", "%d want %d" % (tree.num_leaves(), n))
    c.ck(tree.category() == hg.TreeCategory.ComponentTree, "category")
    c.ck(alt.shape == par.shape and alt.dtype == im.dtype, "altitudes-type", "%s %s" % (alt.dtype, alt.shape))
    g = hg.CptHierarchy.get_leaf_graph(tree)
    c.ck(tuple(hg.CptGridGraph.get_shape(g)) == tuple(size), "leaf-graph-shape")
    return par, n


@family("shapes", quick=1800, thorough=12000)
def shapes_f(c):
    im = image(c)
    padding = pick_padding(c, im, ["mean", "mean", "zero", "none"])
    orig = c.p(0.5)
    lo, hi = plain_map(im, padding, True)
    ext = c.ri(0, lo.size - 1) if c.p(0.3) else 0
    if lo.size > 1500:
        ext = 0
    if c.p(0.8) and lo.ravel()[ext] != hi.ravel()[ext]:
        ext = int(c.choice(np.flatnonzero((lo == hi).ravel())))
    c.inp(image=im, padding=padding, original_size=orig, exterior_vertex=ext)
    c.note(im, padding, orig, ext, nontrivial=len(np.unique(im)) > 1)
    c.ev("pad_" + padding)
    kw = dict(padding=padding, original_size=orig)
    if ext:
        kw["exterior_vertex"] = ext
    tree, alt = tos(c, im, **kw)
    size = im.shape if orig else lo.shape
    par, n = check_tree(c, tree, alt, im, size)
    off = 0 if padding == "none" else 2
    sl = tuple(slice(off, s - off, 2) for s in lo.shape)
    idx = np.arange(lo.size).reshape(lo.shape)[sl].ravel()
    # reconstruction
    rec = alt[par[:n]]
    c.eq(rec if orig else rec[idx], im.ravel(), "reconstruction")
    c.eq(alt[:n] if orig else alt[:n][idx], im.ravel(), "leaf-altitudes")
    c.eq(np.asarray(hg.reconstruct_leaf_data(tree, alt)).ravel(), rec, "reconstruction")
    if not orig:
        v = rec.astype(object)
        c.ck(bool(np.all((v >= lo.ravel()) & (v <= hi.ravel()))), "levels-in-range")
        c.ck(bool(np.all(alt[n:-1] != alt[par[n:-1]])), "level-line-strict")
    pos = np.unravel_index(ext, lo.shape)
    ring = padding != "none" and any(q == 0 or q == s - 1 for q, s in zip(pos, lo.shape))
    want = None
    if ring and not saddles(im, padding):
        want = level_lines(shapes(lo, hi, ext), lo.size, lo.ravel()[ext])
        c.ev("crossing_level_lines" if want is None else "level_lines_form_a_tree")
    if want is None:
        # the exterior is not a constant border, or several level lines cross at a saddle: the levels given to the faces
        # depend on the propagation, the shapes are those of the resulting single valued image
        full, falt = (tree, alt) if not orig else hg.component_tree_tree_of_shapes_image(
            im, padding, False, True, ext)
        u = falt[np.asarray(full.parents())[:lo.size]].reshape(lo.shape).astype(object)
        c.ck(bool(np.all((u >= lo) & (u <= hi))), "levels-in-range")
        c.eq(u.ravel()[idx].astype(im.dtype), im.ravel(), "reconstruction")
        want = level_lines(shapes(u, u, ext), u.size, u.ravel()[ext])
        c.ck(want is not None, "single-valued-crossing")
        c.ev("propagated_levels")
    if orig:
        inv = {int(x): i for i, x in enumerate(idx)}
        w = []
        for k, v in want.items():
            z = tuple(sorted(inv[x] for x in k if x in inv))
            if z:
                w.append((z, v))
    else:
        w = [(tuple(sorted(k)), v) for k, v in want.items()]
    got = nodes(tree, alt.tolist())
    w.sort()
    got.sort()
    c.ck([x[0] for x in got] == [x[0] for x in w], "shapes", "%d nodes, %d shapes" % (len(got), len(w)))
    c.ck(got == w, "shapes-altitudes")
    c.ev("shapes", len(w))
    if padding == "mean" and ring:
        # self-duality
        if im.dtype.kind == "f" or (im.dtype.kind == "i" and im.min() > np.iinfo(im.dtype).min):
            t2, a2 = tos(c, -im, **kw)
            g2 = sorted((k, -v) for k, v in nodes(t2, a2.tolist()))
            c.ck([x[0] for x in g2] == [x[0] for x in got], "self-dual")
            c.ck(g2 == got, "self-dual-altitudes")
            c.ev("dual")


@family("no_immersion", quick=600, thorough=6000)
def no_immersion(c):
    im = image(c)
    padding = pick_padding(c, im, ["mean", "zero", "none"])
    orig = c.p(0.5)
    lo, _ = plain_map(im, padding, False)
    ext = c.ri(0, lo.size - 1) if c.p(0.3) else 0
    c.inp(image=im, padding=padding, original_size=orig, exterior_vertex=ext)
    c.note(im, padding, orig, ext, nontrivial=len(np.unique(im)) > 1)
    tree, alt = tos(c, im, padding=padding, original_size=orig, immersion=False, exterior_vertex=ext)
    size = im.shape if orig else lo.shape
    par, n = check_tree(c, tree, alt, im, size)
    c.eq(alt[par[:n]], (im if orig else lo.astype(im.dtype)).ravel(), "reconstruction")
    if not orig:
        for k, v in nodes(tree, alt.tolist()):
            m = np.zeros(n, bool)
            m[list(k)] = True
            c.ck(len(label(m.reshape(lo.shape))) == 1, "connected")
        c.ck(bool(np.all(alt[n:-1] != alt[par[n:-1]])), "level-line-strict")
        if len(np.unique(im)) <= 2 and padding == "none":
            c.ev("binary")


@family("multivariate", quick=500, thorough=5000)
def multivariate(c):
    base = image(c, dims=2, dt=np.dtype(c.choice([np.float64, np.int32, np.uint8])))
    padding = c.choice(["mean", "zero", "none"])
    orig = c.p(0.5)
    mode = c.choice(["copies", "contrast", "negative", "constant", "free"])
    other = base
    if mode == "contrast":
        other = base.astype(np.int64) * 2
    elif mode == "negative":
        other = -base.astype(np.int64)
    elif mode == "constant":
        other = np.full(base.shape, c.ri(0, 4))
    elif mode == "free":
        other = gen.values(c, base.shape, np.int64, nonneg=True)
    if base.dtype.kind == "f":
        other = other.astype(np.float64)
        if mode in ("contrast", "negative", "copies"):
            other = base * {"contrast": 2, "negative": -1, "copies": 1}[mode]
    else:
        base = base.astype(np.int64)
        other = other.astype(np.int64)
    if mode == "contrast" and base.dtype.kind == "i":
        # the integer border mean is not homogeneous
        padding = "none" if padding == "mean" else padding
    chans = [base, other] if c.p(0.5) else [other, base]
    if c.p(0.3):
        chans.append(base)
    im = np.stack(chans, -1)
    c.inp(image=im, padding=padding, original_size=orig, mode=mode)
    c.note(im, padding, orig, nontrivial=len(np.unique(im)) > 1)
    c.ev(mode)
    tree = hg.component_tree_multivariate_tree_of_shapes_image2d(im, padding=padding, original_size=orig)
    lo, hi = plain_map(base, padding, True)
    size = base.shape if orig else lo.shape
    c.ck(tree.num_leaves() == int(np.prod(size)), "mv-leaves")
    c.ck(tuple(hg.CptGridGraph.get_shape(hg.CptHierarchy.get_leaf_graph(tree))) == tuple(size), "mv-leaf-graph")
    below = gen.leaves_below(np.asarray(tree.parents()))
    got = sorted({tuple(x) for x in below[tree.num_leaves():]})
    if mode == "constant" and padding == "zero":
        return  # the constant channel has its own shape
    if mode != "free":
        st, _ = hg.component_tree_tree_of_shapes_image2d(base, padding=padding, original_size=orig)
        b2 = gen.leaves_below(np.asarray(st.parents()))
        want = sorted({tuple(x) for x in b2[st.num_leaves():]})
        c.ck(got == want, "mv-same-shapes", "got %d want %d" % (len(got), len(want)))
    else:
        # nodes are hole-free connected sets
        if not orig:
            for k in got:
                m = np.zeros(lo.size, bool)
                m[list(k)] = True
                c.ck(len(label(m.reshape(lo.shape))) == 1, "mv-connected")
                if padding != "none" and len(k) < lo.size:
                    c.ck(len(label(~m.reshape(lo.shape))) == 1, "mv-no-hole")
    c.ev("nodes", len(got))


@family("mv_no_immersion", quick=150)
def mv_no_immersion(c):
    base = image(c, dims=2, dt=np.dtype(np.int64))
    padding = c.choice(["mean", "zero", "none"])
    orig = c.p(0.5)
    im = np.stack([base, gen.values(c, base.shape, np.int64)], -1)
    c.inp(image=im, padding=padding, original_size=orig)
    c.note(im, padding, orig, nontrivial=len(np.unique(im)) > 1)
    tree = hg.component_tree_multivariate_tree_of_shapes_image2d(im, padding=padding, original_size=orig, immersion=False)
    size = base.shape if orig or padding == "none" else tuple(x + 2 for x in base.shape)
    c.ck(tree.num_leaves() == int(np.prod(size)), "mv-leaves", "%d %s" % (tree.num_leaves(), size))
    c.ck(tuple(hg.CptGridGraph.get_shape(hg.CptHierarchy.get_leaf_graph(tree))) == tuple(size), "mv-leaf-graph")


@family("rejected", quick=150, asan=150)
def rejected(c):
    im = image(c)
    c.inp(image=im)
    c.note(im)
    f = hg.component_tree_tree_of_shapes_image
    c.raises(lambda: f(im, padding="other"), "padding")
    n = int(np.prod([2 * (x + 2) - 1 for x in im.shape]))
    c.raises(lambda: f(im, exterior_vertex=n + c.ri(0, 100)), "exterior")
    c.raises(lambda: f(im, exterior_vertex=-c.ri(1, 100)), "exterior")
    c.raises(lambda: f(im.ravel()), "dimension")
    c.raises(lambda: f(np.zeros((0,) + im.shape[1:])), "empty")
    c.raises(lambda: f(np.zeros(im.shape[:-1] + (0,)), padding="none"), "empty")
    c.raises(lambda: f(np.zeros((2, 2, 2, 2))), "dimension")
