"""P22: monotonic regression on trees."""
import numpy as np
import higra as hg
from hgv import gen, order
from hgv.core import family

UNITS = ["tree_monotonic_regression", "hierarchy_core", "graph_core", "tree"]
RULE = ("random trees of all shapes (chains, stars, unary nodes, a single node) and sizes up to some thousands of nodes; altitudes of every numeric type: random, already increasing, decreasing, "
        "constant, few values, huge or tiny scales; weights absent, equal, random, of very different magnitudes. Minimum and maximum modes against the naive definition; least squares against the "
        "Karush-Kuhn-Tucker conditions of the problem, which characterise its only solution. Non-trivial: at least one violated constraint. Family limits: the same ranks are given as small integers and as extreme or neighbouring values of every type (infinities, subnormals, largest integers): results must correspond.")
ASSUMPTIONS = ["finite altitudes, strictly positive finite weights", "least-square optimality is decided up to rounding errors"]


def altitudes(c, p, n, nl):
    dt = gen.dtype(c)
    k = c.ri(0, 6)
    if k == 0:
        a = gen.values(c, n, dt)
    elif k == 1:    # increasing
        a = np.zeros(n)
        for i in range(n - 1):
            a[p[i]] = max(a[p[i]], a[i] + c.ri(0, 2))
        a = np.minimum(a, 120)
    elif k == 2:    # decreasing
        a = np.zeros(n)
        for i in range(n - 2, -1, -1):
            a[i] = a[p[i]] + c.ri(0, 2)
        a = np.minimum(a, 120)
    elif k == 3:
        a = np.full(n, c.ri(0, 5))
    elif k == 4:
        a = c.rng.integers(0, 3, n)
    elif k == 5:
        a = c.rng.integers(0, 120, n)
    else:
        a = c.rng.permutation(n) % 120
    a = np.asarray(a).astype(dt)
    if a.dtype.kind == "f" and c.p(0.3):
        a = (a * a.dtype.type(c.choice([1e-6, 1e6, -1]))).astype(dt)
    return a


def instance(c, big=False):
    p = gen.parents(c, nleaves=c.ri(300, 1500)) if big else gen.parents(c)
    ch, nl, depth = gen.tree_info(p)
    a = altitudes(c, p, len(p), nl)
    c.inp(parents=p, altitudes=a)
    return p, ch, nl, a


def increasing(c, p, r, key):
    k = np.flatnonzero(~(r <= r[p]))
    c.ck(not len(k), key + "-not-increasing", "nodes %s: %s > %s" % (k[:5], r[k[:5]], r[p[k[:5]]]))


@family("min-max", quick=12000)
def min_max(c):
    p, ch, nl, a = instance(c)
    n = len(p)
    c.note(p, a, nontrivial=bool((a > a[p]).any()))
    t = hg.Tree(p.copy())
    lo, hi = a.copy(), a.copy()
    for i in range(n - 2, -1, -1):
        lo[i] = min(lo[i], lo[p[i]])
    for i in range(n - 1):
        hi[p[i]] = max(hi[p[i]], hi[i])
    for mode, want in (("min", lo), ("max", hi)):
        w = gen.values(c, n, np.float64, nonneg=True) + 1 if c.p(0.03) else None  # weights are ignored (with a warning)
        r = np.asarray(hg.tree_monotonic_regression(t, gen.layout(c, a) if n > 1 else a, mode, w))
        c.eq(r, want, mode)
        increasing(c, p, r, mode)
    c.ev("violated-constraints", int((a > a[p]).sum()))


def optimal(c, p, ch, a, w, r, key):
    """KKT conditions: the multipliers of the constraints x[i] <= x[p[i]] are determined by the solution"""
    n = len(p)
    x = r.astype(np.longdouble)
    g = w.astype(np.longdouble) * (x - a.astype(np.longdouble))
    lam = np.zeros(n, np.longdouble)
    mag = np.zeros(n, np.longdouble)
    for i in range(n):
        lam[i] -= g[i]
        mag[i] += w[i] * (abs(x[i]) + abs(a[i]))
        if p[i] != i:
            lam[p[i]] += lam[i]
            mag[p[i]] += mag[i]
    eps = 1e-11 * n * mag + 1e-300
    k = np.flatnonzero(lam < -eps)
    c.ck(not len(k), key + "-not-optimal", "nodes %s could be moved up: %s" % (k[:5], x[k[:5]]))
    c.ck(abs(lam[n - 1]) <= eps[n - 1], key + "-root-not-optimal", "root value %r" % float(x[n - 1]))
    k = np.flatnonzero((x < x[p]) & (lam > eps))
    c.ck(not len(k), key + "-not-optimal-below", "nodes %s could be moved: %s" % (k[:5], x[k[:5]]))
    c.ev("blocks", int((x < x[p]).sum()) + 1)
    c.ev("active-constraints", int((lam > eps).sum()))


def least_square(c, big):
    p, ch, nl, a = instance(c, big)
    n = len(p)
    k = c.ri(0, 4)
    w = None
    if k == 1:
        w = np.full(n, c.choice([1.0, 0.25, 1e6]))
    elif k == 2:
        w = c.rng.integers(1, 5, n).astype(float)
    elif k == 3:
        w = c.rng.random(n) + 1e-3
    elif k == 4:
        w = 10.0 ** c.rng.integers(-3, 4, n)
    c.inp(weights=w)
    c.note(p, a, w if w is not None else 0, nontrivial=bool((a > a[p]).any()))
    t = hg.Tree(p.copy())
    ww = w
    if w is not None and np.all(w == np.floor(w)) and c.p(0.4):
        ww = w.astype(c.choice([np.float32, np.int64]))
    r = np.asarray(hg.tree_monotonic_regression(t, gen.layout(c, a) if n > 1 else a, "least_square", ww if ww is None or n == 1 else gen.layout(c, ww)))
    c.ck(r.shape == (n,) and r.dtype == np.float64, "least-square-type", "%s %s" % (r.shape, r.dtype))
    increasing(c, p, r, "least-square")
    optimal(c, p, ch, a.astype(float), np.ones(n) if w is None else w, r, "least-square")
    if w is None:
        r2 = np.asarray(hg.tree_monotonic_regression(t, a, "least_square", np.ones(n)))
        c.close(r2, r, "least-square-default-weights")


@family("least-square", quick=16000)
def least_square_small(c):
    least_square(c, False)


@family("least-square-large", quick=160)
def least_square_large(c):
    least_square(c, True)


@family("errors", quick=300)
def errors(c):
    p, ch, nl, a = instance(c)
    n = len(p)
    c.note(p, a, nontrivial=n > 1)
    t = hg.Tree(p.copy())
    m = c.choice(["min", "max", "least_square"])
    c.raises(lambda: hg.tree_monotonic_regression(t, a, "mean"), "unknown-mode")
    c.raises(lambda: hg.tree_monotonic_regression(t, np.append(a, a[0]), m), "altitudes-size")
    if n > 2:
        c.raises(lambda: hg.tree_monotonic_regression(t, a, "least_square", np.ones(n - 1)), "weights-size")


@family("limits", quick=1200)
def limits(c):
    """results that depend only on the order of the values: values at the limits of every type"""
    order.run(c, "P22")
