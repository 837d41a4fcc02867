"""P26: sorting."""
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["sorting"]
RULE = ("arrays of every supported type, 0 to 5000 elements, with random, constant, few-valued, sorted, reversed, organ-pipe, nearly sorted and extreme values, contiguous, strided, reversed, transposed "
        "and Fortran layouts; rows sharing prefixes for the lexicographic order. Oracle: the result is a permutation of the input, every adjacent pair is ordered (naive comparison), ties keep their "
        "input order in stable mode; in place sorts change exactly the elements of the view. Non-trivial: at least one inversion to repair and one tie.")
ASSUMPTIONS = ["no NaN", "the in place sort works on one dimensional writeable native arrays, everything else is rejected"]
TYPES = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"]


def seq(c, n, dt):
    k = c.choice(["random", "few", "const", "sorted", "reversed", "organ", "nearly", "extreme", "close"])
    c.ev("shape_" + k)
    d = np.dtype(dt)
    if d.kind == "f":
        lo, hi = -1e6, 1e6
        a = c.rng.uniform(lo, hi, n)
        ext = [np.inf, -np.inf, 0.0, -0.0, np.finfo(d).max, np.finfo(d).min, np.finfo(d).tiny, 5e-324 if dt == "f8" else 1e-45]
    else:
        i = np.iinfo(d)
        a = c.rng.integers(i.min, i.max, n, dtype=d, endpoint=True)
        ext = [i.min, i.max, 0, 1, i.min + 1, i.max - 1, i.max // 2, i.max // 2 + 1]
    a = a.astype(d)
    if k == "few":
        a = c.rng.integers(0, 4, n).astype(d)
    elif k == "const":
        a[:] = a[0] if n else 0
    elif k == "sorted":
        a.sort()
    elif k == "reversed":
        a = np.sort(a)[::-1].copy()
    elif k == "organ":
        a = np.concatenate([np.sort(a[: n // 2]), np.sort(a[n // 2:])[::-1]])
    elif k == "nearly":
        a.sort()
        for _ in range(min(3, n // 2)):
            x, y = c.ri(0, n - 1), c.ri(0, n - 1)
            a[x], a[y] = a[y], a[x]
    elif k == "extreme":
        a = np.array(ext).astype(d)[c.rng.integers(0, len(ext), n)] if n else a
    elif k == "close":
        base = 100 if d.kind != "f" else np.asarray(1.0, d)
        a = (np.full(n, base, d) + (c.rng.integers(0, 3, n) * (1 if d.kind != "f" else np.finfo(d).eps)).astype(d)).astype(d)
    return a


def length(c):
    return c.choice([c.ri(0, 3), c.ri(4, 20), c.ri(20, 80), c.ri(80, 400), c.ri(400, 5000)])


def lay1(c, a):
    """a view with the content of a; returns base array, view"""
    n = a.size
    k = c.choice(["plain", "stride", "reversed", "revstride", "column", "offset"])
    c.ev("lay_" + k)
    fill = a.dtype.type(7)
    if k == "plain":
        b = a.copy()
        return b, b
    if k == "stride":
        b = np.full(3 * n + 2, fill, a.dtype)
        v = b[1:1 + 3 * n:3]
    elif k == "reversed":
        b = np.full(n, fill, a.dtype)
        v = b[::-1]
    elif k == "revstride":
        b = np.full(2 * n + 1, fill, a.dtype)
        v = b[::-2][:n]
    elif k == "column":
        b = np.full((n, 3), fill, a.dtype)
        v = b[:, 1]
    else:
        b = np.full(n + 5, fill, a.dtype)
        v = b[2:2 + n]
    v[:] = a
    return b, v


def interesting(c, a):
    l = a.tolist()
    inv, tie = any(l[i] > l[i + 1] for i in range(len(l) - 1)), len(set(map(str, l))) < len(l)
    if inv:
        c.ev("inversion")
    if tie:
        c.ev("tie")
    c.note(a, nontrivial=inv and tie)


@family("inplace", 8000, 120000)
def inplace(c):
    dt = c.choice(TYPES)
    a = seq(c, length(c), dt)
    stable = c.p(0.5)
    b, v = lay1(c, a)
    c.inp(dtype=dt, values=a[:200], n=a.size, stable=stable)
    outside = b.copy()
    m = np.zeros(b.shape, bool)
    # mark the elements of the view
    idx = np.arange(b.size).reshape(b.shape)
    iv = np.lib.stride_tricks.as_strided(idx.ravel()[(v.__array_interface__["data"][0] - b.__array_interface__["data"][0]) // b.itemsize:] if v.size else idx.ravel(),
                                         v.shape, [s // b.itemsize * 8 for s in v.strides]) if v.size else np.zeros(0, int)
    m.ravel()[iv] = True
    r = hg.sort(v, stable=stable)
    c.ck(r is None, "return", "sort returned %r" % (r,))
    got = v.tolist()
    want = sorted(a.tolist())
    c.ck(got == want, "sorted", lambda: "sort(stable=%s) of %s gave %s" % (stable, a.tolist()[:30], got[:30]))
    # the multiset of representations is preserved (+-0)
    c.ck(sorted(map(repr, got)) == sorted(map(repr, a.tolist())), "permutation", "elements were changed")
    if stable and a.dtype.kind == "f":
        z = [repr(x) for x in a.tolist() if x == 0]
        c.ck([repr(x) for x in got if x == 0] == z, "stable_zero", "equal elements were reordered")
    c.ck(np.array_equal(b[~m], outside[~m]), "outside", "elements out of the view were modified")
    interesting(c, a)
    c.ev("elements", a.size)


@family("arg1d", 8000, 120000)
def arg1d(c):
    dt = c.choice(TYPES + ["?", ">i4", ">f8", "f2", "list"])
    if dt == "list":
        a = c.rng.integers(0, 9, length(c))
    elif dt == "?":
        a = c.rng.random(length(c)) < 0.5
    elif dt == "f2":
        a = c.rng.integers(0, 50, length(c)).astype("f2")
    else:
        a = seq(c, length(c), dt.replace(">", "")).astype(dt)
    stable = c.p(0.5)
    _, v = lay1(c, a)
    if dt == "list":
        if not a.size:
            return
        v = a.tolist()
    c.inp(dtype=dt, values=a[:200], n=a.size, stable=stable)
    keep = np.array(v, copy=True)
    r = np.asarray(hg.arg_sort(v, stable=stable))
    c.ck(np.array_equal(keep, np.asarray(v)), "input", "the input was modified")
    check_order(c, a.tolist(), r, stable)
    interesting(c, a)


def check_order(c, keys, r, stable):
    n = len(keys)
    c.ck(r.shape == (n,) and r.dtype.kind in "iu", "shape", "result %s %s for %d elements" % (r.dtype, r.shape, n))
    r = r.tolist()
    seen = [False] * n
    for i in r:
        if not 0 <= i < n or seen[i]:
            c.fail("permutation", "not a permutation: %s" % r[:40])
            return
        seen[i] = True
    for x, y in zip(r, r[1:]):
        if keys[y] < keys[x]:
            c.fail("order", "element %d (%s) is placed before element %d (%s)" % (x, keys[x], y, keys[y]))
            return
        if stable and not keys[x] < keys[y] and y < x:
            c.fail("stable", "equal elements %d and %d were exchanged" % (x, y))
            return
    c.ev("elements", n)


@family("lexicographic", 8000, 120000)
def lexicographic(c):
    dt = c.choice(TYPES)
    n, m = c.choice([c.ri(0, 3), c.ri(4, 40), c.ri(40, 600)]), c.choice([0, 1, 1, 2, 2, 3, 5])
    style = c.choice(["few", "prefix", "any"])
    if style == "few":
        a = c.rng.integers(0, 3, (n, m)).astype(dt)
    elif style == "prefix":
        a = np.zeros((n, m), dt)
        if m:
            a[:, -1] = seq(c, n, dt)
            if m > 1:
                a[:, 0] = c.rng.integers(0, 2, n)
    else:
        a = np.stack([seq(c, n, dt) for _ in range(m)], 1) if m else np.zeros((n, 0), dt)
    lay = c.choice(["C", "F", "rev", "cols", "rows", "both"])
    v = a
    if lay == "F":
        v = np.asfortranarray(a)
    elif lay == "rev":
        v = a[::-1].copy()[::-1]
    elif lay == "cols":
        b = np.zeros((n, 2 * m), a.dtype)
        v = b[:, ::2]
        v[...] = a
    elif lay == "rows":
        b = np.zeros((2 * n, m), a.dtype)
        v = b[1::2]
        v[...] = a
    elif lay == "both":
        b = np.zeros((n, m), a.dtype)
        v = b[::-1, ::-1]
        v[...] = a
    stable = c.p(0.5)
    c.inp(dtype=dt, values=a[:60], n=n, m=m, layout=lay, stable=stable)
    r = np.asarray(hg.arg_sort(v, stable=stable))
    keys = [tuple(x) for x in a.tolist()]
    check_order(c, keys, r, stable)
    inv, tie = any(x > y for x, y in zip(keys, keys[1:])), len(set(keys)) < n
    if inv:
        c.ev("inversion")
    if tie:
        c.ev("tie")
    c.note(a, lay, stable, nontrivial=inv and tie)
    if m > 1 and any(x[0] == y[0] and x != y for x, y in zip(keys, keys[1:])):
        c.ev("shared_prefix")


@family("consistency", 60, 1500)
def consistency(c):
    """argsort followed by indexing, and sort, agree, at larger sizes and for every type of the same integer values"""
    n = c.choice([c.ri(1, 200), c.ri(1000, 20000)])
    base = c.rng.integers(0, c.choice([2, 50, 127]), n)
    want = np.argsort(base, kind="stable")
    c.inp(n=n, base=base[:200])
    for dt in TYPES:
        a = base.astype(dt)
        r = np.asarray(hg.arg_sort(a, stable=True))
        c.ck(np.array_equal(r, want), "stable_types", "the stable order depends on the type %s" % dt)
        b = a.copy()
        hg.sort(b)
        c.ck(np.array_equal(b, a[want]), "sort_types", "type %s" % dt)
        u = np.asarray(hg.arg_sort(a))
        c.ck(np.array_equal(np.sort(u), np.arange(n)) and np.array_equal(a[u], b), "arg_types", "type %s" % dt)
        b = a.copy()
        hg.sort(b, stable=True)
        c.ck(np.array_equal(b, a[want]), "stable_sort_types", "type %s" % dt)
    c.note(base, nontrivial=n > 1)
    c.ev("elements", n)


@family("rejected", 400, 3000)
def rejected(c):
    k = c.choice(["readonly", "list", "bool", "half", "swapped", "2d", "0d", "3d_arg", "0d_arg", "tuple", "None", "complex", "object", "string"])
    c.ev("kind_" + k)
    c.note(k, nontrivial=False)
    n = c.ri(2, 30)
    a = c.rng.integers(0, 100, n).astype(c.choice(TYPES))
    stable = c.p(0.5)
    c.inp(kind=k, values=a)
    f = hg.sort
    if k == "readonly":
        a.flags.writeable = False
    elif k == "list":
        a = a.tolist()
    elif k == "tuple":
        a = tuple(a.tolist())
    elif k == "bool":
        a = a > 50
    elif k == "half":
        a = a.astype("f2")
    elif k == "swapped":
        a = a.astype(">i4")
    elif k == "complex":
        a = a.astype(complex)
    elif k == "object":
        a = a.astype(object)
    elif k == "string":
        a = a.astype(str)
    elif k == "2d":
        a = a.reshape((n, 1)) if c.p(0.5) else np.stack([a, a], 1)
    elif k == "0d":
        a = np.array(3)
    elif k == "3d_arg":
        a, f = a.reshape((n, 1, 1)), hg.arg_sort
    elif k == "0d_arg":
        a, f = np.array(3), hg.arg_sort
    elif k == "None":
        a = None
    before = np.array(a, copy=True) if a is not None else None
    c.raises(lambda: f(a, stable=stable), "accepted_" + k, "%s on %s" % (f.__name__, k))
    if before is not None:
        c.ck(np.array_equal(np.asarray(a), before), "modified_" + k, "a rejected array was modified")
    c.ev("rejections")
