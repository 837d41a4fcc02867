"""P05: tree accumulators and propagations equal their definitions."""
import numpy as np
import higra as hg
from hgv import gen, order
from hgv.core import family
from hgv.oracles import aggregate, acc_names, check, Overflow

UNITS = ["tree_accumulators"]
RULE = ("random trees (all shapes, one node to a few hundred, with and without the children lists already computed by an earlier call), random "
        "node or leaf data of all ten numeric types, scalar or vector valued, in random memory layouts, every accumulator; results are compared "
        "node by node with the definition evaluated on the parent array with exact integers (or the same float operations). Non-trivial: the "
        "tree has an internal node. Family limits: the same ranks are given as small integers and as extreme or neighbouring values of every type (infinities, subnormals, largest integers): results must correspond.")
ASSUMPTIONS = ["finite values; integer results that do not fit in the data type are not compared",
               "argmin and argmax are compared for scalar data only; leaf values of the counter accumulator for vector data are unspecified",
               "first and last of an empty set are not specified"]
ACC = acc_names(hg)


def data(c, n, extra, dt, small=False):
    shape = (n,) + extra
    if small:
        v = c.rng.choice([0, 1, 1, 1] if dt.kind == "u" else [-1, 0, 1, 1, 1], shape).astype(np.float64)
        f = v.reshape(-1)
        for _ in range(c.ri(0, 4)):
            f[c.ri(0, len(f) - 1)] = c.choice([2, 3])
        return f.reshape(shape).astype(dt)
    v = gen.values(c, shape, dt)
    if dt.itemsize == 1 and c.p(0.7):
        v = (v % 5).astype(dt)
    return v


def cols(a):
    """list over components of lists of python numbers"""
    a = np.asarray(a)
    return a.reshape(len(a), -1).T.tolist()


def rebuild(res, shape, dt):
    return np.array(res, dtype=dt).T.reshape(shape)


def cmp(c, got, want_cols, shape, dt, key, what):
    got = np.asarray(got)
    c.ck(got.shape == shape, key + "-shape", "%s: %s want %s" % (what, got.shape, shape))
    c.ck(got.dtype == dt, key + "-dtype", "%s: %s want %s" % (what, got.dtype, dt))
    want = rebuild(want_cols, shape, dt)
    if dt.kind == "f":
        c.close(got, want, key, what, rtol=1e-5 if dt == np.float32 else 1e-12, atol=1e-30)
    else:
        c.eq(got, want, key, what)


def setup(c, maxleaves=30):
    par = gen.parents(c, maxleaves=maxleaves) if c.p(0.97) else np.array([0])
    t = hg.Tree(par)
    ch, nl, depth = gen.tree_info(par)
    how = c.ri(0, 3)
    if how == 1:
        t.children(len(par) - 1)
    elif how == 2:
        t.compute_children() if hasattr(t, "compute_children") else t.num_children(len(par) - 1)
    c.ev("children_computed" if how in (1, 2) else "children_not_computed")
    dt = gen.dtype(c)
    extra = c.choice([(), (), (1,), (2,), (3,), (2, 2)])
    name = c.choice(list(ACC))
    if name in ("argmin", "argmax"):
        extra = ()
    c.inp(parents=par, dtype=str(dt), extra=extra, acc=name, children_computed=how)
    c.ev("acc_" + name)
    return par, t, ch, nl, dt, extra, name


def lay(c, a):
    return gen.layout(c, a) if len(a) > 1 else a


@family("parallel", quick=2500)
def parallel(c):
    par, t, ch, nl, dt, extra, name = setup(c)
    n = len(par)
    w = data(c, n, extra, dt, small=name == "prod")
    c.inp(weights=w)
    c.note(par, w, name, nontrivial=n > nl)
    oshape = (n,) + (() if name == "counter" else extra)
    try:
        want = []
        for col in cols(w)[:1 if name == "counter" else None]:
            want.append([aggregate(name, [col[k] for k in ch[i]], dt) for i in range(n)])
    except Overflow:
        c.ev("overflow_skipped")
        return
    got = hg.accumulate_parallel(t, lay(c, w), ACC[name])
    if name in ("first", "last"):
        got, want, oshape = got[nl:], [col[nl:] for col in want], (n - nl,) + extra
        if n == nl:
            return
    cmp(c, got, want, oshape, dt, "accumulate_parallel-" + name, str(par.tolist()))
    c.ev("nodes", n)


@family("sequential", quick=2500)
def sequential(c):
    par, t, ch, nl, dt, extra, name = setup(c)
    n = len(par)
    if name == "counter" and extra:
        extra = ()
    w = data(c, nl, extra, dt, small=name == "prod")
    c.inp(weights=w)
    c.note(par, w, name, nontrivial=n > nl)
    try:
        want = []
        for col in cols(w):
            o = list(col)
            for i in range(nl, n):
                o.append(aggregate(name, [o[k] for k in ch[i]], dt))
            want.append(o)
    except Overflow:
        c.ev("overflow_skipped")
        return
    if extra == () and nl > 1 and c.p(0.3):
        f = [d for d in range(1, nl + 1) if nl % d == 0]
        h = c.choice(f)
        g = hg.get_4_adjacency_graph((h, nl // h))
        if c.p(0.5):
            hg.CptHierarchy.link(t, g)
            got = hg.accumulate_sequential(t, w.reshape(h, nl // h), ACC[name])
        else:
            got = hg.accumulate_sequential(t, w.reshape(h, nl // h), ACC[name], g)
        c.ev("image_leaf_data")
    else:
        got = hg.accumulate_sequential(t, lay(c, w), ACC[name])
    cmp(c, got, want, (n,) + extra, dt, "accumulate_sequential-" + name, str(par.tolist()))
    c.ev("nodes", n)


COMB = dict(add=lambda a, b: a + b, multiply=lambda a, b: a * b, min=min, max=max)


@family("combine", quick=3000)
def combine(c):
    par, t, ch, nl, dt, extra, name = setup(c, maxleaves=c.choice([6, 12, 25]))
    n = len(par)
    if name == "counter":
        extra = ()
    comb = c.choice(list(COMB))
    small = name == "prod" or comb == "multiply"
    dt2 = dt
    w = data(c, n, extra, dt, small=small)
    ld = data(c, nl, extra, dt, small=small)
    if c.p(0.2):
        # different types: the common type holds both exactly
        dt2 = np.dtype(np.float64)
        w, ld = (w.astype(np.float64), ld.astype(np.float32 if dt.itemsize <= 2 else dt)) if c.p(0.5) else (w, ld.astype(np.float64))
        if {w.dtype, ld.dtype} == {np.dtype(np.float32), np.dtype(np.float32)}:
            dt2 = np.dtype(np.float32)
    c.inp(weights=w, leaf=ld, comb=comb)
    c.note(par, w, ld, name, comb, nontrivial=n > nl)
    f = COMB[comb]
    try:
        want = []
        for col, lc in zip(cols(w), cols(ld)):
            o = list(lc)
            for i in range(nl, n):
                o.append(check(f(aggregate(name, [o[k] for k in ch[i]], dt2), col[i]), dt2))
            want.append(o)
    except Overflow:
        c.ev("overflow_skipped")
        return
    fn = getattr(hg, "accumulate_and_%s_sequential" % comb)
    got = fn(t, lay(c, w), lay(c, ld), ACC[name])
    cmp(c, got, want, (n,) + extra, dt2, "accumulate_and_%s-%s" % (comb, name), str(par.tolist()))
    c.ev("nodes", n)
    c.ev("comb_" + comb)


@family("propagate", quick=2000)
def propagate(c):
    par, t, ch, nl, dt, extra, name = setup(c)
    n = len(par)
    w = gen.values(c, (n,) + extra, dt)
    cond = c.rng.random(n) < c.choice([0.1, 0.5, 0.9, 1.0])
    c.inp(weights=w, cond=cond)
    c.note(par, w, cond, nontrivial=n > nl)
    c.eq(hg.propagate_parallel(t, lay(c, w)), w[par], "propagate_parallel", str(par.tolist()))
    ca = lay(c, cond) if c.p(0.6) else cond.astype(c.choice([np.int32, np.uint8, np.float64]))
    idx = np.where(cond, par, np.arange(n))
    c.eq(hg.propagate_parallel(t, lay(c, w), ca), w[idx], "propagate_parallel-cond", str(par.tolist()))
    src = np.arange(n)
    for i in range(n - 2, -1, -1):
        if cond[i]:
            src[i] = src[par[i]]
    got = hg.propagate_sequential(t, lay(c, w), lay(c, cond))
    c.eq(got, w[src], "propagate_sequential", str(par.tolist()))
    c.ck(got.dtype == dt, "propagate-dtype")
    c.ev("nodes", n)


@family("propagate-accumulate", quick=2500)
def propagate_accumulate(c):
    par, t, ch, nl, dt, extra, name = setup(c, maxleaves=c.choice([6, 12, 25]))
    n = len(par)
    if name == "counter":
        extra = ()
    w = data(c, n, extra, dt, small=name == "prod")
    cond = None if c.p(0.4) else c.rng.random(n) < c.choice([0.1, 0.5, 0.9])
    c.inp(weights=w, cond=cond)
    c.note(par, w, name, cond, nontrivial=n > nl)
    try:
        want = []
        for col in cols(w):
            o = [0] * n
            for i in range(n - 1, -1, -1):
                if cond is not None and not cond[i]:
                    o[i] = col[i]
                elif i == n - 1:
                    o[i] = aggregate(name, [col[i]], dt)
                else:
                    # argument order of the code: the value of the parent comes first (only visible with first/last/arg*)
                    o[i] = aggregate(name, [o[par[i]], col[i]], dt)
            want.append(o)
    except Overflow:
        c.ev("overflow_skipped")
        return
    a = (t, lay(c, w), ACC[name]) + (() if cond is None else (lay(c, cond),))
    got = hg.propagate_sequential_and_accumulate(*a)
    cmp(c, got, want, (n,) + extra, dt, "propagate_and_accumulate-" + name, "%s cond %s" % (par.tolist(), cond))
    c.ev("nodes", n)


@family("rejected", quick=200, asan=400)
def rejected(c):
    par, t, ch, nl, dt, extra, name = setup(c, 10)
    n = len(par)
    c.note(par, name, dt.str)
    k = c.choice([0, n - 1, n + 1, 2 * n])
    bad = np.zeros((k,) + extra, dt)
    badl = np.zeros((c.choice([x for x in (0, nl - 1, nl + 1, n + 3) if x != nl]),) + extra, dt)
    good, goodl = np.ones((n,) + extra, dt), np.ones((nl,) + extra, dt)
    a = ACC[name]
    c.raises(lambda: hg.accumulate_parallel(t, bad, a), "wrong-size")
    c.raises(lambda: hg.accumulate_sequential(t, badl, a), "wrong-size")
    c.raises(lambda: hg.propagate_parallel(t, bad), "wrong-size")
    c.raises(lambda: hg.propagate_parallel(t, good, np.ones(k, bool)), "wrong-size")
    c.raises(lambda: hg.propagate_parallel(t, good, np.ones((n, 2), bool)), "wrong-size")
    c.raises(lambda: hg.propagate_sequential(t, good, np.ones(k, bool)), "wrong-size")
    c.raises(lambda: hg.propagate_sequential(t, bad, np.ones(n, bool)), "wrong-size")
    c.raises(lambda: hg.propagate_sequential_and_accumulate(t, bad, a), "wrong-size")
    c.raises(lambda: hg.propagate_sequential_and_accumulate(t, good, a, np.ones(k, bool)), "wrong-size")
    f = getattr(hg, "accumulate_and_%s_sequential" % c.choice(list(COMB)))
    c.raises(lambda: f(t, bad, goodl, a), "wrong-size")
    c.raises(lambda: f(t, good, badl, a), "wrong-size")
    c.raises(lambda: f(t, good, np.ones((nl,) + extra + (2,), dt), a), "wrong-size")


@family("limits", quick=1200)
def limits(c):
    """results that depend only on the order of the values: values at the limits of every type"""
    order.run(c, "P05")
