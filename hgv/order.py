"""Functions whose result depends only on the order of the values they are given: the same ranks are replaced by values of
every type at the limits of the type (smallest and largest values, infinities, neighbouring values, integers that are not
exactly represented by a double): structures must be the same and values must be replaced accordingly."""
import numpy as np
import higra as hg
from hgv import gen

SPECS = {}


def spec(prop):
    def deco(f):
        SPECS.setdefault(prop, []).append(f)
        return f
    return deco


def levels(c, dt, k, nonneg=False):
    """k strictly increasing values of the given type; the first one is 0 if nonneg"""
    dt = np.dtype(dt)
    if dt.kind == "f":
        fi = np.finfo(dt)
        pool = [-np.inf, fi.min, -1e10, -1, np.nextafter(dt.type(-1), dt.type(0)), -fi.tiny, -fi.smallest_subnormal, 0,
                fi.smallest_subnormal, fi.tiny, np.nextafter(dt.type(1), dt.type(0)), 1, np.nextafter(dt.type(1), dt.type(2)), 2,
                np.nextafter(dt.type(2), dt.type(3)), 1e10, fi.max / 2, fi.max, np.inf]
    else:
        i = np.iinfo(dt)
        pool = [i.min, i.min + 1, i.min // 2, -2, -1, 0, 1, 2, i.max // 2, i.max // 2 + 1, i.max - 1, i.max]
        if dt.itemsize == 8:
            pool += [2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2, -2 ** 53, -2 ** 53 - 1, i.max - 2, i.max - 3]
        if dt.itemsize == 4:
            pool += [2 ** 24, 2 ** 24 + 1, 2 ** 24 + 2]
        pool = [x for x in pool if i.min <= x <= i.max]
    pool = np.unique(np.array(pool, dtype=dt))
    if nonneg:
        pool = pool[pool > 0]
    k = min(k, len(pool))
    if c.p(0.5):        # consecutive
        s = c.ri(0, len(pool) - k)
        r = pool[s:s + k]
    else:
        r = np.sort(c.rng.choice(pool, k, replace=False))
    if nonneg:
        r = np.concatenate((np.zeros(1, dt), r[:max(1, k - 1)]))
    return r


def leq(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)


class Out:
    """what is observed of a call: structures, and values (through the map)"""

    def __init__(self):
        self.same = []
        self.mapped = []

    def s(self, name, *a):
        for x in a:
            self.same.append((name, np.asarray(x)))
        return self

    def m(self, name, a):
        self.mapped.append((name, np.asarray(a)))
        return self


def example(c, prop):
    """the inputs of known_findings.txt (minimum of infinite values)"""
    inf = np.inf
    c.note(prop, nontrivial=True)
    if prop == "P05":
        got = np.asarray(hg.accumulate_parallel(hg.Tree((2, 2, 2)), np.array((inf, inf, 0.0)), hg.Accumulators.min))[2:]
    elif prop == "P06":
        g = hg.UndirectedGraph(2)
        g.add_edge(0, 1)
        got = np.asarray(hg.accumulate_graph_vertices(g, np.array((inf, inf)), hg.Accumulators.min))
    else:
        got = np.asarray(hg.tree_monotonic_regression(hg.Tree((1, 1)), np.array((inf, inf)), "min"))
    want = np.full(got.shape, inf)
    c.ck(not (np.isfinite(got).any() and only_infinite(want, got)), "infinite-extremum", "got %s" % got)
    c.ck(np.array_equal(got, want), "infinite-values", "got %s" % got)


def run(c, prop):
    if c.idx == 0 and prop in ("P05", "P06", "P22"):
        return example(c, prop)
    f = SPECS[prop][c.ri(0, len(SPECS[prop]) - 1)]
    name = f.__name__
    opts = getattr(f, "opts", {})
    make, n, fix, zero_leaves = (f(c) + (0,))[:4]
    kmax = c.choice([2, 3, 6])
    for attempt in range(3):
        dt = np.dtype(c.choice(opts.get("types", gen.NUM_TYPES)))
        lev = levels(c, dt, kmax, zero_leaves)
        if opts.get("finite"):
            lev = lev[np.isfinite(lev)]
        ranks = c.rng.integers(0, len(lev), n)
        if zero_leaves:
            ranks[:zero_leaves] = 0
        if fix:
            ranks = fix(ranks)
        c.inp(fun=name, ranks=ranks, dtype=dt.str, levels=lev.tolist())
        c.note(name, ranks, dt.str, lev, nontrivial=len(set(ranks.tolist())) > 1)
        base = Out()
        make(ranks.astype(np.int64), base, lambda x: x)
        got = Out()
        make(lev[ranks], got, lambda x: lev[x])
        c.ev(name)
        got_names = {k for k, _ in got.same}
        base.same = [x for x in base.same if x[0] in got_names]
        for (k, a), (_, b) in zip(base.same, got.same):
            c.ck(a.shape == b.shape and np.array_equal(a, b), "limits-" + name + "-" + k,
                 "%s %s: %s expected %s" % (dt, lev, b.tolist()[:40] if b.ndim else b, a.tolist()[:40] if a.ndim else a))
        infinite = None
        for (k, a), (_, b) in zip(base.mapped, got.mapped):
            w = lev[a.astype(np.int64)]
            if b.dtype == np.float64:
                w = w.astype(np.float64)        # functions whose results are of type double
            ok = w.shape == b.shape and all(x == y for x, y in zip(w.ravel().tolist(), b.ravel().tolist()))
            if not ok and w.shape == b.shape and dt.kind == "f" and only_infinite(w, b):
                infinite = infinite or "%s of %s: %s expected %s" % (k, name, b.tolist(), w.tolist())
                continue
            c.ck(ok, "limits-" + name + "-" + k, "%s %s: %s expected %s" % (dt, lev, b.tolist()[:40] if b.ndim else b, w.tolist()[:40] if w.ndim else w))
        c.ck(infinite is None, "infinite-extremum", infinite or "")


def only_infinite(want, got):
    """the only differences are infinite values replaced by the largest finite values of the type"""
    w, b = want.ravel(), got.ravel()
    d = w != b
    fi = np.finfo(b.dtype)
    return bool((np.isinf(w[d]) & (b[d] == np.where(w[d] > 0, fi.max, fi.min))).all())


def a_graph(c, loops=True, connected=True):
    n, s, t = gen.graph(c, maxn=12, loops=loops, connected=connected)
    return gen.make_graph(hg, n, s, t), n, len(s)


def a_grid(c):
    sh = (c.ri(1, 5), c.ri(1, 5))
    g = hg.get_4_adjacency_graph(sh) if c.p(0.6) else hg.get_8_adjacency_graph(sh)
    return g, sh[0] * sh[1], g.num_edges()


def any_graph(c, **k):
    return a_grid(c) if c.p(0.3) else a_graph(c, **k)


def increasing(par):
    """ranks made increasing towards the root"""
    def f(r):
        r = r.copy()
        for i in range(len(par) - 1):
            r[par[i]] = max(r[par[i]], r[i])
        return r
    return f


def leaves_first(fix, nl):
    def f(r):
        r = r.copy()
        r[:nl] = 0
        return fix(r)
    return f


def decreasing(par):
    def f(r):
        r = r.copy()
        for i in range(len(par) - 1):
            r[par[i]] = min(r[par[i]], r[i])
        return r
    return f


# ----------------------------------------------------------------- P05, P06: accumulators that only compare

ORDERED = [hg.Accumulators.min, hg.Accumulators.max, hg.Accumulators.first, hg.Accumulators.last]
INDEXED = [hg.Accumulators.argmin, hg.Accumulators.argmax]


@spec("P05")
def tree_accumulators(c):
    p = gen.parents(c, maxleaves=12)
    ch, nl, _ = gen.tree_info(p)
    n = len(p)
    acc = ORDERED[c.ri(0, 3)]
    idx = INDEXED[c.ri(0, 1)]
    cond = c.rng.random(n) < 0.4

    def make(v, o, f):
        t = hg.Tree(p)
        r = np.asarray(hg.accumulate_parallel(t, v, acc))
        o.m("parallel", r[nl:])
        o.m("sequential", hg.accumulate_sequential(t, v[:nl].copy(), acc))
        o.m("propagate", hg.propagate_sequential(t, v, cond))
        o.m("propagate-parallel", hg.propagate_parallel(t, v))
        o.s("index", np.asarray(hg.accumulate_parallel(t, v, idx))[nl:].astype(np.int64))
        o.m("reconstruct", hg.reconstruct_leaf_data(t, v, cond & (np.arange(n) >= nl)))
        if acc in ORDERED[:2]:
            fn = hg.accumulate_and_min_sequential if acc == ORDERED[0] else hg.accumulate_and_max_sequential
            o.m("and", fn(t, v, v[:nl].copy(), acc))
            o.m("propagate-and", hg.propagate_sequential_and_accumulate(t, v, acc))
    return make, n, None


@spec("P06")
def graph_accumulators(c):
    g, n, m = any_graph(c)
    acc = ORDERED[c.ri(0, 1)]
    k = c.ri(0, 3)
    idx = c.rng.integers(0, max(1, n // 2), n)
    deg = np.asarray(g.degree(np.arange(n))) if n else np.zeros(0)

    def make(v, o, f):
        if k == 0:
            o.m("vertices", np.asarray(hg.accumulate_graph_vertices(g, v, acc))[deg > 0])
        elif k == 1:
            r = np.asarray(hg.accumulate_at(idx, v, acc))
            o.m("at", r[np.unique(idx)])
        elif k == 2:
            o.m("min", hg.weight_graph(g, v, hg.WeightFunction.min))
            o.m("max", hg.weight_graph(g, v, hg.WeightFunction.max))
            o.m("source", hg.weight_graph(g, v, hg.WeightFunction.source))
            o.m("target", hg.weight_graph(g, v, hg.WeightFunction.target))
        else:
            o.s("L0", hg.weight_graph(g, v, hg.WeightFunction.L0))
    return make, n, None


@spec("P06")
def edge_accumulators(c):
    g, n, m = any_graph(c)
    acc = ORDERED[c.ri(0, 1)]
    deg = np.asarray(g.degree(np.arange(n))) if n else np.zeros(0)

    def make(v, o, f):
        o.m("edges", np.asarray(hg.accumulate_graph_edges(g, v, acc))[deg > 0])
    return make, m, None


# ----------------------------------------------------------------- P07

@spec("P07")
def spanning(c):
    g, n, m = any_graph(c, loops=False)

    def make(v, o, f):
        r = hg.bpt_canonical(g, v)
        t, a = r
        o.s("parents", t.parents()).m("altitudes", np.asarray(a)[n:])
        o.s("edge-map", hg.CptBinaryHierarchy.get_mst_edge_map(t))
        sal = hg.saliency(t, a)
        o.m("saliency", sal)
        t2, a2 = hg.quasi_flat_zone_hierarchy(g, v)
        o.s("qfz", t2.parents()).m("qfz-altitudes", np.asarray(a2)[n:])
        o.m("qfz-saliency", hg.saliency(t2, a2))
    return make, m, None


# ----------------------------------------------------------------- P08

@spec("P08")
def simplification(c):
    p = gen.parents(c, maxleaves=12)
    ch, nl, _ = gen.tree_info(p)
    inc = c.p(0.7)

    def make(v, o, f):
        t = hg.Tree(p)
        q, a, nm = hg.canonize_hierarchy(t, v, return_node_map=True)
        o.s("parents", q.parents()).s("map", nm).m("altitudes", a)
    return make, len(p), increasing(p) if inc else decreasing(p)


@spec("P08")
def reordering(c):
    p = gen.parents(c, maxleaves=12)
    nl = gen.tree_info(p)[1]

    def make(v, o, f):
        t = hg.Tree(p)
        q, a, nm = hg.sort_hierarchy_with_altitudes(t, v)
        o.s("parents", q.parents()).s("map", nm).m("altitudes", a)
    return make, len(p), leaves_first(increasing(p), nl)


# ----------------------------------------------------------------- P09

@spec("P09")
def component_trees(c):
    g, n, m = any_graph(c)

    def make(v, o, f):
        for k, fn in (("max", hg.component_tree_max_tree), ("min", hg.component_tree_min_tree)):
            t, a = fn(g, v)
            o.s(k, t.parents()).m(k + "-altitudes", a)
    return make, n, None


# ----------------------------------------------------------------- P11

# functions whose intermediate values are of type double
EXACT = [x for x in gen.NUM_TYPES if np.dtype(x).kind == "f" or np.dtype(x).itemsize < 8]


@spec("P11")
def complete_linkage(c):
    n, s, t = gen.graph(c, maxn=12, loops=False, parallel=False)
    perm = c.rng.permutation(len(s))
    g = gen.make_graph(hg, n, s, t)

    def make(v, o, f):
        # ties are decided by the order of the heap, which only depends on the order of the values
        q, a = hg.binary_partition_tree_complete_linkage(g, v)
        o.s("parents", q.parents()).m("altitudes", np.asarray(a)[n:])
    return make, len(s), None


# ----------------------------------------------------------------- P12, P13

@spec("P12")
def watershed(c):
    g, n, m = any_graph(c, loops=False)

    def make(v, o, f):
        o.s("labels", hg.labelisation_watershed(g, v))
    return make, m, None


@spec("P13")
def watershed_hierarchies(c):
    g, n, m = any_graph(c, loops=False)
    area = c.rng.integers(1, 5, n)
    k = c.ri(0, 2)

    def make(v, o, f):
        if k == 0:
            t, a = hg.watershed_hierarchy_by_area(g, v, area)
        elif k == 1:
            t, a = hg.watershed_hierarchy_by_number_of_parents(g, v)
        else:
            t, a = hg.watershed_hierarchy_by_attribute(g, v, lambda tree, alt: hg.attribute_area(tree))
        o.s("parents", t.parents()).s("altitudes", a).s("map", hg.CptBinaryHierarchy.get_mst_edge_map(t))
    return make, m, None


# ----------------------------------------------------------------- P15

@spec("P15")
def horizontal_cuts(c):
    p = gen.parents(c, maxleaves=12)
    ch, nl, _ = gen.tree_info(p)
    k = c.ri(1, nl)

    def make(v, o, f):
        t = hg.Tree(p)
        e = hg.HorizontalCutExplorer(t, v)
        o.s("number", e.num_cuts()).m("cut-altitudes", e.altitude_cuts()).s("regions", e.num_regions_cuts())
        for x in range(e.num_cuts()):
            o.s("cut", e.horizontal_cut_from_index(x).nodes())
        o.s("from-number", e.horizontal_cut_from_num_regions(k).nodes())
        for r in range(2):
            thr = f(np.array([r]))[0] if r < len(np.unique(v)) else None
            if thr is not None:
                o.s("from-altitude", np.sort(e.horizontal_cut_from_altitude(thr).nodes()))
                o.s("labels", hg.labelisation_horizontal_cut_from_threshold(t, v, thr))
                o.s("find-region", t.find_region(np.arange(nl), np.full(nl, thr, dtype=v.dtype), v))
    return make, len(p), increasing(p), nl


# ----------------------------------------------------------------- P17

@spec("P17")
def extrema(c):
    p = gen.parents(c, maxleaves=12)
    ch, nl, _ = gen.tree_info(p)
    inc = c.p(0.5)
    att = np.zeros(len(p), np.int64)
    for i in range(len(p)):
        att[i] = c.ri(0, 3) + (max(att[x] for x in ch[i]) if ch[i] else 0)

    def make(v, o, f):
        t = hg.Tree(p)
        if len(np.unique(v)) > 1 or not inc:
            o.s("extrema", hg.attribute_extrema(t, v))
            if v.dtype.itemsize < 8 or v.dtype.kind == "f" or abs(float(v.max())) < 2 ** 53 and abs(float(v.min())) < 2 ** 53:
                o.s("extinction", hg.attribute_extinction_value(t, v, att, inc))      # computed with values of type double
    return make, len(p), increasing(p) if inc else decreasing(p)


# ----------------------------------------------------------------- P22

@spec("P22")
def monotonic(c):
    p = gen.parents(c, maxleaves=12)

    def make(v, o, f):
        t = hg.Tree(p)
        o.m("max", hg.tree_monotonic_regression(t, v, "max"))
        o.m("min", hg.tree_monotonic_regression(t, v, "min"))
    return make, len(p), None


for _f in (complete_linkage, horizontal_cuts):
    _f.opts = {"types": EXACT}
