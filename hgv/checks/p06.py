"""P06: accumulation on graphs, indices and contours, and edge weighting, equal their definitions."""
import math
import numpy as np
import higra as hg
from hgv import gen, order
from hgv.core import family
from hgv.oracles import aggregate, acc_names, Overflow

UNITS = ["graph_accumulator", "at_accumulator", "tree_contour_accumulator", "graph_weights", "tree_attributes"]
RULE = ("random multigraphs (self loops, parallel edges, isolated vertices, removed edges for the accumulators), grid graphs, index arrays with "
        "ignored entries and untouched targets, trees on graphs, weight data of all ten numeric types, scalar or vector valued, in random memory "
        "layouts, every accumulator and weighting function; results compared with the definition evaluated on edge lists and leaf sets. "
        "Non-trivial: at least one value is accumulated or one edge weighted. Family limits: the same ranks are given as small integers and as extreme or neighbouring values of every type (infinities, subnormals, largest integers): results must correspond.")
ASSUMPTIONS = ["finite values; integer results that do not fit in the data type are not compared",
               "first/last on graphs follow the order of out_edges/adjacent_vertices; first, last, argmin, argmax are not specified on contours",
               "argmin and argmax are compared for scalar data only"]
ACC = acc_names(hg)


def pick(c, names=None):
    name = c.choice(names or list(ACC))
    dt = gen.dtype(c)
    extra = c.choice([(), (), (1,), (2,), (3,), (2, 2)])
    if name in ("argmin", "argmax"):
        extra = ()
    c.inp(acc=name, dtype=str(dt), extra=extra)
    c.ev("acc_" + name)
    return name, dt, extra


def data(c, n, extra, dt, name):
    shape = (n,) + extra
    if name == "prod":
        v = c.rng.choice([0, 1, 1, 1, 1, 2] if dt.kind == "u" else [-1, 1, 1, 1, 1, 2], shape).astype(dt)
        return v
    v = gen.values(c, shape, dt)
    if dt.itemsize == 1 and c.p(0.7):
        v = (v % 5).astype(dt)
    return v


def lay(c, a):
    return gen.layout(c, a) if len(a) > 1 else a


def compare(c, got, groups, w, name, dt, extra, key):
    """groups: for each target the list of rows of w, in order"""
    n = len(groups)
    cols = w.reshape((len(w), -1)).T.tolist() if len(w) else [[] for _ in range(int(np.prod(extra)))]
    sh = (n,) + extra
    if name == "counter":
        cols, sh = cols[:1], (n,)
    try:
        want = [[aggregate(name, [col[k] for k in g], dt) for g in groups] for col in cols]
    except Overflow:
        c.ev("overflow_skipped")
        return
    got = np.asarray(got)
    c.ck(got.shape == sh, key + "-shape", "%s want %s" % (got.shape, sh))
    c.ck(got.dtype == dt, key + "-dtype", "%s" % got.dtype)
    want = np.array(want, dt).T.reshape(sh)
    if name in ("first", "last"):
        # nothing specified for empty targets
        ne = [i for i in range(n) if len(groups[i])]
        got, want = got[ne], want[ne]
    if dt.kind == "f":
        c.close(got, want, key + "-" + name, str(groups)[:300], rtol=1e-5 if dt == np.float32 else 1e-12, atol=1e-30)
    else:
        c.eq(got, want, key + "-" + name, str(groups)[:300])
    c.ev("targets", n)
    c.ev("empty_targets", sum(1 for g in groups if not len(g)))
    c.ev("values", sum(len(g) for g in groups))


def random_graph(c, removed=True):
    n, s, t = gen.graph(c, connected=c.p(0.7))
    g = gen.make_graph(hg, n, s, t)
    model = [(min(a, b), max(a, b)) for a, b in zip(s.tolist(), t.tolist())]
    if removed and len(s) and c.p(0.2):
        for _ in range(c.ri(1, 3)):
            k = c.ri(0, len(s) - 1)
            if model[k] is not None:
                g.remove_edge(k)
                model[k] = None
        c.ev("with_removed_edges")
    c.inp(n=n, sources=s, targets=t, model=model)
    return n, s, t, g, model


@family("graph-edges", quick=3000)
def graph_edges(c):
    n, s, t, g, model = random_graph(c)
    name, dt, extra = pick(c)
    w = data(c, len(s), extra, dt, name)
    c.inp(weights=w)
    inc = [[] for _ in range(n)]
    for k, e in enumerate(model):
        if e is not None:
            inc[e[0]].append(k)
            if e[0] != e[1]:
                inc[e[1]].append(k)
    c.note(s, t, w, name, nontrivial=any(inc))
    if name in ("first", "last", "argmin", "argmax"):
        order = [[e[2] for e in g.out_edges(v)] for v in range(n)]
        c.ck([sorted(x) for x in order] == inc, "out-edges")
        inc = order
    compare(c, hg.accumulate_graph_edges(g, lay(c, w), ACC[name]), inc, w, name, dt, extra, "accumulate_graph_edges")


@family("graph-vertices", quick=3000)
def graph_vertices(c):
    n, s, t, g, model = random_graph(c)
    name, dt, extra = pick(c)
    w = data(c, n, extra, dt, name)
    c.inp(weights=w)
    adj = [[] for _ in range(n)]
    for k, e in enumerate(model):
        if e is not None:
            adj[e[0]].append(e[1])
            if e[0] != e[1]:
                adj[e[1]].append(e[0])
    c.note(s, t, w, name, nontrivial=any(adj))
    if name in ("first", "last", "argmin", "argmax"):
        order = [[int(x) for x in g.adjacent_vertices(v)] for v in range(n)]
        c.ck([sorted(x) for x in order] == [sorted(x) for x in adj], "adjacent-vertices")
        adj = order
    compare(c, hg.accumulate_graph_vertices(g, lay(c, w), ACC[name]), adj, w, name, dt, extra, "accumulate_graph_vertices")


@family("at", quick=4000)
def at(c):
    m = c.choice([0, 1, 2, c.ri(1, 12), c.ri(1, 12), c.ri(10, 60), c.ri(60, 300)])
    top = c.choice([1, 3, m + 1, 3 * m + 2])
    idx = c.rng.integers(-1 if c.p(0.6) else 0, top, m)
    if c.p(0.05):
        idx[:] = -1
    name, dt, extra = pick(c)
    w = data(c, m, extra, dt, name)
    it = c.choice([np.int64, np.int64, np.int32, np.int16]) if (idx < 0).any() else c.choice([np.int64, np.uint64, np.uint32, np.uint16])
    c.inp(indices=idx, weights=w)
    groups = [[] for _ in range(int(idx.max()) + 1 if m else 0)]
    for k, i in enumerate(idx.tolist()):
        if i >= 0:
            groups[i].append(k)
    c.note(idx, w, name, nontrivial=any(groups))
    c.ev("ignored_entries", (idx < 0).sum())
    compare(c, hg.accumulate_at(lay(c, idx.astype(it)), lay(c, w), ACC[name]), groups, w, name, dt, extra, "accumulate_at")


def tree_with_graph(c):
    par = gen.parents(c, maxleaves=16)
    ch, nl, depth = gen.tree_info(par)
    t = hg.Tree(par)
    how = c.ri(0, 2)
    if how == 0 and nl > 1:
        f = [d for d in range(1, nl + 1) if nl % d == 0]
        h = c.choice(f)
        g = hg.get_4_adjacency_graph((h, nl // h))
        s, d = g.edge_list()
    else:
        n, s, d = gen.graph(c, n=nl, connected=c.p(0.7))
        g = gen.make_graph(hg, n, s, d)
    c.inp(parents=par, sources=s, targets=d)
    return par, nl, t, g, s, d


@family("contours", quick=3000)
def contours(c):
    par, nl, t, g, s, d = tree_with_graph(c)
    below = [set(x) for x in gen.leaves_below(par)]
    name, dt, extra = pick(c, ["min", "max", "mean", "counter", "sum", "prod"])
    w = data(c, len(par), extra, dt, name)
    c.inp(weights=w)
    groups = [[n for n in range(len(par)) if (x in below[n]) != (y in below[n])] for x, y in zip(s.tolist(), d.tolist())]
    c.note(par, s, d, w, name, nontrivial=any(groups))
    a = (t, lay(c, w), ACC[name])
    if c.p(0.5):
        hg.CptHierarchy.link(t, g)
    else:
        a += (g,)
    compare(c, hg.accumulate_on_contours(*a), groups, w, name, dt, extra, "accumulate_on_contours")


def fun(name, a, b):
    """a, b: lists of python numbers"""
    d = [abs(float(x) - float(y)) for x, y in zip(a, b)]
    if name == "L0":
        return 0 if list(a) == list(b) else 1
    if name == "L1":
        return sum(d)
    if name == "L2":
        return math.sqrt(sum(x * x for x in d))
    if name == "L2_squared":
        return sum(x * x for x in d)
    if name == "L_infinity":
        return max(d)
    x, y = float(a[0]), float(b[0])
    return {"mean": (x + y) / 2, "min": min(x, y), "max": max(x, y), "source": x, "target": y}[name]


WF = {n: getattr(hg.WeightFunction, n) for n in ("mean", "min", "max", "L0", "L1", "L2", "L_infinity", "L2_squared", "source", "target")}
ONLY_SCALAR = ("mean", "min", "max", "source", "target")


@family("weight-graph", quick=4000)
def weight_graph(c):
    name = c.choice(list(WF))
    dt = gen.dtype(c)
    extra = () if name in ONLY_SCALAR else c.choice([(), (1,), (2,), (3,), (2, 2), (5,)])
    kind = c.choice(["graph", "graph", "grid", "tree"])
    shape = None
    if kind == "graph":
        n, s, t = gen.graph(c, connected=c.p(0.7))
        g = gen.make_graph(hg, n, s, t)
        s, t = np.minimum(s, t), np.maximum(s, t)
    elif kind == "grid":
        shape = (c.ri(1, 5), c.ri(1, 5))
        g = c.choice([hg.get_4_adjacency_graph, hg.get_8_adjacency_graph])(shape)
        n = g.num_vertices()
        s, t = g.edge_list()
        if c.p(0.3):
            shape = None
    else:
        par = gen.parents(c)
        g = hg.Tree(par)
        n = len(par)
        s, t = np.arange(n - 1), par[:-1]
    w = gen.values(c, (n,) + extra, dt)
    if dt.itemsize >= 2 and c.p(0.3):
        # values far apart: differences overflow the data type but not the double computation
        m = np.finfo(dt).max if dt == np.float32 else 2.0 ** 40 if dt.itemsize == 8 else np.iinfo(dt).max
        w = np.where(c.rng.random(w.shape) < 0.3, dt.type(m), w).astype(dt)
    elif dt.itemsize == 1 and c.p(0.5):
        w = c.rng.integers(np.iinfo(dt).min, np.iinfo(dt).max + 1, w.shape).astype(dt)
    c.inp(kind=kind, sources=s, targets=t, weights=w, function=name)
    c.note(s, t, w, name, nontrivial=len(s) > 0)
    rows = w.reshape((n, -1)).tolist()
    want = np.array([fun(name, rows[a], rows[b]) for a, b in zip(s.tolist(), t.tolist())], np.float64)
    ww = w.reshape(shape + extra) if shape else w
    got = hg.weight_graph(g, lay(c, ww), WF[name])
    c.ck(got.dtype == np.float64, "weight_graph-dtype", str(got.dtype))
    c.close(got, want, "weight_graph-" + name, "%s %s" % (kind, str(dt)), rtol=1e-12, atol=0)
    c.ev("function_" + name)
    c.ev("kind_" + kind)
    c.ev("edges", len(s))


@family("rejected", quick=300, asan=300)
def rejected(c):
    n, s, t, g, model = random_graph(c, removed=False)
    name, dt, extra = pick(c)
    c.note(s, t, name, dt.str)
    a = ACC[name]
    c.raises(lambda: hg.accumulate_graph_edges(g, np.zeros((len(s) + c.choice([1, 2, n + 1]),) + extra, dt), a), "wrong-size")
    if len(s):
        c.raises(lambda: hg.accumulate_graph_edges(g, np.zeros((c.ri(0, len(s) - 1),) + extra, dt), a), "wrong-size")
    for k in (c.ri(0, n - 1), n + c.ri(1, 5)):
        c.raises(lambda: hg.accumulate_graph_vertices(g, np.zeros((k,) + extra, dt), a), "wrong-size")
        c.raises(lambda: hg.weight_graph(g, np.zeros((k,) + extra, dt), WF[c.choice(["L0", "L1", "L2"])]), "wrong-size")
    m = c.ri(1, 10)
    idx = c.rng.integers(0, 5, m)
    for k in (m - 1, m + 1, 0):
        c.raises(lambda: hg.accumulate_at(idx, np.zeros((k,) + extra, dt), a), "wrong-size")
    idx[c.ri(0, m - 1)] = -c.ri(2, 1000)
    c.raises(lambda: hg.accumulate_at(idx, np.zeros((m,) + extra, dt), a), "index-below-minus-one")
    par, nl, tr, g, s, d = tree_with_graph(c)
    k = len(par)
    c.raises(lambda: hg.accumulate_on_contours(tr, np.zeros((c.choice([0, k - 1, k + 1]),) + extra, dt), a, g), "wrong-size")
    big = hg.UndirectedGraph(nl + 1)
    big.add_edge(0, nl)
    c.raises(lambda: hg.accumulate_on_contours(tr, np.zeros((k,) + extra, dt), a, big), "wrong-graph")


@family("limits", quick=1200)
def limits(c):
    """results that depend only on the order of the values: values at the limits of every type"""
    order.run(c, "P06")
