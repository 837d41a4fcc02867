"""P23: automatic caching, attributes, tags, concepts and implicit arguments."""
import gc
import weakref
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["tree_attributes", "tree_accumulators", "hierarchy_core", "graph_core", "rag", "at_accumulator", "graph_accumulator", "tree_contour_accumulator", "tree", "sorting", "common", "component_tree", "watershed_hierarchy"]
RULE = ("random histories of calls to all the cached attribute functions over several live and dying trees and graphs: repeated calls, forced recomputation, no cache, global switch, every form of "
        "clearing, arrays and objects replaced by new ones (identifier reuse), links changed; each result compared with the same call on objects rebuilt from scratch without cache. Cached "
        "user functions with counted executions, called with values, containers and objects of many types, against a model of the cache. Concept links, tags and attributes against dictionaries. "
        "Non-trivial: a history with a cache hit and a change of state.")
ASSUMPTIONS = ["arguments and results are not mutated in place", "functions without a leaf graph parameter are not called again after the tree was linked to another graph"]


def same(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    return a == b


class World:
    """a tree over a grid graph, built from plain data; 'arrays' is the pool of values used as arguments"""

    def __init__(self, c):
        self.shape = (c.ri(1, 4), c.ri(2, 4))
        n = self.shape[0] * self.shape[1]
        self.parents = gen.parents(c, nleaves=n)
        self.grids = [self.new_grid(), self.new_grid()]
        self.other = gen.graph(c, n=n, connected=False, loops=False)
        self.linked = True
        self.graph = self.grids[0]
        self.tree = hg.Tree(self.parents.copy())
        hg.CptHierarchy.link(self.tree, self.graph)
        self.arrays = {}
        for k in ("vertex_area", "edge_length", "edge_weights", "vertex_perimeter", "altitudes", "vertex_weights", "depth", "leaf_volume", "area", "contour_length"):
            self.arrays[k] = [self.new_array(c, k), self.new_array(c, k)]

    def new_grid(self):
        return hg.get_4_adjacency_graph(self.shape)

    def new_array(self, c, k):
        n, m, l = len(self.parents), self.grids[0].num_edges(), self.grids[0].num_vertices()
        size = {"vertex_area": l, "edge_length": m, "edge_weights": m, "vertex_perimeter": l, "vertex_weights": l, "leaf_volume": l}.get(k, n)
        a = c.rng.integers(1, 6, size).astype(float)
        if k == "altitudes":
            for i in range(n - 1):
                a[self.parents[i]] = max(a[self.parents[i]], a[i])
        if k == "depth":
            a = a.astype(np.int64)
        return a


# function: (on tree?, arguments, needs leaf graph, leaf graph parameter)
TREE = {
    "attribute_area": (["vertex_area?"], False, True),
    "attribute_child_number": ([], False, False),
    "attribute_compactness": (["area?", "contour_length?", "normalize?"], True, True),
    "attribute_contour_length": (["vertex_perimeter?", "edge_length?"], True, True),
    "attribute_contour_strength": (["edge_weights", "vertex_perimeter?", "edge_length?"], True, True),
    "attribute_depth": ([], False, False),
    "attribute_dynamics": (["altitudes", "increasing_altitudes"], False, False),
    "attribute_extrema": (["altitudes"], False, False),
    "attribute_frontier_length": (["edge_length?"], True, True),
    "attribute_frontier_strength": (["edge_weights"], True, True),
    "attribute_gaussian_region_weights_model": (["vertex_weights"], True, True),
    "attribute_height": (["altitudes", "increasing_altitudes", "reference_altitude?"], False, False),
    "attribute_lca_map": ([], True, True),
    "attribute_mean_vertex_weights": (["vertex_weights", "area?"], False, True),
    "attribute_moment_of_inertia": ([], True, True),
    "attribute_regular_altitudes": (["depth?"], False, False),
    "attribute_sibling": (["skip?"], False, False),
    "attribute_topological_height": ([], False, False),
    "attribute_vertex_list": ([], False, False),
    "attribute_volume": (["altitudes", "area", "leaf_volume?"], False, False),
}
GRAPH = {
    "attribute_edge_length": [],
    "attribute_vertex_area": [],
    "attribute_vertex_coordinates": [],
    "attribute_vertex_perimeter": ["edge_length?"],
}
VALUES = {"normalize": [True, False], "increasing_altitudes": [True, "auto"], "reference_altitude": ["parent", "current"], "skip": [1, 2]}


def draw_call(c, w):
    """function name, on tree, keyword arguments"""
    if c.p(0.8):
        f = c.choice(sorted(TREE))
        spec, tree = TREE[f][0], True
    else:
        f = c.choice(sorted(GRAPH))
        spec, tree = GRAPH[f], False
    kw = {}
    for a in spec:
        opt = a.endswith("?")
        a = a.rstrip("?")
        if opt and c.p(0.5):
            continue
        kw[a] = c.choice(VALUES[a]) if a in VALUES else w.arrays[a][c.ri(0, 1)]
    graph = None
    if tree and TREE[f][2] and c.p(0.3):
        graph = c.ri(0, 1)  # explicit leaf graph
    return f, tree, kw, graph


def expected(w, f, tree, kw, graph):
    """same call on fresh objects, without cache"""
    state = hg.get_auto_cache_state()
    hg.set_auto_cache_state(False)
    try:
        g = w.new_grid()
        kw = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in kw.items()}
        if not tree:
            return getattr(hg, f)(g, **kw)
        t = hg.Tree(w.parents.copy())
        if graph is not None:
            kw["leaf_graph"] = g
        elif w.linked:
            hg.CptHierarchy.link(t, g)
        return getattr(hg, f)(t, **kw)
    finally:
        hg.set_auto_cache_state(state)


ORDER = {f: list(x.rstrip("?") for x in s[0]) for f, s in TREE.items()}


@family("history", quick=1200)
def history(c):
    worlds = [World(c) for _ in range(c.ri(1, 3))]
    log = []
    hits = changes = 0
    try:
        for step in range(c.ri(10, 40)):
            w = c.choice(worlds)
            r = c.rng.random()
            if r < 0.6:
                f, tree, kw, graph = draw_call(c, w)
                ctl = c.choice(["", "", "", "", "force_recompute", "no_cache"])
                log.append("%d:%s(%s%s)%s" % (worlds.index(w), f, ",".join(sorted(kw)), ",g" if graph is not None else "", ctl))
                c.inp(shape=w.shape, parents=w.parents, log=log)
                want = expected(w, f, tree, kw, graph)
                k = dict(kw)
                if tree and graph is not None:
                    k["leaf_graph"] = w.grids[graph]
                ref = w.tree if tree else w.grids[c.ri(0, 1)]
                fun = getattr(hg, f)

                def call(**ctl):
                    # optional positional first arguments
                    a = []
                    kk = dict(k)
                    if tree and c.p(0.4):
                        for name in ORDER[f]:
                            if name not in kk:
                                break
                            a.append(kk.pop(name))
                    return fun(ref, *a, **kk, **ctl)
                got = call(**({ctl: True} if ctl else {}))
                c.ck(same(got, want), "value", "%s: %r expected %r" % (log[-1], got, want))
                c.ev("call-" + f)
                on = hg.get_auto_cache_state()
                if c.p(0.5):
                    if on and ctl != "no_cache":
                        again = call()
                        c.ck(again is got, "not-cached", "%s computed twice" % log[-1])
                        hits += 1
                        fresh = call(no_cache=True)
                        c.ck(same(fresh, want), "no-cache-value", log[-1])
                        c.ck(fresh is not got or np.isscalar(got), "no-cache-used-cache", log[-1])
                        c.ck(call() is got, "no-cache-changed-cache", log[-1])
                        if c.p(0.5):
                            new = call(force_recompute=True)
                            c.ck(new is not got or np.isscalar(got), "force-recompute-used-cache", log[-1])
                            c.ck(same(new, want), "force-recompute-value", log[-1])
                            c.ck(call() is new, "force-recompute-not-stored", log[-1])
                    elif not on:
                        again = call()
                        c.ck(again is not got or np.isscalar(got), "disabled-used-cache", log[-1])
                        c.ck(same(again, want), "disabled-value", log[-1])
            elif r < 0.72:
                changes += 1
                k = c.choice(sorted(w.arrays))
                w.arrays[k][c.ri(0, 1)] = None
                for i in (0, 1):
                    if w.arrays[k][i] is None:
                        w.arrays[k][i] = w.new_array(c, k)
                log.append("new " + k)
            elif r < 0.8:
                changes += 1
                how = c.ri(0, 4)
                f = c.choice(sorted(TREE) + sorted(GRAPH))
                if how == 0:
                    hg.clear_auto_cache()
                elif how == 1:
                    hg.clear_auto_cache(function=f)
                elif how == 2:
                    hg.clear_auto_cache(function=getattr(hg, f))
                elif how == 3:
                    hg.clear_auto_cache(reference_object=w.tree)
                else:
                    hg.clear_auto_cache(function=f, reference_object=w.tree)
                log.append("clear %d %s" % (how, f))
            elif r < 0.86:
                hg.set_auto_cache_state(not hg.get_auto_cache_state())
                log.append("state %r" % hg.get_auto_cache_state())
            elif r < 0.94:
                changes += 1
                i = worlds.index(w)
                worlds[i] = w = None
                if c.p(0.03):
                    gc.collect()
                worlds[i] = World(c)
                log.append("world %d" % i)
            else:
                # link the tree to another graph of the same shape
                changes += 1
                i = c.ri(0, 1)
                hg.CptHierarchy.link(w.tree, w.grids[i])
                c.ck(hg.CptHierarchy.get_leaf_graph(w.tree) is w.grids[i], "relink")
                log.append("link %d" % i)
    finally:
        hg.set_auto_cache_state(True)
    c.note(*log, nontrivial=hits > 0 and changes > 0)
    c.ev("hits", hits)
    c.ev("changes", changes)


@family("relink", quick=1500)
def relink(c):
    """functions with a leaf graph parameter follow the current link of the tree"""
    n = c.ri(2, 12)
    p = gen.parents(c, nleaves=n)
    t = hg.Tree(p.copy())
    seq = []
    gs = []
    for _ in range(3):
        k, s, tt = gen.graph(c, n=n, connected=False, loops=False)
        gs.append((s, tt, gen.make_graph(hg, n, s, tt)))
    for _ in range(6):
        i = c.ri(0, 2)
        seq.append(i)
        c.inp(parents=p, graphs=[(s, tt) for s, tt, _ in gs], sequence=seq)
        explicit = c.p(0.3)
        if not explicit:
            hg.CptHierarchy.link(t, gs[i][2])
        kw = {"leaf_graph": gs[i][2]} if explicit else {}
        for f in ("attribute_lca_map", "attribute_frontier_length"):
            r = np.asarray(getattr(hg, f)(t, **kw))
            m = len(gs[i][0])
            below = gen.leaves_below(p)
            want = [min(k for k in range(len(p)) if a in below[k] and b in below[k]) for a, b in zip(gs[i][0], gs[i][1])]
            if f == "attribute_lca_map":
                c.eq(r.ravel(), np.array(want, dtype=np.int64), "relink-lca")
            else:
                c.eq(r.ravel(), np.bincount(np.array(want, dtype=np.int64), minlength=len(p)), "relink-frontier")
    c.note(p, *[x for s, tt, _ in gs for x in (s, tt)], seq, nontrivial=len(set(seq)) > 1)


class Hashable:
    """value semantic"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Hashable) and o.v == self.v

    def __hash__(self):
        return hash(self.v)


class Plain:
    pass


class Ref:
    pass


def model_key(v):
    """key of a value in the model of the cache"""
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(model_key(x) for x in v)
    if isinstance(v, set):
        return ("set", frozenset(model_key(x) for x in v))
    if isinstance(v, dict):
        return ("dict", frozenset((model_key(k), model_key(x)) for k, x in v.items()))
    if isinstance(v, (np.ndarray, Plain, hg.Tree, hg.UndirectedGraph, bytearray)):
        return ("id", id(v))  # kept alive by the pool
    if isinstance(v, Hashable):
        return ("hashable", v.v)
    return (type(v).__name__, repr(v))


def describe(v):
    """what the function computes from its arguments: depends on type and value"""
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(describe(x) for x in v)
    if isinstance(v, (set, dict)):
        return model_key(v)
    if isinstance(v, np.ndarray):
        return ("array", str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, (Plain, hg.Tree, hg.UndirectedGraph)):
        return ("obj", getattr(v, "tag", None))
    return model_key(v)


TAG = [0]


def draw_value(c, depth=0):
    k = c.ri(0, 15 if depth < 2 else 11)
    if k == 0:
        return c.ri(-1, 2)
    if k == 1:
        return float(c.ri(-1, 2))
    if k == 2:
        return c.choice([0.0, -0.0, float("nan"), float("inf"), 1e300, 0.1, 0.1 + 2e-17])
    if k == 3:
        return c.choice([True, False])
    if k == 4:
        return c.choice(["", "a", "b", "1", "0.0", "None"])
    if k == 5:
        return None
    if k == 6:
        return c.choice([np.int64(1), np.float64(1), np.int32(1), np.uint8(0), np.bool_(True), np.float32(0)])
    if k == 7:
        return c.rng.integers(0, 2, c.ri(0, 2)).astype(c.choice([np.int64, np.float64]))
    if k == 8:
        return Hashable(c.ri(0, 2))
    if k == 9:
        o = Plain()
        TAG[0] += 1
        o.tag = TAG[0]
        return o
    if k == 10:
        return c.choice([1j, 0j, complex(0.0, -0.0), b"a", b"", frozenset([1]), frozenset(), Ellipsis])
    if k == 11:
        t = hg.Tree(np.array([1, 1]))
        TAG[0] += 1
        t.tag = TAG[0]
        return t
    if k == 12:
        return tuple(draw_value(c, depth + 1) for _ in range(c.ri(0, 2)))
    if k == 13:
        return [draw_value(c, depth + 1) for _ in range(c.ri(0, 2))]
    if k == 14:
        return set(c.rng.integers(0, 3, c.ri(0, 2)).tolist())
    return {c.choice(["a", "b", 1, "1"]): draw_value(c, depth + 1) for _ in range(c.ri(0, 2))}


@family("model", quick=2500)
def model(c):
    """counted executions of user functions"""
    count = {"f": 0, "g": 0, "h": 0}

    @hg.auto_cache
    def f(obj, a=1, b=None):
        count["h"] += 1
        return ["h", obj.tag, describe(a), describe(b)]
    h = f  # another function with the same name

    @hg.auto_cache
    def f(obj, a=1, b=None):
        count["f"] += 1
        return [obj.tag, describe(a), describe(b)]

    @hg.auto_cache
    def g(obj, a=1, b=None):
        count["g"] += 1
        return ["g", obj.tag, describe(a), describe(b)]
    funs = {"f": f, "g": g, "h": h}
    objs = []

    def new_obj():
        o = c.choice([Ref, lambda: hg.Tree(np.array([2, 2, 2])), lambda: hg.UndirectedGraph(2), lambda: hg.get_4_adjacency_implicit_graph((2, 2))])()
        if isinstance(o, hg.RegularGraph2d) if hasattr(hg, "RegularGraph2d") else False:
            pass
        TAG[0] += 1
        o.tag = TAG[0]
        return o
    objs = [new_obj() for _ in range(c.ri(1, 3))]
    pool = [draw_value(c) for _ in range(c.ri(2, 6))]
    store = {}
    seen = []
    hits = misses = 0
    try:
        for step in range(c.ri(5, 40)):
            r = c.rng.random()
            if r < 0.7:
                o = c.choice(objs)
                fn = c.choice(["f", "f", "f", "g", "h"])
                a = c.choice(pool) if c.p(0.8) else 1
                b = c.choice(pool) if c.p(0.6) else None
                style = c.ri(0, 4)
                before = count[fn]
                ctl = c.choice(["", "", "", "", "no_cache", "force_recompute"])
                kw = {ctl: True} if ctl else {}
                fun = funs[fn]
                if style == 0:
                    got = fun(o, a, b, **kw)
                elif style == 1:
                    got = fun(o, b=b, a=a, **kw)
                elif style == 2:
                    got = fun(obj=o, a=a, b=b, **kw)
                elif style == 3 and b is None:
                    got = fun(o, a, **kw)
                elif style == 4 and b is None and type(a) is int and a == 1:
                    got = fun(o, **kw)
                else:
                    got = fun(o, a, b=b, **kw)
                seen.append((fn, o.tag, describe(a), describe(b), ctl))
                c.inp(calls=[str(x) for x in seen[-8:]])
                want = ([] if fn == "f" else [fn]) + [o.tag, describe(a), describe(b)]
                c.ck(got == want, "model-value", "%s expected %s" % (got, want))
                ran = count[fn] - before
                key = (fn, o.tag, model_key(a), model_key(b))
                on = hg.get_auto_cache_state()
                if ctl == "no_cache" or not on:
                    c.ck(ran == 1, "model-executions", "%d executions without cache" % ran)
                elif ctl == "force_recompute":
                    c.ck(ran == 1, "model-force", "%d executions" % ran)
                    store[key] = got
                elif key in store:
                    c.ck(ran == 0, "model-recomputed", "call %s was cached" % (seen[-1],))
                    c.ck(got is store[key], "model-other-result")
                    hits += 1
                else:
                    c.ck(ran == 1, "model-not-executed", "call %s was not cached" % (seen[-1],))
                    store[key] = got
                    misses += 1
            elif r < 0.78:
                # the value and its cached results disappear, its identifier may be used again
                i = c.ri(0, len(pool) - 1)
                pool[i] = a = b = None
                store = {k: v for k, v in store.items()}
                new = draw_value(c)
                pool[i] = new
                nid = id(new)
                # forget the calls made with the dead value
                live = set()

                def ids(v):
                    if isinstance(v, (list, tuple)):
                        for x in v:
                            ids(x)
                    elif isinstance(v, dict):
                        for x in v.values():
                            ids(x)
                    else:
                        live.add(id(v))
                for v in pool:
                    if v is not new:
                        ids(v)

                def dead(k):
                    if isinstance(k, tuple):
                        if len(k) == 2 and k[0] == "id" and isinstance(k[1], int):
                            return k[1] not in live
                        return any(dead(x) for x in k)
                    if isinstance(k, frozenset):
                        return any(dead(x) for x in k)
                    return False
                store = {k: v for k, v in store.items() if not dead(k)}
            elif r < 0.86:
                o = c.choice(objs)
                how = c.ri(0, 4)
                if how == 0:
                    hg.clear_auto_cache()
                    store = {}
                elif how == 1:
                    hg.clear_auto_cache(function=f if c.p(0.5) else "f")
                    store = {k: v for k, v in store.items() if k[0] not in ("f", "h")}
                elif how == 2:
                    hg.clear_auto_cache(reference_object=o)
                    store = {k: v for k, v in store.items() if k[1] != o.tag}
                elif how == 3:
                    hg.clear_auto_cache(reference_object=o, function="g" if c.p(0.5) else g)
                    store = {k: v for k, v in store.items() if k[1] != o.tag or k[0] != "g"}
                else:
                    hg.clear_auto_cache(function="unknown")
            elif r < 0.92:
                hg.set_auto_cache_state(not hg.get_auto_cache_state())
            else:
                i = c.ri(0, len(objs) - 1)
                tag = objs[i].tag
                o = None
                objs[i] = None
                if c.p(0.02):
                    gc.collect()
                objs[i] = new_obj()
                store = {k: v for k, v in store.items() if k[1] != tag}
    finally:
        hg.set_auto_cache_state(True)
    c.note(*[str(x) for x in seen], nontrivial=hits > 0 and misses > 1)
    c.ev("hits", hits)
    c.ev("misses", misses)


class Result:
    def __init__(self, v):
        self.v = v


@family("life-time", quick=160)
def life_time(c):
    """cached results are released with their reference object and do not keep it alive"""
    res = []

    @hg.auto_cache
    def f(obj, a=None):
        r = Result(a if a is not obj else None)
        res.append(weakref.ref(r))
        return r
    kind = c.ri(0, 2)
    o = [lambda: hg.Tree(np.array([2, 2, 2])), lambda: hg.UndirectedGraph(3), Ref][kind]()
    other = Ref()
    args = [c.choice([1, "a", np.zeros(2), Plain(), (1, 2), [Plain()]]) for _ in range(c.ri(1, 4))]
    for a in args:
        f(o, a)
        if c.p(0.3):
            f(o, o)
    f(other, args[0])
    c.note(kind, len(res), *[type(a).__name__ for a in args], nontrivial=True)
    c.ck(all(r() is not None for r in res), "result-lost")
    ref = weakref.ref(o)
    del o
    gc.collect()
    c.ck(ref() is None, "reference-object-kept-alive", "kind %d args %s" % (kind, args))
    c.ck(all(r() is None for r in res[:-1]), "results-kept-alive", "%s" % [r() is None for r in res])
    c.ck(res[-1]() is not None and f(other, args[0]) is res[-1](), "other-result-lost")
    c.ev("released", len(res) - 1)
    # cached attributes do not keep trees and graphs alive
    w = World(c)
    for _ in range(c.ri(1, 12)):
        f, tree, kw, graph = draw_call(c, w)
        if tree and graph is not None:
            kw["leaf_graph"] = w.grids[graph]
        getattr(hg, f)(w.tree if tree else w.grids[c.ri(0, 1)], **kw)
    refs = [weakref.ref(x) for x in [w.tree] + w.grids]
    del w, kw
    gc.collect()
    c.ck(all(r() is None for r in refs), "attribute-keeps-object-alive", "%s" % [r() is None for r in refs])


@family("exceptions", quick=300)
def exceptions(c):
    """errors are raised again, nothing is stored"""
    n = [0]
    err = c.choice([TypeError, ValueError, KeyError])

    @hg.auto_cache
    def f(obj, a):
        n[0] += 1
        if a == "bad":
            raise err("bad")
        return [a]
    o = Ref()
    c.note(err.__name__, nontrivial=True)
    for _ in range(2):
        try:
            f(o, "bad")
            c.fail("exception-lost", "no exception")
        except err:
            pass
    x = f(o, 1)
    c.ck(f(o, 1) is x, "cache-after-exception")
    # objects that cannot be referenced are not cached but computed
    y = f(3, 1)
    c.ck(y == [1] and f(3, 1) == [1], "no-weak-reference")
    c.raises(lambda: hg.set_auto_cache_state(1), "state-type")
    c.ck(hg.get_auto_cache_state() is True, "state")
    try:
        @hg.auto_cache
        def g(*args):
            pass
        c.fail("bad-signature", "accepted")
    except Exception:
        pass


@family("attributes", quick=1500)
def attributes(c):
    """attributes and tags of objects are dictionaries and sets, separate for each object"""
    mk = [lambda: hg.Tree(np.array([2, 2, 2])), lambda: hg.UndirectedGraph(3), Ref, lambda: hg.get_4_adjacency_implicit_graph((2, 2)), lambda: np.zeros(2).view(type("A", (np.ndarray,), {})), lambda: np.zeros(3)]
    objs = [c.choice(mk)() for _ in range(c.ri(1, 4))]
    at = [dict() for _ in objs]
    tags = [set() for _ in objs]
    for i, o in enumerate(objs):
        at[i].update({k: hg.get_attribute(o, k) for k in hg.list_attributes(o)})
        tags[i] |= set(hg.get_tags(o)) if not isinstance(o, np.ndarray) or type(o) is not np.ndarray else set()
    names = ["a", "b", "zz"]
    log = []
    for _ in range(c.ri(3, 25)):
        i = c.ri(0, len(objs) - 1)
        o = objs[i]
        k = c.choice(names)
        op = c.ri(0, 7)
        log.append((i, op, k))
        c.inp(objects=[type(x).__name__ for x in objs], log=log)
        plain = type(o) is np.ndarray
        if op <= 1:
            v = c.choice([1, "x", (1, 2), [1], Plain()])
            dyn = c.p(0.5)
            hg.set_attribute(o, k, v, dyn)
            at[i][k] = v
            if dyn and not plain:
                c.ck(getattr(o, k) is v, "dynamic-attribute")
        elif op == 2:
            hg.clear_attributes(o, k)
            at[i].pop(k, None)
        elif op == 3 and c.p(0.2):
            hg.clear_attributes(o)
            at[i].clear()
            if plain:
                tags[i].clear()
        elif op == 4 and not plain:
            hg.add_tag(o, k)
            tags[i].add(k)
        elif op == 5 and not plain and k in tags[i]:
            hg.remove_tag(o, k)
            tags[i].remove(k)
        elif op == 6:
            j = c.ri(0, len(objs) - 1)
            objs[j] = o = None
            objs[j] = c.choice(mk)()
            at[j] = {x: hg.get_attribute(objs[j], x) for x in hg.list_attributes(objs[j])}
            c.ck(not set(at[j]) & set(names), "leaked-attributes", str(at[j]))
            tags[j] = set(hg.get_tags(objs[j])) if type(objs[j]) is not np.ndarray else set()
            c.ck(not tags[j] & set(names), "leaked-tags", str(tags[j]))
        for j, x in enumerate(objs):
            l = [y for y in hg.list_attributes(x) if y != "__tags__"]
            c.ck(set(l) == set(at[j]), "attribute-names", "%s expected %s" % (l, sorted(at[j])))
            for y in names:
                c.ck(hg.get_attribute(x, y) is at[j].get(y), "attribute-value", y)
                if type(x) is not np.ndarray:
                    c.ck(hg.has_tag(x, y) == (y in tags[j]), "tag", y)
    c.note(*log, nontrivial=len(log) > 4)
    c.ck(hg.get_attribute(3, "a") is None, "attribute-of-int")
    c.ev("operations", len(log))


@family("concepts", quick=1500)
def concepts(c):
    """links established by the library or by the user are recovered exactly"""
    sh = (c.ri(1, 4), c.ri(2, 4))
    g = hg.get_4_adjacency_graph(sh)
    gi = hg.get_4_adjacency_implicit_graph(sh)
    w = c.rng.integers(0, 4, g.num_edges()).astype(float)
    c.inp(shape=sh, weights=w)
    c.note(sh, w, nontrivial=len(set(w.tolist())) > 1)
    for x in (g, gi):
        c.ck(hg.CptGridGraph.validate(x) and tuple(hg.CptGridGraph.get_shape(x)) == sh, "grid-shape")
        k = hg.CptGridGraph.construct(x)
        c.ck(k["graph"] is x and tuple(k["shape"]) == sh, "grid-construct", str(k))
    for how in ("bpt", "bpt-lazy", "quasi", "watershed"):
        if how == "bpt":
            t, a = hg.bpt_canonical(g, w)
        elif how == "bpt-lazy":  # the minimum spanning tree is built the first time it is asked for
            t, a = hg.bpt_canonical(g, w, compute_mst=False)
        elif how == "quasi":
            t, a = hg.quasi_flat_zone_hierarchy(g, w)
        else:
            t, a = hg.watershed_hierarchy_by_area(g, w)
        c.ck(hg.CptHierarchy.validate(t) and hg.CptHierarchy.get_leaf_graph(t) is g, "leaf-graph", how)
        k = hg.CptHierarchy.construct(t)
        c.ck(k["tree"] is t and k["leaf_graph"] is g, "hierarchy-construct", how)
        if how.startswith("bpt"):
            c.ck(hg.CptBinaryHierarchy.validate(t), "binary-tag")
            m = hg.CptBinaryHierarchy.get_mst_edge_map(t)
            mst = hg.CptBinaryHierarchy.get_mst(t)
            c.ck(hg.CptMinimumSpanningTree.validate(mst) and hg.CptMinimumSpanningTree.get_base_graph(mst) is g, "mst-base-graph")
            c.eq(np.asarray(hg.CptMinimumSpanningTree.get_edge_map(mst)), np.asarray(m), "mst-edge-map")
            c.ck(mst.num_vertices() == g.num_vertices() and mst.num_edges() == len(m), "mst-size", how)
            for x, y in zip(mst.edge_list(), g.edge_list()):
                c.eq(np.asarray(x), np.asarray(y)[np.asarray(m)], "mst-edges-" + how)
            k = hg.CptBinaryHierarchy.construct(t)
            c.ck(k["mst"] is mst and k["mst_edge_map"] is m and k["leaf_graph"] is g, "binary-construct")
            c.ck(hg.CptBinaryHierarchy.get_mst(t) is mst, "mst-stable")
    lab = c.rng.integers(0, 3, sh)
    rag = hg.make_region_adjacency_graph_from_labelisation(g, lab)
    C = hg.CptRegionAdjacencyGraph
    k = C.construct(rag)
    c.ck(C.validate(rag) and C.get_pre_graph(rag) is g and k["pre_graph"] is g and k["rag"] is rag, "pre-graph")
    c.ck(k["vertex_map"] is C.get_vertex_map(rag) and k["edge_map"] is C.get_edge_map(rag), "rag-maps")
    # an object without link
    t = hg.Tree(np.array([2, 2, 2]))
    for C in (hg.CptHierarchy, hg.CptBinaryHierarchy, hg.CptGridGraph, hg.CptRegionAdjacencyGraph, hg.CptMinimumSpanningTree):
        c.ck(not C.validate(t) and not C.validate(None), "validate-unlinked", C.__name__)
        c.raises(lambda: C.construct(t), "construct-unlinked")
        r = C.construct(t, strict=False)
        c.ck(list(r.values()) == [t], "construct-not-strict", str(r))
    c.ck(hg.CptHierarchy.get_leaf_graph(t) is None, "no-leaf-graph")


@family("implicit-arguments", quick=1500)
def implicit_arguments(c):
    """explicit arguments win, missing ones come from the links of the (possibly explicit) arguments"""
    sh = [(c.ri(1, 3), c.ri(1, 3)) for _ in range(3)]
    gs = [hg.get_4_adjacency_graph(s) for s in sh]
    t = hg.Tree(np.array([2, 2, 2]))
    linked = c.p(0.7)
    if linked:
        hg.CptHierarchy.link(t, gs[0])

    def fun(tree, leaf_graph=None, shape=None, x=5):
        return tree, leaf_graph, shape, x
    f = hg.argument_helper(hg.CptHierarchy, ("leaf_graph", hg.CptGridGraph))(fun)

    def fun2(a, g1, g2=None, s1=None, s2=None):
        return g1, g2, s1, s2
    f2 = hg.argument_helper(("g1", hg.CptGridGraph(shape="s1")), ("g2", hg.CptGridGraph(shape="s2")))(fun2)
    eg = c.choice([None, None, gs[1]])
    es = c.choice([None, None, sh[2]])
    kw = {}
    if eg is not None or c.p(0.3):
        kw["leaf_graph"] = eg
    if es is not None or c.p(0.3):
        kw["shape"] = es
    c.inp(shapes=sh, linked=linked, explicit=sorted(kw))
    c.note(*sh, linked, sorted(kw), nontrivial=linked)
    for r in (f(t, **kw), f(tree=t, **kw), f(t, *([kw["leaf_graph"]] if "leaf_graph" in kw else []), **{k: v for k, v in kw.items() if k != "leaf_graph"})):
        g = eg if eg is not None else gs[0] if linked else None
        s = es if es is not None else None if g is None else sh[gs.index(g)]
        c.ck(r[0] is t and r[1] is g, "implicit-graph")
        c.ck((r[2] is None) == (s is None) and (s is None or tuple(r[2]) == tuple(s)), "implicit-shape", "%r expected %r" % (r[2], s))
        c.ck(r[3] == 5, "implicit-default")
    e2 = c.choice([None, sh[2]])
    r = f2(0, gs[0], gs[1], s2=e2)
    c.ck(r[0] is gs[0] and r[1] is gs[1] and tuple(r[2]) == sh[0] and tuple(r[3]) == tuple(e2 or sh[1]), "mapped-names", str(r))
    c.ck(tuple(hg.linearize_vertex_weights(np.ones(sh[0]), gs[0]).shape) == (sh[0][0] * sh[0][1],), "linearize")
    c.ck(tuple(hg.delinearize_vertex_weights(np.ones((sh[0][0] * sh[0][1],)), gs[0]).shape) == sh[0], "delinearize")
