"""P27: memory safety of the whole Python interface, under AddressSanitizer and UndefinedBehaviorSanitizer."""
import copy
import gc
import os
import pickle
import signal
import numpy as np
import higra as hg
from hgv.api import FUNS, F, G, tryall
from hgv.core import family

UNITS = None
QUICK_VARIANT = "asanub"
TECHNIQUE = "AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions over a generated workload of valid and malformed calls and object lifetimes"
RULE = ("every public function, constructor and method of the Python interface, with arguments drawn from typed generators (graphs of all kinds, with self loops, parallel edges, removed edges, without "
        "edge, without vertex, implicit grids, region adjacency graphs; trees of both categories, linked or not, or linked with an unrelated graph; arrays of every type and layout), each "
        "argument being malformed with probability 0, 0.1 or 0.4 (wrong size or dimension, wrong type, out of range, negative, huge, NaN or infinite values, None); histories using views, iterators and derived "
        "objects after their source was released or edited. Any exception is accepted; a sanitizer report, a signal, an abort or a call which does not end is a violation. "
        "Non-trivial: the call returned a result, or raised from inside the library.")
ASSUMPTIONS = ["objects are not edited while they are being iterated", "names starting with an underscore are not part of the interface",
               "the whole module is built with -fsanitize=address,bounds,null,shift,integer-divide-by-zero,return,unreachable,vla-bound,bool and _GLIBCXX_ASSERTIONS"]

# ---------------------------------------------------------------------------------------------- lifetimes


def drop():
    gc.collect()
    # reuse freed blocks
    return [np.zeros(k, np.int64) for k in (1, 2, 3, 5, 8, 13, 21, 34)]


@F()
def life_graph(g):
    """views and iterators of a graph, used after the graph was released"""
    x = g.ug(loops=True)
    n, m = x.num_vertices(), x.num_edges()
    if not n or not m:
        return
    kept = {}
    mk = dict(edge_list=lambda: x.edge_list(), sources=lambda: x.sources(), targets=lambda: x.targets(), edges=lambda: x.edges(), vertices=lambda: x.vertices(), edge=lambda: x.edge_from_index(0),
              **{"%s%d" % (f, v): (lambda f, v: lambda: getattr(x, f)(v))(f, v) for v in range(min(n, 3)) for f in ("out_edges", "in_edges", "adjacent_vertices")})
    for k in mk:
        if g.p(0.6):
            kept[k] = mk[k]()
    started = [iter(v) for k, v in kept.items() if k not in ("edge_list", "sources", "targets", "edge")]
    for it in started:
        if g.p():
            next(it, None)
    g.rec("kept", sorted(kept))
    if g.p(0.3):
        # edit: bulk storage may move; arrays must stay valid (iterators are only dropped)
        arrs = {k: v for k, v in kept.items() if k in ("edge_list", "sources", "targets", "edge")}
        started, kept = [], arrs
        x.add_vertices(g.ri(1, 200))
        x.add_edges(np.zeros(200, np.int64), np.zeros(200, np.int64))
    if g.p(0.8):
        del x, mk
    junk = drop()
    for it in started:
        sum(1 for _ in it)
    for k, v in kept.items():
        if k == "edge_list":
            v[0].sum(), v[1].sum()
        elif isinstance(v, np.ndarray):
            v.sum()
        else:
            list(v)
    del junk


@F()
def life_tree(g):
    t = g.tree() if g.p() else g.ptree()
    if not isinstance(t, hg.Tree):
        return
    n = t.num_vertices()
    v = g.ri(0, n - 1)
    mk = [lambda: t.parents(), lambda: t.children(v), lambda: t.ancestors(v), lambda: t.leaves(), lambda: t.edge_list()[0], lambda: t.sources(), lambda: t.targets(), lambda: t.out_edges(v),
          lambda: t.in_edges(v), lambda: t.adjacent_vertices(v), lambda: t.edges(), lambda: t.vertices(), lambda: t.leaves_to_root_iterator(), lambda: t.root_to_leaves_iterator(),
          lambda: t.num_children(), lambda: t.child(0), lambda: hg.attribute_depth(t), lambda: hg.attribute_vertex_list(t), lambda: t.sub_tree(v)[1]]
    kept = [f() for f in mk if g.p(0.5)]
    started = [iter(k) for k in kept if not isinstance(k, np.ndarray)]
    for it in started:
        if g.p():
            next(it, None)
    if g.p(0.3):
        started, kept = [], [k for k in kept if isinstance(k, np.ndarray)]
        t.clear_children()
    if g.p(0.8):
        del t, mk
    junk = drop()
    for it in started:
        sum(1 for _ in it)
    for k in kept:
        if isinstance(k, np.ndarray):
            k.sum() if k.dtype != object else None
        else:
            list(k)
    del junk


@F()
def life_cut(g):
    t = g.tree()
    if not isinstance(t, hg.Tree):
        return
    a = g.alt(t)
    e = hg.HorizontalCutExplorer(t, a)
    l = g.lg(t)
    if g.p(0.5):
        del t
        t = None
    del a
    junk = drop()
    tryall([lambda: e.altitude_cuts().sum(), lambda: e.num_regions_cuts().sum()])
    cs = []
    for i in range(min(e.num_cuts(), 4)):
        cs.append(e.horizontal_cut_from_index(i))
    ns = [c.nodes() for c in cs]
    del e
    junk = drop()
    for c in cs:
        c.nodes().sum()
        if t is not None:
            tryall([lambda: c.labelisation_leaves(t, l), lambda: c.graph_cut(t, l), lambda: c.reconstruct_leaf_data(t, g.alt(t), l)])
    del cs
    junk = drop()
    [n.sum() for n in ns]
    del junk


@F()
def life_rag(g):
    x = g.grid()
    r = hg.make_region_adjacency_graph_from_labelisation(x, g.rng.integers(0, 4, x.num_vertices()))
    d = hg.CptRegionAdjacencyGraph.construct(r)
    if g.p():
        del x
    vm, em = d["vertex_map"], d["edge_map"]
    t, a = hg.bpt_canonical(r, g.rng.integers(0, 5, r.num_edges()).astype(float))
    del d
    if g.p():
        del r
    junk = drop()
    vm.sum(), em.sum()
    tryall([lambda: hg.saliency(t, a), lambda: hg.labelisation_horizontal_cut_from_threshold(t, a, 2.0), lambda: hg.attribute_area(t), lambda: hg.simplify_tree(t, a > 3)])
    m = hg.CptBinaryHierarchy.construct(t) if hg.CptBinaryHierarchy.validate(t) else None
    del t, a
    junk = drop()
    if m:
        m["mst"].edge_list()[0].sum(), m["mst_edge_map"].sum()
    del junk


@F()
def life_simplified(g):
    t = g.tree()
    if not isinstance(t, hg.Tree):
        return
    s = hg.simplify_tree(t, g.nw(t, "bool"), g.b())
    t2, nm = s
    p = t2.parents()
    del t, s
    junk = drop()
    nm.sum(), p.sum()
    it = t2.leaves()
    del t2
    junk = drop()
    list(it), p.sum()
    del junk


@F()
def life_contour(g):
    x = g.grid()
    lab = g.rng.integers(0, 3, x.num_vertices())
    c = hg.fit_contour_2d(x, hg.get_attribute(x, "shape"), hg.labelisation_2_graph_cut(x, lab))
    if g.p():
        c.subdivide()
    its = [iter(c)]
    pls = [p for p in c]
    segs = [s for p in pls for s in p]
    its += [iter(p) for p in pls] + [iter(s) for s in segs]
    del x, c
    if g.p():
        del pls
    if g.p():
        del segs
    junk = drop()
    els = []
    for it in its:
        els += list(it)
    del its
    junk = drop()
    for e in els:
        if hasattr(e, "norm"):
            e.norm(), e.angle()
            [y for y in e]
        elif isinstance(e, hg.PolylineContour2d):
            [len(y) for y in e]
    del junk


@F()
def life_lca(g):
    t = g.ptree()
    l = g.ch([lambda: hg.LCAFast(t), lambda: hg.LCA_rmq_sparse_table_block(t, g.ri(1, 8)), lambda: hg.LCA_rmq_sparse_table(t)])()
    n = t.num_vertices()
    ls = [l, copy.copy(l) if g.p(0.5) else l, copy.deepcopy(l), pickle.loads(pickle.dumps(l))]
    if g.p():
        t.lowest_common_ancestor_preprocess()
    del t, l
    junk = drop()
    while ls:
        l = ls.pop(g.ri(0, len(ls) - 1))
        l.lca(np.arange(n), np.arange(n)[::-1].copy())
        del l
        junk = drop()
    del junk


@F()
def life_callback(g):
    """new neighbours kept after the callback are not part of the interface; the graph and the arrays given to it are"""
    x = g.ug(connected=True, loops=False)
    seen = []

    def fun(graph, fusion_edge_index, new_region, merged_region1, merged_region2, new_neighbours):
        seen.append(graph.num_vertices())
        for n in new_neighbours:
            n.set_new_edge_weight(float(n.first_edge_weight() if hasattr(n, "first_edge_weight") else 1.0))
    w = g.ew(x)
    t, a = hg.binary_partition_tree(x, fun, w)
    del x
    junk = drop()
    a.sum(), t.parents().sum()
    del junk


@F()
def life_bpt(g):
    x = g.ug(connected=True, loops=False)
    w = g.rng.integers(0, 5, x.num_edges()).astype(float)
    t, a = hg.bpt_canonical(x, w)
    m = hg.CptBinaryHierarchy.get_mst(t) if hg.CptBinaryHierarchy.validate(t) else None
    del x, w
    if g.p():
        del t
    junk = drop()
    a.sum()
    if m is not None:
        m.edge_list()[0].sum()
        tryall([lambda: hg.CptMinimumSpanningTree.construct(m)["mst_edge_map"].sum()])
    del junk


NAMES = sorted(FUNS)


def one(c, name):
    mut = c.choice([0.0, 0.1, 0.1, 0.4])
    g = G(c, mut)
    c.inp(function=name, mut=mut)
    if os.environ.get("HGV_DEV"):
        signal.alarm(20)
    try:
        FUNS[name](g)
        c.ev("returned")
        c.ev("returned_" + name)
        nt = True
    except Exception as e:
        c.ev("raised")
        c.ev("raised_" + name)
        nt = e.__traceback__ is not None
    finally:
        if os.environ.get("HGV_DEV"):
            signal.alarm(0)
    hg.clear_all_attributes() if hasattr(hg, "clear_all_attributes") and c.idx % 50 == 0 else None
    c.note(name, *[x for x in g.log if isinstance(x, (np.ndarray, int, float, str, list))][:30], nontrivial=nt)


@family("calls", 12000, 200000, asan=12000)
def calls(c):
    one(c, NAMES[c.idx % len(NAMES)])
