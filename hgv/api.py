"""Generated calls of the whole public Python interface: argument generators (class G) and one entry per function or class (FUNS).
G.mut is the probability that an argument is malformed. G.present is a hook through which every array argument goes, G.out one that sees the results of methods."""
import copy
import gc
import os
import pickle
import tempfile
import numpy as np
import higra as hg
from hgv import gen

TYPES = gen.NUM_TYPES
HUGE = [-1, -2, -100, 1000, 2**31 - 1, 2**31, 2**40, 2**62, 2**63 - 1, -2**63]
FUNS = {}


def F(name=None):
    def deco(f):
        FUNS[name or f.__name__] = f
        return f
    return deco


class G:
    def __init__(self, c, mut):
        self.c, self.rng, self.mut = c, c.rng, mut
        self.log = []

    def m(self, x=1.0):
        return self.rng.random() < self.mut * x

    def ch(self, l):
        return l[int(self.rng.integers(len(l)))]

    def ri(self, a, b):
        return int(self.rng.integers(a, b + 1))

    def p(self, x=0.5):
        return self.rng.random() < x

    def rec(self, kind, v):
        self.log.append(v)
        self.c.inputs["%s%d" % (kind, len(self.log))] = v
        return self.present(v) if isinstance(v, np.ndarray) else v

    def present(self, a):
        return a

    def out(self, x):
        return x

    # scalars
    def i(self, lo, hi):
        if self.m():
            return self.rec("int", self.ch([-1, lo - 1, hi + 1, hi + 2] + HUGE + [None, 1.5, "a"]))
        return self.rec("int", self.ri(lo, max(lo, hi)))

    def f(self, lo=0.0, hi=10.0):
        if self.m():
            return self.rec("float", self.ch([-1.0, 1e300, -1e300, float("nan"), float("inf"), float("-inf"), 0.0, None]))
        return self.rec("float", round(float(self.rng.uniform(lo, hi)), 2))

    def b(self):
        return self.rec("bool", self.p())

    def s(self, l):
        if self.m():
            return self.rec("mode", self.ch(["", "unknown", None, 3]))
        return self.rec("mode", self.ch(l))

    def acc(self):
        if self.m(0.3):
            return self.rec("acc", self.ch([hg.Accumulators(77), hg.Accumulators(-1), None]))
        return self.rec("acc", self.ch([hg.Accumulators.min, hg.Accumulators.max, hg.Accumulators.mean, hg.Accumulators.counter, hg.Accumulators.sum, hg.Accumulators.prod,
                        hg.Accumulators.first, hg.Accumulators.last, hg.Accumulators.argmin, hg.Accumulators.argmax]))

    def enum(self, cls):
        if self.m(0.3):
            return cls(self.ri(0, 200))
        return self.ch(list(cls.__members__.values()))

    # arrays
    def mutate(self, a, kind):
        k = self.ri(0, 6)
        n = a.shape[0] if a.ndim else 1
        if k <= 1:
            m = self.ch([0, 1, max(0, n - 1), n + 1, 2 * n, 2 * n + 3, n // 2])
            return np.resize(a, (m,) + a.shape[1:]) if a.size else np.zeros((m,) + a.shape[1:], a.dtype)
        if k == 2:
            sh = self.ch([(n, 1), (1, n), (n, 2), (n, 2, 2), (), (n, 0), (2, n), (n, 3), (n, 1, 1, 1)])
            return np.resize(a, sh) if a.size and int(np.prod(sh)) else np.zeros(sh, a.dtype)
        if k == 3:
            return self.ch([None, a.tolist(), a.astype(object), "abc", 3, a.astype(complex), a.astype(str), a.astype("f2"), [[1], [1, 2]]])
        if a.dtype.kind == "f":
            a = a.copy()
            if a.size:
                for _ in range(self.ri(1, 3)):
                    a.flat[self.ri(0, a.size - 1)] = self.ch([np.nan, np.inf, -np.inf, -1.0, 1e30, -1e30, 1e300 if a.dtype.itemsize == 8 else 1e38])
            return a
        if a.dtype.kind in "iu":
            a = a.astype(np.int64) if self.p(0.7) else a.copy()
            info = np.iinfo(a.dtype)
            if a.size:
                for _ in range(self.ri(1, 3)):
                    v = self.ch(HUGE + [n, n - 1, n + 1, 2 * n])
                    a.flat[self.ri(0, a.size - 1)] = min(max(v, info.min), info.max)
            return a
        return a.astype(np.float64)

    def arr(self, n, kind="float", hi=None, vec=None, dtype=None):
        """kind: float, pos, int (labels), index, bool"""
        n = max(0, n)
        sh = (n,) if not vec else (n, vec)
        r = self.rng
        if kind == "bool":
            a = r.random(sh) < 0.5
        elif kind in ("int", "index"):
            a = r.integers(0, max(1, hi if hi is not None else max(1, n // 2)), sh).astype(dtype or self.ch([np.int64, np.int64, np.int32, np.uint8, np.uint64, np.uint32]) if (hi or n) < 200 else np.int64)
        else:
            t = np.dtype(dtype or (self.ch(TYPES) if self.p(0.3) else np.float64))
            a = r.integers(0, 1 + self.ch([0, 1, 3, 20, 100]), sh).astype(t)
            if kind == "pos":
                a = (a + t.type(1)).astype(t)
        if self.p(0.15) and n:
            a = gen.layout(self.c, a)
        if self.m():
            a = self.mutate(a, kind)
        return self.rec("array", a)

    # graphs
    def ug(self, connected=None, big=False, loops=None, maxn=14):
        conn = self.p(0.7) if connected is None else connected
        k = self.ri(0, 9)
        if k == 0 and not connected:
            g = hg.UndirectedGraph(self.ri(0, 3))
            self.c.inputs["graph%d" % len(self.c.inputs)] = (g.num_vertices(), [], [])
            return g
        n, s, t = gen.graph(self.c, connected=conn, loops=self.p(0.2) if loops is None else loops, parallel=self.p(0.3), maxn=maxn)
        g = gen.make_graph(hg, n, s, t)
        rem = []
        if self.m(0.7) and len(s):
            for _ in range(self.ri(1, 3)):
                e = self.ri(0, len(s) - 1)
                g.remove_edge(e)
                rem.append(e)
        self.c.inputs["graph%d" % len(self.c.inputs)] = (n, s, t, rem)
        self.log += [s, t, rem]
        return g

    def grid(self, nmax=5):
        sh = (self.ri(1, nmax), self.ri(1, nmax))
        g = hg.get_4_adjacency_graph(sh) if self.p(0.8) else hg.get_8_adjacency_graph(sh)
        self.rec("grid", list(sh))
        if self.m(0.3) and g.num_edges():
            e = self.ri(0, g.num_edges() - 1)
            g.remove_edge(e)
            self.rec("removed", e)
        return g

    def implicit(self):
        k = self.ri(0, 3)
        if k == 0:
            sh, nb = (self.ri(0, 9),), [[-1], [1]]
        elif k == 1:
            sh, nb = (self.ri(1, 5), self.ri(0, 5)), [[0, 1], [0, -1], [1, 0], [-1, 0]]
        elif k == 2:
            sh, nb = (self.ri(1, 4), self.ri(1, 4)), [[0, 1], [0, -1], [1, 0], [-1, 0], [1, 1], [-1, -1], [1, -1], [-1, 1]]
        else:
            sh, nb = (self.ri(1, 3),) * 3, [[0, 0, 1], [0, 0, -1], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0]]
        self.rec("implicit", list(sh))
        return hg.get_nd_regular_implicit_graph(sh, nb)

    def graph(self, implicit=True):
        k = self.ri(0, 11)
        if k <= 5:
            return self.ug()
        if k <= 8:
            return self.grid()
        if k == 9:
            return self.rag()
        if k == 10 and implicit:
            return self.implicit()
        if self.m():
            return self.ch([None, hg.Tree([2, 2, 2]), 3])
        return self.ug()

    def rag(self, pre=None):
        g = pre or self.ch([self.ug, self.grid])()
        lab = self.rec("raglabels", self.rng.integers(0, self.ri(1, 4), g.num_vertices()))
        return hg.make_region_adjacency_graph_from_labelisation(g, lab)

    def nv(self, g):
        return g.num_vertices() if hasattr(g, "num_vertices") else 4

    def ne(self, g):
        return g.num_edges() if hasattr(g, "num_edges") else 4

    def ew(self, g, kind="float", **k):
        return self.arr(self.ne(g), kind, **k)

    def vw(self, g, kind="float", **k):
        return self.arr(self.nv(g), kind, **k)

    def shape(self, g):
        sh = None
        if isinstance(g, hg.UndirectedGraph):
            sh = hg.get_attribute(g, "shape")
        sh = list(sh) if sh is not None else [1, self.nv(g)]
        if self.m():
            sh = self.ch([[sh[0] + 1, sh[-1]], sh[:1], sh + [2], [0, 0], [-1, -self.nv(g)], [2**32, 2**32], [2**40, 0], [], None, [self.nv(g)], sh[::-1], [1.5, 2], [-1, 5]])
        return self.rec("shape", sh)

    # trees
    def ptree(self, category=None, nleaves=None, binary=False):
        par = gen.parents(self.c, nleaves=nleaves, maxleaves=12, binary=binary)
        cat = hg.TreeCategory.PartitionTree if category is None and self.p(0.75) else hg.TreeCategory.ComponentTree
        self.rec("tree", par)
        return hg.Tree(par, cat)

    def tree(self):
        """some hierarchy, usually linked to a leaf graph"""
        k = self.ri(0, 11)
        if self.m(0.3):
            return self.ch([None, self.ug(), 3])
        if k <= 3:
            t = self.ptree()
            if self.p(0.7):
                n = t.num_leaves() if not self.m() else self.ri(0, 15)
                nn, s, d = gen.graph(self.c, n=max(1, n), connected=self.p(0.8), loops=self.p(0.2))
                g = gen.make_graph(hg, nn, s, d)
                self.c.inputs["leafgraph%d" % len(self.c.inputs)] = (nn, s, d)
                if self.m(0.5) and len(s):
                    g.remove_edge(self.rec("removed", self.ri(0, len(s) - 1)))
                hg.CptHierarchy.link(t, g)
            return t
        g = self.grid() if k <= 7 else self.rag() if k == 8 else self.ug(connected=True)
        ew = self.rec("treeweights", self.rng.integers(0, 9, g.num_edges()).astype(np.float64))
        vw = self.rec("treevalues", self.rng.integers(0, 9, g.num_vertices()).astype(np.float64))
        try:
            f = self.ch([lambda: hg.bpt_canonical(g, ew), lambda: hg.bpt_canonical(g, ew), lambda: hg.quasi_flat_zone_hierarchy(g, ew), lambda: hg.watershed_hierarchy_by_area(g, ew),
                         lambda: hg.component_tree_min_tree(g, vw), lambda: hg.component_tree_max_tree(g, vw), lambda: hg.binary_partition_tree_complete_linkage(g, ew)])
            return f()[0]
        except Exception:
            return self.ptree()

    def lg(self, t):
        """a leaf graph argument"""
        if isinstance(t, hg.Tree):
            l = hg.CptHierarchy.get_leaf_graph(t) if hg.CptHierarchy.validate(t) else None
            if l is not None and not self.m():
                return l
            if not self.m():
                n, s, d = gen.graph(self.c, n=max(1, t.num_leaves()), connected=self.p(0.8), loops=self.p(0.2))
                self.c.inputs["leafgraph%d" % len(self.c.inputs)] = (n, s, d)
                return gen.make_graph(hg, n, s, d)
        return self.graph()

    def nn(self, t):
        return t.num_vertices() if hasattr(t, "num_vertices") else 5

    def nl(self, t):
        return t.num_leaves() if hasattr(t, "num_leaves") else 3

    def nw(self, t, kind="float", **k):
        return self.arr(self.nn(t), kind, **k)

    def lw(self, t, kind="float", **k):
        return self.arr(self.nl(t), kind, **k)

    def alt(self, t, dtype=None):
        """altitudes, increasing or not"""
        n = self.nn(t)
        a = self.rng.integers(0, 8, n).astype(dtype or np.float64)
        if isinstance(t, hg.Tree) and self.p(0.85):
            p = t.parents()
            a[:t.num_leaves()] = 0 if self.p() else a[:t.num_leaves()]
            for i in range(n - 1):
                a[p[i]] = max(a[p[i]], a[i])
            if self.p(0.2):
                a = a.max() - a
        if self.m():
            a = self.mutate(a, "float")
        return self.rec("altitudes", a)

    def opt(self, f):
        return None if self.p() else f()


# ---------------------------------------------------------------------------------------------- functions


def simple(names, f):
    for n in names:
        FUNS[n] = (lambda n: lambda g: f(g, getattr(hg, n)))(n)


def t0(g, f):
    f(g.tree())


simple(["attribute_area", "attribute_child_number", "attribute_contour_length", "attribute_depth", "attribute_frontier_length", "attribute_regular_altitudes", "attribute_sibling",
        "attribute_topological_height", "attribute_vertex_list", "attribute_compactness", "make_lca_fast", "tree_2_binary_tree"], t0)


def tleaf(g, f):
    t = g.tree()
    f(t, g.lg(t))


simple(["attribute_lca_map", "attribute_moment_of_inertia"], tleaf)


def talt(g, f):
    t = g.tree()
    f(t, g.alt(t))


simple(["attribute_dynamics", "attribute_height", "attribute_extrema", "attribute_volume", "canonize_hierarchy", "sort_hierarchy_with_altitudes", "test_altitudes_increasingness",
        "binary_hierarchy_to_scipy_linkage_matrix", "labelisation_hierarchy_supervertices", "saliency", "reconstruct_leaf_data"], talt)


def gew(g, f):
    x = g.graph()
    f(x, g.ew(x))


simple(["quasi_flat_zone_hierarchy", "minimum_spanning_tree", "ultrametric_open", "labelisation_watershed", "constrained_connectivity_hierarchy_strong_connection", "graph_cut_2_labelisation",
        "make_region_adjacency_graph_from_graph_cut", "rag_back_project_edge_weights", "binary_partition_tree_complete_linkage", "binary_partition_tree_single_linkage",
        "binary_partition_tree_average_linkage", "bpt_canonical", "watershed_hierarchy_by_area", "watershed_hierarchy_by_volume", "watershed_hierarchy_by_dynamics",
        "watershed_hierarchy_by_number_of_parents", "undirected_graph_2_adjacency_matrix", "bipartite_graph_matching"], gew)


def gvw(g, f):
    x = g.graph()
    f(x, g.vw(x))


simple(["component_tree_max_tree", "component_tree_min_tree", "rag_back_project_vertex_weights", "constrained_connectivity_hierarchy_alpha_omega"], gvw)


def glab(g, f):
    x = g.graph()
    f(x, g.vw(x, "int"))


simple(["labelisation_2_graph_cut", "make_region_adjacency_graph_from_labelisation"], glab)


def g1(g, f):
    f(g.graph())


simple(["attribute_edge_length", "attribute_vertex_area", "attribute_vertex_perimeter", "is_bipartite_graph", "line_graph"], g1)


def accseq(g, f):
    t = g.tree()
    f(t, g.nw(t, vec=g.opt(lambda: 2)), g.lw(t, vec=g.opt(lambda: 2)), g.acc())


simple(["accumulate_and_add_sequential", "accumulate_and_max_sequential", "accumulate_and_min_sequential", "accumulate_and_multiply_sequential"], accseq)


@F()
def accumulate_sequential(g):
    t = g.tree()
    hg.accumulate_sequential(t, g.lw(t, vec=g.opt(lambda: 2)), g.acc())


@F()
def accumulate_parallel(g):
    t = g.tree()
    hg.accumulate_parallel(t, g.nw(t, vec=g.opt(lambda: 2)), g.acc())


@F()
def accumulate_on_contours(g):
    t = g.tree()
    hg.accumulate_on_contours(t, g.nw(t), g.acc(), g.lg(t))


@F()
def accumulate_at(g):
    n = g.ri(0, 12)
    i = g.arr(n, "index", hi=6)
    if g.p(0.3) and isinstance(i, np.ndarray) and i.ndim == 1 and i.size:
        i = i.astype(np.int64)
        i[0] = -1
    hg.accumulate_at(i, g.arr(n, vec=g.opt(lambda: 2)), g.acc())


@F()
def accumulate_graph_edges(g):
    x = g.graph()
    hg.accumulate_graph_edges(x, g.ew(x, vec=g.opt(lambda: 2)), g.acc())


@F()
def accumulate_graph_vertices(g):
    x = g.graph()
    hg.accumulate_graph_vertices(x, g.vw(x, vec=g.opt(lambda: 2)), g.acc())


@F()
def adjacency_matrix_2_undirected_graph(g):
    n = g.ri(0, 6)
    a = g.arr(n * n if n else 0, "float")
    if isinstance(a, np.ndarray) and a.size == n * n:
        a = g.present(a.reshape((n, n)))
    if g.p(0.3) and isinstance(a, np.ndarray) and a.dtype != object:
        import scipy.sparse as sp
        a = sp.csr_matrix(np.atleast_2d(a))
    hg.adjacency_matrix_2_undirected_graph(a, g.f())


@F()
def align_hierarchies(g):
    x = g.ch([g.ug, g.grid])()
    lab = g.vw(x, "int", hi=3)
    other = []
    for _ in range(g.ri(0, 3)):
        y = x if not g.m() else g.graph()
        try:
            t, a = hg.bpt_canonical(y, g.rng.integers(0, 5, y.num_edges()).astype(float))
        except Exception:
            t = g.tree()
            a = g.alt(t)
        other.append((t, a if not g.m() else g.alt(t)))
    hg.align_hierarchies(x, lab, other)


@F()
def hierarchy_aligner(g):
    x = g.ch([g.ug, g.grid])()
    k = g.ri(0, 3)
    if k == 0:
        al = hg.HierarchyAligner.from_graph_cut(x, g.ew(x))
    elif k == 1:
        al = hg.HierarchyAligner.from_labelisation(x, g.vw(x, "int", hi=3))
    else:
        t = g.tree()
        al = hg.HierarchyAligner.from_hierarchy(t, g.alt(t), g.lg(t))
    t = g.tree()
    lx = x if not g.m() else g.graph()
    g.out(g.ch([lambda: al.align_hierarchy(t, g.alt(t), g.lg(t)), lambda: al.align_hierarchy(lx, g.ew(lx))])())


@F()
def arg_sort(g):
    hg.arg_sort(g.arr(g.ri(0, 20), vec=g.opt(lambda: 3)), stable=g.b())


@F()
def sort(g):
    hg.sort(g.arr(g.ri(0, 20)), stable=g.b())


@F()
def assess_fragmentation_horizontal_cut(g):
    t = g.tree()
    hg.assess_fragmentation_horizontal_cut(t, g.alt(t), truth(g, t), g.enum(hg.PartitionMeasure), max_regions=g.i(1, 10), vertex_map=None if not g.m() else g.lw(t, "int", hi=4))


def truth(g, t):
    k = g.opt(lambda: 1)
    if k is None:
        return g.lw(t, "int", hi=3)
    l = [g.lw(t, "int", hi=3) for _ in range(g.ri(0, 3))]
    return l


@F()
def assess_fragmentation_optimal_cut(g):
    t = g.tree()
    hg.assess_fragmentation_optimal_cut(t, truth(g, t), g.enum(hg.OptimalCutMeasure), max_regions=g.i(1, 10), vertex_map=None if not g.m() else g.lw(t, "int", hi=4))


@F()
def make_assesser_fragmentation_optimal_cut(g):
    t = g.tree()
    a = hg.make_assesser_fragmentation_optimal_cut(t, truth(g, t), g.enum(hg.OptimalCutMeasure), max_regions=g.i(1, 10))
    del t
    gc.collect()
    a.fragmentation_curve()
    g.out((a.optimal_number_of_regions(), a.optimal_score(), a.optimal_partition(g.i(0, 5)), a.optimal_partition()))
    c = g.out(a.fragmentation_curve())
    c.num_regions(), c.scores(), c.num_regions_normalized(), c.num_regions_ground_truth()


@F()
def fragmentation_curve(g):
    n = g.ri(0, 6)
    c = g.out(hg.FragmentationCurve(g.arr(n, "index", hi=5), g.arr(n), g.i(1, 5), g.i(1, 5)))
    c.num_regions(), c.scores(), c.num_regions_normalized(), c.num_regions_ground_truth()


@F()
def assess_partition(g):
    n = g.ri(0, 15)
    c = g.arr(n, "int", hi=4)
    gt = g.arr(n, "int", hi=4) if g.p(0.6) else [g.arr(n, "int", hi=4) for _ in range(g.ri(0, 3))]
    hg.assess_partition(c, gt, g.enum(hg.PartitionMeasure))


@F()
def attribute_area2(g):
    t = g.tree()
    hg.attribute_area(t, g.lw(t), g.lg(t))


@F()
def attribute_children_pair_sum_product(g):
    t = g.tree()
    hg.attribute_children_pair_sum_product(t, g.nw(t))


@F()
def attribute_compactness2(g):
    t = g.tree()
    hg.attribute_compactness(t, g.opt(lambda: g.nw(t)), g.opt(lambda: g.nw(t)), normalize=g.b())


@F()
def attribute_contour_length2(g):
    t = g.tree()
    l = g.lg(t)
    hg.attribute_contour_length(t, g.opt(lambda: g.vw(l)), g.opt(lambda: g.ew(l)), l)


@F()
def attribute_contour_strength(g):
    t = g.tree()
    l = g.lg(t)
    hg.attribute_contour_strength(t, g.ew(l), g.opt(lambda: g.vw(l)), g.opt(lambda: g.ew(l)), l)


@F()
def attribute_extinction_value(g):
    t = g.tree()
    hg.attribute_extinction_value(t, g.alt(t), g.nw(t), g.s(["auto", True, False]))


@F()
def attribute_height2(g):
    t = g.tree()
    hg.attribute_height(t, g.alt(t), g.s(["auto", True, False]), g.s(["parent", "extrema"]))


@F()
def attribute_dynamics2(g):
    t = g.tree()
    hg.attribute_dynamics(t, g.alt(t), g.s(["auto", True, False]))


@F()
def attribute_frontier_length2(g):
    t = g.tree()
    l = g.lg(t)
    hg.attribute_frontier_length(t, g.ew(l), l)


@F()
def attribute_frontier_strength(g):
    t = g.tree()
    l = g.lg(t)
    hg.attribute_frontier_strength(t, g.ew(l), l)


@F()
def attribute_gaussian_region_weights_model(g):
    t = g.tree()
    hg.attribute_gaussian_region_weights_model(t, g.lw(t, vec=g.opt(lambda: 3)), g.lg(t))


@F()
def attribute_mean_vertex_weights(g):
    t = g.tree()
    hg.attribute_mean_vertex_weights(t, g.lw(t, vec=g.opt(lambda: 3)), g.opt(lambda: g.nw(t)), g.lg(t))


@F()
def attribute_piecewise_constant_Mumford_Shah_energy(g):
    t = g.tree()
    hg.attribute_piecewise_constant_Mumford_Shah_energy(t, g.lw(t, vec=g.opt(lambda: 3)), g.f(), g.lg(t))


@F()
def attribute_regular_altitudes2(g):
    t = g.tree()
    hg.attribute_regular_altitudes(t, g.nw(t, "int"))


@F()
def attribute_sibling2(g):
    t = g.tree()
    hg.attribute_sibling(t, g.i(-3, 3))


@F()
def attribute_tree_sampling_probability(g):
    t = g.tree()
    l = g.lg(t)
    hg.attribute_tree_sampling_probability(t, l, g.ew(l), g.s(["edge", "null"]))


@F()
def attribute_vertex_coordinates(g):
    x = g.graph()
    hg.attribute_vertex_coordinates(x, g.shape(x))


@F()
def attribute_vertex_perimeter2(g):
    x = g.graph()
    hg.attribute_vertex_perimeter(x, g.ew(x))


@F()
def attribute_volume2(g):
    t = g.tree()
    hg.attribute_volume(t, g.alt(t), g.opt(lambda: g.nw(t)), g.opt(lambda: g.lw(t)))


@F()
def linkage_matrix(g):
    t = g.tree()
    hg.binary_hierarchy_to_scipy_linkage_matrix(t, g.opt(lambda: g.alt(t)), g.opt(lambda: g.nw(t)))


@F()
def scipy_linkage_matrix_to_binary_hierarchy(g):
    t = g.ptree(binary=True)
    z = hg.binary_hierarchy_to_scipy_linkage_matrix(t, np.arange(t.num_vertices()).astype(float))
    if g.m():
        z = g.mutate(z, "float")
    if g.m() and isinstance(z, np.ndarray) and z.ndim == 2 and z.size:
        z = z.copy()
        z.flat[g.ri(0, z.size - 1)] = g.ch([-1, 1e9, 1e30, np.nan, 0, 3])
    hg.scipy_linkage_matrix_to_binary_hierarchy(g.rec("z", z))


@F()
def binary_labelisation_from_markers(g):
    t = g.tree()
    hg.binary_labelisation_from_markers(t, g.lw(t, g.ch(["bool", "int", "float"])), g.lw(t, g.ch(["bool", "int", "float"])))


@F()
def binary_partition_tree(g):
    x = g.graph()
    bad = g.m()

    def fun(graph, fusion_edge_index, new_region, merged_region1, merged_region2, new_neighbours):
        for n in new_neighbours:
            n.num_edges(), n.neighbour_vertex(), n.first_edge_index(), n.new_edge_index()
            if n.num_edges() > 1:
                n.second_edge_index()
            n.set_new_edge_weight(float(g.ri(0, 9)) if not bad else g.ch([float("nan"), float("inf"), -1.0, 3.0]))
        if bad and g.p(0.1):
            raise ValueError("from the callback")
    hg.binary_partition_tree(x, fun, g.ew(x))


@F()
def binary_partition_tree_MumfordShah_energy(g):
    x = g.graph()
    v = g.opt(lambda: 2)
    hg.binary_partition_tree_MumfordShah_energy(x, g.vw(x, vec=v), g.opt(lambda: g.vw(x, "pos")), g.opt(lambda: g.vw(x, "pos")), g.opt(lambda: g.ew(x, "pos")), g.opt(lambda: g.vw(x, vec=v)))


@F()
def binary_partition_tree_average_linkage2(g):
    x = g.graph()
    hg.binary_partition_tree_average_linkage(x, g.ew(x), g.ew(x, "pos"))


@F()
def binary_partition_tree_exponential_linkage(g):
    x = g.graph()
    hg.binary_partition_tree_exponential_linkage(x, g.ew(x), g.f(-3, 3), g.opt(lambda: g.ew(x, "pos")))


@F()
def binary_partition_tree_ward_linkage(g):
    x = g.graph()
    hg.binary_partition_tree_ward_linkage(x, g.vw(x, vec=g.ch([1, 2, 3])), g.opt(lambda: g.vw(x, "pos")), g.s(["none", "max"]))


@F()
def bpt_canonical2(g):
    x = g.graph()
    k = g.ri(0, 3)
    e = None
    if k == 0:
        e = g.rng.permutation(g.ne(x))
        if g.m():
            e = g.mutate(e, "int")
        e = g.rec("order", e)
    hg.bpt_canonical(x, g.ew(x) if k != 0 or g.p() else None, sorted_edge_indices=e, return_altitudes=g.b(), compute_mst=g.b())


@F()
def canonize_hierarchy2(g):
    t = g.tree()
    hg.canonize_hierarchy(t, g.alt(t), return_node_map=True)


@F()
def tree_of_shapes_2d(g):
    sh = (g.ri(0 if g.m() else 1, 5), g.ri(0 if g.m() else 1, 5))
    im = g.arr(sh[0] * sh[1])
    if isinstance(im, np.ndarray) and im.size == sh[0] * sh[1] and g.p(0.95):
        im = g.present(im.reshape(sh))
    hg.component_tree_tree_of_shapes_image2d(im, g.s(["mean", "zero", "none"]), g.b(), g.b(), g.i(0, 3))


@F()
def tree_of_shapes(g):
    d = g.ri(1, 4) if g.m() else g.ri(2, 3)
    sh = tuple(g.ri(0 if g.m() else 1, 3) for _ in range(d))
    im = g.arr(int(np.prod(sh)), dtype=np.float64)
    if isinstance(im, np.ndarray) and im.size == int(np.prod(sh)):
        im = g.present(im.reshape(sh))
    g.ch([hg.component_tree_tree_of_shapes_image, hg.component_tree_tree_of_shapes_image3d])(im, g.s(["mean", "zero", "none"]), g.b(), g.b(), g.i(0, 3))


@F()
def multivariate_tree_of_shapes(g):
    sh = (g.ri(0 if g.m() else 1, 4), g.ri(0 if g.m() else 1, 4), g.ri(0 if g.m() else 1, 3))
    im = g.arr(int(np.prod(sh)), dtype=np.float64)
    if isinstance(im, np.ndarray) and im.size == int(np.prod(sh)):
        im = g.present(im.reshape(sh))
    hg.component_tree_multivariate_tree_of_shapes_image2d(im, g.s(["mean", "zero", "none"]), g.b(), g.b())


@F()
def dasgupta_cost(g):
    t = g.tree()
    l = g.lg(t)
    hg.dasgupta_cost(t, g.ew(l), l, g.s(["dissimilarity", "similarity"]))


@F()
def dendrogram_purity(g):
    t = g.tree()
    hg.dendrogram_purity(t, g.lw(t, "int", hi=4))


@F()
def tree_sampling_divergence(g):
    t = g.tree()
    l = g.lg(t)
    hg.tree_sampling_divergence(t, g.ew(l), l)


@F()
def delinearize_vertex_weights(g):
    x = g.graph()
    hg.delinearize_vertex_weights(g.vw(x, vec=g.opt(lambda: 2)), x, g.opt(lambda: g.shape(x)))


@F()
def linearize_vertex_weights(g):
    x = g.graph()
    w = g.vw(x, vec=g.opt(lambda: 2))
    sh = g.shape(x)
    if isinstance(w, np.ndarray) and w.ndim == 1 and not g.m():
        try:
            w = g.present(w.reshape(sh))
        except Exception:
            pass
    hg.linearize_vertex_weights(w, x, g.opt(lambda: sh))


@F()
def filter_non_relevant_node_from_tree(g):
    t = g.tree()
    r = g.nw(t, "bool")
    hg.filter_non_relevant_node_from_tree(t, g.alt(t), lambda tree, altitudes: r, g.lg(t), canonize_tree=g.b())


@F()
def filter_small_nodes_from_tree(g):
    t = g.tree()
    hg.filter_small_nodes_from_tree(t, g.alt(t), g.f(0, 5), g.lg(t), canonize_tree=g.b())


@F()
def filter_weak_frontier_nodes_from_tree(g):
    t = g.tree()
    l = g.lg(t)
    hg.filter_weak_frontier_nodes_from_tree(t, g.alt(t), g.ew(l), g.f(0, 5), l, canonize_tree=g.b())


@F()
def fit_contour_2d(g):
    x = g.ch([g.grid, g.grid, g.ug, g.implicit])()
    cut = g.ew(x)
    if g.p(0.7) and hasattr(x, "num_vertices"):
        cut = hg.labelisation_2_graph_cut(x, g.rng.integers(0, 3, x.num_vertices()))
    c = hg.fit_contour_2d(x, g.shape(x), cut)
    c.subdivide(g.f(0, 1), g.b(), g.i(0, 3))
    g.out(c)
    out = []
    for pl in c:
        for i in range(len(pl)):
            s = pl[i]
            s.norm(), s.angle(), len(s), s.distance_to_point((g.f(), g.f())), [e for e in s]
            out.append(s)
    i = g.i(0, 2)
    pl = c[i]
    s = pl[g.i(0, 2)]
    e = s[g.i(0, 2)]
    del c, pl
    gc.collect()
    [x.norm() for x in out if len(x) > 0]


@F()
def get_grid_graphs(g):
    sh = [g.ri(0, 4), g.ri(0, 4)]
    if g.m():
        sh = g.ch([[-1, 3], [2**32, 2**32], [2**62, 4], [3], [2, 2, 2], [], None, [1.5, 2], 5, [2**31, 0], np.zeros((2, 2), int)])
    g.rec("shape", sh)
    x = g.ch([hg.get_4_adjacency_graph, hg.get_8_adjacency_graph, hg.get_6_adjacency_graph, hg.get_4_adjacency_implicit_graph, hg.get_8_adjacency_implicit_graph,
              hg.get_6_adjacency_implicit_graph])(sh)
    if x.num_vertices() < 1000:
        [list(x.out_edges(v)) for v in x.vertices()]


@F()
def get_nd_regular(g):
    d = g.ri(1, 5)
    sh = [g.ri(0, 3) for _ in range(d)]
    nb = g.rng.integers(-2, 3, (g.ri(0, 4), d))
    if g.p(0.5):
        nb = np.concatenate([nb, -nb])
    if g.m():
        nb = g.ch([g.rng.integers(-2, 3, (2, d + 1)), np.full((1, d), 2**62), np.full((2, d), -2**63), np.zeros((0,), int), np.zeros((2,), int), np.zeros((0, 0), int), None, nb.tolist()])
    if g.m():
        sh = g.ch([sh + [2], [-1] * d, [2**40] * d if d > 1 else [0], [], [1.5] * d, sh[:-1]])
    g.rec("shape", sh), g.rec("neighbours", nb)
    if g.p():
        hg.get_nd_regular_graph(sh, nb)
    else:
        x = hg.get_nd_regular_implicit_graph(sh, nb)
        [list(x.out_edges(v)) + list(x.in_edges(v)) + list(x.adjacent_vertices(v)) + [x.degree(v)] for v in x.vertices()]
        for v in [-1, x.num_vertices(), 2**62]:
            for f in (x.out_edges, x.in_edges, x.adjacent_vertices, x.degree, x.in_degree, x.out_degree):
                try:
                    r = f(v)
                    list(r) if not isinstance(r, int) else r
                except Exception:
                    pass
        x.as_explicit_graph()


@F()
def khalimsky(g):
    x = g.ch([g.grid, g.grid, g.ug, g.graph])()
    k = hg.graph_4_adjacency_2_khalimsky(x, g.ew(x), g.shape(x), g.b())
    if g.m():
        k = g.mutate(k, "float")
    hg.khalimsky_2_graph_4_adjacency(k, g.b(), g.opt(lambda: g.graph()))


@F()
def khalimsky_back(g):
    sh = (g.ri(0, 8), g.ri(0, 8))
    k = g.arr(sh[0] * sh[1])
    if isinstance(k, np.ndarray) and k.size == sh[0] * sh[1]:
        k = g.present(k.reshape(sh))
    hg.khalimsky_2_graph_4_adjacency(k, g.b(), g.opt(lambda: g.graph()))


@F()
def optimal_energy_cut_hierarchy(g):
    t = g.tree()
    hg.hierarchy_to_optimal_energy_cut_hierarchy(t, g.nw(t), g.nw(t), g.i(1, 10))


@F()
def optimal_MumfordShah_energy_cut_hierarchy(g):
    t = g.tree()
    hg.hierarchy_to_optimal_MumfordShah_energy_cut_hierarchy(t, g.lw(t, vec=g.opt(lambda: 3)), g.lg(t), g.i(1, 10))


@F()
def horizontal_cuts(g):
    t = g.tree()
    a = g.alt(t)
    l = g.lg(t)
    k = g.ri(0, 2)
    if k == 0:
        hg.labelisation_horizontal_cut_from_num_regions(t, a, g.i(1, 6), g.s(["at_least", "at_most"]), l)
    elif k == 1:
        hg.labelisation_horizontal_cut_from_threshold(t, a, g.f(-1, 9), l)
    else:
        e = hg.HorizontalCutExplorer(t, a)
        u = t
        if g.p(0.3):
            u = g.tree()
        del a
        gc.collect()
        for f in (lambda: e.horizontal_cut_from_index(g.i(0, 5)), lambda: e.horizontal_cut_from_altitude(g.f(-1, 9)), lambda: e.horizontal_cut_from_num_regions(g.i(1, 6), g.s(["at_least", "at_most"]))):
            try:
                c = g.out(f())
                c.nodes(), c.altitude()
                for h in (lambda: c.labelisation_leaves(u, l), lambda: c.graph_cut(u, l), lambda: c.reconstruct_leaf_data(u, g.alt(u), l)):
                    try:
                        g.out(h())
                    except Exception:
                        pass
            except Exception:
                pass
        g.out((e.num_cuts(), e.num_regions_cuts(), e.altitude_cuts()))
        for i in (g.i(0, 4), -1, 2**62):
            for h in (e.num_regions_cut, e.altitude_cut):
                try:
                    h(i)
                except Exception:
                    pass


@F()
def is_in_bijection(g):
    n = g.ri(0, 9)
    hg.is_in_bijection(g.arr(n, "int", hi=4), g.arr(n, "int", hi=4))


@F()
def supervertices(g):
    t = g.tree()
    hg.labelisation_hierarchy_supervertices(t, g.alt(t), g.lg(t), g.b())


@F()
def labelisation_optimal_cut_from_energy(g):
    t = g.tree()
    hg.labelisation_optimal_cut_from_energy(t, g.nw(t), g.acc(), g.lg(t))


@F()
def labelisation_seeded_watershed(g):
    x = g.graph()
    hg.labelisation_seeded_watershed(x, g.ew(x), g.vw(x, "int", hi=4), g.i(0, 2))


@F()
def graph_from_points(g):
    n, d = g.ri(0, 8), g.ri(1, 3)
    x = g.arr(n, "float", vec=d, dtype=np.float64)
    kind = g.s(["complete", "knn", "knn+mst", "delaunay"])
    hg.make_graph_from_points(x, kind, g.s(["max", "min"]), **(dict(n_neighbors=g.i(1, 4)) if "knn" in str(kind) else {}))


@F()
def rag_functions(g):
    x = g.ch([g.ug, g.grid, g.implicit])()
    r = hg.make_region_adjacency_graph_from_labelisation(x, g.vw(x, "int", hi=4)) if g.p() else hg.make_region_adjacency_graph_from_graph_cut(x, g.ew(x))
    y = r if not g.m() else g.graph()
    for f in (lambda: hg.rag_accumulate_on_edges(y, g.acc(), g.ew(x, vec=g.opt(lambda: 2))), lambda: hg.rag_accumulate_on_vertices(y, g.acc(), g.vw(x, vec=g.opt(lambda: 2))),
              lambda: hg.rag_back_project_edge_weights(y, g.ew(r, vec=g.opt(lambda: 2))), lambda: hg.rag_back_project_vertex_weights(y, g.vw(r, vec=g.opt(lambda: 2))),
              lambda: hg.project_fine_to_coarse_rag(y, hg.make_region_adjacency_graph_from_labelisation(x, g.vw(x, "int", hi=3)))):
        try:
            f()
        except Exception:
            pass


@F()
def rag_linked_by_hand(g):
    """a region adjacency graph whose maps are malformed"""
    x, r = g.ug(), g.ug()
    if g.p():
        vm = g.arr(x.num_vertices(), "index", hi=max(1, r.num_vertices()), dtype=np.int64)
        em = g.arr(x.num_edges(), "index", hi=max(1, r.num_edges()), dtype=np.int64)
    else:
        # valid maps but for one entry
        vm, em = [np.array([g.ri(0, max(n - 1, 0)) for _ in range(m)], dtype=np.int64) for m, n in ((x.num_vertices(), r.num_vertices()), (x.num_edges(), r.num_edges()))]
        for a, n in ((vm, r.num_vertices()), (em, r.num_edges())):
            if a.size and g.p(0.7):
                a[g.ri(0, a.size - 1)] = g.ch([-1, -2, -2, -3, n, n + 1, -50, 2**40])
        vm, em = g.rec("map", vm), g.rec("map", em)
    hg.CptRegionAdjacencyGraph.link(r, x, vm, em)
    for f in (lambda: hg.rag_accumulate_on_edges(r, g.acc(), g.ew(x)), lambda: hg.rag_accumulate_on_vertices(r, g.acc(), g.vw(x)), lambda: hg.rag_back_project_edge_weights(r, g.ew(r)),
              lambda: hg.rag_back_project_vertex_weights(r, g.vw(r)), lambda: hg.saliency(*hg.bpt_canonical(r, g.ew(r)))):
        try:
            f()
        except Exception:
            pass


@F()
def rag_2d_vertex_perimeter_and_edge_length(g):
    x = g.grid()
    r = hg.make_region_adjacency_graph_from_labelisation(x, g.rng.integers(0, 3, x.num_vertices()))
    hg.rag_2d_vertex_perimeter_and_edge_length(r if not g.m() else g.graph(), x if not g.m() else g.graph(), g.shape(x), g.f(0, 1), g.b(), g.i(0, 3))


@F()
def project_fine_to_coarse_labelisation(g):
    n = g.ri(0, 10)
    hg.project_fine_to_coarse_labelisation(g.arr(n, "int", hi=5), g.arr(n, "int", hi=4), g.i(0, 6), g.i(0, 6))


@F()
def mask_2_neighbours(g):
    d = g.ri(1, 3)
    sh = tuple(g.ri(0, 3) for _ in range(d))
    m = g.rng.random(sh) < 0.5
    hg.mask_2_neighbours(m if not g.m() else g.mutate(m.astype(int), "int"), g.opt(lambda: [g.i(0, 2) for _ in range(d)]))


@F()
def match_pixels(g):
    sh = (g.ri(0 if g.m() else 1, 6), g.ri(0 if g.m() else 1, 6))
    a = [g.arr(sh[0] * sh[1], "bool") for _ in range(2)]
    a = [g.present(x.reshape(sh)) if isinstance(x, np.ndarray) and x.size == sh[0] * sh[1] else x for x in a]
    hg.match_pixels_image_2d(a[0], a[1], g.f(0, 3), g.s(["relative", "absolute"]))


@F()
def pb(g):
    x = g.ch([g.grid, g.grid, g.grid, g.ug, g.graph])()
    sh = g.shape(x)
    o = g.opt(lambda: g.ew(x))
    w = g.ew(x)
    k = g.ri(0, 2)
    if k == 0:
        hg.oriented_watershed(x, w, sh, o)
    elif k == 1:
        hg.mean_pb_hierarchy(x, w, sh, o)
    else:
        hg.multiscale_mean_pb_hierarchy(x, w, [g.ew(x) for _ in range(g.ri(0, 2))], sh, o)


@F()
def image_utils(g):
    sh = (g.ri(1, 8), g.ri(1, 8))
    a = g.arr(sh[0] * sh[1], dtype=np.float64)
    if isinstance(a, np.ndarray) and a.size == sh[0] * sh[1]:
        a = g.present(a.reshape(sh))
    if g.p():
        hg.gradient_orientation(a, g.i(1, 4))
    else:
        hg.triangular_filter(a, g.i(1, 4))


@F()
def propagate_parallel(g):
    t = g.tree()
    hg.propagate_parallel(t, g.nw(t, vec=g.opt(lambda: 2)), g.opt(lambda: g.nw(t, g.ch(["bool", "int", "float"]))))


@F()
def propagate_sequential(g):
    t = g.tree()
    hg.propagate_sequential(t, g.nw(t, vec=g.opt(lambda: 2)), g.nw(t, g.ch(["bool", "int", "float"])))


@F()
def propagate_sequential_and_accumulate(g):
    t = g.tree()
    hg.propagate_sequential_and_accumulate(t, g.nw(t, vec=g.opt(lambda: 2)), g.acc(), g.opt(lambda: g.nw(t, g.ch(["bool", "int", "float"]))))


@F()
def random_binary_partition_tree(g):
    hg.random_binary_partition_tree(g.i(1, 20), g.f(0, 1))


@F()
def files(g):
    d = tempfile.mkdtemp(prefix="hgv27")
    f = os.path.join(d, "f")
    try:
        if g.p():
            t = g.tree()
            hg.save_tree(f, t, {"a%d" % i: g.nw(t, vec=None if g.p(0.9) else 2) for i in range(g.ri(0, 2))})
            corrupt(g, f)
            hg.read_tree(f)
        else:
            x = g.graph()
            hg.save_graph_pink(f, x, g.opt(lambda: g.vw(x)), g.opt(lambda: g.ew(x)), g.opt(lambda: g.shape(x)))
            corrupt(g, f)
            hg.read_graph_pink(f)
    finally:
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        os.rmdir(d)


def corrupt(g, f):
    if not g.m(2) or not os.path.exists(f):
        return
    b = bytearray(open(f, "rb").read())
    k = g.ri(0, 4)
    if k == 0:
        b = b[: g.ri(0, len(b))]
    elif k == 1 and b:
        for _ in range(g.ri(1, 4)):
            b[g.ri(0, len(b) - 1)] = g.ri(0, 255)
    elif k == 2 and b:
        i = g.ri(0, len(b))
        b = b[:i] + g.ch([b"-1", b"99999999999999999999", b"9", b" ", b"\n", b"nan", b"\0", b"1e300"]) + b[i:]
    elif k == 3 and b:
        i, j = sorted((g.ri(0, len(b)), g.ri(0, len(b))))
        b = b[:i] + b[j:]
    else:
        b = b + b
    g.rec("file", bytes(b[:300]))
    with open(f, "wb") as o:
        o.write(b)


@F()
def reconstruct_leaf_data2(g):
    t = g.tree()
    hg.reconstruct_leaf_data(t, g.nw(t, vec=g.opt(lambda: 2)), g.opt(lambda: g.nw(t, g.ch(["bool", "int"]))), g.lg(t))


@F()
def saliency2(g):
    t = g.tree()
    hg.saliency(t, g.alt(t), g.lg(t), g.b())


@F()
def simplify_tree(g):
    t = g.tree()
    d = g.nw(t, g.ch(["bool", "int", "float"]))
    r = hg.simplify_tree(t, d, g.b())
    r[0].parents(), r[1]


@F()
def subgraphs(g):
    x = g.graph()
    if g.p():
        e = g.rng.permutation(g.ne(x))[: g.ri(0, g.ne(x))]
        e = g.rec("edges", e if not g.m() else g.mutate(e, "index"))
        hg.subgraph(x, e, g.b(), g.b())
    else:
        v = g.rng.permutation(g.nv(x))[: g.ri(0, g.nv(x))]
        v = g.rec("vertices", v if not g.m() else g.mutate(v, "index"))
        hg.vertex_induced_subgraph(x, v, g.b())


@F()
def test_tree_isomorphism(g):
    hg.test_tree_isomorphism(g.tree(), g.tree())


@F()
def tree_fusion(g):
    n = g.ri(1, 8)
    ts = [g.ptree(nleaves=n if not g.m() else g.ri(1, 9)) for _ in range(g.ri(0 if g.m() else 2, 4))]
    hg.tree_fusion_depth_map(*ts)


@F()
def tree_monotonic_regression(g):
    t = g.tree()
    hg.tree_monotonic_regression(t, g.nw(t), g.s(["min", "max", "least_square"]), g.opt(lambda: g.nw(t, "pos")))


@F()
def adjacency_round(g):
    x = g.graph()
    m = hg.undirected_graph_2_adjacency_matrix(x, g.opt(lambda: g.ew(x)), g.f(), g.b())
    hg.adjacency_matrix_2_undirected_graph(m, g.f())


@F()
def watershed_by_attribute(g):
    x = g.graph()

    def fun(tree, altitudes):
        return g.nw(tree)
    hg.watershed_hierarchy_by_attribute(x, g.ew(x), fun, canonize_tree=g.b())


@F()
def watershed_by_minima_ordering(g):
    x = g.graph()
    hg.watershed_hierarchy_by_minima_ordering(x, g.ew(x), g.vw(x, "int", hi=5), g.opt(lambda: g.vw(x)), canonize_tree=g.b())


@F()
def watershed_by_area2(g):
    x = g.graph()
    g.ch([hg.watershed_hierarchy_by_area, hg.watershed_hierarchy_by_volume])(x, g.ew(x), g.vw(x), canonize_tree=g.b())


@F()
def weight_graph(g):
    x = g.graph()
    hg.weight_graph(x, g.vw(x, vec=g.opt(lambda: 3)), g.enum(hg.WeightFunction))


@F()
def print_partition_tree(g):
    t = g.tree()
    hg.print_partition_tree(t, altitudes=g.opt(lambda: g.alt(t)), attribute=g.opt(lambda: g.nw(t)), float_size=g.i(1, 5), ordering=g.s(["area", "none"]), scale=g.s(["linear", "log"]), return_string=True)


# ---------------------------------------------------------------------------------------------- classes


def tryall(fs, g=None):
    n = 0
    for f in fs:
        try:
            r = f()
            n += 1
        except Exception as e:
            r = e
        if g is not None:
            g.out(r)
    return n


@F()
def tree_methods(g):
    t = g.tree() if g.p(0.7) else g.ptree()
    if not isinstance(t, hg.Tree):
        return
    n = t.num_vertices()
    ix = lambda: g.i(0, n - 1)
    ixs = lambda: g.arr(g.ri(0, 6), "index", hi=n, dtype=g.ch([np.int64, np.int64, np.int32, np.uint64]))
    if g.p(0.3):
        t.clear_children()
    calls = [lambda: t.parent(ix()), lambda: t.parent(ixs()), lambda: list(t.ancestors(ix())), lambda: list(t.children(ix())), lambda: t.child(g.i(0, 2), ix()), lambda: t.child(g.i(0, 2), ixs()),
             lambda: t.child(g.i(0, 2)), lambda: t.num_children(ix()), lambda: t.num_children(ixs()), lambda: t.num_children(), lambda: t.is_leaf(ix()), lambda: t.is_leaf(ixs()),
             lambda: t.find_region(ix(), g.f(), g.alt(t)), lambda: t.find_region(ixs(), g.arr(4, dtype=np.float64), g.alt(t)), lambda: t.lowest_common_ancestor(ix(), ix()),
             lambda: t.lowest_common_ancestor(ixs(), ixs()), lambda: t.lowest_common_ancestor_preprocess(g.s(["sparse_table", "sparse_table_block"]), g.i(1, 20), g.b()),
             lambda: list(t.leaves_to_root_iterator(g.b(), g.b())), lambda: list(t.root_to_leaves_iterator(g.b(), g.b())), lambda: t.sub_tree(ix()), lambda: t.edge_list(), lambda: t.sources(),
             lambda: t.targets(), lambda: t.to_undirected_graph(g.b()), lambda: list(t.adjacent_vertices(ix())), lambda: list(t.out_edges(ix())), lambda: list(t.in_edges(ix())),
             lambda: (t.degree(ix()), t.in_degree(ix()), t.out_degree(ix())), lambda: t.degree(ixs()), lambda: t.in_degree(ixs()), lambda: t.out_degree(ixs()), lambda: t.edge_from_index(g.i(0, n - 2)),
             lambda: t.source(t.edge_from_index(g.i(0, n - 2))), lambda: list(t.edges()), lambda: list(t.vertices()), lambda: list(t.leaves()), lambda: t.clear_children(), lambda: t.root(),
             lambda: t.category(), lambda: pickle.loads(pickle.dumps(t)).parents(), lambda: copy.deepcopy(t).parents(), lambda: t.parents()]
    g.c.ev("method_calls", tryall([g.ch(calls) for _ in range(g.ri(4, 20))], g))


@F()
def tree_constructor(g):
    p = gen.parents(g.c, maxleaves=8)
    if g.m(2):
        p = g.mutate(p, "index")
    if g.m() and isinstance(p, np.ndarray) and p.size:
        p = p.copy()
        p.flat[g.ri(0, p.size - 1)] = g.ri(0, 5)
    t = g.out(hg.Tree(g.rec("parents", p), g.ch([hg.TreeCategory.PartitionTree, hg.TreeCategory.ComponentTree])))
    list(t.root_to_leaves_iterator()), t.num_leaves(), [list(t.children(i)) for i in t.vertices()]
    hg.attribute_depth(t), hg.attribute_vertex_list(t)


@F()
def graph_methods(g):
    x = g.graph()
    if x is None or not hasattr(x, "num_vertices"):
        return
    n, m = x.num_vertices(), g.ne(x)
    ix = lambda: g.i(0, n - 1)
    ixs = lambda: g.arr(g.ri(0, 6), "index", hi=max(1, n), dtype=g.ch([np.int64, np.int64, np.int32, np.uint64]))
    calls = [lambda: list(x.out_edges(ix())), lambda: list(x.in_edges(ix())), lambda: list(x.adjacent_vertices(ix())), lambda: x.degree(ix()), lambda: x.in_degree(ix()), lambda: x.out_degree(ix()),
             lambda: x.degree(ixs()), lambda: x.in_degree(ixs()), lambda: x.out_degree(ixs()), lambda: list(x.vertices()), lambda: list(x.edges()), lambda: x.edge_list(), lambda: x.sources(),
             lambda: x.targets(), lambda: x.edge_from_index(g.i(0, m - 1)), lambda: x.index(x.edge_from_index(g.i(0, m - 1))), lambda: pickle.loads(pickle.dumps(x)).edge_list(),
             lambda: copy.deepcopy(x).edge_list()]
    if isinstance(x, (hg.UndirectedGraph, hg.UndirectedGraphOptimizedDelete)):
        calls += [lambda: x.add_vertex(), lambda: x.add_vertices(g.i(0, 5) if not g.m() else 1), lambda: x.add_edge(ix(), ix()), lambda: x.add_edges(ixs(), ixs()), lambda: x.remove_edge(g.i(0, m - 1)),
                  lambda: x.set_edge(g.i(0, m - 1), ix(), ix())] * 2
    g.c.ev("method_calls", tryall([g.ch(calls) for _ in range(g.ri(4, 20))], g))


@F()
def graph_constructor(g):
    cls = g.ch([hg.UndirectedGraph, hg.UndirectedGraphOptimizedDelete])
    k = g.i(0, 5)
    if isinstance(k, int) and k > 100:
        k = -k
    x = cls(k)
    n, s, t = gen.graph(g.c, n=max(1, x.num_vertices()))
    x.add_edges(g.rec("s", g.mutate(s, "index") if g.m() else s), g.rec("t", g.mutate(t, "index") if g.m() else t))
    for _ in range(g.ri(0, 4)):
        tryall([lambda: x.remove_edge(g.i(0, len(s))), lambda: x.set_edge(g.i(0, len(s)), g.i(0, n), g.i(0, n))], g)
    x.edge_list() if hasattr(x, "edge_list") else None
    [list(x.out_edges(v)) for v in x.vertices()]


@F()
def lca(g):
    t = g.tree() if g.p() else g.ptree()
    k = g.ri(0, 2)
    l = hg.LCAFast(t) if k == 0 else hg.LCA_rmq_sparse_table_block(t, g.i(1, 20)) if k == 1 else hg.LCA_rmq_sparse_table(t)
    n = t.num_vertices()
    if g.p(0.3):
        l = pickle.loads(pickle.dumps(l))
    if g.p(0.3):
        l = copy.deepcopy(l)
    del t
    gc.collect()
    ixs = lambda: g.arr(g.ri(0, 6), "index", hi=n, dtype=g.ch([np.int64, np.int64, np.int32, np.uint64]))
    x = g.ug() if g.p() else g.grid()
    tryall([lambda: l.lca(g.i(0, n - 1), g.i(0, n - 1)), lambda: l.lca(ixs(), ixs()), lambda: l.lca(x), lambda: l.lca(g.graph())], g)


@F()
def embedding(g):
    d = g.ri(1, 5)
    cls = [hg.EmbeddingGrid1d, hg.EmbeddingGrid2d, hg.EmbeddingGrid3d, hg.EmbeddingGrid4d, hg.EmbeddingGrid5d][d - 1]
    sh = [g.ri(0, 4) for _ in range(d)]
    if g.m():
        sh = g.ch([sh + [2], [-1] * d, [2**40] * d, [], [1.5] * d, sh[:-1], None])
    e = cls(g.rec("shape", sh))
    k = g.ri(0, 5)
    co = g.rng.integers(-1, 4, (k, d))
    co = g.rec("coords", co if not g.m() else g.mutate(co, "index"))
    tryall([lambda: e.contains(co), lambda: e.grid2lin(co), lambda: e.lin2grid(g.arr(k, "index", hi=max(1, e.size()))), lambda: e.lin2grid(g.i(0, 10)), lambda: e.grid2lin(co[0]), lambda: e.contains(co[0]),
            lambda: e.grid2lin(tuple(co[0])), lambda: e.shape(), lambda: e.size(), lambda: e.dimension()], g)


@F()
def regular_graph_constructor(g):
    d = g.ri(1, 5)
    cls = [hg.RegularGraph1d, hg.RegularGraph2d, hg.RegularGraph3d, hg.RegularGraph4d, hg.RegularGraph5d][d - 1]
    sh = [g.ri(0, 3) for _ in range(d)]
    nb = [list(map(int, r)) for r in g.rng.integers(-2, 3, (g.ri(0, 4), d))]
    if g.m():
        sh = g.ch([sh + [2], [-1] * d, [2**40] * d, [], [1.5] * d, sh[:-1], None])
    if g.m():
        nb = g.ch([[[1]], [], [[1, 2], [3]], [[2**62] * d], None, [[-2**63] * d], [1, 2]])
    x = cls(g.rec("shape", sh), g.rec("nb", nb))
    if x.num_vertices() > 10**4:  # would be slow, not wrong
        tryall([lambda: list(x.out_edges(g.i(0, 9))), lambda: list(x.adjacent_vertices(2**40)), lambda: x.out_degree(g.i(0, 9))], g)
        return
    tryall([lambda: [list(x.out_edges(v)) for v in x.vertices()], lambda: x.as_explicit_graph(), lambda: pickle.loads(pickle.dumps(x)).num_vertices(), lambda: list(x.adjacent_vertices(g.i(0, 5)))], g)
