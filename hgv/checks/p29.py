"""P29: results depend only on the values of the arguments, and arguments are left untouched."""
import ctypes
import inspect
import random
import numpy as np
import higra as hg
from hgv import api
from hgv.core import Violation, family, show

UNITS = None
TECHNIQUE = "differential monitoring of every public call: arguments and their attributes snapshotted around the call, results recorded over repetitions, presentations, heap contents and histories"
RULE = ("every public function and class of the Python interface with well formed generated arguments; each call is intercepted: its array, graph and tree arguments (and the attributes these already had) are "
        "compared before and after, it is run twice, and the whole program is run again with the same values presented otherwise (strided, reversed, Fortran ordered, offset, unaligned, read-only, broadcast "
        "arrays), with other numeric types, with implicit instead of explicit graphs, with a heap filled with another pattern, and with other functions called before on the same objects; results must be equal. "
        "Non-trivial: at least one call returned a result which was compared.")
ASSUMPTIONS = ["Functions whose purpose is to edit their argument or to store something (link, set_attribute, clear_children, add_edge, files...) are only compared for their results",
               "random functions are compared for equal states of the random generators"]
libc = ctypes.CDLL(None)
FN = sorted(set(api.FUNS) - {"sort"})  # sort is meant to edit its argument
SKIP = {"get_attribute", "set_attribute", "has_attribute", "clear_attributes", "clear_all_attributes", "list_attributes", "get_attribute_names", "save_tree", "save_graph_pink"}


# ------------------------------------------------------------------------------- values of objects
def graph_value(x):
    n = x.num_vertices()
    if isinstance(x, hg.UndirectedGraph):
        s, t = x.edge_list()
        return ("graph", n, np.array(s), np.array(t), [[(e[0], e[1], e[2]) for e in x.out_edges(v)] for v in range(n)])
    return ("graph", n, [[(e[0], e[1]) for e in x.out_edges(v)] for v in range(min(n, 300))])


def norm(x, d=0):
    if d > 8:
        return "deep"
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objects", [norm(y, d + 1) for y in x.ravel().tolist()])
        return np.array(x, copy=True)
    if isinstance(x, np.generic):
        return np.array(x)
    if isinstance(x, BaseException):
        return ("raised", type(x).__name__)
    if isinstance(x, hg.Tree):
        return ("tree", int(x.category() == hg.TreeCategory.PartitionTree), np.array(x.parents(), copy=True))
    if isinstance(x, (list, tuple)):
        return [norm(y, d + 1) for y in x]
    if isinstance(x, dict):
        return {str(k): norm(v, d + 1) for k, v in x.items()}
    if hasattr(x, "num_vertices") and hasattr(x, "out_edges"):
        return graph_value(x)
    if hasattr(x, "toarray"):
        return x.toarray()
    if hasattr(x, "num_regions_ground_truth"):
        return ["curve", norm(x.num_regions()), norm(x.scores()), norm(x.num_regions_normalized()), norm(x.num_regions_ground_truth())]
    if hasattr(x, "labelisation_leaves"):
        return ["cut", norm(x.nodes()), norm(x.altitude())]
    if isinstance(x, hg.PolylineContour2d) or type(x).__name__ in ("SegmentContour2d", "Contour2d"):
        return [norm(y, d + 1) for y in x]
    if hasattr(x, "lca"):
        return "lca"
    if callable(x):
        return "callable"
    if type(x).__module__.startswith("higra") and hasattr(x, "__iter__"):
        return [norm(y, d + 1) for y in x]
    return "object " + type(x).__name__


def same(a, b, tol=0.0):
    """'' or where two values differ; tol: relative tolerance, numeric types are only compared when it is zero"""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return "shapes %s and %s" % (a.shape, b.shape)
        if tol < 1e-6 and a.dtype != b.dtype:
            return "types %s and %s" % (a.dtype, b.dtype)
        if not tol:
            if a.dtype.kind in "fc":
                ok = np.array_equal(a, b, equal_nan=True)
            else:
                ok = np.array_equal(a, b)
        elif a.dtype.kind in "biufc" and b.dtype.kind in "biufc":
            ok = np.allclose(a.astype(float), b.astype(float), rtol=tol, atol=tol, equal_nan=True)
        else:
            ok = np.array_equal(a, b)
        return "" if ok else "%s and %s" % (show(a), show(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "lengths %d and %d" % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, tol)
            if r:
                return "[%d]: %s" % (i, r)
        return ""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "keys %s and %s" % (sorted(a), sorted(b))
        for k in a:
            r = same(a[k], b[k], tol)
            if r:
                return "[%s]: %s" % (k, r)
        return ""
    if isinstance(a, (float, int, np.ndarray)) and isinstance(b, (float, int, np.ndarray)) and not isinstance(a, bool):
        fa, fb = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return "" if fa.shape == fb.shape and np.allclose(fa, fb, rtol=tol, atol=tol, equal_nan=True) else "%r and %r" % (a, b)
    if type(a) != type(b) or a != b:
        return "%s and %s" % (show(a), show(b))
    return ""


def attributes(x):
    if isinstance(x, hg.Tree) or hasattr(x, "out_edges"):
        try:
            return {k: hg.get_attribute(x, k) for k in hg.list_attributes(x)}
        except TypeError:
            pass
    return {}


# ------------------------------------------------------------------------------- interception
class Proxy:
    """stands for the higra module in the entries of hgv.api"""
    def __init__(self):
        self.rec = None

    def __getattr__(self, name):
        v = getattr(hg, name)
        if self.rec is None or inspect.isclass(v) or not callable(v) or name in SKIP or name.startswith("Cpt"):
            return v
        return lambda *a, **k: self.rec.call(name, v, a, k)


PROXY = Proxy()
api.hg = PROXY


class Recorder:
    def __init__(self, c, g, twice=False, warm=None):
        self.c, self.g, self.twice, self.warm, self.trace = c, g, twice, warm, []
        self.bad = None

    def run(self, f, a, k):
        random.seed(7)
        np.random.seed(7)
        try:
            return f(*a, **k)
        except Exception as e:
            return e

    def ck(self, e, key, msg):
        self.c.ev("checks")
        if e and self.bad is None:  # raised at the end: entries catch exceptions
            self.bad = Violation(key, "%s: %s" % (msg, e))

    def call(self, name, f, a, k):
        c, rng = self.c, self.g.rng.bit_generator
        if self.warm:
            self.warm(a)
        before = [norm(x) for x in a] + [norm(k)]
        atts = [{n: (v, norm(v)) for n, v in attributes(x).items()} for x in a]
        s0 = rng.state
        r = self.run(f, a, k)
        v = norm(r)
        self.trace.append((name, v))
        c.ev("calls")
        c.ev("returned" if not isinstance(r, BaseException) else "raised")
        if self.twice:
            for x, y in zip(before, [norm(x) for x in a] + [norm(k)]):
                e = same(x, y)
                self.ck(e, "argument_modified", "%s changed one of its arguments" % name)
            for x, at in zip(a, atts):
                now = attributes(x)
                for n, (o, w) in at.items():
                    if n in now and now[n] is o:
                        e = same(w, norm(o))
                        self.ck(e, "attribute_modified", "%s changed the attribute %s of its argument in place" % (name, n))
                        c.ev("attributes_watched")
            c.ev("arguments_watched", len(a))
            s1 = rng.state
            rng.state = s0
            e = same(v, norm(self.run(f, a, k)))
            self.ck(e, "second_call", "%s: the same call gave another result" % name)
            e = same(v, norm(r))
            self.ck(e, "result_modified", "%s: a result was changed by a later call" % name)
            rng.state = s1
        if isinstance(r, BaseException):
            raise r
        return r


class G(api.G):
    rewrite = None
    form = None

    def present(self, a):
        return a if self.rewrite is None else self.rewrite(a)

    def out(self, x):
        PROXY.rec.trace.append(("result", norm(x)))
        return x

    def implicit(self):
        x = super().implicit()
        return x if self.form is None else self.form(x)

    def shape(self, g):
        return super().shape(g) if self.form is None else self.rec("shape", [1, self.nv(g)])

    def graph(self, implicit=True):
        return super().graph(implicit) if self.form is None else self.implicit()


def run(c, name, state, twice=False, rewrite=None, form=None, warm=None):
    c.rng.bit_generator.state = state
    g = G(c, 0.0)
    g.rewrite, g.form = rewrite, form
    rec = Recorder(c, g, twice, warm)
    PROXY.rec = rec
    try:
        api.FUNS[name](g)
    except Exception as e:
        rec.trace.append(("end", norm(e)))
    finally:
        PROXY.rec = None
    if rec.bad is not None:
        raise rec.bad
    return rec.trace, g


def compare(c, key, a, b, tol=0.0):
    n = 0
    for i, (x, y) in enumerate(zip(a, b)):
        e = "%s instead of %s" % (y[0], x[0]) if x[0] != y[0] else "" if tol > 1e-6 and refused([x]) and refused([y]) else same(x[1], y[1], tol)
        c.ck(not e, key, "call %d, %s: %s" % (i, x[0], e))
        n += not (isinstance(x[1], tuple) and x[1] and x[1][0] == "raised")
    c.ck(len(a) == len(b), key, "%d and %d calls" % (len(a), len(b)))
    c.ev("results_compared", n)
    return n


def refused(trace):
    return any(isinstance(v, tuple) and len(v) == 2 and v[0] == "raised" for _, v in trace)


def inputs(g):
    return [x for x in g.log if isinstance(x, (np.ndarray, int, float, str, list))][:30]


# ------------------------------------------------------------------------------- presentations
def other_layout(rng):
    def f(a):
        if not isinstance(a, np.ndarray) or a.ndim == 0 or a.dtype == object:
            return a
        k = int(rng.integers(10))
        if k == 0:
            b = np.repeat(a, 2, axis=0)[::2]
        elif k == 1:
            b = np.asfortranarray(a.copy())
        elif k == 2:
            b = a[::-1].copy()[::-1]
        elif k == 3:
            b = a.copy()
            b.setflags(write=False)
        elif k == 4:
            big = np.ones(tuple(s + 3 for s in a.shape), a.dtype)
            sl = tuple(slice(2, 2 + s) for s in a.shape)
            big[sl] = a
            b = big[sl]
        elif k == 5:
            buf = np.zeros(a.nbytes + 1, np.uint8)
            b = buf[1:1 + a.nbytes].view(a.dtype).reshape(a.shape) if a.size else a.copy()
            b[...] = a
        elif k == 6:
            b = np.repeat(a, 3, axis=-1)[..., 1::3]
        elif k == 7:
            b = a[..., ::-1].copy()[..., ::-1]
            b.setflags(write=False)
        elif k == 8 and a.size and (a == a.flat[0]).all():
            b = np.broadcast_to(a.flat[0], a.shape)
        elif k == 9:
            class Sub(np.ndarray):
                pass
            b = a.copy().view(Sub)
        else:
            b = a.copy()
        return b
    return f


LFN = [n for n in FN if n != "binary_partition_tree_exponential_linkage"]  # roundings decide between ties of transcendental values


@family("layouts", 8000, 160000)
def layouts(c):
    """the same values in arrays laid out differently"""
    name = LFN[c.idx % len(LFN)]
    state = c.rng.bit_generator.state
    c.inp(function=name)
    a, g = run(c, name, state)
    b, _ = run(c, name, state, rewrite=other_layout(np.random.default_rng(c.idx)))
    n = compare(c, "layout", a, b, tol=1e-11)  # numpy sums and exponentials of strided and contiguous arrays may differ by a rounding
    c.note("layouts", name, *inputs(g), nontrivial=n > 0)


# ------------------------------------------------------------------------------- repetitions and heap contents
M_PERTURB = -6


@family("repeats", 8000, 160000)
def repeats(c):
    """everything twice, on a heap filled with one pattern, then on a heap filled with another"""
    name = FN[c.idx % len(FN)]
    state = c.rng.bit_generator.state
    c.inp(function=name)
    libc.mallopt(M_PERTURB, 0x5a)
    try:
        a, g = run(c, name, state, twice=True)
        libc.mallopt(M_PERTURB, 0x83)
        b, _ = run(c, name, state)
    finally:
        libc.mallopt(M_PERTURB, 0)
    n = compare(c, "not_determined", a, b)
    c.ev("heap_patterns", 2)
    c.ev("compared_" + name, n)
    c.note("repeats", name, *inputs(g), nontrivial=n > 0)


# ------------------------------------------------------------------------------- numeric types
# functions which only compare the values, or compute in double precision whatever the type
ORDER = {"bpt_canonical", "bpt_canonical2", "quasi_flat_zone_hierarchy", "minimum_spanning_tree", "ultrametric_open", "labelisation_watershed", "component_tree_max_tree", "component_tree_min_tree",
         "watershed_hierarchy_by_area", "watershed_hierarchy_by_number_of_parents", "labelisation_seeded_watershed", "arg_sort", "graph_cut_2_labelisation",
         "binary_partition_tree_single_linkage", "binary_partition_tree_complete_linkage", "canonize_hierarchy", "canonize_hierarchy2", "sort_hierarchy_with_altitudes", "simplify_tree", "saliency", "saliency2",
         "labelisation_hierarchy_supervertices", "supervertices", "test_altitudes_increasingness", "attribute_extrema", "binary_labelisation_from_markers", "propagate_sequential", "propagate_parallel",
         "reconstruct_leaf_data", "reconstruct_leaf_data2", "attribute_regular_altitudes2", "graph_from_points", "make_region_adjacency_graph_from_graph_cut", "binary_hierarchy_to_scipy_linkage_matrix",
         "filter_non_relevant_node_from_tree", "rag_back_project_edge_weights", "rag_back_project_vertex_weights", "khalimsky_back"}
# the type of the image decides how the mean of two values is computed, random draws follow refusals, or the minimum and maximum of an empty set are bounds of the type
TYPED = {"tree_methods", "graph_methods", "embedding", "accumulate_at", "accumulate_graph_edges", "accumulate_graph_vertices", "accumulate_on_contours", "accumulate_parallel", "accumulate_sequential",
         "propagate_sequential_and_accumulate", "rag_functions", "rag_linked_by_hand", "print_partition_tree",
         # roundings decide between ties of computed values
         "binary_partition_tree_exponential_linkage", "binary_partition_tree_average_linkage", "binary_partition_tree_average_linkage2", "binary_partition_tree_ward_linkage",
         "binary_partition_tree_MumfordShah_energy", "optimal_energy_cut_hierarchy", "optimal_MumfordShah_energy_cut_hierarchy", "pb", "labelisation_optimal_cut_from_energy",
         "assess_fragmentation_optimal_cut", "make_assesser_fragmentation_optimal_cut", "multivariate_tree_of_shapes"}


def other_type(rng, anytype):
    def f(a):
        if not isinstance(a, np.ndarray) or a.ndim == 0 or a.dtype.kind not in "iuf":
            return a
        if a.dtype.kind != "f" and not anytype:
            return a
        for _ in range(6):
            t = api.TYPES[int(rng.integers(len(api.TYPES)))]
            if np.dtype(t).kind != "f" and not anytype:
                continue
            with np.errstate(all="ignore"):
                b = a.astype(t)
            if np.array_equal(b.astype(np.float64), a.astype(np.float64)):
                return b
        return a
    return f


TFN = [n for n in FN if n not in TYPED]


@family("types", 8000, 160000)
def types(c):
    """the same values in arrays of other numeric types: any type for functions which only compare values, another floating point type otherwise"""
    name = TFN[c.idx % len(TFN)]
    state = c.rng.bit_generator.state
    c.inp(function=name)
    a, g = run(c, name, state)
    b, _ = run(c, name, state, rewrite=other_type(np.random.default_rng(c.idx), name in ORDER))
    if refused(a) != refused(b):
        return c.ev("type_refused")
    n = compare(c, "type_%s" % name, a, b, tol=1e-3)
    c.note("types", name, *inputs(g), nontrivial=n > 0)


# ------------------------------------------------------------------------------- implicit graphs
def explicit(x):
    y = x.as_explicit_graph()
    for k, v in attributes(x).items():  # attributes are not part of the conversion
        hg.set_attribute(y, k, v)
    if hg.CptGridGraph.validate(x):
        hg.CptGridGraph.link(y, hg.CptGridGraph.get_shape(x))
    return y


IFN = [n for n in FN if n != "graph_methods"]


@family("implicit", 3000, 60000)
def implicit(c):
    """an implicit graph and the equal explicit one"""
    name = IFN[c.idx % len(IFN)]
    state = c.rng.bit_generator.state
    c.inp(function=name)
    a, g = run(c, name, state, form=lambda x: x)
    b, _ = run(c, name, state, form=explicit)
    if refused(a):
        return c.ev("implicit_graph_refused")
    n = compare(c, "implicit_%s" % name, a, b)
    c.note("implicit", name, *inputs(g), nontrivial=n > 0)


# ------------------------------------------------------------------------------- histories
WARM = ["attribute_area", "attribute_depth", "attribute_child_number", "attribute_sibling", "attribute_topological_height", "attribute_vertex_list", "attribute_contour_length", "attribute_frontier_length",
        "attribute_lca_map", "attribute_regular_altitudes", "attribute_vertex_area", "attribute_vertex_perimeter", "attribute_edge_length", "attribute_compactness", "make_lca_fast", "attribute_moment_of_inertia"]


def warmer(rng):
    def f(args):
        for x in args:
            if isinstance(x, hg.Tree) or isinstance(x, hg.UndirectedGraph):
                for n in rng.choice(len(WARM), 3):
                    try:
                        getattr(hg, WARM[n])(x)
                    except Exception:
                        pass
    return f


@family("histories", 4000, 80000)
def histories(c):
    """other functions called before on the same objects"""
    name = FN[c.idx % len(FN)]
    state = c.rng.bit_generator.state
    c.inp(function=name)
    a, g = run(c, name, state)
    b, _ = run(c, name, state, warm=warmer(np.random.default_rng(c.idx)))
    n = compare(c, "history_%s" % name, a, b)
    c.note("histories", name, *inputs(g), nontrivial=n > 0)
