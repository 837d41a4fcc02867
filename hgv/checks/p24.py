"""P24: serialisation, copies and conversions lose nothing."""
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np
import scipy.sparse as sp
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["tree_io", "pink_graph_io", "graph_core", "tree", "tree_attributes", "tree_accumulators"]
RULE = ("random trees and graphs (self-loops, parallel edges, isolated vertices, removed edges, no edge) with attributes of every numeric type and memory layout, hostile attribute names, values from "
        "subnormals to infinities; written and read back in a scratch directory, truncated at a random place, pickled with every protocol, copied, deep copied, converted to adjacency or linkage matrices "
        "and back. Non-trivial: at least one attribute, edge or merge.")
ASSUMPTIONS = ["tree attributes are stored as double (values exactly representable); attribute names are not empty and have no line break",
               "Pink format: at most 2 dimensions; graphs without shape come back with shape (n, 1)",
               "adjacency matrices: no parallel edges, weights different from the value of non-edges"]

DIR = None


def scratch():
    global DIR
    if DIR is None or not os.path.isdir(DIR):
        import atexit
        DIR = tempfile.mkdtemp(prefix="hgv24-")
        atexit.register(shutil.rmtree, DIR, True)
    return os.path.join(DIR, "f")


def values(c, n):
    k = c.ri(0, 5)
    if k == 0:
        return gen.values(c, n, gen.dtype(c, [t for t in gen.NUM_TYPES]))
    r = c.rng.standard_normal(n)
    if k == 1:
        return r
    if k == 2:
        return r.astype(np.float32)
    if k == 3:
        return r * 10.0 ** c.rng.integers(-300, 300, n)
    if k == 4:
        return c.rng.choice([0.0, -0.0, np.inf, -np.inf, np.nan, 5e-324, 1e-310, 1.7976931348623157e308, 1 / 3, 0.1, 2.0 ** 53 + 2, 1e16, 123456789.123], n)
    return c.rng.integers(-2 ** 52, 2 ** 52, n).astype(np.int64)


def same_bits(a, b):
    a = np.ascontiguousarray(a, dtype=np.float64)
    b = np.ascontiguousarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    na = np.isnan(a)
    return np.array_equal(na, np.isnan(b)) and np.array_equal(a[~na].view(np.int64), b[~na].view(np.int64))


NAMES = ["a", "area", "END", "NAME", "NAME=x", "a=b", "with space", " lead", "trail ", "tab\there", "é", "中", "NBATTR", "x" * 300, "=", "1", "a.b", "END=", "#", "%s%n", "0", "-1", "\"q\"", "/"]


@family("tree-file", quick=2500)
def tree_file(c):
    p = gen.parents(c, maxleaves=40)
    n = len(p)
    k = c.ri(0, 4)
    names = [str(x) for x in c.rng.choice(NAMES, k, replace=False)]
    at = {m: gen.layout(c, values(c, n)) for m in names}
    c.inp(parents=p, attributes=at)
    c.note(p, names, *at.values(), nontrivial=k > 0)
    f = scratch()
    t = hg.Tree(p)
    if k == 0 and c.p(0.5):
        hg.save_tree(f, t)
    else:
        hg.save_tree(f, t, at)
    t2, a2 = hg.read_tree(f)
    c.eq(t2.parents(), p, "tree-file-parents")
    c.ck(t2.num_leaves() == t.num_leaves(), "tree-file-leaves")
    c.ck(sorted(a2) == sorted(at), "tree-file-names", "%r -> %r" % (sorted(at), sorted(a2)))
    for m in at:
        c.ck(same_bits(a2[m], at[m]), "tree-file-values", "attribute %r: %s -> %s" % (m, at[m], a2[m]))
        c.ck(hg.get_attribute(t2, m) is a2[m] or same_bits(hg.get_attribute(t2, m), at[m]), "tree-file-registered", m)
    c.ev("tree-attributes", k)
    # rewriting what was read gives the same file
    b = open(f, "rb").read()
    hg.save_tree(f, t2, a2)
    c.ck(open(f, "rb").read() == b, "tree-file-rewrite", "writing the same tree again gives another file")
    # any proper prefix of the file is incomplete
    cut = c.ri(0, len(b) - 1)
    open(f, "wb").write(b[:cut])
    c.raises(lambda: hg.read_tree(f), "tree-file-truncated", "file cut at byte %d of %d" % (cut, len(b)))
    c.ev("truncated")
    os.remove(f)
    c.raises(lambda: hg.read_tree(f), "tree-file-missing")
    c.raises(lambda: hg.save_tree(f + "-no/x", t), "tree-file-unwritable")


@family("pink-file", quick=2500)
def pink_file(c):
    shape = None
    if c.p(0.5):
        shape = (gen.size(c, 1, 7), gen.size(c, 1, 7))
        g = c.choice([hg.get_4_adjacency_graph, hg.get_8_adjacency_graph])(shape)
        n = shape[0] * shape[1]
    else:
        n, s, t = gen.graph(c, connected=c.p(0.5))
        g = gen.make_graph(hg, n, s, t)
        k = c.ri(0, 2)
        if k == 1:
            shape = (n, 1)
        elif k == 2:
            d = [x for x in range(1, n + 1) if n % x == 0]
            d = int(c.choice(d))
            shape = (d, n // d)
    m = g.num_edges()
    vw = None if c.p(0.2) else values(c, n)
    ew = None if c.p(0.2) else values(c, m)
    src, dst = g.edge_list()
    c.inp(n=n, shape=shape, sources=src, targets=dst, vertex_weights=vw, edge_weights=ew)
    c.note(src, dst, vw, ew, shape, nontrivial=m > 0)
    arg = dict(vertex_weights=None, edge_weights=ew)
    if vw is not None:
        arg["vertex_weights"] = gen.layout(c, vw.reshape(shape) if shape is not None and c.p(0.7) else vw)
    if ew is not None and m:
        arg["edge_weights"] = gen.layout(c, ew)
    if shape is not None and (not hg.CptGridGraph.validate(g) or c.p(0.3)):
        if c.p(0.5):
            hg.CptGridGraph.link(g, shape)
        else:
            arg["shape"] = shape
    f = scratch()
    hg.save_graph_pink(f, g, **arg)
    g2, v2, e2 = hg.read_graph_pink(f)
    s2, t2 = g2.edge_list()
    c.ck(g2.num_vertices() == n and g2.num_edges() == m, "pink-size")
    c.ck(np.array_equal(np.minimum(s2, t2), np.minimum(src, dst)) and np.array_equal(np.maximum(s2, t2), np.maximum(src, dst)),
         "pink-edges", "%s -> %s" % ((src, dst), (s2, t2)))
    c.ck(tuple(hg.CptGridGraph.get_shape(g2)) == tuple(shape or (n, 1)), "pink-shape", "%s -> %s" % (shape, hg.CptGridGraph.get_shape(g2)))
    want = np.ones(n) if vw is None else vw
    c.ck(tuple(v2.shape) == tuple(shape or (n, 1)), "pink-vertex-shape", str(v2.shape))
    c.ck(same_bits(np.asarray(v2).ravel(), want), "pink-vertex-weights", "%s -> %s" % (want, v2))
    want = np.ones(m) if ew is None else ew
    c.ck(same_bits(e2, want), "pink-edge-weights", "%s -> %s" % (want, e2))
    b = open(f, "rb").read()
    # cut: everything but the last line is needed
    lines = b.decode().splitlines()
    if c.p(0.5) and len(lines) > 1:
        cut = c.ri(0, len(lines) - 2)
        open(f, "w").write("\n".join(lines[:cut + (0 if m else 0)]))
        if not (m == 0 and cut >= len(lines) - 1):
            c.raises(lambda: hg.read_graph_pink(f), "pink-truncated", "%d lines of %d" % (cut, len(lines)))
            c.ev("truncated")
    os.remove(f)
    c.raises(lambda: hg.read_graph_pink(f), "pink-missing")
    c.raises(lambda: hg.save_graph_pink(f + "-no/x", g), "pink-unwritable")


def duplicate(c, o):
    k = c.ri(0, 2)
    c.ev(("pickle", "copy", "deepcopy")[k])
    if k == 0:
        return pickle.loads(pickle.dumps(o, protocol=c.ri(2, pickle.HIGHEST_PROTOCOL)))
    return copy.copy(o) if k == 1 else copy.deepcopy(o)


def same_graph(c, g, h, key):
    c.ck(type(g) is type(h), key + "-type")
    c.ck(g.num_vertices() == h.num_vertices() and g.num_edges() == h.num_edges(), key + "-size")
    c.eq(h.edge_list(), g.edge_list(), key + "-edges")
    for v in range(g.num_vertices()):
        c.ck(sorted(tuple(e) for e in h.out_edges(v)) == sorted(tuple(e) for e in g.out_edges(v)), key + "-adjacency", "vertex %d" % v)
        c.ck(h.degree(v) == g.degree(v), key + "-degree", "vertex %d" % v)


def same_attr(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    return a == b


@family("graphs", quick=4000)
def graphs(c):
    n, s, t = gen.graph(c, connected=c.p(0.5), maxn=12)
    g = gen.make_graph(hg, n, s, t)
    rm = [i for i in range(len(s)) if c.p(0.15)] if c.p(0.5) else []
    for i in rm:
        g.remove_edge(i)
    if len(s) and c.p(0.3):
        i = c.ri(0, len(s) - 1)
        if i not in rm:
            g.set_edge(i, c.ri(0, n - 1), c.ri(0, n - 1))
    c.inp(n=n, sources=s, targets=t, removed=rm)
    c.note(n, s, t, rm, nontrivial=len(s) > 0)
    x = gen.values(c, n)
    hg.set_attribute(g, "w", x)
    g.other = "text"
    hg.add_tag(g, hg.CptGridGraph)
    h = duplicate(c, g)
    same_graph(c, g, h, "graph")
    c.ck(same_attr(x, hg.get_attribute(h, "w")) and h.other == "text", "graph-attributes")
    c.ck(hg.has_tag(h, hg.CptGridGraph), "graph-tags")
    c.ck(sorted(hg.list_attributes(h)) == sorted(hg.list_attributes(g)), "graph-attribute-names")
    # the copy is independent
    e = g.edge_list()
    h.add_vertex()
    h.add_edge(n, 0)
    if h.num_edges() > 1 and 0 not in rm:
        h.set_edge(0, n, n)
    c.eq(g.edge_list(), e, "graph-copy-independent")
    c.ck(g.num_vertices() == n, "graph-copy-independent")


@family("grids", quick=3000)
def grids(c):
    nd = c.ri(1, 5)
    shape = tuple(c.ri(1, 4) for _ in range(nd))
    cls = getattr(hg, "RegularGraph%dd" % nd)
    nb = set()
    while len(nb) < 2:
        d = tuple(c.ri(-2, 2) for _ in range(nd))
        if any(d):
            nb.add(d)
            nb.add(tuple(-x for x in d))
    for _ in range(c.ri(0, 3)):
        d = tuple(c.ri(-1, 1) for _ in range(nd))
        if any(d):
            nb.add(d)
            nb.add(tuple(-x for x in d))
    nb = [list(nb)[i] for i in c.rng.permutation(len(nb))]
    c.inp(shape=shape, neighbours=nb)
    g = cls(shape, nb)
    c.note(shape, nb, nontrivial=g.num_vertices() > 1)
    hg.set_attribute(g, "w", np.arange(3))
    g.other = 5
    h = duplicate(c, g)
    c.ck(type(h) is cls, "grid-type")
    c.ck(h.num_vertices() == g.num_vertices(), "grid-size")
    c.ck(tuple(hg.CptGridGraph.get_shape(h)) == shape, "grid-shape")
    c.ck([tuple(x) for x in h.neighbour_list()] == [tuple(x) for x in nb], "grid-neighbours", "%s -> %s" % (nb, h.neighbour_list()))
    c.eq(np.asarray(h.shape() if callable(h.shape) else h.shape), np.asarray(shape), "grid-shape-method")
    c.ck(h.other == 5 and np.array_equal(hg.get_attribute(h, "w"), np.arange(3)), "grid-attributes")
    for v in range(g.num_vertices()):
        c.ck([tuple(e)[:2] for e in h.out_edges(v)] == [tuple(e)[:2] for e in g.out_edges(v)], "grid-adjacency", "vertex %d" % v)
    a, b = g.as_explicit_graph(), h.as_explicit_graph()
    same_graph(c, a, b, "grid-explicit")
    c.ck(tuple(hg.CptGridGraph.get_shape(b)) == shape, "grid-explicit-shape")
    e = getattr(hg, "EmbeddingGrid%dd" % nd)(shape)
    e.tag = 1
    e2 = duplicate(c, e)
    c.ck(type(e2) is type(e) and e2.size() == e.size() and e2.tag == 1, "embedding")
    c.eq(e2.shape(), e.shape(), "embedding-shape")
    v = np.arange(e.size())
    c.eq(e2.lin2grid(v), e.lin2grid(v), "embedding-coordinates")


@family("trees", quick=4000)
def trees(c):
    p = gen.parents(c, maxleaves=25)
    n = len(p)
    cat = c.choice([hg.TreeCategory.PartitionTree, hg.TreeCategory.ComponentTree])
    ch, nl, depth = gen.tree_info(p)
    t = hg.Tree(p, cat)
    c.inp(parents=p, category=str(cat))
    x = gen.values(c, n)
    hg.set_attribute(t, "alt", x)
    t.foo = {"k": [1, 2]}
    linked = c.p(0.6)
    if linked:
        g = hg.get_4_adjacency_graph((1, nl))
        hg.set_attribute(g, "name", "leaf")
        hg.CptHierarchy.link(t, g)
        if c.p(0.3):
            hg.set_attribute(g, "tree", t)      # cycle
    pre = c.ri(0, 2)
    if pre:
        t.lowest_common_ancestor_preprocess(algorithm=("sparse_table", "sparse_table_block")[pre - 1], **({"block_size": c.ri(1, 9)} if pre == 2 else {}))
    area = hg.attribute_area(t)
    c.note(p, str(cat), x, linked, pre, nontrivial=n > 1)
    how = c.ri(0, 3)
    h = duplicate(c, t)
    c.eq(h.parents(), p, "tree-parents")
    c.ck(h.category() == cat, "tree-category", "%s -> %s" % (cat, h.category()))
    c.ck(h.num_leaves() == nl and h.root() == n - 1, "tree-leaves")
    for v in range(n):
        c.ck(sorted(h.children(v)) == ch[v] if v >= nl else h.is_leaf(v), "tree-children", "node %d" % v)
    c.ck(same_attr(x, hg.get_attribute(h, "alt")) and h.foo == t.foo, "tree-attributes")
    c.ck(hg.list_attributes(h) == hg.list_attributes(t) or sorted(hg.list_attributes(h)) == sorted(hg.list_attributes(t)), "tree-attribute-names")
    c.eq(hg.attribute_area(h), area, "tree-area")
    c.ck(hg.CptHierarchy.validate(h) == linked, "tree-linked")
    if linked:
        lg = hg.CptHierarchy.get_leaf_graph(h)
        same_graph(c, g, lg, "tree-leaf-graph")
        c.ck(hg.get_attribute(lg, "name") == "leaf" and tuple(hg.CptGridGraph.get_shape(lg)) == (1, nl), "tree-leaf-graph-attributes")
        c.ev("linked-trees")
    a, b = c.rng.integers(0, n, 10), c.rng.integers(0, n, 10)
    c.eq(h.lowest_common_ancestor(a, b), t.lowest_common_ancestor(a, b), "tree-lca")
    del how


@family("lca", quick=3000)
def lca(c):
    p = gen.parents(c, maxleaves=40)
    n = len(p)
    t = hg.Tree(p)
    block = None if c.p(0.4) else int(c.choice([1, 2, 3, 5, 8, 16, 1024]))
    c.inp(parents=p, block=block)
    c.note(p, block, nontrivial=n > 1)
    l = hg.LCA_rmq_sparse_table(t) if block is None else hg.LCA_rmq_sparse_table_block(t, block)
    l.extra = 3
    a, b = (x.ravel() for x in np.meshgrid(np.arange(n), np.arange(n))) if n < 25 else (c.rng.integers(0, n, 400), c.rng.integers(0, n, 400))
    want = l.lca(a, b)
    h = duplicate(c, l)
    if c.p(0.5):
        h = duplicate(c, h)
    c.ck(type(h) is type(l) and h.extra == 3, "lca-type")
    del l, t
    c.eq(h.lca(a, b), want, "lca-copy")
    # naive
    for i in range(min(len(a), 60)):
        u, v = int(a[i]), int(b[i])
        while u != v:
            if u < v:
                u = int(p[u])
            else:
                v = int(p[v])
        c.ck(want[i] == u, "lca-naive", "lca(%d, %d)" % (a[i], b[i]))


@family("adjacency", quick=4000)
def adjacency(c):
    n, s, t = gen.graph(c, connected=c.p(0.5), parallel=False, maxn=12)
    keep = {}
    for i in range(len(s)):
        keep.setdefault((min(s[i], t[i]), max(s[i], t[i])), i)
    sel = sorted(keep.values())
    s, t = s[sel], t[sel]
    g = gen.make_graph(hg, n, s, t)
    m = len(s)
    w = gen.values(c, m, gen.dtype(c))
    sparse = c.p(0.5)
    nev = 0
    if sparse or c.p(0.5):
        w = np.where(w == 0, 1, w).astype(w.dtype)
    else:
        nev = int(w.max()) + 1 if m else 1
        if np.dtype(w.dtype).kind == "f" and c.p(0.5):
            nev = np.inf
    rm = [i for i in range(m) if c.p(0.2)] if c.p(0.3) else []
    for i in rm:
        g.remove_edge(i)
    c.inp(n=n, sources=s, targets=t, weights=w, sparse=sparse, non_edge=nev, removed=rm)
    c.note(n, s, t, w, sparse, nev, rm, nontrivial=m > 0)
    A = hg.undirected_graph_2_adjacency_matrix(g, w, nev, sparse)
    c.ck(sp.issparse(A) == sparse, "adjacency-kind")
    D = A.toarray() if sparse else A
    want = np.full((n, n), nev, dtype=w.dtype)
    for i in range(m):
        if i not in rm:
            want[s[i], t[i]] = want[t[i], s[i]] = w[i]
    c.eq(D, want, "adjacency-matrix")
    c.ck(D.dtype == w.dtype, "adjacency-dtype")
    A0 = A.copy()
    g2, w2 = hg.adjacency_matrix_2_undirected_graph(A, nev)
    c.ck(np.array_equal(A.toarray() if sparse else A, A0.toarray() if sparse else A0), "adjacency-modified")
    s2, t2 = g2.edge_list()
    c.ck(g2.num_vertices() == n, "adjacency-size")
    got = sorted(zip(np.minimum(s2, t2).tolist(), np.maximum(s2, t2).tolist(), w2.tolist()))
    exp = sorted((min(s[i], t[i]), max(s[i], t[i]), w[i].item()) for i in range(m) if i not in rm)
    c.ck(got == exp, "adjacency-graph", "%s -> %s" % (exp, got))
    B = hg.undirected_graph_2_adjacency_matrix(g, sparse=sparse)
    B = B.toarray() if sparse else B
    c.eq(B, (want != nev).astype(np.float64), "adjacency-default-weights")


@family("linkage", quick=4000)
def linkage(c):
    p = gen.parents(c, unary=False, binary=True, maxleaves=30)
    n = len(p)
    ch, nl, depth = gen.tree_info(p)
    t = hg.Tree(p)
    alt = np.zeros(n)
    dt = np.dtype(c.choice([np.float32, np.float64]))
    for i in range(nl, n):
        alt[i] = max(alt[x] for x in ch[i]) + c.ri(0, 8) / 8
    a = alt.astype(dt)
    area = np.ones(n, dtype=np.int64)
    for i in range(n - 1):
        area[p[i]] = area[p[i]] + area[i] if i >= 0 else 0
    area = np.array([1] * nl + [0] * (n - nl))
    for i in range(n - 1):
        area[p[i]] += area[i]
    c.inp(parents=p, altitudes=a)
    c.note(p, a, nontrivial=nl > 2)
    Z = hg.binary_hierarchy_to_scipy_linkage_matrix(t, a) if c.p(0.5) else hg.binary_hierarchy_to_scipy_linkage_matrix(t, a, area)
    c.ck(Z.shape == (nl - 1, 4), "linkage-shape", str(Z.shape))
    for i in range(nl - 1):
        c.ck(sorted(Z[i, :2]) == ch[nl + i] and Z[i, 2] == a[nl + i] and Z[i, 3] == area[nl + i], "linkage-row", "row %d: %s" % (i, Z[i]))
    t2, a2, r2 = hg.scipy_linkage_matrix_to_binary_hierarchy(gen.layout(c, Z) if nl > 1 else Z)
    c.eq(t2.parents(), p, "linkage-tree")
    c.eq(a2, a.astype(np.float64), "linkage-altitudes")
    c.eq(r2, area, "linkage-area")
    if nl > 2:
        from scipy.cluster import hierarchy as H
        if H.is_valid_linkage(Z):
            c.ev("scipy-valid")
        # a linkage produced by scipy
        pts = c.rng.integers(0, 20, (nl, 2)).astype(float)
        meth = c.choice(["single", "complete", "average", "ward"])
        L = H.linkage(pts, meth)
        t3, a3, r3 = hg.scipy_linkage_matrix_to_binary_hierarchy(L)
        leaves = gen.leaves_below(t3.parents())
        _, nodes = H.to_tree(L, rd=True)
        for i in range(2 * nl - 1):
            c.ck(sorted(nodes[i].pre_order()) == sorted(leaves[i]) and nodes[i].dist == a3[i] and nodes[i].count == r3[i], "linkage-scipy", "node %d" % i)
        back = hg.binary_hierarchy_to_scipy_linkage_matrix(t3, a3, r3)
        L[:, :2].sort(axis=1)
        back[:, :2].sort(axis=1)
        c.eq(back, L, "linkage-scipy-back")
        # invalid cluster indices are rejected
        Z2 = Z.copy()
        i = c.ri(0, nl - 2)
        Z2[i, c.ri(0, 1)] = c.choice([-1, -2 ** 40, nl + i, 2 * nl - 1, 2 * nl, 2 ** 40, np.nan, np.inf])
        c.inp(invalid=Z2)
        c.raises(lambda: hg.scipy_linkage_matrix_to_binary_hierarchy(Z2), "linkage-invalid")


# ------------------------------------------------------------------------------- graphs of points
def minimax(d):
    m = d.copy()
    for k in range(len(m)):
        m = np.minimum(m, np.maximum(m[:, k:k + 1], m[k:k + 1, :]))
    return m


@family("points", quick=1500, thorough=30000, asan=60)
def points(c):
    """graphs made from points: exactly the documented pairs (up to ties), with the Euclidean distance as weight"""
    n, dim = c.ri(2, 14), c.ri(1, 4)
    dt = c.choice([np.float64, np.float32, np.int64, np.int32, np.uint8, np.int8])
    X = c.rng.integers(0, c.choice([2, 4, 120]), (n, dim)).astype(dt)
    if np.dtype(dt).kind == "f" and c.p(0.5):
        X = (X + c.rng.random((n, dim))).astype(dt)
    if c.p(0.3):
        X = gen.layout(c, X)
    kind = c.choice(["complete", "knn", "knn", "knn+mst", "knn+mst", "mst", "delaunay"])
    sym = c.choice(["min", "max"])
    k = c.ri(1, n - 1)
    c.inp(points=X, kind=kind, symmetrization=sym, n_neighbors=k)
    D = np.sqrt(((X[:, None, :].astype(np.float64) - X[None, :, :].astype(np.float64)) ** 2).sum(-1))
    before = X.copy()
    if kind == "delaunay":
        # general position only
        if dim < 2 or dim > 3 or n < dim + 2 or len(np.unique(X, axis=0)) < n or np.linalg.matrix_rank(X.astype(float) - X[0].astype(float)) < dim:
            kind = "complete"
    g, w = hg.make_graph_from_points(X, kind, sym, **({"n_neighbors": k} if "knn" in kind else {}))
    c.eq(X, before, "points_modified")
    c.ck(g.num_vertices() == n, "points_vertices", "%d vertices" % g.num_vertices())
    s, t = (np.asarray(x) for x in g.edge_list())
    c.ck(len(w) == len(s), "points_weights", "%d weights for %d edges" % (len(w), len(s)))
    pairs = {(int(min(a, b)), int(max(a, b))) for a, b in zip(s, t)}
    c.ck(len(pairs) == len(s) and all(a != b for a, b in pairs), "points_simple", "self loop or parallel edges")
    c.close(w, D[s, t], "points_distance", "weights", rtol=1e-5, atol=1e-5)
    every = {(i, j) for i in range(n) for j in range(i + 1, n)}
    must, may = set(), set(every)
    eps = 1e-6
    if "knn" in kind:
        A, B = np.zeros((n, n), bool), np.zeros((n, n), bool)
        for i in range(n):
            o = np.sort(np.delete(D[i], i))
            A[i] = (D[i] < o[k - 1] - eps) | ((D[i] <= o[k - 1] + eps) & (k == n - 1 or o[min(k, n - 2)] > o[k - 1] + eps))
            B[i] = D[i] <= o[k - 1] + eps
        A, B = ((A | A.T), (B | B.T)) if sym == "max" else ((A & A.T), (B & B.T))
        must = {e for e in every if A[e]}
        may = {e for e in every if B[e]}
    if kind == "complete":
        must = every
    if "mst" in kind:
        m = minimax(D)
        tree = {e for e in every if D[e] <= m[e] + eps}
        c.ck(len(pairs - (may if "knn" in kind else set())) <= n - 1, "points_mst", "too many edges")
        may = (may | tree) if "knn" in kind else tree
        lab = gen.components(n, s, t)
        c.ck(len(set(lab)) == 1, "points_connected", "the graph is not connected")
        if kind == "mst":
            c.ck(len(s) == n - 1, "points_mst", "%d edges" % len(s))
    c.ck(must <= pairs, "points_missing", "missing edges %s" % sorted(must - pairs))
    c.ck(pairs <= may, "points_extra", "unexpected edges %s" % sorted(pairs - may))
    if kind == "delaunay":
        c.ck(len(set(gen.components(n, s, t))) == 1, "points_connected", "the graph is not connected")
        # the nearest neighbours are joined in a Delaunay triangulation
        i, j = divmod(int(np.argmin(D + np.diag([np.inf] * n))), n)
        if (np.abs(D - D[i, j]) < eps).sum() == 2:
            c.ck((min(i, j), max(i, j)) in pairs, "points_delaunay", "the closest pair is not joined")
        # the relative neighbourhood graph is a subgraph
        for a, b in every:
            if all(max(D[a, x], D[b, x]) < D[a, b] - eps or max(D[a, x], D[b, x]) > D[a, b] + eps for x in range(n) if x not in (a, b)) and \
                    not any(max(D[a, x], D[b, x]) < D[a, b] for x in range(n) if x not in (a, b)) and np.dtype(dt).kind == "f":
                c.ck((a, b) in pairs, "points_delaunay", "%d-%d has an empty lune but is not an edge" % (a, b))
    c.ev("points_" + kind)
    c.note("points", X, kind, sym, k, nontrivial=True)
