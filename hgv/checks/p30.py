"""P30: constrained connectivity hierarchies and random hierarchies."""
import random
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["hierarchy_core", "graph_core", "graph_weights", "tree_accumulators", "tree", "tree_attributes", "sorting"]
RULE = ("connected graphs (grids with 4 or 8 neighbours, random graphs with parallel edges and self loops, paths, stars, complete graphs; 2 to 60 vertices) with non-negative weights rich in ties and in near ties; oracle: "
        "enumerate the connected components of every threshold of the edge weights as sets of vertices, measure range and merge level of each on its vertices and edges, keep those whose constraint value is below their merge level; "
        "the tree must have exactly these nodes at exactly these levels. Random hierarchies over many generator states: structure, balance bounds, altitudes, associated spanning tree and reproducibility. "
        "Non-trivial: at least one component rejected by the constraint.")
ASSUMPTIONS = ["non-negative edge weights, connected graphs, no self loop for strong connection"]


def make_graph(c):
    k = c.choice(["grid4", "grid8", "random", "path", "star", "complete", "multi"])
    c.ev("graph_" + k)
    if k.startswith("grid"):
        h, w = c.ri(1, 6), c.ri(2, 7)
        g = (hg.get_4_adjacency_graph if k == "grid4" else hg.get_8_adjacency_graph)((h, w))
        s, t = g.edge_list()
        return g, h * w, list(zip(s.tolist(), t.tolist())), (h, w)
    n = c.ri(2, 9) if k == "complete" else c.ri(2, 40)
    if k == "path":
        e = [(i, i + 1) for i in range(n - 1)]
    elif k == "star":
        e = [(0, i) for i in range(1, n)]
    elif k == "complete":
        e = [(i, j) for i in range(n) for j in range(i + 1, n)]
    else:
        e = [(int(c.rng.integers(0, i)), i) for i in range(1, n)]
        for _ in range(c.ri(0, 2 * n)):
            a, b = c.ri(0, n - 1), c.ri(0, n - 1)
            if a != b or k == "multi":
                e.append((a, b))
    p = c.rng.permutation(n)
    e = [(int(p[a]), int(p[b])) for a, b in e]
    c.rng.shuffle(e)
    e = [(int(a), int(b)) for a, b in e]
    g = hg.UndirectedGraph(n)
    for a, b in e:
        g.add_edge(a, b)
    return g, n, e, (n,)


def components(n, e, w):
    """{frozenset: (first level, merge level)} of all components of all thresholds of w (whole set: merge level inf)"""
    out = {}
    live = {frozenset([i]): 0 for i in range(n)}
    for lv in sorted(set([0] + [float(x) for x in w])):
        lab = list(range(n))

        def find(x):
            while lab[x] != x:
                x = lab[x]
            return x
        for (a, b), x in zip(e, w):
            if x <= lv:
                lab[find(a)] = find(b)
        comp = {}
        for i in range(n):
            comp.setdefault(find(i), []).append(i)
        new = set(frozenset(x) for x in comp.values())
        for s in list(live):
            if s not in new:
                out[s] = (live.pop(s), lv)
        for s in new:
            live.setdefault(s, lv)
    for s, lv in live.items():
        out[s] = (lv, np.inf)
    return out


def expected(n, comps, measure):
    nodes, rejected = {}, 0
    for s, (first, merge) in comps.items():
        if len(s) == n:
            nodes[s] = first
        elif len(s) > 1:
            m = measure(s)
            if m < merge:
                nodes[s] = max(first, m)
            else:
                rejected += 1
    return nodes, rejected


def tree_nodes(c, tree, alt, n):
    c.ck(tree.num_leaves() == n, "leaves", "%d leaves for %d vertices" % (tree.num_leaves(), n))
    p = tree.parents()
    sets = [set() for _ in range(tree.num_vertices())]
    for i in range(n):
        sets[i].add(i)
    for i in range(len(p) - 1):
        sets[p[i]] |= sets[i]
    out = {}
    for i in range(n, len(p)):
        s = frozenset(sets[i])
        c.ck(s not in out, "duplicated", "node %d duplicates a region" % i)
        out[s] = float(alt[i])
    c.eq(np.asarray(alt)[:n], np.zeros(n), "leaf_altitudes")
    c.ck(np.all(np.asarray(alt) <= np.asarray(alt)[p]), "increasing", "altitudes decrease towards the root")
    return out


def compare(c, got, want):
    for s, lv in want.items():
        c.ck(s in got, "missing", "region %s of level %s is missing" % (sorted(s)[:30], lv))
        c.ck(got[s] == lv, "level", "region %s has level %s, expected %s" % (sorted(s)[:30], got[s], lv))
    for s, lv in got.items():
        c.ck(s in want, "unexpected", "region %s of level %s does not satisfy the constraint (or is not a component)" % (sorted(s)[:30], lv))


def weights(c, n, dt):
    k = c.choice(["few", "small", "wide", "ramp", "real", "digits"])
    if k == "few":
        a = c.rng.integers(0, c.ri(2, 5), n)
    elif k == "small":
        a = c.rng.integers(0, 20, n)
    elif k == "wide":
        a = c.rng.integers(0, 120, n)
    elif k == "ramp":
        a = np.arange(n) * c.ri(1, 3) % 100 + c.rng.integers(0, 2, n)
    elif k == "digits" and dt == "f8":
        a = c.rng.integers(0, c.choice([4, 30]), n) / 10
    elif k == "digits" and dt in ("i4", "i8"):
        a = 2**24 + c.rng.integers(0, c.choice([4, 30]), n)
    else:
        a = c.rng.integers(0, 400, n) / 4.0
    return a.astype(dt)


@family("alpha_omega", 1800, 30000, asan=300)
def alpha_omega(c):
    g, n, e, shape = make_graph(c)
    f = weights(c, n, c.choice(["f8", "f8", "f4", "i4", "i8", "u1", "u2", "i1"]))
    if c.p(0.2) and f.dtype.kind in "if":
        f = (f.astype("f8") - 40).astype(f.dtype)
    if c.p(0.3) and f.dtype == np.uint8:
        f = c.rng.choice(np.array([0, 1, 127, 128, 254, 255], np.uint8), n)
    arg = f.reshape(shape) if c.p(0.5) else f
    before = arg.copy()
    c.inp(n=n, edges=e, f=f)
    tree, alt = hg.constrained_connectivity_hierarchy_alpha_omega(g, arg)
    c.eq(arg, before, "input_modified")
    ff = f.astype(float)
    w = [abs(ff[a] - ff[b]) for a, b in e]
    want, rej = expected(n, components(n, e, w), lambda s: max(ff[i] for i in s) - min(ff[i] for i in s))
    compare(c, tree_nodes(c, tree, alt, n), want)
    c.ck(hg.CptHierarchy.validate(tree) and hg.CptHierarchy.get_leaf_graph(tree) is g, "link", "leaf graph not linked")
    c.ev("rejected_components", rej)
    c.ev("kept_components", len(want))
    c.note(e, f, nontrivial=rej > 0)


@family("strong", 1800, 30000, asan=300)
def strong(c):
    g, n, e, shape = make_graph(c)
    if any(a == b for a, b in e):
        e = [(a, b) for a, b in e if a != b]
        g = hg.UndirectedGraph(n)
        for a, b in e:
            g.add_edge(a, b)
    w = weights(c, len(e), c.choice(["f8", "f8", "f4", "i4", "i8", "u1", "u2"]))
    before = w.copy()
    c.inp(n=n, edges=e, w=w)
    tree, alt = hg.constrained_connectivity_hierarchy_strong_connection(g, w)
    c.eq(w, before, "input_modified")
    ww = w.astype(float)
    want, rej = expected(n, components(n, e, ww), lambda s: max([0.0] + [x for (a, b), x in zip(e, ww) if a in s and b in s]))
    compare(c, tree_nodes(c, tree, alt, n), want)
    c.ck(hg.CptHierarchy.validate(tree) and hg.CptHierarchy.get_leaf_graph(tree) is g, "link", "leaf graph not linked")
    c.ev("rejected_components", rej)
    c.ev("kept_components", len(want))
    c.note(e, w, nontrivial=rej > 0)


@family("vector_rejected", 30, 200, asan=10)
def vector_rejected(c):
    h, w = c.ri(1, 4), c.ri(2, 4)
    g = hg.get_4_adjacency_graph((h, w))
    f = c.rng.random((h, w, c.ri(2, 3)))
    c.raises(lambda: hg.constrained_connectivity_hierarchy_alpha_omega(g, f), "vector_weights")
    c.note(f)


@family("documented_definition", 2, 2, asan=1)
def documented_definition(c):
    """the documented definition keeps every component with range < the smallest range or level of its parent, see known_findings.txt"""
    if c.idx == 0:
        g = hg.get_4_adjacency_graph((3, 3))
        f = np.asarray(((1, 2, 3), (5, 6, 5), (22, 21, 20)))
        tree, alt = hg.constrained_connectivity_hierarchy_alpha_omega(g, f)
        got = tree_nodes(c, tree, alt, 9)
        c.ck(got.get(frozenset([0, 1, 2])) == 2, "documented-alpha-omega", "{0,1,2} is a 2-2-connected component but no node: %s" % got)
    else:
        g = hg.UndirectedGraph(4)
        g.add_edges((0, 1, 0, 2, 1), (1, 2, 2, 3, 3))
        tree, alt = hg.constrained_connectivity_hierarchy_strong_connection(g, np.asarray((1., 1., 2., 2., 5.)))
        got = tree_nodes(c, tree, alt, 4)
        c.ck(got.get(frozenset([0, 1, 2])) == 2, "documented-strong", "{0,1,2} is a 2-strongly connected component but no node: %s" % got)
    c.note(c.idx)


@family("random_tree", 700, 10000, asan=100)
def random_tree(c):
    n = c.choice([1, 2, 3, c.ri(4, 12), c.ri(4, 70), 64])
    p = c.choice([0, 1, 0.5, float(c.rng.random()), 0.1, 0.9])
    s = c.ri(0, 10**6)
    c.inp(n=n, p=p, state=s)
    random.seed(s)
    tree, alt = hg.random_binary_partition_tree(n, p)
    par = tree.parents()
    N = 2 * n - 1
    c.ck(tree.num_vertices() == N and tree.num_leaves() == n, "size", "%d nodes, %d leaves, expected %d leaves" % (tree.num_vertices(), tree.num_leaves(), n))
    ch = [[] for _ in range(N)]
    depth = [0] * N
    for i in range(N - 2, -1, -1):
        depth[i] = depth[par[i]] + 1
    for i in range(N - 1):
        ch[par[i]].append(i)
    c.ck(all(len(ch[i]) == 0 for i in range(n)) and all(len(ch[i]) == 2 for i in range(n, N)), "binary", str(par))
    ld = depth[:n]
    if p == 0:
        c.ck(max(ld) - min(ld) <= 1, "balanced", "leaf depths %s" % ld)
    if p == 1 and n > 1:
        c.ck(all(any(x < n for x in ch[i]) for i in range(n, N)), "unbalanced", str(par))
    if n > 1:
        height = [0] * N
        md = max(depth)
        # regular altitudes: 1 - depth / (number of levels), leaves at 0
        want = np.array([0.0 if i < n else 1.0 - depth[i] / md for i in range(N)])
        c.close(alt, want, "altitudes")
        sets = [[i] if i < n else [] for i in range(N)]
        for i in range(N - 1):
            sets[par[i]] = sets[par[i]] + sets[i]
        g = hg.CptHierarchy.get_leaf_graph(tree)
        c.ck(g.num_vertices() == n and g.num_edges() == n - 1, "graph", "leaf graph %d %d" % (g.num_vertices(), g.num_edges()))
        sm = hg.saliency(tree, alt)
        es, et = g.edge_list()

        def lca(a, b):
            while a != b:
                a, b = (par[a], b) if a < b else (a, par[b])
            return a
        seen = set()
        for a, b, v in zip(es.tolist(), et.tolist(), sm):
            x = lca(a, b)
            c.ck(x not in seen, "spanning", "two edges for node %d" % x)
            seen.add(x)
            c.ck(v == alt[x], "saliency", "edge %d-%d: %s, node has %s" % (a, b, v, alt[x]))
        c.ck(hg.CptBinaryHierarchy.validate(tree), "concept", "not a binary hierarchy")
        mst = hg.CptBinaryHierarchy.get_mst(tree)
        c.ck(mst is g or mst == g, "mst", "mst is not the leaf graph")
        c.eq(hg.CptBinaryHierarchy.get_mst_edge_map(tree), np.arange(n - 1), "mst_edge_map")
        # rebuilding the hierarchy from its graph gives the same regions
        if len(set(alt[n:].tolist())) == n - 1:
            t2, a2 = hg.bpt_canonical(g, sm)
            c.ck(sorted(a2.tolist()) == sorted(alt.tolist()), "rebuild", "altitudes differ")
    random.seed(s)
    t3, a3 = hg.random_binary_partition_tree(n, p)
    c.eq(t3.parents(), par, "reproducible")
    c.eq(a3, alt, "reproducible")
    c.note(n, p, s, nontrivial=n > 2)


@family("random_distribution", 12, 60, asan=2)
def random_distribution(c):
    """the share of nodes with two growable children follows the asymmetry probability"""
    p = c.choice([0.2, 0.5, 0.8])
    random.seed(c.ri(0, 10**9))
    dist = set()
    for _ in range(40):
        t, _ = hg.random_binary_partition_tree(9, p)
        dist.add(tuple(t.parents().tolist()))
    c.ck(len(dist) >= 5, "diversity", "only %d distinct trees out of 40" % len(dist))
    # total depth of leaves of large trees grows with the asymmetry
    def cost(q):
        tot = 0
        for _ in range(6):
            t, _ = hg.random_binary_partition_tree(200, q)
            tot += int(np.sum(hg.attribute_depth(t)[:200]))
        return tot
    a, b, d = cost(0.02), cost(0.6), cost(0.98)
    c.ck(a < b < d, "asymmetry", "total depths %s" % ((a, b, d),))
    c.ev("distinct_random_trees", len(dist))
    c.note(p, a, b, d)
