"""P03: trees accept exactly valid parent arrays; all navigation agrees."""
import copy
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["tree"]
RULE = ("valid parent arrays (chains, stars, balanced, random, unary nodes, single node), arrays made invalid by one or several edits, uniformly "
        "random arrays, every integer type and layout; a naive predicate decides acceptance; on accepted trees all navigation operations are "
        "compared with the parent array. A case is non-trivial when the array has at least two elements.")
ASSUMPTIONS = ["trees up to 3000 nodes"]


def is_valid(p):
    p = [int(x) for x in p]
    n = len(p)
    if n == 0:
        return None  # the tree with no node is a special case that the property does not cover
    if p[-1] != n - 1:
        return False
    for i in range(n - 1):
        if not (i < p[i] < n):
            return False
    ch = [0] * n
    for i in range(n - 1):
        ch[p[i]] += 1
    nl = 0
    while nl < n and ch[nl] == 0:
        nl += 1
    return all(ch[i] > 0 for i in range(nl, n))


def navigate(c, t, par, deep=True):
    par = np.asarray(par, dtype=np.int64)
    n = len(par)
    ch, nl, depth = gen.tree_info(par)
    if nl == 0 and n:
        nl = n
    c.ck(t.num_vertices() == n and t.num_edges() == n - 1 and t.num_leaves() == nl and t.root() == n - 1, "counts",
         "%s" % ((t.num_vertices(), t.num_edges(), t.num_leaves(), t.root()),))
    c.eq(t.parents(), par, "parents")
    c.ck(list(t.vertices()) == list(range(n)), "vertices")
    c.ck(list(t.leaves()) == list(range(nl)), "leaves")
    for il in (True, False):
        for ir in (True, False):
            want = list(range(0 if il else nl, n if ir else n - 1))
            c.ck(list(t.leaves_to_root_iterator(include_leaves=il, include_root=ir)) == want, "leaves_to_root", "%s %s" % (il, ir))
            c.ck(list(t.root_to_leaves_iterator(include_leaves=il, include_root=ir)) == want[::-1], "root_to_leaves", "%s %s" % (il, ir))
    c.ck([tuple(e) for e in t.edges()] == [(i, int(par[i]), i) for i in range(n - 1)], "edges")
    s, d = t.edge_list()
    c.eq(s, np.arange(n - 1), "edge_list")
    c.eq(d, par[:-1], "edge_list")
    c.eq(t.sources(), np.arange(n - 1), "sources")
    c.eq(t.targets(), par[:-1], "targets")
    nodes = range(n) if n <= 40 else sorted(set(int(x) for x in c.rng.integers(0, n, 30)) | {0, nl - 1, min(nl, n - 1), n - 1})
    for v in nodes:
        kids = list(t.children(v))
        c.ck(sorted(kids) == ch[v], "children", "node %d: %s want %s" % (v, kids, ch[v]))
        c.ck([t.child(i, v) for i in range(len(kids))] == kids, "child")
        c.raises(lambda: t.child(len(kids), v), "child-range")
        c.raises(lambda: t.child(-1, v), "child-range")
        c.ck(t.num_children(v) == len(kids), "num_children")
        c.ck(t.parent(v) == par[v], "parent")
        anc = [v]
        while par[anc[-1]] != anc[-1]:
            anc.append(int(par[anc[-1]]))
        c.ck(t.ancestors(v).tolist() == anc, "ancestors")
        c.ck(t.is_leaf(v) == (v < nl), "is_leaf")
        adj = sorted(ch[v] + ([int(par[v])] if v != n - 1 else []))
        c.ck(sorted(t.adjacent_vertices(v)) == adj, "adjacent_vertices", "node %d" % v)
        c.ck(t.degree(v) == t.in_degree(v) == t.out_degree(v) == len(adj), "degree")
        c.ck(sorted(t.out_edges(v)) == sorted((v, x, min(v, x)) for x in adj), "out_edges")
        c.ck(sorted(t.in_edges(v)) == sorted((x, v, min(v, x)) for x in adj), "in_edges")
        if v < n - 1:
            e = t.edge_from_index(v)
            c.ck(tuple(e) == (v, par[v], v), "edge_from_index")
    ty = gen.dtype(c, [x for x in gen.INT_TYPES if n - 1 <= np.iinfo(x).max])
    va = c.rng.integers(0, n, c.ri(1, 15)).astype(ty)
    vl = gen.layout(c, va)
    vi = va.astype(np.int64)
    nch = np.array([len(x) for x in ch])
    deg = nch + (np.arange(n) != n - 1)
    c.eq(t.parent(vl), par[vi], "parent-array")
    c.eq(t.num_children(vl), nch[vi], "num_children-array")
    c.eq(t.is_leaf(vl), vi < nl, "is_leaf-array")
    for f in ("degree", "in_degree", "out_degree"):
        c.eq(getattr(t, f)(vl), deg[vi], f + "-array")
    k = int(nch[vi].min())
    if k > 0:
        i = c.ri(0, k - 1)
        c.eq(t.child(i, vl), [t.children(int(x))[i] for x in vi], "child-array")
    c.raises(lambda: t.child(k, vl), "child-range")
    c.eq(t.num_children(), nch[nl:], "num_children-default")
    if n > nl and nch[nl:].min() >= 1:
        c.eq(t.child(0), [t.children(x)[0] for x in range(nl, n)], "child-default")
    bad = c.choice([-1, n, n + 3])
    for name in ("parent", "children", "num_children", "is_leaf", "degree", "ancestors", "out_edges", "in_edges", "adjacent_vertices"):
        c.raises(lambda: getattr(t, name)(bad), "accepts-bad", name)
    for name in ("parent", "num_children", "is_leaf", "degree"):
        c.raises(lambda: getattr(t, name)(np.array([0, bad])), "accepts-bad", name)
    c.raises(lambda: t.edge_from_index(c.choice([-1, n - 1, n])), "accepts-bad", "edge_from_index")
    c.ev("nodes_checked", len(nodes))
    return ch, nl, depth


def subtree(c, t, par):
    ch, nl, depth = gen.tree_info(par)
    n = len(par)
    r = c.ri(0, n - 1)
    want = []
    st = [r]
    while st:
        x = st.pop()
        want.append(x)
        st += ch[x]
    want.sort()
    st, nm = t.sub_tree(r)
    c.eq(nm, want, "sub_tree-node-map")
    pos = {x: i for i, x in enumerate(want)}
    wp = [pos[int(par[x])] if x != r else len(want) - 1 for x in want]
    c.eq(st.parents(), wp, "sub_tree-parents")
    c.ck(st.category() == t.category(), "sub_tree-category")
    bad = c.choice([-1, n])
    c.raises(lambda: t.sub_tree(bad), "accepts-bad", "sub_tree")


def regions(c, t, par):
    n = len(par)
    ty = gen.dtype(c)
    # increasing altitudes
    alt = np.zeros(n, dtype=np.int64)
    nl = t.num_leaves()
    order = np.zeros(n, dtype=np.int64)
    for i in range(n):
        alt[i] = max(alt[i], 0)
        step = c.ri(0, 2)
        if i < n - 1:
            alt[par[i]] = max(alt[par[i]], alt[i] + step)
    if ty.kind in "if" and c.p(0.4):
        alt = alt - c.ri(0, int(alt.max()) + 1)
    if ty.itemsize == 1 and alt.max() > 100:
        ty = np.dtype(np.int32)
    a = alt.astype(ty)
    if ty.kind == "f" and c.p(0.5):
        a = a + np.array(0.25, ty)
    v = c.rng.integers(0, n, 12)
    lv = c.rng.choice(np.concatenate([a, a + 1]), 12).astype(ty)

    def want(x, l):
        while par[x] != x and a[par[x]] < l:
            x = par[x]
        return x
    w = [want(int(x), l) for x, l in zip(v, lv)]
    c.eq(t.find_region(v, lv, gen.layout(c, a)), w, "find_region")
    c.eq([t.find_region(int(x), l, a) for x, l in zip(v, lv)], w, "find_region-scalar")
    c.eq(t.find_region(v, lv[0], a), [want(int(x), lv[0]) for x in v], "find_region-level")
    # definition: largest node containing v of altitude lower than the level, v if there is none
    for x, l, g in zip(v, lv, w):
        s = [int(x)]
        while par[s[-1]] != s[-1]:
            s.append(int(par[s[-1]]))
        below = [y for y in s if a[y] < l]
        c.ck(g == (max(below) if below else x), "find_region-definition")


@family("valid", quick=1500)
def f1(c):
    par = gen.parents(c, maxleaves=25)
    ty = gen.dtype(c, [x for x in gen.INT_TYPES if len(par) - 1 <= np.iinfo(x).max])
    a = gen.layout(c, par.astype(ty))
    cat = c.choice([hg.TreeCategory.PartitionTree, hg.TreeCategory.ComponentTree])
    c.inp(parents=a)
    c.note(a, nontrivial=len(par) > 1)
    t = hg.Tree(a, cat) if c.p(0.7) else hg.Tree(par.tolist(), cat) if c.p(0.5) else hg.Tree(tuple(par.tolist()), category=cat)
    c.ck(t.category() == cat, "category")
    navigate(c, t, par)
    subtree(c, t, par)
    regions(c, t, par)
    if c.p(0.3):
        t.clear_children()
        navigate(c, t, par)
    if c.p(0.2):
        navigate(c, copy.copy(t), par)
        navigate(c, copy.deepcopy(t), par)


@family("to-graph", quick=400)
def f2(c):
    par = gen.parents(c, maxleaves=25)
    n = len(par)
    t = hg.Tree(par)
    nl = t.num_leaves()
    c.inp(parents=par)
    c.note(par, nontrivial=n > 1)
    g = t.to_undirected_graph()
    c.ck(g.num_vertices() == n, "to-graph")
    s, d = g.edge_list()
    c.ck([sorted(x) for x in zip(s.tolist(), d.tolist())] == [[i, int(par[i])] for i in range(n - 1)], "to-graph-edges")
    g = t.to_undirected_graph(include_leaves=False)
    s, d = g.edge_list()
    if n > 1:
        c.ck(g.num_vertices() == n - nl, "to-graph-noleaves")
        c.ck([sorted(x) for x in zip(s.tolist(), d.tolist())] == [[i - nl, int(par[i]) - nl] for i in range(nl, n - 1)],
             "to-graph-noleaves-edges")


@family("acceptance", quick=6000)
def f3(c):
    k = c.ri(0, 3)
    if k == 0:  # uniformly random small array
        n = c.ri(1, 6)
        a = c.rng.integers(0, n + (1 if c.p(0.2) else 0), n)
        if c.p(0.6):
            a[-1] = n - 1
    elif k == 1:  # random array with larger parents
        n = c.ri(1, 9)
        a = np.array([c.ri(min(i + 1, n - 1), n - 1) for i in range(n)])
    else:
        a = gen.parents(c, maxleaves=12)
        n = len(a)
        for _ in range(c.ri(0, 2)):
            m = c.ri(0, 6)
            i = c.ri(0, n - 1)
            if m == 0:
                a[i] = c.choice([-1, -2, n, n + 1, 2 * n + 5, 10 ** 6, -10 ** 9])
            elif m == 1:
                a[i] = i
            elif m == 2:
                a[i] = c.ri(0, n - 1)
            elif m == 3:
                j = c.ri(0, n - 1)
                a[i], a[j] = a[j], a[i]
            elif m == 4:
                a[i] = max(0, i - 1)
            elif m == 5:
                a = np.delete(a, i) if n > 1 else a
                n = len(a)
            else:
                a = np.insert(a, i, c.ri(0, n))
                n = len(a)
    a = np.asarray(a, dtype=np.int64)
    ty = c.choice([np.int64, np.int32, np.int64, np.int16, np.uint8, np.int8, np.uint64, np.uint32])
    if len(a) and (a.max() > np.iinfo(ty).max or a.min() < np.iinfo(ty).min):
        ty = np.int64
    a = a.astype(ty)
    v = is_valid(a)
    c.inp(parents=a)
    c.note(a, nontrivial=len(a) > 1)
    if v is None:
        return
    try:
        t = hg.Tree(a)
        acc = True
    except Exception as e:
        acc = False
    c.ev("accepted" if acc else "rejected")
    c.ck(acc == v, "acceptance", "Tree(%s) %s" % (a.tolist(), "accepted" if acc else "rejected"))
    if acc:
        navigate(c, t, a)


@family("malformed", quick=200)
def f4(c):
    par = gen.parents(c, maxleaves=6)
    c.note(par)
    c.raises(lambda: hg.Tree(np.stack([par, par])), "accepts-bad", "2d")
    c.raises(lambda: hg.Tree(par.reshape(1, -1)), "accepts-bad", "1xn")
    c.raises(lambda: hg.Tree("abc"), "accepts-bad", "string")
    c.raises(lambda: hg.Tree(None), "accepts-bad", "none")
    t = hg.Tree(par)
    n = len(par)
    c.raises(lambda: t.find_region(0, 1.0, np.zeros(n - 1)), "accepts-bad", "find_region size")
    c.raises(lambda: t.find_region(np.array([0, 0]), np.zeros(1), np.zeros(n)), "accepts-bad", "find_region levels")


@family("large", quick=30, thorough=400)
def f5(c):
    par = gen.parents(c, nleaves=c.ri(200, 1200))
    c.inp(nleaves=len(par))
    c.note(par)
    t = hg.Tree(par)
    navigate(c, t, par)
    subtree(c, t, par)
    regions(c, t, par)
