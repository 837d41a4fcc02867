"""P04: lowest common ancestors are exact with every algorithm and block size."""
import pickle, copy
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = []
RULE = ("random trees (random/chain/balanced/star/wide/unary shapes, 1 to several thousand nodes) and node pairs; "
        "all pairs on small trees, random and adversarial (equal, nested, last/first leaf) pairs on large ones; "
        "each query is answered by the plain search, the sparse table and the block decomposition with random block "
        "sizes, before and after saving/restoring, and compared with an ancestor walk. A case is non-trivial when the "
        "tree has at least two nodes.")
ASSUMPTIONS = ["trees up to 12000 nodes"]


def naive_lca(par, depth, a, b):
    a, b = np.array(a, dtype=np.int64), np.array(b, dtype=np.int64)
    while True:
        m = a != b
        if not m.any():
            return a
        ga = m & (depth[a] >= depth[b])
        gb = m & (depth[b] >= depth[a])
        a = np.where(ga, par[a], a)
        b = np.where(gb, par[b], b)


def pairs(c, n, k):
    a = c.rng.integers(0, n, k)
    b = c.rng.integers(0, n, k)
    s = c.rng.random(k)
    near = np.clip(a + c.rng.integers(-3, 4, k), 0, n - 1)
    b = np.where(s < 0.3, near, b)
    return a, b


def algos(c, t, par, nmax_bs):
    out = [("plain", None)]
    out.append(("sparse_table", hg.LCA_rmq_sparse_table(t)))
    bss = [1, 2, 3, 1024] + [c.ri(1, max(2, nmax_bs)) for _ in range(3)]
    for bs in c.rng.choice(bss, 3, replace=False):
        out.append(("block%d" % bs, hg.LCA_rmq_sparse_table_block(t, int(bs))))
    return out


def ask(c, t, obj, a, b):
    if obj is None:
        return t.lowest_common_ancestor(a, b)
    return obj.lca(a, b)


def run(c, par, a, b, full):
    ch, nl, depth = gen.tree_info(par)
    n = len(par)
    want = naive_lca(par, depth, a, b)
    t = hg.Tree(par)
    c.inp(parents=par, a=a, b=b)
    c.note(par, a, b, nontrivial=n > 1)
    for name, obj in algos(c, t, par, 2 * n + 3):
        c.ev("queries", len(a))
        c.eq(ask(c, t, obj, a, b), want, "lca:" + name.rstrip("0123456789"), name)
        for i in c.rng.integers(0, len(a), 5 if full else 20):
            r = ask(c, t, obj, int(a[i]), int(b[i]))
            c.ck(r == want[i], "lca-scalar:" + name.rstrip("0123456789"), "%s lca(%d,%d)=%s want %d" % (name, a[i], b[i], r, want[i]))
        ty = gen.dtype(c, gen.INT_TYPES)
        k = (a <= np.iinfo(ty).max) & (b <= np.iinfo(ty).max)
        if k.any():
            aa, bb = gen.layout(c, a[k].astype(ty)), gen.layout(c, b[k].astype(ty))
            c.eq(ask(c, t, obj, aa, bb), want[k], "lca-type:" + name.rstrip("0123456789"), "%s %s" % (name, ty))
        if obj is not None and (not full or c.p(0.3)):
            for how in ("pickle", "copy"):
                o2 = pickle.loads(pickle.dumps(obj)) if how == "pickle" else copy.copy(obj)
                if c.p(0.5):
                    # the restored object must not depend on the original one
                    o3 = o2
                else:
                    o3 = pickle.loads(pickle.dumps(o2))
                del o2
                c.eq(o3.lca(a, b), want, "lca-restored", name + " " + how)
    # API on the tree itself: preprocessing changes nothing but speed
    alg = c.choice(["sparse_table", "sparse_table_block"])
    bs = c.ri(1, 2 * n)
    r = t.lowest_common_ancestor_preprocess(alg, bs)
    c.eq(t.lowest_common_ancestor(a, b), want, "lca-preprocessed", alg)
    r2 = t.lowest_common_ancestor_preprocess("sparse_table" if alg != "sparse_table" else "sparse_table_block", c.ri(1, 50),
                                             force_recompute=c.p(0.5))
    c.eq(t.lowest_common_ancestor(a, b), want, "lca-preprocessed", "recomputed")
    c.eq(r2.lca(a, b), want, "lca-preprocessed", "returned object")
    return t, want


@family("small-all-pairs", quick=1600)
def small(c):
    par = gen.parents(c, maxleaves=14)
    n = len(par)
    i, j = np.mgrid[0:n, 0:n]
    run(c, par, i.ravel(), j.ravel(), True)


@family("medium", quick=500)
def medium(c):
    par = gen.parents(c, maxleaves=150)
    a, b = pairs(c, len(par), 300)
    run(c, par, a, b, False)


def big_parents(c):
    """large trees, built fast: recursive random attachment"""
    style = c.choice(["recursive", "comb", "binary", "longchain", "mixed"])
    n = c.ri(500, 4000 if style in ("comb", "longchain") else 8000)
    rng = c.rng
    nl = c.ri(2, n - 2) if style not in ("comb", "binary") else n // 2
    m = n - nl
    par = np.zeros(n, dtype=np.int64)
    if style == "comb":
        par[nl:n - 1] = np.arange(nl + 1, n)
        par[:nl] = rng.integers(nl, n, nl)
    elif style == "longchain":
        par[nl:n - 1] = np.arange(nl + 1, n)
        par[:nl] = rng.integers(nl, min(n, nl + 5), nl)
    else:
        idx = np.arange(nl, n - 1)
        if style == "mixed":
            par[nl:n - 1] = np.minimum(n - 1, idx + 1 + (rng.pareto(1.0, len(idx)) * 2).astype(np.int64))
        else:
            par[nl:n - 1] = idx + 1 + (rng.random(len(idx)) * (n - 1 - idx)).astype(np.int64)
        par[:nl] = rng.integers(nl, n, nl)
    par[n - 1] = n - 1
    # every internal node needs a child: give childless ones a leaf
    has = np.zeros(n, bool)
    has[par[:n - 1]] = True
    has[:nl] = True
    for k, x in enumerate(np.flatnonzero(~has)):
        # steal: reattach a leaf whose parent has another child
        par = steal(par, nl, int(x))
    return par


def steal(par, nl, x):
    cnt = np.bincount(par[:-1], minlength=len(par))
    for l in range(nl):
        if cnt[par[l]] > 1:
            par[l] = x
            return par
    # otherwise x takes the place of nothing: attach x below a leaf parent chain
    l = 0
    p = par[l]
    # insert impossible: hook the first node smaller than x with largest parent
    for y in range(x):
        if par[y] > x:
            par[y] = x
            return par
    return par


def valid(par):
    n = len(par)
    ch, nl, _ = gen.tree_info(par)
    return all(ch[i] for i in range(nl, n)) and all(par[i] > i for i in range(n - 1))


@family("large", quick=60, thorough=1500, asan=16)
def large(c):
    par = big_parents(c)
    if not valid(par):
        nl = c.ri(200, 1500)
        par = gen.parents(c, nleaves=nl, style=c.choice(["random", "balanced", "chain"]))
    a, b = pairs(c, len(par), 1500)
    ch, nl, depth = gen.tree_info(par)
    want = naive_lca(par, depth, a, b)
    t = hg.Tree(par)
    c.inp(parents=par)
    c.note(par)
    c.ev("large_nodes", len(par))
    c.eq(t.lowest_common_ancestor(a, b), want, "lca:plain")
    c.eq(hg.LCA_rmq_sparse_table(t).lca(a, b), want, "lca:sparse_table")
    for bs in (1, 1024, 2, c.ri(3, 60), c.ri(61, 3000), 2 * len(par) - 1):
        o = hg.LCA_rmq_sparse_table_block(t, bs)
        c.ev("queries", len(a))
        c.eq(o.lca(a, b), want, "lca:block", "block size %d" % bs)
        if c.p(0.3):
            o = pickle.loads(pickle.dumps(o))
            c.eq(o.lca(a, b), want, "lca-restored", "block size %d" % bs)
    c.eq(t.lowest_common_ancestor_preprocess().lca(a, b), want, "lca:default")


@family("graph-edges", quick=800)
def gedges(c):
    n, s, d = gen.graph(c, maxn=25)
    par = gen.parents(c, nleaves=n)
    ch, nl, depth = gen.tree_info(par)
    if nl != n:
        par = np.concatenate([np.full(n, n), [n]]).astype(np.int64)
        ch, nl, depth = gen.tree_info(par)
    t = hg.Tree(par)
    g = gen.make_graph(hg, n, s, d)
    want = naive_lca(par, depth, s, d)
    c.inp(parents=par, s=s, d=d)
    c.note(par, s, d, nontrivial=len(s) > 0)
    if len(s) == 0:
        return
    for name, obj in algos(c, t, par, 2 * n):
        if obj is not None:
            c.eq(obj.lca(g), want, "lca-graph", name)
    hg.CptHierarchy.link(t, g)
    c.eq(hg.attribute_lca_map(t), want, "lca-map")


@family("bad-arguments", quick=300)
def bad(c):
    par = gen.parents(c, maxleaves=20)
    n = len(par)
    t = hg.Tree(par)
    c.note(par)
    v = c.choice([-1, -2, n, n + 1, 10 ** 6])
    w = c.ri(0, n - 1)
    for name, obj in algos(c, t, par, 2 * n):
        f = t.lowest_common_ancestor if obj is None else obj.lca
        c.raises(lambda: f(v, w), "lca-accepts-bad", name)
        c.raises(lambda: f(w, v), "lca-accepts-bad", name)
        c.raises(lambda: f(np.array([w, v]), np.array([w, w])), "lca-accepts-bad", name)
        c.raises(lambda: f(np.array([w, w]), np.array([v, w])), "lca-accepts-bad", name)
        c.raises(lambda: f(np.array([w, w, w]), np.array([w, w])), "lca-accepts-bad", name)
    c.raises(lambda: t.lowest_common_ancestor_preprocess("sparse_table_block", 0), "lca-bad-block")
    c.raises(lambda: t.lowest_common_ancestor_preprocess("nope"), "lca-bad-algo")
