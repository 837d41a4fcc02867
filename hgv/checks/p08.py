"""P08: simplification, filtering, canonisation, binarisation, sorting and comparison of trees."""
import numpy as np
import higra as hg
from hgv import gen, order
from hgv.core import family
from hgv.oracles import level_components, hierarchy

UNITS = ["hierarchy_core", "tree", "graph_core", "tree_attributes", "tree_accumulators", "sorting"]
RULE = ("random trees (all shapes, unary chains, single node) with random deletion masks (none, all, leaves, whole branches), altitudes with ties, "
        "both leaf modes and both tree categories; hierarchies on random graphs filtered by size, frontier strength and arbitrary relevance masks; "
        "pairs of isomorphic and nearly isomorphic trees; compared with definitions evaluated on the parent array and on leaf sets. "
        "Non-trivial: the tree has an internal node. Family limits: the same ranks are given as small integers and as extreme or neighbouring values of every type (infinities, subnormals, largest integers): results must correspond.")
ASSUMPTIONS = ["trees with up to about 60 leaves", "filters are compared for non-negative altitudes, where marking a frontier with 0 removes it"]
CAT = [hg.TreeCategory.PartitionTree, hg.TreeCategory.ComponentTree]


def mktree(c, par):
    cat = c.choice(CAT)
    return hg.Tree(par, cat), cat


def lay(c, a):
    return gen.layout(c, a) if len(a) > 1 else a


@family("simplify", quick=4000)
def simplify(c):
    par = gen.parents(c, maxleaves=30) if c.p(0.97) else np.array([0])
    n = len(par)
    ch, nl, _ = gen.tree_info(par)
    nl = nl or n
    leaves = c.p(0.5)
    style = c.choice(["random", "random", "few", "most", "none", "all", "branches", "leaves"])
    mask = c.rng.random(n) < {"random": 0.5, "few": 0.1, "most": 0.9, "none": -1, "all": 2, "branches": 0.2, "leaves": 0.3}[style]
    if style == "branches":
        for i in range(n - 2, -1, -1):
            mask[i] |= mask[par[i]] and par[i] != n - 1 and c.p(0.95)
    elif style == "leaves":
        mask[:nl] = True
    t, cat = mktree(c, par)
    c.inp(parents=par, mask=mask, process_leaves=leaves)
    c.note(par, mask, leaves, nontrivial=n > nl)
    keep = [i for i in range(n) if not mask[i] or i == n - 1 or (not leaves and i < nl)]
    m = lay(c, mask if c.p(0.8) else mask.astype(c.choice([np.int32, np.uint8, np.float64])))
    if leaves or c.p(0.5):
        r, nm = hg.simplify_tree(t, m, leaves)
    else:
        r, nm = hg.simplify_tree(t, m)
    nm, rp = np.asarray(nm), np.asarray(r.parents())
    c.ck(r.category() == cat, "simplify-category")
    c.ck(sorted(nm.tolist()) == keep, "simplify-kept", "got %s want %s" % (nm.tolist(), keep))
    c.ck(rp.shape == nm.shape, "simplify-size")
    ks = set(keep)
    for i in range(len(nm)):
        x = int(nm[i])
        p = int(par[x])
        while p not in ks:
            p = int(par[p])
        c.ck(int(nm[rp[i]]) == p, "simplify-parent", "node %d (%d): parent %d want %d" % (i, x, nm[rp[i]], p))
    rch, rnl, _ = gen.tree_info(rp)
    c.ck(all(rch[i] for i in range(rnl, len(rp))) and (rp[:-1] > np.arange(len(rp) - 1)).all() and rp[-1] == len(rp) - 1, "simplify-valid")
    c.ck(r.num_leaves() == max(rnl, 1), "simplify-leaves")
    if not leaves:
        c.eq(nm[:nl], np.arange(nl), "simplify-leaf-order")
    c.ev("kept", len(keep))
    c.ev("removed", n - len(keep))
    c.ev("process_leaves" if leaves else "keep_leaves")


def multi(par):
    """multiset of leaf sets of the internal nodes"""
    ch, nl, _ = gen.tree_info(par)
    b = gen.leaves_below(par)
    return nl, sorted(tuple(b[i]) for i in range(nl, len(par)))


@family("canonize", quick=1500)
def canonize(c):
    par = gen.parents(c, maxleaves=25)
    n = len(par)
    ch, nl, _ = gen.tree_info(par)
    dt = gen.dtype(c)
    alt = gen.values(c, n, dt, style=c.choice(["few", "ties", "const", "mid"]))
    if c.p(0.6):  # increasing
        for i in range(nl, n):
            alt[i] = max([alt[i]] + [alt[k] for k in ch[i]])
    t, cat = mktree(c, par)
    c.inp(parents=par, altitudes=alt)
    c.note(par, alt, nontrivial=n > nl)
    keep = [i for i in range(n) if i < nl or i == n - 1 or alt[i] != alt[par[i]]]
    r, ra, nm = hg.canonize_hierarchy(t, alt, return_node_map=True)
    c.ck(sorted(np.asarray(nm).tolist()) == keep, "canonize-kept", "%s want %s" % (nm, keep))
    c.eq(ra, alt[nm], "canonize-altitudes")
    rp = np.asarray(r.parents())
    for i in range(len(nm)):
        p = int(par[nm[i]])
        while p not in keep:
            p = int(par[p])
        c.ck(int(nm[rp[i]]) == p, "canonize-parent")
    two = hg.canonize_hierarchy(t, alt)
    c.eq(two[0].parents(), rp, "canonize-same")
    c.eq(two[1], ra, "canonize-same")


@family("binary", quick=1500)
def binary(c):
    par = gen.parents(c, maxleaves=25, unary=c.p(0.2))
    n = len(par)
    ch, nl, _ = gen.tree_info(par)
    t, cat = mktree(c, par)
    c.inp(parents=par)
    c.note(par, nontrivial=n > nl)
    if any(len(ch[i]) < 2 for i in range(nl, n)):
        c.raises(lambda: hg.tree_2_binary_tree(t), "unary-accepted")
        c.ev("unary_rejected")
        return
    r, nm = hg.tree_2_binary_tree(t)
    nm, rp = np.asarray(nm), np.asarray(r.parents())
    c.ck(r.category() == cat, "binary-category")
    rch, rnl, _ = gen.tree_info(rp)
    c.ck(rnl == nl and len(rp) == max(1, 2 * nl - 1) and all(len(rch[i]) == 2 for i in range(nl, len(rp))), "binary-shape", str(rp.tolist()))
    c.eq(nm[:nl], np.arange(nl), "binary-leaves")
    b = gen.leaves_below(par)
    want = [(tuple(b[i]), i) for i in range(nl)]
    for i in range(nl, n):
        acc = list(b[ch[i][0]])
        for k in ch[i][1:]:
            acc = sorted(acc + b[k])
            want.append((tuple(acc), i))
    rb = gen.leaves_below(rp)
    got = [(tuple(rb[i]), int(nm[i])) for i in range(len(rp))]
    c.ck(sorted(got) == sorted(want), "binary-regions", "got %s want %s" % (got, want))


@family("sort", quick=1500)
def sort(c):
    par = gen.parents(c, maxleaves=25)
    n = len(par)
    ch, nl, _ = gen.tree_info(par)
    alt = gen.values(c, n, gen.dtype(c), style=c.choice(["few", "ties", "const", "mid"]))
    mode = c.choice(["inc", "inc", "leaves0", "leaves0", "any"])
    if mode == "leaves0":
        alt[:nl] = min(alt)
    if mode != "any":
        for i in range(nl, n):
            alt[i] = max([alt[i]] + [alt[k] for k in ch[i]])
    inc = all(alt[i] <= alt[par[i]] for i in range(n))
    t = hg.Tree(par)
    c.inp(parents=par, altitudes=alt)
    c.note(par, alt, nontrivial=n > nl)
    c.ck(bool(hg.test_altitudes_increasingness(t, lay(c, alt))) == inc, "increasingness", str(inc))
    if not inc:
        c.raises(lambda: hg.sort_hierarchy_with_altitudes(t, alt), "not-increasing-accepted")
        c.ev("not_increasing")
        return
    if n > nl and max(alt[:nl]) > min(alt[nl:]):
        # the sorted order does not start with the leaves: no such tree exists
        c.raises(lambda: hg.sort_hierarchy_with_altitudes(t, alt), "unsortable-accepted")
        c.ev("unsortable")
        return
    r, ra, nm = hg.sort_hierarchy_with_altitudes(t, lay(c, alt))
    nm, rp = np.asarray(nm), np.asarray(r.parents())
    c.ck(sorted(nm.tolist()) == list(range(n)), "sort-permutation")
    c.eq(ra, alt[nm], "sort-altitudes")
    c.ck(bool(np.all(ra[:-1] <= ra[1:])), "sort-order", str(ra))
    c.eq(nm[rp], par[nm], "sort-parents")
    c.ck(ra.dtype == alt.dtype, "sort-dtype")


def shuffle(c, par):
    """an isomorphic tree: other order of the internal nodes"""
    ch, nl, _ = gen.tree_info(par)
    n = len(par)
    if n == 1:
        return par.copy()
    left = {i: len(ch[i]) for i in range(nl, n)}
    ready = [int(par[i]) for i in range(nl) for _ in [0]]
    for p in ready:
        left[p] -= 1 if p in left else 0
    ready = sorted({p for p in ready if p in left and left[p] == 0})
    new = {i: i for i in range(nl)}
    nxt = nl
    while ready:
        x = ready.pop(c.ri(0, len(ready) - 1))
        new[x] = nxt
        nxt += 1
        p = int(par[x])
        if p != x:
            left[p] -= 1
            if left[p] == 0:
                ready.append(p)
    out = np.zeros(n, np.int64)
    for i in range(n):
        out[new[i]] = new[int(par[i])]
    return out


@family("isomorphism", quick=2500)
def isomorphism(c):
    a = gen.parents(c, maxleaves=c.choice([4, 8, 20]))
    b = shuffle(c, a)
    ch, nl, _ = gen.tree_info(a)
    how = c.choice(["same", "swap", "move", "other", "permute"])
    n = len(a)
    if how == "swap" and nl > 1:
        i, j = c.ri(0, nl - 1), c.ri(0, nl - 1)
        b[[i, j]] = b[[j, i]]
    elif how == "move" and n > nl:
        i = c.ri(0, n - 2)
        b[i] = c.ri(max(nl, i + 1), n - 1)
        bch, bnl, _ = gen.tree_info(b)
        if any(not bch[k] for k in range(nl, n)):
            b = shuffle(c, a)
    elif how == "other":
        b = gen.parents(c, nleaves=nl)
    elif how == "permute" and n > nl:
        b = b.copy()
        b[:nl] = b[:nl][c.rng.permutation(nl)]
    c.inp(a=a, b=b, how=how)
    c.note(a, b, nontrivial=n > nl)
    want = multi(a) == multi(b) and len(a) == len(b)
    c.ck(hg.test_tree_isomorphism(hg.Tree(a), hg.Tree(b)) == want, "isomorphism", "want %s" % want)
    c.ck(hg.test_tree_isomorphism(hg.Tree(b), hg.Tree(a)) == want, "isomorphism", "want %s" % want)
    c.ev("isomorphic" if want else "not_isomorphic")


@family("filter", quick=2500)
def filt(c):
    n, s, t = gen.graph(c, maxn=16, parallel=False, loops=c.p(0.2))
    if n == 1:
        n, s, t = 2, np.array([0]), np.array([1])
    g = gen.make_graph(hg, n, s, t)
    w = gen.values(c, len(s), c.choice([np.int32, np.uint8, np.float64, np.float32]), nonneg=True)
    kind = c.choice(["bpt", "bpt", "qfz"])
    tree, alt = hg.bpt_canonical(g, w) if kind == "bpt" else hg.quasi_flat_zone_hierarchy(g, w)
    if c.p(0.3):
        alt = alt + 1  # leaf altitudes are not used
    alt = np.asarray(alt).copy()
    before = alt.copy()
    canon = c.p(0.7)
    mode = c.choice(["relevance", "size", "strength"])
    ew = gen.values(c, len(s), np.float64)
    if mode == "strength" and c.p(0.5):
        ew = w.astype(np.float64)
    thr = c.choice([0, 1, 2, 3, n // 2, n, n + 1]) if mode == "size" else c.choice(sorted(set(ew.tolist()))) + c.choice([0, 0.25, -0.25])
    c.inp(n=n, sources=s, targets=t, weights=w, kind=kind, mode=mode, thr=thr, edge_weights=ew)
    c.note(s, t, w, ew, thr, mode, kind)
    seen = []

    def functor(tr, al):
        m = c.rng.random(tr.num_vertices()) < c.choice([0.2, 0.5, 0.9])
        seen.append((tr, al.copy(), m))
        return m if c.p(0.7) else m.astype(np.int32)
    kw = {} if canon and c.p(0.5) else dict(canonize_tree=canon)
    if mode == "relevance":
        r, ra = hg.filter_non_relevant_node_from_tree(tree, alt, functor, **kw)
        c.ck(len(seen) == 1, "functor-calls")
        bt, ba, mask = seen[0]
        bp = np.asarray(bt.parents())
        if kind == "bpt":
            c.ck(bt is tree, "functor-tree")
            c.eq(ba, before, "functor-altitudes")
    else:
        r, ra = (hg.filter_small_nodes_from_tree(tree, alt, thr, **kw) if mode == "size" else
                 hg.filter_weak_frontier_nodes_from_tree(tree, alt, ew, thr, **kw))
        if kind == "bpt":
            bt, ba, bp = tree, before, np.asarray(tree.parents())
        else:
            # the binary tree used is the canonical one of the saliency map (documented as arbitrary): same order of ties assumed
            bt, ba = hg.bpt_canonical(g, hg.saliency(tree, before))
            bp = np.asarray(bt.parents())
        b = gen.leaves_below(bp)
        ch, nl, _ = gen.tree_info(bp)
        mask = np.zeros(len(bp), bool)
        for i in range(nl, len(bp)):
            if mode == "size":
                mask[i] = min(len(b[k]) for k in ch[i]) < thr
            else:
                x, y = set(b[ch[i][0]]), set(b[ch[i][1]])
                cross = [ew[k] for k in range(len(s)) if (s[k] in x and t[k] in y) or (s[k] in y and t[k] in x)]
                mask[i] = np.mean(cross) < thr
                if abs(np.mean(cross) - thr) < 1e-9 and np.mean(cross) != thr:
                    return
    ch, nl, _ = gen.tree_info(bp)
    if kind == "qfz":
        ct, ca = hierarchy(bp, ba.tolist())
        sal = hg.saliency(tree, before)
        nl_ = s != t  # self loops have the altitude of a leaf
        c.eq(hg.saliency(bt, ba, g)[nl_], sal[nl_], "binary-form-saliency")
    nw = [0 if mask[i] else ba[i].item() for i in range(nl, len(bp))]
    # the frontier is the mst edge of the node
    me = np.asarray(bt.mst_edge_map)
    es, et = s[me].tolist(), t[me].tolist()
    want = level_components(n, es, et, nw)
    rp = np.asarray(r.parents())
    got, k = hierarchy(rp, ra.tolist())
    if canon:
        c.ck(k == len(got), "filter-duplicate-nodes")
    else:
        c.ck(k == n - 1, "filter-binary", "%d internal nodes" % k)
        lv = ra.tolist()
        rb = gen.leaves_below(rp)
        rch, rnl, _ = gen.tree_info(rp)
        got = {}
        for i in range(rnl, len(rp)):
            if i == len(rp) - 1 or lv[rp[i]] != lv[i]:
                got[frozenset(rb[i])] = lv[i]
    c.ck(got == want, "filter-" + mode, "got %s want %s" % (sorted((sorted(a), b) for a, b in got.items()), sorted((sorted(a), b) for a, b in want.items())))
    c.eq(alt, before, "filter-modifies-input")
    c.ev("marked", mask.sum())
    c.ev("mode_" + mode)


@family("rejected", quick=200, asan=200)
def rejected(c):
    par = gen.parents(c, maxleaves=8)
    n = len(par)
    t = hg.Tree(par)
    c.note(par)
    for k in (0, n - 1, n + 1, 3 * n):
        for leaves in (False, True):
            c.raises(lambda: hg.simplify_tree(t, np.zeros(k, bool), leaves), "wrong-size")
        c.raises(lambda: hg.sort_hierarchy_with_altitudes(t, np.zeros(k)), "wrong-size")
        c.raises(lambda: hg.test_altitudes_increasingness(t, np.zeros(k)), "wrong-size")
    c.raises(lambda: hg.simplify_tree(t, np.zeros((n, 2), bool)), "wrong-size")
    c.raises(lambda: hg.cpp._sort_hierarchy_with_altitudes(t, np.zeros(n + 1)), "wrong-size")


@family("limits", quick=1200)
def limits(c):
    """results that depend only on the order of the values: values at the limits of every type"""
    order.run(c, "P08")
