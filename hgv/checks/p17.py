"""P17: topological, extremal and persistence attributes."""
import numpy as np
import higra as hg
from hgv import gen, order
from hgv.core import family

UNITS = ["tree_attributes", "hierarchy_core", "component_tree", "tree_accumulators", "graph_accumulator", "common", "at_accumulator", "sorting"]
RULE = ("random trees (one-child nodes, stars, chains, single leaf), hierarchies of graphs and component trees; monotone increasing or decreasing altitudes with ties, plateaus and equal extrema, in every dtype; "
        "increasing attributes of float and integer types. The oracle follows each definition: minima are enumerated as maximal constant subtrees, the meeting node of each minimum is searched along its ancestors. "
        "Non-trivial: at least two inner nodes. Family limits: the same ranks are given as small integers and as extreme or neighbouring values of every type (infinities, subnormals, largest integers): results must correspond.")
ASSUMPTIONS = ["extinction values of the inner nodes of a plateau that forms an extremum are not specified (a plateau counts once)", "trees up to 100 nodes",
               "trees made of a single leaf are only used for the purely topological attributes"]


def tree_of(c, minn=1):
    p = gen.parents(c, nleaves=None if minn == 1 else gen.size(c, minn, 40))
    return p, hg.Tree(p.copy())


def monotone(c, par, ch, nl, dt=None, style=None, inc=True):
    """altitudes increasing from the leaves to the root, with ties along edges and between subtrees"""
    dt = np.dtype(dt or np.float64)
    style = style or c.choice(["few", "few", "mid", "strict", "const", "plateau"])
    n = len(par)
    a = np.zeros(n)
    for i in range(nl, n):
        k = [x for x in ch[i] if x >= nl]
        lo = max([a[x] for x in k]) if k else c.ri(0, 4)
        d = {"few": c.ri(0, 2), "mid": c.ri(0, 5), "strict": c.ri(1, 3), "const": 0, "plateau": 0 if c.p(0.7) else 1}[style]
        if style == "const" and not k:
            lo = 2
        a[i] = lo + d
    if style == "mid" and dt.kind == "f":
        a = a + 0.0
    # a leaf takes any value that is not larger than that of its parent
    for i in range(nl):
        a[i] = c.ri(0, int(a[par[i]])) if c.p(0.7) else a[par[i]]
    if n == 1:
        a[0] = 1
    if not inc:
        a = a.max() - a
    elif dt.kind != "u" and c.p(0.3):
        a = a - 3
    if dt.itemsize == 1:
        a = np.minimum(a, 100)
    if not inc and dt.kind != "u" and c.p(0.3):
        a = a - 5
    if dt.kind == "f" and c.p(0.3):
        a = a / 8
    return a.astype(dt)


@family("topology", quick=4000)
def topology(c):
    p, t = tree_of(c)
    ch, nl, depth = gen.tree_info(p)
    n = len(p)
    c.inp(parents=p)
    c.note(p, nontrivial=n > nl + 1)
    c.ev("nodes", n)
    for _ in range(2):
        c.eq(np.asarray(hg.attribute_depth(t)), depth, "depth")
        h = np.zeros(n, dtype=np.int64)
        for i in range(n - 1):
            h[p[i]] = max(h[p[i]], h[i] + 1)
        c.eq(np.asarray(hg.attribute_topological_height(t)).astype(np.int64), h, "topological-height")
        cn = np.full(n, -1)
        for i in range(n):
            for k, x in enumerate(ch[i]):
                cn[x] = k
        c.eq(np.asarray(hg.attribute_child_number(t)), cn, "child-number")
    for skip in (1, c.ri(-7, 7)):
        s = np.full(n, n - 1)
        for i in range(n):
            for k, x in enumerate(ch[i]):
                s[x] = ch[i][(k + skip) % len(ch[i])]
        r = hg.attribute_sibling(t) if skip == 1 and c.p(0.5) else hg.attribute_sibling(t, skip)
        c.eq(np.asarray(r), s, "sibling", "skip %d" % skip)
    if n > 1:
        a = 1 - depth / depth.max()
        a[:nl] = 0
        c.close(np.asarray(hg.attribute_regular_altitudes(t)), a, "regular-altitudes")
    c.ck([sorted(x) for x in hg.attribute_vertex_list(t)] == gen.leaves_below(p), "vertex-list")


@family("pair-sum", quick=2500)
def pair_sum(c):
    p, t = tree_of(c)
    ch, nl, _ = gen.tree_info(p)
    n = len(p)
    dt = np.dtype(c.choice([np.int32, np.uint32, np.int64, np.uint64, np.float32, np.float64]))
    tail = c.choice([(), (1,), (3,), (2, 2)])
    w = gen.values(c, n * int(np.prod(tail, dtype=int)), dt).reshape((n,) + tail)
    c.inp(parents=p, weights=w)
    c.note(p, w, nontrivial=n > nl + 1)
    r = np.asarray(hg.attribute_children_pair_sum_product(t, gen.layout(c, w) if w.size > 1 else w))
    ref = np.zeros(w.shape)
    for i in range(n):
        for a in range(len(ch[i])):
            for b in range(a):
                ref[i] += w[ch[i][a]].astype(float) * w[ch[i][b]].astype(float)
                c.ev("pairs")
    c.ck(r.shape == w.shape and r.dtype == dt, "pair-sum-type", "%s %s" % (r.shape, r.dtype))
    c.close(r.astype(float), ref, "pair-sum", rtol=1e-5)


@family("sampling", quick=1500)
def sampling(c):
    n, s, tt = gen.graph(c, connected=c.p(0.6), loops=False, maxn=15)
    if not len(s):
        return
    g = gen.make_graph(hg, n, s, tt)
    p = gen.parents(c, nleaves=n)
    t = hg.Tree(p.copy())
    w = gen.values(c, len(s), np.float64, nonneg=True) + 1
    c.inp(n=n, s=s, t=tt, w=w, parents=p)
    c.note(n, s, tt, w, p, nontrivial=len(p) > n + 1)
    below = [set(x) for x in gen.leaves_below(p)]

    def small(a, b):
        return min(i for i in range(len(p)) if a in below[i] and b in below[i])
    Z = w.sum()
    e = np.zeros(len(p))
    pv = np.zeros(n)
    for k in range(len(s)):
        e[small(s[k], tt[k])] += w[k] / Z
        pv[s[k]] += w[k] / Z
        pv[tt[k]] += w[k] / Z
    c.close(np.asarray(hg.attribute_tree_sampling_probability(t, g, w)), e, "edge-model")
    null = np.zeros(len(p))
    for a in range(n):
        for b in range(a):
            null[small(a, b)] += pv[a] * pv[b]
    c.close(np.asarray(hg.attribute_tree_sampling_probability(t, g, w, "null")), null, "null-model")
    c.raises(lambda: hg.attribute_tree_sampling_probability(t, g, w, "other"), "bad-model")
    c.ev("pairs", n * (n - 1) // 2 + len(s))


def instance(c, types=None):
    how = c.choice(["random", "random", "random", "bpt", "qfz", "min", "max"])
    dt = gen.dtype(c, types)
    if how == "random":
        p, t = tree_of(c, 2)
        ch, nl, _ = gen.tree_info(p)
        if nl == len(p):
            p = np.array([1, 1])
            t = hg.Tree(p)
            ch, nl, _ = gen.tree_info(p)
        inc = c.p(0.5)
        a = monotone(c, p, ch, nl, dt, inc=inc)
    else:
        n, s, tt = gen.graph(c, n=c.ri(2, 20), connected=True, loops=False)
        g = gen.make_graph(hg, n, s, tt)
        if how in ("min", "max"):
            t, a = (hg.component_tree_min_tree if how == "min" else hg.component_tree_max_tree)(g, gen.values(c, n, dt))
            inc = how == "min"
        else:
            t, a = (hg.bpt_canonical if how == "bpt" else hg.quasi_flat_zone_hierarchy)(g, gen.values(c, len(s), dt, nonneg=True))
            inc = True
        a = np.asarray(a)
        p = np.array(t.parents())
        ch, nl, _ = gen.tree_info(p)
    c.inp(parents=p, altitudes=a, increasing=inc)
    c.note(p, a, inc, nontrivial=len(p) > nl + 1)
    c.ev("how-" + how)
    c.ev("dtype-" + np.dtype(a.dtype).name)
    mode = c.choice([("auto",), (), (inc,), ("increasing" if inc else "decreasing",)])
    return p, t, ch, nl, a, inc, mode


def descend(ch, nl):
    """non-leaf nodes of each subtree"""
    res = [[] for _ in ch]
    for i in range(nl, len(ch)):
        res[i] = [i] + [y for x in ch[i] for y in res[x]]
    return res


@family("height", quick=3500)
def height(c):
    p, t, ch, nl, a, inc, mode = instance(c)
    f = a.astype(float)
    sub = descend(ch, nl)
    par, cur = np.zeros(len(p)), np.zeros(len(p))
    for i in range(nl, len(p)):
        deep = min(f[sub[i]]) if inc else max(f[sub[i]])
        par[i] = abs(f[p[i]] - deep)
        cur[i] = abs(f[i] - deep)
    la = gen.layout(c, a)
    r = np.asarray(hg.attribute_height(t, la, *mode))
    c.close(r.astype(float), par, "height")
    k = c.choice(["current", "parent"])
    r = np.asarray(hg.attribute_height(t, la, mode[0] if mode else "auto", k))
    c.close(r.astype(float), cur if k == "current" else par, "height-" + k)
    c.close(np.asarray(hg.attribute_height(t, la, *mode)).astype(float), par, "height-again")
    c.ev("heights", len(p) - nl)


def extrema_of(p, ch, nl, a):
    sub = descend(ch, nl)
    n = len(p)
    return [i for i in range(nl, n) if all(a[x] == a[i] for x in sub[i]) and (i == n - 1 or a[p[i]] != a[i])]


@family("extrema", quick=3500)
def extrema(c):
    p, t, ch, nl, a, inc, mode = instance(c)
    ex = np.zeros(len(p), bool)
    ex[extrema_of(p, ch, nl, a)] = True
    r = np.asarray(hg.attribute_extrema(t, gen.layout(c, a)))
    c.eq(r.astype(bool), ex, "extrema")
    c.ck(r.dtype == np.bool_, "extrema-dtype", str(r.dtype))
    c.ev("extrema", int(ex.sum()))


def check_extinction(c, p, ch, nl, a, att, inc, r, key):
    n = len(p)
    f = a.astype(float) if inc else -a.astype(float)
    ex = extrema_of(p, ch, nl, a)
    anc = {}
    for m in ex:
        l = [m]
        while l[-1] != n - 1:
            l.append(int(p[l[-1]]))
        anc[m] = l
    contains = [[] for _ in range(n)]
    for m in ex:
        for x in anc[m]:
            contains[x].append(m)
    if len(set(f[ex])) < len(ex):
        c.ev("instances-with-equal-extrema")
    # at each node, exactly one of the children that contain the deepest minimum goes on above the node
    winner = {n - 1: None}
    top = {}
    for m in ex:
        lost = None
        for x in anc[m]:
            deeper = [q for q in contains[x] if f[q] < f[m]]
            if deeper:
                lost = x
                break
        top[m] = lost
    order = {}
    # a minimum that meets a strictly deeper one, before any tie, has a determined value
    for m in ex:
        val = None
        last = m
        for x in anc[m][1:]:
            others = [q for q in contains[x] if q != m and q not in contains[last]]
            if any(f[q] < f[m] for q in others):
                val = att[last]
                break
            if any(f[q] == f[m] for q in others):
                val = "tie"
                break
            last = x
        if val is None:
            val = att[n - 1]
        if not isinstance(val, str):
            c.ck(r[m] == val, key + "-extremum", "extremum %d: %r expected %r" % (m, r[m], val))
            c.ev("determined-extrema")
        order[m] = val
    # ties: at every node, one of the tied children continues and the others stop there
    inside = set()
    for m in ex:
        st = list(ch[m])
        while st:
            x = st.pop()
            if x >= nl:
                inside.add(x)
                st += ch[x]
    for x in range(nl, n):
        k = [y for y in ch[x] if contains[y]]
        if not k or x in inside:
            continue
        best = min(min(f[q] for q in contains[y]) for y in k)
        tied = [y for y in k if min(f[q] for q in contains[y]) == best]
        going = [y for y in tied if r[y] == r[x]]
        c.ck(len(going) >= 1, key + "-propagation", "node %d value %r, children %s values %s" % (x, r[x], tied, [r[y] for y in tied]))
        stop = [y for y in k if r[y] == att[y]]
        rest = [y for y in k if y not in stop]
        c.ck(len(rest) <= 1 and (not rest or rest[0] in going), key + "-ties", "node %d: children %s values %s attributes %s" % (x, k, [r[y] for y in k], [att[y] for y in k]))
        c.ck(all(y in stop for y in k if y not in tied), key + "-dominated", "node %d" % x)
        if len(tied) > 1:
            c.ev("ties")
    c.ck(r[n - 1] == att[n - 1], key + "-root", "%r expected %r" % (r[n - 1], att[n - 1]))
    for x in range(nl, n):
        if x in inside or x in ex:
            continue
        want = max([r[q] for q in contains[x]]) if contains[x] else 0
        c.ck(r[x] == want, key + "-inner", "node %d: %r expected %r, extrema inside %s" % (x, r[x], want, contains[x]))
        if not contains[x]:
            c.ev("nodes-without-extremum")
    for x in range(nl):
        m = x
        while m != n - 1 and m not in ex:
            m = int(p[m])
        want = r[m] if m in ex else 0
        c.ck(r[x] == want, key + "-leaf", "leaf %d: %r expected %r" % (x, r[x], want))


@family("extinction", quick=4500)
def extinction(c):
    p, t, ch, nl, a, inc, mode = instance(c)
    n = len(p)
    # an attribute that increases towards the root
    k = c.choice(["area", "random", "strict", "height"])
    att = np.zeros(n)
    for i in range(n):
        if k == "area":
            att[i] = 1 if i < nl else sum(att[x] for x in ch[i])
        elif i >= nl:
            lo = max(att[x] for x in ch[i])
            att[i] = lo + (1 + c.ri(0, 2) if k == "strict" else c.ri(0, 2))
    if k == "height":
        f = a.astype(float)
        sub = descend(ch, nl)
        for i in range(nl, n):
            att[i] = f[p[i]] - min(f[sub[i]]) if inc else max(f[sub[i]]) - f[p[i]]
    att = att.astype(c.choice([np.float64, np.int64, np.float32, np.uint16]))
    if k == "height" and a.dtype.kind == "f":
        att = np.asarray([abs(float(x)) for x in att])
        att = att * 0
        for i in range(nl, n):
            att[i] = f[p[i]] - min(f[sub[i]]) if inc else max(f[sub[i]]) - f[p[i]]
    c.inp(attribute=att)
    r = np.asarray(hg.attribute_extinction_value(t, gen.layout(c, a), att, *mode)).astype(float)
    check_extinction(c, p, ch, nl, a, att.astype(float), inc, r, "extinction")


@family("dynamics", quick=3500)
def dynamics(c):
    p, t, ch, nl, a, inc, mode = instance(c)
    n = len(p)
    f = a.astype(float)
    sub = descend(ch, nl)
    att = np.zeros(n)
    for i in range(nl, n):
        att[i] = f[p[i]] - min(f[sub[i]]) if inc else max(f[sub[i]]) - f[p[i]]
    r = np.asarray(hg.attribute_dynamics(t, gen.layout(c, a), *mode)).astype(float)
    check_extinction(c, p, ch, nl, a, att, inc, r, "dynamics")
    # direct definition, when all extrema are different
    s = 1 if inc else -1
    ex = extrema_of(p, ch, nl, a)
    if len(set(f[ex])) == len(ex):
        for m in ex:
            x = m
            while x != n - 1 and min(s * f[sub[x]]) >= s * f[m]:
                x = int(p[x])
            c.ck(r[m] == abs(f[x] - f[m]), "dynamics-definition", "extremum %d: %r expected %r" % (m, r[m], abs(f[x] - f[m])))
            c.ev("dynamics-pairs")


@family("limits", quick=1200)
def limits(c):
    """results that depend only on the order of the values: values at the limits of every type"""
    order.run(c, "P17")
