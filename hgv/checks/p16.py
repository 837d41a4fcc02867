"""P16: regional attributes of hierarchies, measured directly on regions."""
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["hierarchy_core", "component_tree", "tree_of_shapes", "rag", "tree_attributes", "graph_accumulator", "tree_accumulators", "at_accumulator", "graph_weights", "graph_core", "common", "sorting"]
RULE = ("hierarchies (canonical BPT, quasi-flat zones, min/max trees, tree of shapes, random trees with leaf graph) on random graphs, grids of several adjacencies and region adjacency graphs of grids; "
        "default or random areas, lengths, perimeters and weights of every dtype. The oracle collects the leaves below each node and measures areas, inner, frontier and outgoing edges, moments "
        "and covariances on these sets. Each attribute is requested twice and after other attributes that share cached inputs. Non-trivial: a node that is neither a leaf nor the root.")
ASSUMPTIONS = ["graphs without self-loops (their contribution to a perimeter is a convention)", "integer attribute results fit their type", "up to 60 leaves"]


def base_graph(c):
    """graph, n, s, t, shape"""
    if c.p(0.6):
        sh = (c.ri(1, 6), c.ri(2, 7))
        g = c.choice([hg.get_4_adjacency_graph, hg.get_8_adjacency_graph])(sh)
        s, t = [np.array(x) for x in g.edge_list()]
        return g, g.num_vertices(), s, t, sh
    n, s, t = gen.graph(c, n=c.ri(2, 20), connected=True, loops=False)
    return gen.make_graph(hg, n, s, t), n, s, t, None


def instance(c):
    """a hierarchy, its leaf graph and what the graph denotes"""
    g, n, s, t, sh = base_graph(c)
    area = np.ones(n)
    length = np.ones(len(s))
    kind = c.choice(["graph", "graph", "rag"])
    deg = None
    pre = None
    if sh is not None:
        deg = hg.get_attribute(g, "no_border_vertex_out_degree")
    if kind == "rag":
        lab = c.rng.integers(0, max(2, n // 2), n)
        pre = (g, n, s, t, sh)
        g = hg.make_region_adjacency_graph_from_labelisation(g, lab)
        vm = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(g)).ravel()
        em = np.asarray(hg.CptRegionAdjacencyGraph.get_edge_map(g)).ravel()
        n = g.num_vertices()
        s, t = [np.array(x) for x in g.edge_list()]
        area = np.bincount(vm, minlength=n).astype(float)
        length = np.bincount(em[em >= 0], minlength=len(s)).astype(float)
        sh = None
        deg = None
        pre = pre + (vm, em)
    how = c.choice(["bpt", "qfz", "min", "max", "tree"] + (["tos"] if sh is not None and min(sh) > 1 else []))
    if not len(s):
        how = "tree"
    if how == "bpt":
        tr, alt = hg.bpt_canonical(g, gen.values(c, len(s), np.float64))
    elif how == "qfz":
        tr, alt = hg.quasi_flat_zone_hierarchy(g, gen.values(c, len(s), np.float64))
    elif how in ("min", "max"):
        v = gen.values(c, n, c.choice([np.uint8, np.int32, np.float64]))
        tr, alt = (hg.component_tree_min_tree if how == "min" else hg.component_tree_max_tree)(g, v.reshape(sh) if sh else v)
    elif how == "tos":
        tr, alt = hg.component_tree_tree_of_shapes_image2d(gen.values(c, n, np.uint8).reshape(sh))
        g = hg.CptHierarchy.get_leaf_graph(tr)
        s, t = [np.array(x) for x in g.edge_list()]
        deg = hg.get_attribute(g, "no_border_vertex_out_degree")
        length = np.ones(len(s))
    else:
        p = gen.parents(c, nleaves=n)
        tr = hg.Tree(p.copy())
        hg.CptHierarchy.link(tr, g)
        alt = np.concatenate((np.zeros(n), np.sort(gen.values(c, len(p) - n, np.float64, nonneg=True))))
    par = np.array(tr.parents())
    below = gen.leaves_below(par)
    inside = np.zeros((len(par), n), bool)
    for i, x in enumerate(below):
        inside[i, x] = True
    if deg is not None:
        per = np.full(n, float(deg))
    else:
        per = np.zeros(n)
        for e in range(len(s)):
            per[s[e]] += length[e]
            per[t[e]] += length[e]
    c.inp(kind=kind, how=how, parents=par, sources=s, targets=t, shape=sh)
    c.note(how, par, s, t, nontrivial=len(par) > n + 1)
    c.ev("nodes", len(par))
    c.ev("how-" + how)
    return dict(g=g, n=n, s=s, t=t, sh=sh, tr=tr, alt=np.asarray(alt), par=par, inside=inside, area=area, length=length, per=per, kind=kind, how=how, pre=pre)


def shaped(c, o, v):
    return v.reshape(o["sh"] + v.shape[1:]) if o["sh"] and c.p(0.5) else v


def w_dtype(c):
    return np.dtype(c.choice([np.float64, np.float64, np.float32, np.int32, np.int64, np.uint8, np.uint16, np.uint32]))


def frontier_map(o):
    """smallest node containing both ends of each edge"""
    sz = o["inside"].sum(1)
    res = []
    for a, b in zip(o["s"], o["t"]):
        both = np.flatnonzero(o["inside"][:, a] & o["inside"][:, b])
        k = both[sz[both] == sz[both].min()]
        res.append(int(k.min()))
    return np.array(res, dtype=np.int64)


@family("leaf-graph", quick=1500)
def leaf_graph(c):
    """attributes of the graph itself"""
    o = instance(c)
    g = o["g"]
    for _ in range(2):
        a = np.asarray(hg.attribute_vertex_area(g))
        l = np.asarray(hg.attribute_edge_length(g))
        p = np.asarray(hg.attribute_vertex_perimeter(g))
        c.ck(a.size == o["n"] and l.shape == (len(o["s"]),) and p.size == o["n"], "graph-attribute-shape", "%s %s %s" % (a.shape, l.shape, p.shape))
        c.eq(a.ravel().astype(float), o["area"], "vertex-area")
        c.eq(l.astype(float), o["length"], "edge-length")
        c.eq(p.ravel().astype(float), o["per"], "vertex-perimeter")
    if o["sh"] and o["how"] != "tos":
        x = np.asarray(hg.attribute_vertex_coordinates(g))
        c.eq(x, np.stack(np.meshgrid(np.arange(o["sh"][0]), np.arange(o["sh"][1]), indexing="ij"), axis=2), "vertex-coordinates")
    if o["kind"] == "rag":
        # a region graph of the region graph
        lab = c.rng.integers(0, 3, o["n"])
        r2 = hg.make_region_adjacency_graph_from_labelisation(g, lab)
        vm = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(r2)).ravel()
        em = np.asarray(hg.CptRegionAdjacencyGraph.get_edge_map(r2)).ravel()
        c.eq(np.asarray(hg.attribute_vertex_area(r2)).astype(float), np.bincount(vm, o["area"], r2.num_vertices()), "nested-vertex-area")
        k = em >= 0
        c.eq(np.asarray(hg.attribute_edge_length(r2)).astype(float), np.bincount(em[k], o["length"][k], r2.num_edges()), "nested-edge-length")


@family("area", quick=2500)
def area(c):
    o = instance(c)
    tr, ins = o["tr"], o["inside"]
    ref = ins @ o["area"]
    a = np.asarray(hg.attribute_area(tr))
    c.eq(a.astype(float), ref, "area")
    va = gen.values(c, o["n"], c.choice([np.float64, np.int32, np.uint8, np.float32]), nonneg=True)
    if va.dtype == np.uint8:
        va = np.minimum(va, 4)
    a2 = np.asarray(hg.attribute_area(tr, shaped(c, o, va)))
    c.close(a2.astype(float), ins @ va.astype(float), "area-user")
    c.eq(np.asarray(hg.attribute_area(tr)).astype(float), ref, "area-again")
    # volume
    par = o["par"]
    for rep in range(2):
        if rep:
            alt, k = o["alt"], "hierarchy"
        else:
            alt, k = gen.values(c, len(par), gen.dtype(c)), "random"
        use = c.p(0.4)
        ar = gen.values(c, len(par), c.choice([np.float64, np.int64, np.uint8])) if use else None
        lv = gen.values(c, o["n"], np.float64) if c.p(0.4) else None
        d = np.array([abs(float(alt[par[i]]) - float(alt[i])) for i in range(len(par))]) * (ar.astype(float) if use else ref)
        v = np.zeros(len(par))
        v[:o["n"]] = 0 if lv is None else lv
        for i in range(o["n"], len(par)):
            v[i] += d[i]
        for i in range(len(par) - 1):
            v[par[i]] += v[i]
        r = np.asarray(hg.attribute_volume(tr, alt, ar, lv))
        c.close(r.astype(float), v, "volume-%s" % k, rtol=1e-9)
        c.ev("volumes-" + np.dtype(alt.dtype).name)


@family("frontier", quick=2500)
def frontier(c):
    o = instance(c)
    tr, n = o["tr"], o["n"]
    lm = frontier_map(o)
    if not len(lm):
        return
    c.eq(np.asarray(hg.attribute_lca_map(tr)), lm, "lca-map")
    N = len(o["par"])
    fl = np.bincount(lm, o["length"], N)
    c.eq(np.asarray(hg.attribute_frontier_length(tr)).astype(float), fl, "frontier-length")
    dt = w_dtype(c)
    w = gen.values(c, len(lm), dt, nonneg=True, style=c.choice(["ties", "few", "perm"]))
    if dt == np.uint8:
        w = np.minimum(w, 4)
    r = np.asarray(hg.attribute_frontier_length(tr, gen.layout(c, w)))
    c.ck(r.dtype == dt, "frontier-length-dtype", str(r.dtype))
    sw = np.bincount(lm, w.astype(float), N)
    if dt.kind == "f" or sw.max() <= np.iinfo(dt).max:
        c.close(r.astype(float), sw, "frontier-length-user")
    pre = o["pre"]
    if pre is not None and c.p(0.6) and len(pre[2]) != len(lm):
        # weights on the edges of the pre-graph
        pw = gen.values(c, len(pre[2]), np.float64)
        em = pre[6]
        sw = np.bincount(lm, np.bincount(em[em >= 0], pw[em >= 0], len(lm)), N)
        st = np.asarray(hg.attribute_frontier_strength(tr, pw))
        c.ev("pre-graph-weights")
    else:
        if dt.kind != "f" and c.p(0.5):
            w = gen.values(c, len(lm), dt)
            sw = np.bincount(lm, w.astype(float), N)
        st = np.asarray(hg.attribute_frontier_strength(tr, w))
        c.ck(st.dtype == dt, "frontier-strength-dtype", str(st.dtype))
    k = (fl > 0) & (np.arange(N) >= n)
    if st.dtype.kind != "f":
        c.ev("integer-strengths", int(k.sum()))
        c.eq(st[k].astype(float), np.trunc(sw[k] / fl[k]), "frontier-strength-integer")
        return
    c.close(st[k].astype(float), sw[k] / fl[k], "frontier-strength", rtol=1e-5)
    c.eq(np.asarray(hg.attribute_frontier_length(tr)).astype(float), fl, "frontier-length-again")


@family("contour", quick=2500)
def contour(c):
    o = instance(c)
    tr, n, ins, s, t = o["tr"], o["n"], o["inside"], o["s"], o["t"]

    def length(per, el):
        r = ins @ per
        for e in range(len(s)):
            if s[e] != t[e]:
                r = r - 2 * el[e] * (ins[:, s[e]] & ins[:, t[e]])
        return r

    def out(w):
        return sum([w[e] * (ins[:, s[e]] != ins[:, t[e]]) for e in range(len(s))], np.zeros(len(ins)))
    cl = length(o["per"], o["length"])
    if o["how"] != "tos" and not hg.get_attribute(o["g"], "no_border_vertex_out_degree"):
        c.close(cl, out(o["length"]), "oracle-consistent")
    c.close(np.asarray(hg.attribute_contour_length(tr)).astype(float), cl, "contour-length")
    todo = ["strength", "compactness", "user", "user-strength"]
    c.rng.shuffle(todo)
    for k in todo:
        if k == "strength" or k == "user-strength":
            dt = w_dtype(c)
            pre = o["pre"]
            if pre is not None:
                w = gen.values(c, len(pre[2]), dt)
                em = pre[6]
                we = np.bincount(em[em >= 0], w[em >= 0].astype(float), len(s))
                if not (em >= 0).any():
                    continue
            else:
                w = gen.values(c, len(s), dt)
                we = w.astype(float)
            if not len(w) or not len(s):
                continue
            if k == "strength":
                r = np.asarray(hg.attribute_contour_strength(tr, w))
                d = cl.copy()
            else:
                per = gen.values(c, n, np.float64, nonneg=True) + 1
                el = gen.values(c, len(s), np.float64, nonneg=True)
                r = np.asarray(hg.attribute_contour_strength(tr, w, shaped(c, o, per), el))
                d = length(per, el)
            num = out(we)
            ok = np.abs(d) > 1e-6
            c.close(r[ok].astype(float), num[ok] / d[ok], "contour-" + k, rtol=1e-5)
            if abs(d[-1]) < 1e-9:
                c.ck(abs(r[-1] - num[-1]) < 1e-6, "contour-strength-root", "%r" % r[-1])
                c.ev("empty-root-contour")
        elif k == "compactness":
            with np.errstate(all="ignore"):
                ar = ins @ o["area"]
                ref = ar / (cl * cl)
                r = np.asarray(hg.attribute_compactness(tr, normalize=False))
                ok = np.isfinite(ref)
                c.close(r[ok], ref[ok], "compactness", rtol=1e-9)
                r = np.asarray(hg.attribute_compactness(tr))
                if ok.any() and ref[ok].max() > 0:
                    c.close(r[ok], ref[ok] / ref[ok].max(), "compactness-normalized", rtol=1e-9)
        else:
            per = gen.values(c, n, np.float64)
            dt = w_dtype(c)
            el = np.minimum(gen.values(c, len(s), dt, nonneg=True), 5).astype(dt)
            sums = np.bincount(frontier_map(o), el.astype(float), len(ins)) if len(s) else np.zeros(1)
            if dt.kind == "f" or sums.max() <= np.iinfo(dt).max:
                r = np.asarray(hg.attribute_contour_length(tr, shaped(c, o, per), el))
                c.close(r.astype(float), length(per, el.astype(float)), "contour-length-user", rtol=1e-5)
        c.close(np.asarray(hg.attribute_contour_length(tr)).astype(float), cl, "contour-length-after-" + k)
        g = o["g"]
        r = hg.attribute_contour_length(tr, hg.attribute_vertex_perimeter(g), hg.attribute_edge_length(g), g)
        c.close(np.asarray(r).astype(float), cl, "contour-length-given-after-" + k)
    if o["how"] in ("min", "max") and o["kind"] == "graph":
        el = gen.values(c, len(s), np.float64, nonneg=True)
        per = gen.values(c, n, np.float64)
        r = np.asarray(hg.cpp._attribute_contour_length_component_tree(tr, o["g"], per, el))
        c.close(r, length(per, el), "contour-length-component-tree", rtol=1e-9)
        c.ev("component-tree-contours")


@family("statistics", quick=2500)
def statistics(c):
    o = instance(c)
    tr, n, ins = o["tr"], o["n"], o["inside"]
    dt = w_dtype(c)
    tail = c.choice([(), (), (1,), (3,)])
    v = gen.values(c, n * int(np.prod(tail, dtype=int)), dt).reshape((n,) + tail)
    ar = ins @ o["area"]
    x = shaped(c, o, v)
    r = np.asarray(hg.attribute_mean_vertex_weights(tr, x))
    ref = np.tensordot(ins.astype(float), v.astype(float), 1) / ar.reshape((-1,) + (1,) * len(tail))
    c.ck(r.shape == ref.shape, "mean-shape", str(r.shape))
    c.close(r, ref, "mean", rtol=1e-6)
    if c.p(0.3):
        ua = gen.values(c, len(ins), np.float64, nonneg=True) + 1
        r = np.asarray(hg.attribute_mean_vertex_weights(tr, x, ua))
        c.close(r, ref * (ar / ua).reshape((-1,) + (1,) * len(tail)), "mean-user-area", rtol=1e-6)
    if len(tail) <= 1 and o["kind"] == "graph":
        m, var = [np.asarray(q) for q in hg.attribute_gaussian_region_weights_model(tr, x)]
        c.close(m.astype(float), ref, "gaussian-mean", rtol=1e-4)
        want = []
        for i in range(len(ins)):
            k = v[ins[i]].astype(float)
            d = k - k.mean(0)
            want.append((d * d).mean() if not tail else (d[:, :, None] * d[:, None, :]).mean(0))
        want = np.array(want)
        c.ck(var.shape == want.shape, "gaussian-shape", str(var.shape))
        scale = 1 + np.abs(v.astype(float)).max() ** 2
        c.ck(np.abs(var - want).max() <= 1e-5 * scale, "gaussian-variance", "%s expected %s" % (var.tolist(), want.tolist()))
        c.ev("gaussian-nodes", len(ins))


@family("inertia", quick=1500)
def inertia(c):
    o = instance(c)
    if o["sh"] is None or o["how"] == "tos" and not hg.CptGridGraph.validate(o["g"]):
        if o["sh"] is None:
            c.raises(lambda: hg.attribute_moment_of_inertia(o["tr"]), "inertia-not-grid")
        return
    r = np.asarray(hg.attribute_moment_of_inertia(o["tr"]))
    sh = o["sh"]
    X, Y = [q.ravel().astype(float) for q in np.meshgrid(np.arange(sh[0]), np.arange(sh[1]), indexing="ij")]
    ref = []
    for i in range(len(o["inside"])):
        a, b = X[o["inside"][i]], Y[o["inside"][i]]
        ref.append((((a - a.mean()) ** 2).sum() + ((b - b.mean()) ** 2).sum()) / len(a) ** 2)
    c.close(r, np.array(ref), "moment-of-inertia", rtol=1e-7)
    c.ev("inertia-nodes", len(ref))
