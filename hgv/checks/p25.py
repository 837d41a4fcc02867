"""P25: contours of 2d cuts, oriented watersheds, mean pb hierarchies."""
import math

import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["contour_2d", "hierarchy_mean_pb", "graph_weights", "graph_accumulator", "watershed", "rag", "alignement", "hierarchy_core",
         "tree_attributes", "tree", "tree_accumulators", "graph_core", "binary_partition_tree"]
RULE = ("2d images of every shape (1 x n, n x 1, up to 20 x 20) with cuts given by random, blob, striped and checkerboard labels and by arbitrary sets of edges, of every numeric type; contours are compared "
        "with the pointel structure of the cut; subdivisions (any epsilon, absolute or relative, any minimal size, repeated) against the recursive definition; oriented watersheds and mean pb hierarchies on "
        "random gradients of both float types, with and without orientations, against naive definitions; the triangular filter and the gradient orientation on small images against explicit sums. Non-trivial: at least one cut edge or two regions.")
ASSUMPTIONS = ["4-adjacency grid graphs; non-negative weights; ties of the farthest element and distances within 1e-9 of the threshold may be decided either way",
               "weights are compared up to rounding errors of their type"]


def image_shape(c, hi=9):
    k = c.ri(0, 9)
    if k == 0:
        return 1, c.ri(1, hi)
    if k == 1:
        return c.ri(1, hi), 1
    return c.ri(1, hi), c.ri(1, hi)


def labels(c, h, w):
    k = c.ri(0, 5)
    yy, xx = np.mgrid[:h, :w]
    if k == 0:
        l = c.rng.integers(0, c.ri(1, 4), (h, w))
    elif k == 1:    # blobs
        cy, cx = c.rng.random(2) * (h, w)
        l = ((yy - cy) ** 2 + (xx - cx) ** 2 < (c.rng.random() * max(h, w)) ** 2) * 1
    elif k == 2:    # voronoi
        m = c.ri(1, 6)
        py, px = c.rng.random(m) * h, c.rng.random(m) * w
        l = ((yy[..., None] - py) ** 2 + (xx[..., None] - px) ** 2).argmin(-1)
    elif k == 3:
        l = (yy + xx) % 2
    elif k == 4:
        l = (yy * c.ri(0, 2) + xx * c.ri(0, 2)) // c.ri(1, 4)
    else:
        l = np.zeros((h, w), int)
        for _ in range(c.ri(1, 4)):
            a, b = sorted(c.rng.integers(0, h + 1, 2))
            d, e = sorted(c.rng.integers(0, w + 1, 2))
            l[a:b, d:e] = c.ri(0, 3)
    return l


def cracks(s, t, w, cut):
    """edge -> its two pointels (corners of the pixels, (y, x) in 0..h, 0..w)"""
    r = {}
    for e in np.flatnonzero(cut):
        y0, x0 = divmod(int(min(s[e], t[e])), w)
        y1, x1 = divmod(int(max(s[e], t[e])), w)
        if y0 == y1:
            r[int(e)] = ((y0, x1), (y0 + 1, x1))
        else:
            r[int(e)] = ((y1, x0), (y1, x0 + 1))
    return r


def elements(polyline, c, key):
    """elements of a polyline, from its segments"""
    out = []
    for i, seg in enumerate(polyline):
        el = [(int(e), (float(p[0]), float(p[1]))) for e, p in seg]
        c.ck(len(seg) == len(el), key + "-segment-length")
        if i and len(el):
            c.ck(out and el[0] == out[-1], key + "-shared-ends", "segment %d does not start where the previous one ends" % i)
            out.pop()
        out += el
    return out


def check_contour(c, ct, h, w, s, t, cut, key="contour"):
    cr = cracks(s, t, w, cut)
    inc = {}
    for e, (a, b) in cr.items():
        inc.setdefault(a, []).append(e)
        inc.setdefault(b, []).append(e)

    def stop(p):
        return p[0] in (0, h) or p[1] in (0, w) or len(inc[p]) != 2
    pol = [elements(p, c, key) for p in ct]
    c.ck(len(pol) == len(ct), key + "-len")
    allc = sorted(e for p in pol for e, _ in p)
    c.ck(allc == sorted(cr), key + "-each-edge-once", "got %s instead of %s" % (allc[:60], sorted(cr)[:60]))
    for p in pol:
        c.ck(len(p) > 0, key + "-empty-polyline")
        for e, (y, x) in p:
            y0, x0 = divmod(int(s[e]), w)
            y1, x1 = divmod(int(t[e]), w)
            c.ck(y == (y0 + y1) / 2 and x == (x0 + x1) / 2, key + "-coordinates", "edge %d at %s" % (e, (y, x)))
        # chain of pointels
        for (e, _), (f, _) in zip(p, p[1:]):
            sh = set(cr[e]) & set(cr[f])
            c.ck(len(sh) == 1, key + "-consecutive", "elements %d and %d are not neighbours" % (e, f))
            sh = sh.pop()
            c.ck(not stop(sh), key + "-through-junction", "the polyline goes on at %s" % (sh,))
        if len(p) == 1:
            ends = list(cr[p[0][0]])
        else:
            e0, e1 = p[0][0], p[1][0]
            en, em = p[-1][0], p[-2][0]
            used0 = set(cr[e0]) & set(cr[e1])
            usedn = set(cr[en]) & set(cr[em])
            ends = [x for x in cr[e0] if x not in used0] + [x for x in cr[en] if x not in usedn]
        if not all(stop(x) for x in ends):
            c.ck(len(p) > 2 and ends[0] == ends[1], key + "-stops-early", "ends %s" % (ends,))
            c.ev("closed-contours")
        else:
            c.ev("open-contours")
    return pol


def grid_cut(c, big=False):
    h, w = image_shape(c, 20 if big else 9)
    g = hg.get_4_adjacency_graph((h, w))
    s, t = g.edge_list()
    if c.p(0.25):
        cut = c.rng.random(len(s)) < c.choice([0.05, 0.2, 0.5, 0.9, 1])
    else:
        l = labels(c, h, w).ravel()
        cut = l[s] != l[t]
    return h, w, g, s, t, cut


@family("contours", quick=5000)
def contours(c):
    h, w, g, s, t, cut = grid_cut(c, c.p(0.2))
    dt = gen.dtype(c)
    wt = (cut * c.rng.integers(1, 100, len(cut))).astype(dt)
    if dt.kind == "f" and c.p(0.2):
        wt = (wt * dt.type(1e-3)).astype(dt)
    c.inp(shape=(h, w), weights=wt)
    c.note((h, w), wt, nontrivial=bool(cut.any()))
    wt = gen.layout(c, wt) if len(wt) else wt
    ct = hg.fit_contour_2d(g, (h, w), wt)
    pol = check_contour(c, ct, h, w, s, t, cut)
    for i in range(len(ct)):
        p = ct[i]
        c.ck(len(p) == 1, "contour-one-segment")
        seg = p[0]
        c.ck([int(e) for e, _ in seg] == [e for e, _ in pol[i]], "contour-index")
        (y0, x0), (y1, x1) = pol[i][0][1], pol[i][-1][1]
        c.close(seg.norm(), math.hypot(y0 - y1, x0 - x1), "segment-norm")
        c.close(seg.angle(), math.atan2(y0 - y1, x0 - x1), "segment-angle")
        c.ck(seg[0] == pol[i][0] and seg[len(seg) - 1] == pol[i][-1], "segment-index")
        c.raises(lambda: seg[len(seg)], "segment-out-of-range")


def dist(p, a, b):
    if a == b:
        return math.hypot(p[0] - a[0], p[1] - a[1])
    return abs((b[0] - a[0]) * (a[1] - p[1]) - (a[0] - p[0]) * (b[1] - a[1])) / math.hypot(b[0] - a[0], b[1] - a[1])


def rdp_ok(pts, cps, a, b, eps, rel, mn, depth=0):
    """can the subdivision of [a, b] have exactly the control points cps"""
    inner = [x for x in cps if a < x < b]
    thr = eps * math.hypot(pts[a][0] - pts[b][0], pts[a][1] - pts[b][1]) if rel else eps
    d = {i: dist(pts[i], pts[a], pts[b]) for i in range(a + 1, b)}
    tol = 1e-9 * max(1, abs(thr))
    must = [i for i in d if d[i] >= thr + tol and d[i] > mn + tol]
    may = [i for i in d if d[i] >= thr - tol and d[i] > mn - tol]
    if not inner:
        return not must
    if not may:
        return False
    top = max(d[i] for i in may)
    for i in inner:
        if i in d and d[i] >= top - tol and rdp_ok(pts, cps, a, i, eps, rel, mn) and rdp_ok(pts, cps, i, b, eps, rel, mn):
            return True
    return False


@family("subdivide", quick=2500)
def subdivide(c):
    h, w, g, s, t, cut = grid_cut(c, c.p(0.6))
    c.inp(shape=(h, w), cut=np.flatnonzero(cut))
    c.note((h, w), cut, nontrivial=bool(cut.any()))
    ct = hg.fit_contour_2d(g, (h, w), cut.astype(np.float64))
    pol = check_contour(c, ct, h, w, s, t, cut, "before")
    cps = [[0, len(p) - 1] for p in pol]
    for rnd in range(c.ri(1, 3)):
        if c.p(0.3):
            eps, rel, mn = 0.1, True, 2
            ct.subdivide()
        else:
            eps = float(c.choice([0, 0.05, 0.1, 0.3, 0.5, 1, 2, 5]))
            rel = bool(c.p(0.5))
            mn = c.ri(0, 3)
            ct.subdivide(epsilon=eps, relative_epsilon=rel, min_size=mn)
        c.inp(**{"round%d" % rnd: (eps, rel, mn)})
        after = check_contour(c, ct, h, w, s, t, cut, "subdivided")
        c.ck(after == pol, "subdivide-changes-elements", "round %d" % rnd)
        for i, p in enumerate(ct):
            pts = [x for _, x in pol[i]]
            pos = [0]
            for seg in p:
                pos.append(pos[-1] + len(seg) - 1)
            old = cps[i]
            c.ck(set(old) <= set(pos), "subdivide-control-points", "points %s lost" % (set(old) - set(pos)))
            for a, b in zip(old, old[1:]):
                c.ck(rdp_ok(pts, pos, a, b, eps, rel, mn), "subdivide-criterion",
                     "segment %d..%d of polyline %s: control points %s (epsilon %s relative %s min size %s)" % (a, b, pts, pos, eps, rel, mn))
            if len(pos) > 2:
                c.ev("subdivided-polylines")
            cps[i] = pos


@family("rag-lengths", quick=2500)
def rag_lengths(c):
    h, w = image_shape(c, 12)
    g = hg.get_4_adjacency_graph((h, w))
    s, t = g.edge_list()
    l = labels(c, h, w)
    comp = hg.labelisation_2_graph_cut(g, l)
    del comp
    rag = hg.make_region_adjacency_graph_from_labelisation(g, l)
    vm = hg.CptRegionAdjacencyGraph.get_vertex_map(rag)
    em = hg.CptRegionAdjacencyGraph.get_edge_map(rag)
    c.inp(labels=l)
    c.note(l, nontrivial=rag.num_edges() > 0)
    eps, rel, mn = (0.1, True, 2) if c.p(0.4) else (float(c.choice([0, 0.1, 0.5, 2])), bool(c.p(0.5)), c.ri(0, 3))
    per, length = hg.rag_2d_vertex_perimeter_and_edge_length(rag, epsilon=eps, relative_epsilon=rel, min_size=mn)
    cut = vm.ravel()[s] != vm.ravel()[t]
    ct = hg.fit_contour_2d(g, (h, w), cut.astype(np.float64))
    ct.subdivide(eps, rel, mn)
    el = np.zeros(rag.num_edges())
    for p in ct:
        for seg in p:
            for e, _ in seg:
                c.ck(em[e] == em[seg[0][0]], "polyline-one-frontier", "a polyline lies between several pairs of regions")
            el[em[seg[0][0]]] += math.dist(seg[0][1], seg[len(seg) - 1][1]) + 1
    c.close(length, el, "edge-length")
    pe = np.zeros(rag.num_vertices())
    rs, rt = rag.edge_list()
    np.add.at(pe, rs, el)
    np.add.at(pe, rt, el)
    v2 = vm.reshape(h, w)
    for side in (v2[0], v2[-1], v2[:, 0], v2[:, -1]):
        np.add.at(pe, side, 1)
    c.close(per, pe, "vertex-perimeter")


def gradient(c, s, t, h, w, dt):
    m = len(s)
    k = c.ri(0, 4)
    if k == 0:
        x = c.rng.integers(0, 4, m) / 4
    elif k == 1:
        x = c.rng.random(m)
    elif k == 2:
        im = c.rng.integers(0, 8, (h, w)).ravel()
        x = np.abs(im[s] - im[t]) / 8
    elif k == 3:
        l = labels(c, h, w).ravel()
        x = (l[s] != l[t]) + c.rng.random(m) * 0.1
    else:
        x = c.rng.permutation(m) / max(1, m)
    return x.astype(dt)


def rag_of(c, g, rag, s, t, gw):
    """checks that the rag is the one of the watershed basins of the gradient; vertex and edge maps"""
    vm = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(rag)).ravel()
    em = np.asarray(hg.CptRegionAdjacencyGraph.get_edge_map(rag)).ravel()
    n = g.num_vertices()
    lab = np.asarray(hg.labelisation_watershed(g, gw)).ravel()
    c.ck(gen.same_partition(vm, lab), "oriented-regions", "regions are not the watershed basins of the gradient: %s, %s" % (vm, lab))
    rs, rt = rag.edge_list()
    c.ck(sorted(set(vm.tolist())) == list(range(rag.num_vertices())), "oriented-rag-vertices")
    for e in range(len(s)):
        a, b = int(vm[s[e]]), int(vm[t[e]])
        if a == b:
            c.ck(em[e] == -1, "oriented-rag-inner-edge", "edge %d" % e)
        else:
            c.ck(0 <= em[e] < rag.num_edges() and {int(rs[em[e]]), int(rt[em[e]])} == {a, b}, "oriented-rag-edge", "edge %d" % e)
    pairs = {(min(vm[a], vm[b]), max(vm[a], vm[b])) for a, b in zip(s, t) if vm[a] != vm[b]}
    c.ck(len(pairs) == rag.num_edges(), "oriented-rag-edges")
    del n
    return vm, em


def strengths(c, g, h, w, s, t, vm, em, ne, gw, ori):
    fw = gw.astype(np.float64)
    if ori is not None:
        cut = vm[s] != vm[t]
        ct = hg.fit_contour_2d(g, (h, w), cut.astype(np.float64))
        ct.subdivide()
        fw = np.zeros(len(s))
        for p in ct:
            for seg in p:
                a = math.fmod(math.atan2(seg[0][1][0] - seg[len(seg) - 1][1][0], seg[0][1][1] - seg[len(seg) - 1][1][1]), math.pi)
                for e, _ in seg:
                    fw[e] = max(fw[e], float(gw[e]) * abs(math.cos(float(ori[e]) - math.pi / 2 - a)))
    sm, ct = np.zeros(ne), np.zeros(ne)
    for e in range(len(s)):
        if em[e] >= 0:
            sm[em[e]] += fw[e]
            ct[em[e]] += 1
    return sm / np.maximum(ct, 1), ct


def gradient_case(c, hi=8):
    h, w = image_shape(c, hi)
    g = hg.get_4_adjacency_graph((h, w))
    s, t = g.edge_list()
    dt = np.dtype(c.choice([np.float32, np.float64, np.float64]))
    gw = gradient(c, s, t, h, w, dt)
    ori = None
    if c.p(0.5):
        ori = (c.rng.integers(0, 8, len(s)) * math.pi / 8 if c.p(0.5) else c.rng.random(len(s)) * math.pi).astype(dt)
    c.inp(shape=(h, w), gradient=gw, orientations=ori)
    c.note((h, w), gw, ori, nontrivial=len(s) > 0)
    return h, w, g, s, t, dt, gw, ori


@family("oriented-watershed", quick=2500)
def oriented(c):
    h, w, g, s, t, dt, gw, ori = gradient_case(c)
    a = (gen.layout(c, gw), None if ori is None else gen.layout(c, ori)) if len(s) else (gw, ori)
    rag, rw = hg.oriented_watershed(g, a[0], edge_orientations=a[1]) if c.p(0.7) else hg.oriented_watershed(g, a[0], (h, w), a[1])
    vm, em = rag_of(c, g, rag, s, t, gw)
    want, _ = strengths(c, g, h, w, s, t, vm, em, rag.num_edges(), gw, ori)
    tol = 1e-5 if dt == np.float32 else 1e-9
    c.close(rw, want, "oriented-strength", rtol=tol, atol=tol)
    if ori is None and dt == np.float64 and len(want):
        c.ev("exact-strengths")


def average_linkage(c, n, rs, rt, w, ct, par, alt, tol):
    """does the tree merge, at each step, the two regions of smallest mean boundary strength"""
    sums, cnt = {}, {}
    for e in range(len(rs)):
        k = frozenset((int(rs[e]), int(rt[e])))
        sums[k] = sums.get(k, 0) + w[e] * ct[e]
        cnt[k] = cnt.get(k, 0) + ct[e]
    ch, l2, _ = gen.tree_info(par)
    c.ck(l2 == n and len(par) == 2 * n - 1, "meanpb-binary", "%d leaves, %d nodes for %d regions" % (l2, len(par), n))
    for node in range(n, 2 * n - 1):
        c.ck(len(ch[node]) == 2, "meanpb-binary")
        a, b = ch[node]
        k = frozenset((a, b))
        c.ck(k in sums, "meanpb-adjacent", "node %d merges regions which are not adjacent" % node)
        v = sums[k] / cnt[k]
        best = min(sums[x] / cnt[x] for x in sums)
        c.ck(v <= best + tol, "meanpb-smallest", "node %d merges at %s but %s is possible" % (node, v, best))
        c.ck(abs(alt[node] - v) <= tol, "meanpb-altitude",
             "node %d has altitude %s instead of %s" % (node, alt[node], v))
        new_s, new_c = {}, {}
        for x in sums:
            if x == k:
                continue
            y = frozenset(node if z in (a, b) else z for z in x)
            new_s[y] = new_s.get(y, 0) + sums[x]
            new_c[y] = new_c.get(y, 0) + cnt[x]
        sums, cnt = new_s, new_c


@family("mean-pb", quick=2000)
def mean_pb(c):
    h, w, g, s, t, dt, gw, ori = gradient_case(c, 7)
    a = (gen.layout(c, gw), None if ori is None else gen.layout(c, ori)) if len(s) else (gw, ori)
    tree, alt = hg.mean_pb_hierarchy(g, a[0], edge_orientations=a[1])
    rag = hg.CptHierarchy.get_leaf_graph(tree)
    vm, em = rag_of(c, g, rag, s, t, gw)
    c.ck(tree.num_leaves() == rag.num_vertices(), "meanpb-leaves")
    tol = 1e-4 if dt == np.float32 else 1e-9
    want, ct = strengths(c, g, h, w, s, t, vm, em, rag.num_edges(), gw, ori)
    rs, rt = rag.edge_list()
    par = np.asarray(tree.parents())
    c.ck(bool((np.asarray(alt) <= np.asarray(alt)[par] + tol).all()), "meanpb-increasing", str(alt))
    c.ck(bool((np.asarray(alt)[:tree.num_leaves()] == 0).all()), "meanpb-leaves-altitude")
    average_linkage(c, rag.num_vertices(), rs, rt, want, ct, par, np.asarray(alt, dtype=np.float64), tol)
    # the saliency is constant along the boundary between two regions and equal to the altitude of their lowest common ancestor
    sal = np.asarray(hg.saliency(tree, alt)).ravel()
    c.ck(len(sal) == len(s), "meanpb-saliency-size")
    depth_of = {}
    for e in range(len(s)):
        u, v = int(vm[s[e]]), int(vm[t[e]])
        if u == v:
            c.ck(sal[e] == 0, "meanpb-saliency-inside", "edge %d" % e)
            continue
        k = (min(u, v), max(u, v))
        if k not in depth_of:
            x, y = k
            while x != y:
                if x < y:
                    x = int(par[x])
                else:
                    y = int(par[y])
            depth_of[k] = alt[x]
        c.ck(sal[e] == depth_of[k], "meanpb-saliency", "edge %d" % e)
    c.ev("regions", rag.num_vertices())


@family("multiscale", quick=700)
def multiscale(c):
    h, w, g, s, t, dt, gw, ori = gradient_case(c, 6)
    if not len(s):
        c.note("empty", nontrivial=False)
        return
    gw = gw.astype(np.float64)
    ori = None if ori is None else ori.astype(np.float64)
    others = [gradient(c, s, t, h, w, np.float64) for _ in range(c.ri(1, 3))]
    c.inp(others=others)
    keep = [x.copy() for x in [gw] + others]
    tree, alt = hg.multiscale_mean_pb_hierarchy(g, gw, others, edge_orientations=ori)
    for x, y in zip(keep, [gw] + others):
        c.ck(np.array_equal(x, y), "multiscale-modified")
    # definition: mean of the saliencies, each one aligned on the fine watershed regions
    t0, a0 = hg.mean_pb_hierarchy(g, gw, edge_orientations=ori)
    fine = np.asarray(hg.CptRegionAdjacencyGraph.get_vertex_map(hg.CptHierarchy.get_leaf_graph(t0))).ravel()
    par = t0.parents()
    # super vertices: maximal nodes of altitude 0
    sup = np.arange(len(par))
    for i in range(len(par) - 2, -1, -1):
        sup[i] = sup[par[i]] if a0[par[i]] == 0 else i
    fine = sup[fine]
    mean = np.asarray(hg.saliency(t0, a0)).ravel().copy()
    for x in others:
        t1, a1 = hg.mean_pb_hierarchy(g, x, edge_orientations=ori)
        mean += np.asarray(hg.align_hierarchies(g, fine, [(t1, a1)])[0]).ravel()
    mean /= 1 + len(others)
    rag = hg.CptHierarchy.get_leaf_graph(tree)
    vm, em = rag_of(c, g, rag, s, t, mean)
    want, ct = strengths(c, g, h, w, s, t, vm, em, rag.num_edges(), mean, None)
    rs, rt = rag.edge_list()
    average_linkage(c, rag.num_vertices(), rs, rt, want, ct, np.asarray(tree.parents()), np.asarray(alt, dtype=np.float64), 1e-9)


@family("orientation", quick=1500)
def orientation(c):
    """triangular filter and estimated gradient orientation against their definitions"""
    h, w = c.ri(2, 9), c.ri(2, 9)
    size = c.ri(1, 6)
    k = c.ri(0, 3)
    img = c.rng.standard_normal((h, w))
    if k == 0:
        img = c.rng.integers(-5, 9, (h, w)).astype(c.choice([np.int32, np.uint8, np.float32, np.float64, np.int64]))
    elif k == 1:    # no variation along one axis
        img = np.ascontiguousarray(np.broadcast_to(img[:1] if c.ri(0, 1) else img[:, :1], (h, w)))
    c.inp(image=img, size=size)
    keep = img.copy()
    f = np.asarray(hg.triangular_filter(img, size))
    o = np.asarray(hg.gradient_orientation(img, size))
    c.ck(np.array_equal(keep, img), "filter-modified")
    ker = [size + 1 - abs(i) for i in range(-size, size + 1)]

    def mirror(i, n):
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    my = np.zeros((h, h))
    mx = np.zeros((w, w))
    for m, n in ((my, h), (mx, w)):
        for i in range(n):
            for d in range(-size, size + 1):
                m[i, mirror(i + d, n)] += ker[d + size] / (size + 1) ** 2
    want = my @ img.astype(np.float64) @ mx.T
    c.ck(f.shape == img.shape and np.allclose(f, want, rtol=1e-6, atol=1e-6 * (1 + np.abs(img).max())), "triangular-filter")
    c.ck(o.shape == img.shape and np.isfinite(o).all() and (o >= 0).all() and (o <= np.pi).all(), "orientation-range", str(o))

    def d(n):
        m = np.zeros((n, n))
        m[0, 0], m[0, 1], m[-1, -2], m[-1, -1] = -1, 1, -1, 1
        for i in range(1, n - 1):
            m[i, i - 1], m[i, i + 1] = -.5, .5
        return m
    dy, dx = d(h), d(w)
    xx, yy, xy = want @ (dx @ dx).T, dy @ dy @ want, dy @ want @ dx.T
    sc = 1e-7 * (1 + np.abs(want).max())
    for i in range(h):
        for j in range(w):
            if abs(xy[i, j]) > sc and math.hypot(xx[i, j], yy[i, j]) > 1e3 * sc:
                a = math.atan2(-yy[i, j] if xy[i, j] > 0 else yy[i, j], xx[i, j])
                e = (o[i, j] - a) % math.pi
                c.ck(min(e, math.pi - e) < 1e-2, "orientation-value", "(%d, %d): %r, %r" % (i, j, o[i, j], a % math.pi))
    c.ev("pixels", h * w)
