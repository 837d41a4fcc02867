"""P18: optimal cuts, scale of appearance hierarchies, Mumford-Shah energies."""
from fractions import Fraction as Fr
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["tree_energy_optimization", "hierarchy_core", "horizontal_cuts", "tree_attributes", "tree_accumulators", "graph_accumulator", "binary_partition_tree", "sorting", "tree", "common", "at_accumulator", "graph_weights", "graph_core", "watershed_hierarchy", "component_tree"]
RULE = ("random trees (one-child nodes, stars, chains, single leaf) with energies of every dtype, ties and negative values; small trees are enumerated cut by cut. Scale hierarchies are queried at every critical scale, "
        "between critical scales, at 0 and far above, with exact rational energies as oracle. Greedy Mumford-Shah merging is replayed step by step with exact rational energies. Non-trivial: at least two inner nodes.")
ASSUMPTIONS = ["regularisation is sub-additive, data fidelity and regularisation are not negative (documented preconditions)", "approximation disabled or with fewer inner nodes than pieces",
               "Mumford-Shah merging on connected simple graphs of up to 9 vertices (the implementation approximates energies by 10 pieces)"]


def all_cuts(ch, nl, i, limit):
    """every cut of the subtree of i, as lists of nodes"""
    res = [[i]]
    if ch[i]:
        acc = [[]]
        for x in ch[i]:
            sub = all_cuts(ch, nl, x, limit)
            acc = [a + b for a in acc for b in sub]
            if len(acc) > limit:
                raise OverflowError
        res += acc
    return res


@family("optimal-cut", quick=5000)
def optimal_cut(c):
    p = gen.parents(c)
    ch, nl, _ = gen.tree_info(p)
    n = len(p)
    dt = gen.dtype(c)
    e = gen.values(c, n, dt)
    if c.p(0.4):
        # energies that make cuts of intermediate height optimal
        e = np.array([c.ri(1, 3) + (len(b) if c.p(0.5) else 0) for b in gen.leaves_below(p)]).astype(dt)
    acc = c.choice(["sum", "sum", "sum", "min", "max"])
    c.inp(parents=p, energy=e, accumulator=acc)
    c.note(p, e, acc, nontrivial=n > nl + 1)
    t = hg.Tree(p.copy())
    le = gen.layout(c, e) if n > 1 else e
    lab = hg.labelisation_optimal_cut_from_energy(t, le) if acc == "sum" and c.p(0.5) else hg.labelisation_optimal_cut_from_energy(t, le, getattr(hg.Accumulators, acc))
    lab = np.asarray(lab)
    c.ck(lab.shape == (nl,), "labels-shape", str(lab.shape))
    below = gen.leaves_below(p)
    nodes = {}
    for i, b in enumerate(below):
        nodes.setdefault(tuple(b), []).append(i)
    f = {"sum": sum, "min": min, "max": max}[acc]
    regions = []
    for l in sorted(set(lab.tolist())):
        k = tuple(np.flatnonzero(lab == l).tolist())
        c.ck(k in nodes, "not-a-cut", "region %s is not a node" % (k,))
        regions.append(min(float(e[i]) for i in nodes[k]))
    got = f(regions)
    opt = [0.0] * n
    for i in range(n):
        opt[i] = float(e[i]) if i < nl else min(float(e[i]), f([opt[x] for x in ch[i]]))
    c.ck(got == opt[n - 1], "not-minimal", "energy %r, minimum %r" % (got, opt[n - 1]))
    if n <= 16:
        try:
            cuts = all_cuts(ch, nl, n - 1, 300)
            best = min(f([float(e[i]) for i in k]) for k in cuts)
            c.ck(got == best, "not-minimal-enumeration", "energy %r, minimum over %d cuts %r" % (got, len(cuts), best))
            c.ev("cuts-enumerated", len(cuts))
        except OverflowError:
            pass
    c.ev("regions", len(regions))
    if c.p(0.1):
        c.raises(lambda: hg.labelisation_optimal_cut_from_energy(t, e, hg.Accumulators.prod), "bad-accumulator")


def best_at(ch, nl, D, R, lam):
    n = len(ch)
    o = [0] * n
    for i in range(n):
        o[i] = D[i] + lam * R[i]
        if i >= nl:
            o[i] = min(o[i], sum(o[x] for x in ch[i]))
    return o[n - 1]


@family("scale-hierarchy", quick=4000)
def scale_hierarchy(c):
    p = gen.parents(c, maxleaves=c.choice([6, 15, 30]))
    ch, nl, _ = gen.tree_info(p)
    n = len(p)
    D, R = [0] * n, [0] * n
    dm = c.choice(["random", "super", "few"])
    rm = c.choice(["equal", "sub", "sub", "const", "zero"])
    for i in range(n):
        if i < nl:
            D[i] = c.ri(0, 6) if dm != "few" else c.ri(0, 1)
            R[i] = 0 if rm == "zero" and c.p(0.5) else c.ri(1, 6)
        else:
            s, q = sum(D[x] for x in ch[i]), sum(R[x] for x in ch[i])
            D[i] = s + c.ri(0, 8) if dm == "super" else c.ri(0, 3) if dm == "few" else c.ri(0, 2 * s + 3)
            R[i] = q if rm == "equal" or rm == "zero" and c.p(0.5) else c.ri(0 if rm == "zero" else 1, q) if q > 0 else 0
            if rm == "const":
                R[i] = max(R[x] for x in ch[i])
    dt = c.choice([np.float64, np.float64, np.float32, np.int64, np.int32])
    dt2 = c.choice([np.float64, dt])
    Da, Ra = np.array(D).astype(dt), np.array(R).astype(dt2)
    inner = n - nl
    k = None if inner <= 9 and c.p(0.5) else c.choice([inner + 2, 10 ** 6])
    c.inp(parents=p, D=Da, R=Ra, pieces=k)
    c.note(p, Da, Ra, nontrivial=inner > 1)
    t = hg.Tree(p.copy())
    nt, alt = hg.hierarchy_to_optimal_energy_cut_hierarchy(t, Da, Ra) if k is None else hg.hierarchy_to_optimal_energy_cut_hierarchy(t, Da, Ra, k)
    alt = np.asarray(alt).astype(float)
    q = np.array(nt.parents())
    c.ck(len(alt) == len(q), "altitudes-size")
    _, ql, _ = gen.tree_info(q)
    c.ck(ql == nl, "leaves", "%d expected %d" % (ql, nl))
    c.ck(not np.isnan(alt).any() and (alt >= 0).all(), "altitudes-range", str(alt.tolist()))
    c.ck((alt[q] >= alt).all(), "altitudes-increasing", str(alt.tolist()))
    below = gen.leaves_below(p)
    nodes = {}
    for i, b in enumerate(below):
        nodes.setdefault(tuple(b), []).append(i)
    nb = gen.leaves_below(q)
    for b in nb:
        c.ck(tuple(b) in nodes, "node-not-in-input", str(b))
    crit = sorted(set(x for x in alt.tolist() if np.isfinite(x)))
    lams = [0.0] + crit + [(a + b) / 2 for a, b in zip(crit, crit[1:])] + ([crit[-1] + 1, crit[-1] * 10 + 100] if crit else [50.0])
    lams += [x * (1 - 2e-6) for x in crit[:4] if x > 0]
    for lam in lams:
        # horizontal cut: largest regions of altitude at most lam, leaves otherwise
        regions = []
        for i in range(len(q)):
            ok = alt[i] <= lam or i < nl
            top = i == len(q) - 1 or alt[q[i]] > lam
            if ok and top:
                regions.append(tuple(nb[i]))
        c.ck(sum(len(x) for x in regions) == nl, "cut-is-partition", "lambda %r" % lam)
        L = Fr(lam)
        got = sum(min(D[i] + L * R[i] for i in nodes[x]) for x in regions)
        want = best_at(ch, nl, D, R, L)
        c.ck(got >= want, "oracle")
        c.ck(float(got - want) <= 1e-9 * (1 + abs(float(want))), "cut-not-optimal", "lambda %r: energy %r optimum %r" % (lam, float(got), float(want)))
        c.ev("scales-queried")
    lam = c.choice(lams)
    lab = np.asarray(hg.labelisation_horizontal_cut_from_threshold(nt, alt, lam))
    regions = [tuple(np.flatnonzero(lab == x).tolist()) for x in set(lab.tolist())]
    got = sum(min(D[i] + Fr(lam) * R[i] for i in nodes[x]) for x in regions)
    want = best_at(ch, nl, D, R, Fr(lam))
    c.ck(float(got - want) <= 1e-9 * (1 + abs(float(want))), "horizontal-cut-not-optimal", "lambda %r" % lam)
    if c.p(0.1):
        c.raises(lambda: hg.hierarchy_to_optimal_energy_cut_hierarchy(t, Da, Ra, 0), "no-pieces")


def image(c, n, sh):
    tail = c.choice([(), (), (1,), (2,), (3,)])
    dt = c.choice([np.uint8, np.float64, np.float64, np.int32, np.float32, np.uint16])
    v = c.rng.integers(0, c.choice([2, 5, 20, 200]), (n,) + tail).astype(dt)
    return v, (v.reshape(sh + tail) if sh and c.p(0.7) else v)


@family("mumford-shah-energy", quick=1500)
def ms_energy(c):
    if c.p(0.6):
        sh = (c.ri(2, 5), c.ri(2, 5))
        g = hg.get_4_adjacency_graph(sh)
        n = g.num_vertices()
    else:
        sh = None
        n, s, t = gen.graph(c, n=c.ri(2, 12), connected=True, loops=False, parallel=False)
        g = gen.make_graph(hg, n, s, t)
    s, t = [np.array(x) for x in g.edge_list()]
    tr, _ = hg.bpt_canonical(g, gen.values(c, len(s), np.float64))
    p = np.array(tr.parents())
    v, x = image(c, n, sh)
    gamma = c.choice([0, 0.5, 1, 3, 20])
    c.inp(parents=p, values=v, gamma=gamma, shape=sh, s=s, t=t)
    c.note(p, v, gamma, nontrivial=n > 2)
    e = np.asarray(hg.attribute_piecewise_constant_Mumford_Shah_energy(tr, x, gamma))
    below = gen.leaves_below(p)
    per = np.full(n, 4.0) if sh else np.bincount(s, minlength=n) + np.bincount(t, minlength=n).astype(float)
    D, R = [], []
    for b in below:
        w = v[b].astype(float).reshape(len(b), -1)
        D.append(((w - w.mean(0)) ** 2).sum())
        k = set(b)
        R.append(per[b].sum() - 2 * sum(1 for i in range(len(s)) if s[i] in k and t[i] in k))
    D, R = np.array(D), np.array(R)
    scale = 1 + float(np.abs(v.astype(float)).max()) ** 2 * n
    c.ck(np.abs(e - D - gamma * R).max() <= (1e-5 if v.dtype == np.float32 else 1e-9) * scale, "energy", "%s expected %s" % (e.tolist(), (D + gamma * R).tolist()))
    ch, nl, _ = gen.tree_info(p)
    nt, alt = hg.hierarchy_to_optimal_MumfordShah_energy_cut_hierarchy(tr, x, approximation_piecewise_linear_function=10 ** 6)
    alt = np.asarray(alt)
    for lam in [0.3, 2, float(c.choice(alt.tolist())) * 1.37 + 0.11]:
        if not np.isfinite(lam):
            continue
        lab = np.asarray(hg.labelisation_horizontal_cut_from_threshold(nt, alt, lam)).ravel()
        got = 0
        idx = {tuple(b): i for i, b in enumerate(below)}
        for l in set(lab.tolist()):
            k = tuple(np.flatnonzero(lab == l).tolist())
            c.ck(k in idx, "ms-region", str(k))
            got += D[idx[k]] + lam * R[idx[k]]
        want = best_at(ch, nl, D, R, lam)
        c.ck(got - want <= (1e-4 if v.dtype == np.float32 else 1e-8) * scale * (1 + lam), "ms-not-optimal", "lambda %r: %r optimum %r" % (lam, got, want))
        c.ev("scales-queried")


class Energy:
    """optimal energy of a region as a function of the scale: data and regularisation of the region, and of its parts"""

    def __init__(self, D, R, parts=()):
        # concave lower envelope given by lines (D, R) of the optimal cuts at increasing scales
        if not parts:
            self.bp = [(Fr(0), D, R)]
            return
        a, b = parts
        xs = sorted(set(x for x, _, _ in a.bp) | set(x for x, _, _ in b.bp))
        lines = []
        for x in xs:
            la, lb = a.line(x), b.line(x)
            lines.append((x, la[0] + lb[0], la[1] + lb[1]))
        x = cross(lines, D, R)
        if x is None:
            self.bp = lines
        else:
            self.bp = [l for l in lines if l[0] < x] + [(x, D, R)]

    def line(self, x):
        r = self.bp[0][1:]
        for y, d, s in self.bp:
            if y <= x:
                r = (d, s)
        return r


def cross(lines, D, R):
    """smallest scale >= 0 from which D + scale * R is at most the sum given by the lines (None: never)"""
    for k, (x, d, r) in enumerate(lines):
        end = lines[k + 1][0] if k + 1 < len(lines) else None
        if D + x * R <= d + x * r:
            return x
        if r > R:
            z = (D - d) / (r - R)
            if end is None or z <= end:
                return z
    return None


def scale_of(a, b, D, R):
    xs = sorted(set(x for x, _, _ in a.bp) | set(x for x, _, _ in b.bp))
    return cross([(x, a.line(x)[0] + b.line(x)[0], a.line(x)[1] + b.line(x)[1]) for x in xs], D, R)


@family("mumford-shah-bpt", quick=1500)
def ms_bpt(c):
    if c.p(0.5):
        sh = c.choice([(2, 2), (2, 3), (3, 3), (1, 5), (2, 4), (3, 2)])
        g = hg.get_4_adjacency_graph(sh)
        n = g.num_vertices()
    else:
        sh = None
        n, s, t = gen.graph(c, n=c.ri(2, 9), connected=True, loops=False, parallel=False)
        g = gen.make_graph(hg, n, s, t)
    s, t = [np.array(x) for x in g.edge_list()]
    v, x = image(c, n, sh)
    kw = {}
    area = np.ones(n)
    length = np.ones(len(s))
    sq = v.astype(float) ** 2
    if c.p(0.3):
        area = c.rng.integers(1, 5, n).astype(float)
        kw["vertex_area"] = area.reshape(sh) if sh else area
        # values are sums over the pixels of a vertex: keep a non negative variance
        sq = np.ceil(sq / area.reshape((n,) + (1,) * (v.ndim - 1))) + c.ri(0, 3)
        kw["squared_vertex_values"] = sq
    if c.p(0.3):
        length = c.rng.integers(1, 4, len(s)).astype(float)
        kw["edge_length"] = length
    if sh:
        per = np.full(n, 4.0)
        if "edge_length" in kw:
            per = np.zeros(n)
    else:
        per = np.zeros(n)
    if not per.any():
        for e in range(len(s)):
            per[s[e]] += length[e]
            per[t[e]] += length[e]
        if sh or c.p(0.3):
            per = per + c.ri(0, 3)
            kw["vertex_perimeter"] = per
    c.inp(n=n, s=s, t=t, values=v, area=area, length=length, perimeter=per, squares=sq)
    c.note(n, s, t, v, area, length, nontrivial=n > 2)
    tr, alt = hg.binary_partition_tree_MumfordShah_energy(g, x, **kw)
    alt = np.asarray(alt).astype(float)
    p = np.array(tr.parents())
    ch, nl, _ = gen.tree_info(p)
    c.ck(nl == n and len(p) == 2 * n - 1 and all(len(k) == 2 for k in ch[n:]), "binary", str(p.tolist()))
    c.ck((alt[:n] == 0).all(), "leaf-altitudes")
    V = v.reshape(n, -1)
    Q = np.asarray(sq).reshape(n, -1)

    class Reg:
        pass
    regs = {}
    for i in range(n):
        r = Reg()
        r.m = [Fr(float(y)) for y in V[i]]
        r.q = [Fr(float(y)) for y in Q[i]]
        r.a, r.p = Fr(area[i]), Fr(per[i])
        r.E = Energy(sum(q - m * m / r.a for q, m in zip(r.q, r.m)), r.p)
        regs[i] = r
    adj = {}
    for e in range(len(s)):
        k = (min(s[e], t[e]), max(s[e], t[e]))
        adj[k] = adj.get(k, 0) + Fr(length[e])

    def merged(i, j):
        a, b = regs[i], regs[j]
        r = Reg()
        r.m = [y + z for y, z in zip(a.m, b.m)]
        r.q = [y + z for y, z in zip(a.q, b.q)]
        r.a, r.p = a.a + b.a, a.p + b.p - 2 * adj[(min(i, j), max(i, j))]
        r.D = sum(q - m * m / r.a for q, m in zip(r.q, r.m))
        return r
    wt = {k: scale_of(regs[k[0]].E, regs[k[1]].E, *(lambda r: (r.D, r.p))(merged(*k))) for k in adj}
    for i in range(n, len(p)):
        a, b = ch[i]
        k = (min(a, b), max(a, b))
        c.ck(k in adj, "not-adjacent", "node %d merges %s" % (i, k))
        w = wt[k]
        lo = min(float("inf") if y is None else float(y) for y in wt.values())
        w = float("inf") if w is None else float(w)
        tol = 1e-7 * (1 + abs(lo)) if np.isfinite(lo) else 0
        c.ck(w == lo or abs(w - lo) <= tol, "not-smallest", "node %d merges %s at scale %r, smallest %r" % (i, k, w, lo))
        c.ck(alt[i] == w or abs(alt[i] - w) <= 1e-7 * (1 + abs(w)), "scale", "node %d: %r expected %r" % (i, alt[i], w))
        r = merged(*k)
        r.E = Energy(r.D, r.p, (regs[a].E, regs[b].E))
        c.ev("merges")
        new = {}
        for (y, z), l in list(adj.items()):
            if (y, z) == k:
                del adj[(y, z)], wt[(y, z)]
            elif y in k or z in k:
                o = z if y in k else y
                new[o] = new.get(o, 0) + l
                del adj[(y, z)], wt[(y, z)]
        regs[i] = r
        for o, l in new.items():
            adj[(o, i)] = l
        for o in new:
            q = merged(o, i)
            wt[(o, i)] = scale_of(regs[o].E, regs[i].E, q.D, q.p)
