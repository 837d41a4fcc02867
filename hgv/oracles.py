"""Naive definitions shared by several checks."""
import numpy as np
from hgv import gen


class Overflow(Exception):
    """an exact integer result does not fit in the data type: nothing is specified"""


def acc_names(hg):
    return {n: getattr(hg.Accumulators, n) for n in
            ("min", "max", "mean", "counter", "sum", "prod", "first", "last", "argmin", "argmax")}


def aggregate(name, vals, dtype):
    """aggregate of a list of python numbers, in the order given (exact for integers)"""
    dt = np.dtype(dtype)
    isint = dt.kind in "iu"
    lim = np.iinfo(dt) if isint else np.finfo(dt)
    if name == "counter":
        r = len(vals)
    elif name in ("argmin", "argmax"):
        r = -1
        if vals:
            r = vals.index((min if name == "argmin" else max)(vals))
        elif dt.kind == "u":
            r = int(lim.max)
    elif name == "min":
        r = min(vals) if vals else lim.max
    elif name == "max":
        r = max(vals) if vals else lim.min
    elif name == "sum":
        r = sum(vals) if isint else float(np.sum(np.array(vals, np.float64)))
    elif name == "mean":
        if not vals:
            r = 0
        else:
            s = sum(vals)
            if isint:
                check(s, dt)
                r = abs(s) // len(vals) * (1 if s >= 0 else -1)
            else:
                r = s / len(vals)
    elif name == "prod":
        r = 1
        for v in vals:
            r = r * v
            if isint:
                check(r, dt)
    elif name == "first":
        r = vals[0] if vals else 0
    elif name == "last":
        r = vals[-1] if vals else 0
    else:
        raise KeyError(name)
    return check(r, dt) if isint else float(r)


def check(r, dt):
    if dt.kind in "iu":
        lim = np.iinfo(dt)
        if not (lim.min <= r <= lim.max):
            raise Overflow()
        return int(r)
    if not (abs(r) <= np.finfo(dt).max / 4):
        raise Overflow()
    return float(r)


class UF:
    def __init__(self, n):
        self.p = list(range(n))

    def find(self, x):
        p = self.p
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x


def kruskal(n, s, t, order):
    """parents and building edges; parents is None if not connected"""
    uf = UF(n)
    top = list(range(n))
    par = list(range(2 * n - 1))
    edges = []
    nxt = n
    for e in order:
        a, b = uf.find(s[e]), uf.find(t[e])
        if a == b:
            continue
        edges.append(e)
        par[top[a]] = par[top[b]] = nxt
        uf.p[b] = a
        top[a] = nxt
        nxt += 1
    return (par[:nxt] if nxt == 2 * n - 1 else None), edges


def stable_order(w):
    w = np.asarray(w)
    if w.ndim == 1:
        k = w.tolist()
    else:
        k = [tuple(r) for r in w.reshape(len(w), -1).tolist()]
    return sorted(range(len(k)), key=lambda i: k[i])


def minimax(n, s, t, w):
    """matrix of minimax path weights (object python numbers); None on the diagonal"""
    comp = [[i] for i in range(n)]
    cid = list(range(n))
    m = [[None] * n for _ in range(n)]
    for e in sorted(range(len(w)), key=lambda i: w[i]):
        a, b = cid[s[e]], cid[t[e]]
        if a == b:
            continue
        for x in comp[a]:
            for y in comp[b]:
                m[x][y] = m[y][x] = w[e]
        for y in comp[b]:
            cid[y] = a
        comp[a] += comp[b]
        comp[b] = []
    return m


def level_components(n, s, t, w):
    """set of (frozenset, altitude) of the components of all thresholds, singletons excluded unless n == 1"""
    out = {}
    for lev in sorted(set(w)):
        lab = gen.components(n, s, t, [x <= lev for x in w])
        d = {}
        for v, l in enumerate(lab.tolist()):
            d.setdefault(l, []).append(v)
        for k in d.values():
            if len(k) > 1:
                out.setdefault(frozenset(k), lev)
    return out


def hierarchy(par, alt):
    """dict leaf set -> altitude of the internal nodes"""
    ch, nl, _ = gen.tree_info(par)
    below = gen.leaves_below(par)
    return {frozenset(below[i]): alt[i] for i in range(nl, len(par))}, len(par) - nl
