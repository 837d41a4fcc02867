"""Random inputs: trees (parent arrays), graphs, weights, images.  All randomness comes from a Ctx."""
import numpy as np

INT_TYPES = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]
FLOAT_TYPES = [np.float32, np.float64]
NUM_TYPES = INT_TYPES + FLOAT_TYPES


def size(c, lo=1, hi=40):
    """mostly small, sometimes larger"""
    r = c.rng.random()
    if r < 0.3:
        h = lo + max(1, (hi - lo) // 8)
    elif r < 0.7:
        h = lo + max(1, (hi - lo) // 3)
    else:
        h = hi
    return c.ri(lo, max(lo, h))


def parents(c, nleaves=None, style=None, unary=True, maxleaves=40, binary=False):
    """a valid parent array (leaves first, topological order)"""
    n = nleaves or size(c, 1, maxleaves)
    style = style or c.choice(["random", "random", "chain", "balanced", "star", "wide", "deep"])
    rng = c.rng
    if n == 1 and (not unary or c.p(0.5)):
        return np.array([0], dtype=np.int64)
    act = list(range(n))
    par = {}
    nxt = n
    budget = 3 * n + 5  # bounds the number of unary nodes
    while len(act) > 1:
        k = 2
        if not binary:
            if style == "star":
                k = len(act)
            elif style == "wide":
                k = int(rng.integers(2, 2 + max(1, len(act) // 2)))
            else:
                k = int(rng.choice([2, 2, 2, 3, 4]))
        if unary and not binary and budget > 0 and rng.random() < 0.15:
            k = 1
            budget -= 1
        k = min(k, len(act))
        if style == "chain" and len(act) > 2:
            ch = [len(act) - 1] + list(rng.choice(len(act) - 1, k - 1, replace=False)) if k > 1 else [len(act) - 1]
        elif style == "balanced":
            ch = list(range(k))
        else:
            ch = list(rng.choice(len(act), k, replace=False))
        ch = sorted((int(x) for x in ch), reverse=True)
        for x in ch:
            par[act[x]] = nxt
            act.pop(x)
        act.append(nxt)
        nxt += 1
    if unary and not binary and rng.random() < 0.15 or nxt == n:
        for _ in range(int(rng.integers(1, 4))):
            par[act[0]] = nxt
            act[0] = nxt
            nxt += 1
    par[nxt - 1] = nxt - 1
    return np.array([par[i] for i in range(nxt)], dtype=np.int64)


def tree_info(par):
    """children lists, number of leaves, depth (naive)"""
    n = len(par)
    ch = [[] for _ in range(n)]
    for i in range(n - 1):
        ch[par[i]].append(i)
    nl = 0
    while nl < n and not ch[nl]:
        nl += 1
    depth = np.zeros(n, dtype=np.int64)
    for i in range(n - 2, -1, -1):
        depth[i] = depth[par[i]] + 1
    return ch, nl, depth


def leaves_below(par):
    """list of sorted leaf lists below each node"""
    ch, nl, _ = tree_info(par)
    res = []
    for i in range(len(par)):
        if i < nl:
            res.append([i])
        else:
            s = []
            for k in ch[i]:
                s += res[k]
            res.append(sorted(s))
    return res


def graph(c, n=None, m=None, connected=True, loops=True, parallel=True, maxn=20, style=None):
    """n, sources, targets"""
    n = n or size(c, 1, maxn)
    rng = c.rng
    style = style or c.choice(["random", "random", "tree", "path", "cycle", "complete", "star", "dense"])
    e = []
    perm = rng.permutation(n)
    if connected:
        for i in range(1, n):
            j = i - 1 if style in ("path", "cycle") else 0 if style == "star" else int(rng.integers(0, i))
            e.append((i, j))
    if style == "cycle" and n > 2:
        e.append((n - 1, 0))
    if style == "complete" and n <= 9:
        have = set((min(a, b), max(a, b)) for a, b in e)
        e += [(i, j) for i in range(n) for j in range(i + 1, n) if (i, j) not in have]
    if style in ("random", "dense"):
        k = m if m is not None else int(rng.integers(0, (2 if style == "random" else 4) * n + 1))
        have = set((min(a, b), max(a, b)) for a, b in e)
        for _ in range(k):
            a, b = int(rng.integers(n)), int(rng.integers(n))
            if a == b and not loops:
                continue
            key = (min(a, b), max(a, b))
            if key in have and not parallel:
                continue
            have.add(key)
            e.append((a, b))
    if loops and style == "tree" and rng.random() < 0.2:
        e.append((0, 0))
    if parallel and e and style != "random" and rng.random() < 0.2:
        e.append(e[int(rng.integers(len(e)))])
    order = rng.permutation(len(e))
    e = [e[i] for i in order]
    src = np.array([perm[a] for a, b in e], dtype=np.int64)
    dst = np.array([perm[b] for a, b in e], dtype=np.int64)
    flip = rng.random(len(e)) < 0.5
    s2, d2 = np.where(flip, dst, src), np.where(flip, src, dst)
    return n, s2, d2


def make_graph(hg, n, s, t):
    g = hg.UndirectedGraph(n)
    if len(s):
        g.add_edges(s.copy(), t.copy())
    return g


def values(c, shape, dtype=None, style=None, nonneg=False, maxabs=None):
    """numeric data exactly representable in every computation done by the oracles (small integers or
    dyadic rationals), with ties"""
    dtype = np.dtype(dtype or np.float64)
    rng = c.rng
    style = style or c.choice(["ties", "ties", "few", "perm", "const", "mid", "real"])
    n = int(np.prod(shape, dtype=np.int64)) if not np.isscalar(shape) else int(shape)
    if style == "const":
        v = np.full(n, int(rng.integers(0, 4)))
    elif style == "few":
        v = rng.integers(0, 3, n)
    elif style == "ties":
        v = rng.integers(0, max(2, n // 2 + 1), n)
    elif style == "perm":
        v = rng.permutation(n)
    else:
        v = rng.integers(0, 100, n)
    if dtype.kind != "f" and dtype.itemsize == 1:
        v = v % 100
    v = v.astype(np.float64)
    if not nonneg and dtype.kind != "u" and rng.random() < 0.5:
        v = v - int(rng.integers(0, max(1, int(v.max()) + 1) if n else 1))
    if dtype.kind == "f" and style == "real":
        v = v + rng.integers(0, 8, n) / 8.0
    if maxabs is not None:
        v = np.clip(v, -maxabs, maxabs)
    return v.astype(dtype).reshape(shape)


def dtype(c, types=None):
    return np.dtype(c.choice(types or NUM_TYPES))


def layout(c, a):
    """the same values with a random memory layout"""
    k = c.ri(0, 5)
    if k == 0:
        b = np.repeat(a, 2, axis=0)[::2]
    elif k == 1:
        b = np.asfortranarray(a)
    elif k == 2:
        b = a[::-1].copy()[::-1]
    elif k == 3:
        b = a.copy()
        b.setflags(write=False)
    elif k == 4 and a.ndim >= 1:
        big = np.zeros((a.shape[0] + 3,) + a.shape[1:], a.dtype)
        big[2:2 + a.shape[0]] = a
        b = big[2:2 + a.shape[0]]
    else:
        b = a.copy()
    assert np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return b


def components(n, s, t, mask=None):
    """labels of connected components, numbered by smallest vertex order"""
    p = list(range(n))

    def find(x):
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x
    for k in range(len(s)):
        if mask is None or mask[k]:
            a, b = find(int(s[k])), find(int(t[k]))
            if a != b:
                p[max(a, b)] = min(a, b)
    return np.array([find(i) for i in range(n)], dtype=np.int64)


def same_partition(a, b):
    a, b = np.asarray(a).ravel(), np.asarray(b).ravel()
    if a.shape != b.shape:
        return False
    f, g = {}, {}
    for x, y in zip(a.tolist(), b.tolist()):
        if f.setdefault(x, y) != y or g.setdefault(y, x) != x:
            return False
    return True


def grid_edges(shape, offsets):
    """undirected edges of a grid: set of (min, max) vertex pairs for the given neighbour offsets"""
    dims = len(shape)
    idx = np.arange(int(np.prod(shape))).reshape(shape)
    out = set()
    for x in np.ndindex(*shape):
        for o in offsets:
            y = tuple(a + b for a, b in zip(x, o))
            if all(0 <= y[k] < shape[k] for k in range(dims)) and x != y:
                a, b = int(idx[x]), int(idx[y])
                out.add((min(a, b), max(a, b)))
    return out
