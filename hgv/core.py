"""Shared by the worker and the check modules: case context, family registry, verdicts."""
import hashlib, zlib
import numpy as np


class Violation(Exception):
    """raised by an oracle; key identifies the kind of failure (used to match known findings)"""
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key
        self.msg = msg


class Skip(Exception):
    """the generated case is not a valid case of the property"""


FAMILIES = []


def family(name, quick, thorough=None, asan=None, heavy=False):
    """register a family of cases. quick/thorough/asan: number of cases."""
    def deco(f):
        q = quick
        t = thorough if thorough is not None else quick * 10
        a = asan if asan is not None else max(1, quick // 4)
        FAMILIES.append(dict(name=name, quick=q, thorough=t, asan=a, fn=f, heavy=heavy))
        return f
    return deco


def make_rng(seed, prop, fam, idx):
    return np.random.Generator(np.random.PCG64(np.random.SeedSequence(
        [seed & 0xffffffff, zlib.crc32(prop.encode()), zlib.crc32(fam.encode()), idx])))


def _feed(h, o):
    if isinstance(o, np.ndarray):
        h.update(str(o.dtype).encode() + str(o.shape).encode())
        h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (list, tuple)):
        h.update(b"(")
        for x in o:
            _feed(h, x)
        h.update(b")")
    else:
        h.update(repr(o).encode())
    h.update(b"|")


def digest(*objs):
    h = hashlib.blake2b(digest_size=8)
    for o in objs:
        _feed(h, o)
    return h.digest()


def show(o, limit=400):
    if isinstance(o, np.ndarray):
        s = "%s%s %s" % (o.dtype, list(o.shape), np.array2string(o.ravel()[:60], separator=",", max_line_width=10**6))
    elif isinstance(o, dict):
        s = "{" + ", ".join("%s: %s" % (k, show(v, limit)) for k, v in o.items()) + "}"
    elif isinstance(o, (list, tuple)) and len(o) < 12:
        s = "[" + ", ".join(show(v, limit) for v in o) + "]"
    else:
        s = repr(o)
    return s if len(s) <= limit else s[:limit] + "..."


class Ctx:
    def __init__(self, seed, prop, fam, idx, tier):
        self.seed, self.prop, self.fam, self.idx, self.tier = seed, prop, fam, idx, tier
        self.rng = make_rng(seed, prop, fam, idx)
        self.digests = []
        self.counts = {}
        self.inputs = {}

    # -- what was observed
    def note(self, *objs, nontrivial=True):
        """digest of the case's inputs; only nontrivial ones are counted as distinct_nontrivial"""
        if nontrivial:
            self.digests.append(digest(self.fam, *objs))

    def ev(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def inp(self, **kw):
        """remember inputs for the replay file and the samples"""
        self.inputs.update(kw)

    # -- verdicts
    def fail(self, key, msg):
        raise Violation(key, msg)

    def ck(self, cond, key, msg=""):
        self.ev("checks")
        if not cond:
            raise Violation(key, msg if isinstance(msg, str) else show(msg))

    def eq(self, got, want, key, what=""):
        """exact equality of arrays (shape and values; nan equals nan)"""
        self.ev("checks")
        g, w = np.asarray(got), np.asarray(want)
        ok = g.shape == w.shape and (np.array_equal(g, w) or
                                     (g.dtype.kind in "fc" and w.dtype.kind in "fciub" and
                                      np.array_equal(g, w, equal_nan=True)))
        if not ok:
            raise Violation(key, "%s: got %s expected %s" % (what or key, show(g), show(w)))

    def close(self, got, want, key, what="", rtol=1e-9, atol=1e-9):
        self.ev("checks")
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            raise Violation(key, "%s: got %s expected %s" % (what or key, show(g), show(w)))

    def raises(self, f, key, what=""):
        """f must raise an ordinary exception"""
        self.ev("checks")
        try:
            r = f()
        except Exception:
            return
        raise Violation(key, "%s: no exception, returned %s" % (what or key, show(r)))

    # -- random helpers
    def ri(self, a, b):
        """random integer in [a, b]"""
        return int(self.rng.integers(a, b + 1))

    def p(self, x):
        return bool(self.rng.random() < x)

    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]
