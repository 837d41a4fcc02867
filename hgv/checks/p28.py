"""P28: multi-threaded build."""
import os, re, subprocess
import numpy as np
import higra as hg
from hgv import gen
from hgv.core import family

UNITS = ["sorting", "graph_weights", "hierarchy_core", "graph_core", "component_tree", "watershed", "tree", "tree_accumulators"]
QUICK_VARIANT = "tbb"
ASAN_VARIANT = "asantbb"
NATIVE = [{"name": "mt_seq", "src": "mt/mt.cpp", "flags": ["-O0", "-g0"]},
          {"name": "mt_tsan", "src": "mt/mt.cpp", "flags": ["-O1", "-g1", "-fsanitize=thread", "-DHG_USE_TBB", "-isystem", "@/mt/stub"]}]
TECHNIQUE = "ThreadSanitizer on the multi-threaded build driven by a randomising scheduler, differential monitor against the sequential build and direct specification checks"
RULE = ("the parallelised operations (sorts of values, records, rows and indices; parallel loops; range minimum queries and lowest common ancestors; edge weights; the hierarchies built on them) compiled with HG_USE_TBB "
        "against a stand-in for TBB's scheduler that deals iterations and tasks to 1-8 threads in random blocks and orders with random delays, under ThreadSanitizer; each result is compared with the one of the sequential build "
        "and with its definition. Distinct non-trivial: (inputs, number of threads, observed order of the chunks over the threads) with at least one region run by several threads.")
ASSUMPTIONS = ["the stand-in scheduler (hgv/mt/stub) honours TBB's contract: it orders only what fork, join and task reference counts order", "comparison functions and weighting functions supplied by the caller are pure"]
NOTE = ("Held on the schedules and inputs executed (counts in the evidence). ThreadSanitizer reports any pair of conflicting accesses left unordered in an executed schedule, whether or not they collided. "
        "Trusts: ThreadSanitizer, the stand-in for TBB's scheduler, the naive oracles.")
NAT = os.environ.get("HGV_NATIVE", "")
BLOCK = 16


def run(c, exe, args, **env):
    e = dict(os.environ, TSAN_OPTIONS="halt_on_error=0:exitcode=0:history_size=4:report_signal_unsafe=0:die_after_fork=0", **env)
    e.pop("LD_PRELOAD", None)
    for attempt in range(2):
        try:
            p = subprocess.run([os.path.join(NAT, exe)] + [str(a) for a in args], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=40)
            break
        except subprocess.TimeoutExpired:
            if attempt:
                c.fail("hang", "%s %s does not end" % (exe, args))
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")


def races(err):
    """[(case, report)]"""
    out, case, cur = [], None, None
    for line in err.split("\n"):
        if line.startswith("@case"):
            case = line.split()[1]
        if "WARNING: ThreadSanitizer" in line:
            cur = [line]
            out.append((case, cur))
        elif cur is not None:
            if line.startswith("====="):
                cur = None
            elif len(cur) < 60:
                cur.append(line)
    return out


def compare(c, seed, lo, hi, threads, sched):
    rc0, seq, err0 = run(c, "mt_seq", [seed, lo, hi])
    rc, par, err = run(c, "mt_tsan", [seed, lo, hi, threads, sched])
    c.inp(seed=seed, lo=lo, hi=hi, threads=threads, schedule=sched, replay="mt_tsan %d %d %d %d %d" % (seed, lo, hi, threads, sched))
    r = races(err)
    if r:
        rep = "\n".join(r[0][1])
        kind = re.search(r"ThreadSanitizer: ([\w -]+?)\s*\(", rep)
        fr = re.search(r"#\d+ .*?((?:hg|pss)::[\w:]+)", rep)
        c.fail("race", "%d reports, first in case %s: %s in %s\n%s" % (len(r), r[0][0], kind.group(1) if kind else "?", fr.group(1) if fr else "?", rep[:1800]))
    c.ck(rc0 == 0, "crash", "sequential program ended with %s: %s" % (rc0, err0[-600:]))
    c.ck(rc == 0, "crash", "multi-threaded program ended with %s: %s" % (rc, err[-600:]))
    a, b = seq.strip().split("\n"), par.strip().split("\n")
    st = dict(re.findall(r"(\w+)=(\w+)", b[-1]))
    b = b[:-1]
    c.ck(len(a) == len(b) == hi - lo, "lost", "cases lost: %d %d" % (len(a), len(b)))
    for x, y in zip(a, b):
        c.ck(y.endswith(" ok"), "definition", "multi-threaded: " + y)
        c.ck(x.endswith(" ok"), "definition", "sequential: " + x)
        c.ck(x == y, "differs", "sequential %s, multi-threaded %s" % (x, y))
        c.ev("op_" + x.split()[2])
    for k in ("regions", "parallel_regions", "chunks", "iterations", "threads", "tasks", "stolen"):
        c.ev(k, int(st[k]))
    c.ev("with_%d_threads" % threads)
    c.note(seed, lo, hi, threads, st["order"], nontrivial=int(st["parallel_regions"]) + int(st["stolen"]) > 0)


@family("tsan", 600, 12000, asan=100)
def tsan(c):
    compare(c, c.ri(1, 10**6), c.ri(0, 7), c.ri(8, 8 + BLOCK), c.choice([2, 3, 4, 5, 8]), c.ri(1, 10**6))


@family("one_thread", 16, 200, asan=4)
def one_thread(c):
    compare(c, c.ri(1, 10**6), 0, BLOCK, 1, c.ri(1, 10**6))


@family("schedules", 60, 1500, asan=10)
def schedules(c):
    """one input, several schedules"""
    seed, k = c.ri(1, 10**6), c.ri(0, 7)
    for s in range(6):
        compare(c, seed, k, k + 1, c.choice([2, 3, 4, 8]), c.ri(1, 10**6))


TYPES = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"]


@family("python_sort", 400, 8000, asan=100)
def python_sort(c):
    hg.set_num_threads(c.choice([0, 1, 2, 3, 8]))
    n = c.choice([c.ri(0, 20), c.ri(495, 505), c.ri(1000, 3000), c.ri(3000, 12000)])
    dt = c.choice(TYPES)
    hi = c.choice([3, 100, 127])
    two = c.p(0.4)
    a = c.rng.integers(0, hi, (n, c.ri(1, 3)) if two else n).astype(dt)
    c.inp(a=a)
    keys = [tuple(r) for r in a.tolist()] if two else a.tolist()
    ref = np.array(sorted(range(n), key=lambda i: keys[i]), np.int64)
    s = hg.arg_sort(a, stable=True)
    c.eq(s, ref, "stable_arg_sort")
    u = hg.arg_sort(a, stable=False)
    c.eq(np.sort(u), np.arange(n), "permutation")
    c.eq(a[u], a[ref], "arg_sort")
    if not two:
        for st in (True, False):
            b = a.copy()
            r = hg.sort(b, stable=st)
            c.eq(b if r is None else r, a[ref], "sort")
    c.note(a, nontrivial=n > 500)


@family("python_tree", 200, 4000, asan=60)
def python_tree(c):
    """the python interface of the multi-threaded build agrees with definitions"""
    hg.set_num_threads(c.choice([0, 2, 3, 8]))
    h, w = c.ri(1, 30), c.ri(2, 30)
    g = hg.get_4_adjacency_graph((h, w))
    f = c.rng.integers(0, c.choice([3, 30, 1000]), (h, w)).astype(c.choice(["f8", "i4", "u1"] if True else []))
    ew = hg.weight_graph(g, f, hg.WeightFunction.L1)
    s, t = g.edge_list()
    ff = f.ravel().astype(float)
    c.eq(ew, np.abs(ff[s] - ff[t]), "weight_L1")
    c.eq(hg.weight_graph(g, f, hg.WeightFunction.max), np.maximum(ff[s], ff[t]), "weight_max")
    v = c.rng.integers(0, 9, (h * w, 3)).astype("f8")
    c.close(hg.weight_graph(g, v, hg.WeightFunction.L2_squared), ((v[s] - v[t]) ** 2).sum(1), "weight_L2s")
    tree, alt = hg.bpt_canonical(g, ew)
    # minimax path weights by Kruskal
    lab = list(range(h * w))
    members = {i: [i] for i in lab}
    n = h * w
    nodes = list(range(n))
    want_alt = []
    par = {}
    for e in sorted(range(len(ew)), key=lambda i: ew[i]):
        a, b = lab[s[e]], lab[t[e]]
        if a == b:
            continue
        if len(members[a]) < len(members[b]):
            a, b = b, a
        want_alt.append(ew[e])
        new = n + len(want_alt) - 1
        par[nodes[a]] = par[nodes[b]] = new
        nodes[a] = new
        for x in members[b]:
            lab[x] = a
        members[a] += members.pop(b)
    c.eq(alt[n:], np.array(want_alt), "bpt_altitudes")
    c.eq(tree.parents()[:-1], np.array([par[i] for i in range(tree.num_vertices() - 1)]), "bpt_parents")
    k = c.ri(1, 3000)
    p, q = c.rng.integers(0, tree.num_vertices(), k), c.rng.integers(0, tree.num_vertices(), k)
    P = tree.parents()

    def lca(x, y):
        while x != y:
            if x < y:
                x = P[x]
            else:
                y = P[y]
        return x
    m = min(k, 300)
    want = np.array([lca(int(x), int(y)) for x, y in zip(p[:m], q[:m])])
    for sol in (tree, hg.LCA_rmq_sparse_table_block(tree, c.choice([1, 2, 7, 64, 1024])), hg.LCA_rmq_sparse_table(tree)):
        got = sol.lowest_common_ancestor(p, q) if sol is tree else sol.lca(p, q)
        c.eq(got[:m], want, "lca")
        c.eq(np.shape(got), (k,), "lca_size")
    c.inp(shape=(h, w), f=f)
    c.note(f, v)
