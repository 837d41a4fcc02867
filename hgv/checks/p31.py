"""P31: C++ structures, iterators and image files."""
import os, re, subprocess
from hgv.core import family

UNITS = ["sorting"]
NATIVE = [{"name": "structures", "src": "native/structures.cpp",
           "flags": ["-O1", "-g1", "-fsanitize=address,bounds,null,object-size,shift,integer-divide-by-zero,signed-integer-overflow,return,unreachable,vla-bound,bool",
                     "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]}]
TECHNIQUE = "AddressSanitizer and UndefinedBehaviorSanitizer on random operation histories over the C++ structures, online comparison with a model of the abstract type after every operation"
RULE = ("random histories of every public operation of the C++ structures (heaps of numbers, pairs and strings with merges and moves; disjoint sets; explicit graphs with both storages, copies and moves; implicit 1d-4d grid graphs; trees and "
        "their iterators; ancestor tables through copies, moves and saved states whose originals are destroyed; integer ranges and axis views; PNM images of every supported kind; sorts of containers and parts of them), each checked against a "
        "naive model after every operation, under ASan and UBSan. Distinct non-trivial: distinct digests of the history.")
ASSUMPTIONS = ["values have a strict weak order", "handles are used only while their element is in a heap"]
NOTE = "Held on the histories executed (counts in the evidence). Trusts: the sanitizers, the naive models in hgv/native/structures.cpp."
NAT = os.environ.get("HGV_NATIVE", "")
BLOCK = 25


def block(c, fam):
    seed = c.ri(1, 10**9)
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=1")
    e.pop("LD_PRELOAD", None)
    c.inp(family=fam, seed=seed, replay="structures %s %d 0 %d" % (fam, seed, BLOCK))
    for attempt in range(2):
        try:
            p = subprocess.run([os.path.join(NAT, "structures"), fam, str(seed), "0", str(BLOCK)], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            break
        except subprocess.TimeoutExpired:
            if attempt:
                c.fail("hang", "structures %s %d does not end" % (fam, seed))
    err = p.stderr.decode(errors="replace")
    lines = p.stdout.decode(errors="replace").strip().split("\n")
    for l in lines:
        m = re.match(r"case (\d+) \S+ (\S+) (\w+) (\d+) (.*)$", l)
        if not m:
            continue
        c.ck(m.group(5) == "ok", m.group(5).split(":")[0].replace(" ", "-"), "%s case %s of seed %d (%s): %s" % (fam, m.group(1), seed, m.group(2), m.group(5)))
        c.ev("checks", int(m.group(4)))
        c.ev("kind_" + m.group(2))
        c.note(m.group(3), nontrivial=int(m.group(4)) > 1)
    if p.returncode:
        cases = re.findall(r"@case (\d+)", err)
        rep = re.search(r"(ERROR: AddressSanitizer|runtime error|Assertion|terminate).*", err, re.S)
        kind = re.search(r"AddressSanitizer: ([\w-]+)|runtime error: ([^\n]{0,80})", err)
        c.fail("sanitizer", "%s case %s of seed %d ended with %d: %s\n%s" % (fam, cases[-1] if cases else "?", seed, p.returncode, kind.group(0) if kind else "", (rep.group(0) if rep else err)[:1500]))
    c.ck(len(lines) == BLOCK, "lost", "%d cases of %d" % (len(lines), BLOCK))


@family("heap", 400, 12000)
def heap(c):
    block(c, "heap")


@family("sets", 24, 600)
def sets(c):
    block(c, "sets")


@family("graph", 240, 6000)
def graph(c):
    block(c, "graph")


@family("grid", 160, 4000)
def grid(c):
    block(c, "grid")


@family("tree", 160, 4000)
def tree(c):
    block(c, "tree")


@family("lca", 240, 6000)
def lca(c):
    block(c, "lca")


@family("iter", 40, 800)
def iter_(c):
    block(c, "iter")


@family("pnm", 100, 2000)
def pnm(c):
    block(c, "pnm")


@family("sort", 24, 600)
def sort(c):
    block(c, "sort")
