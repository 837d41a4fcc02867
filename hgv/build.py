"""Build the parts of higra's extension module a check needs, from /repo's current working tree.

A "mini module" contains only the translation units (TUs) a check exercises; it is made of the
repository's own unmodified sources, plus a generated pymodule.cpp calling their init functions in the
order of the repository's pymodule.cpp.  The python files of the package are copied next to it.
If anything about this shortcut fails (file layout changed, missing symbol, import error, a binding
missing at run time) the caller falls back to building every TU with the repository's own pymodule.cpp.
Objects are cached under /verif/.build by content hash of all the files they depend on (development
speed only: the final run starts from an empty cache).
"""
import hashlib, os, re, shlex, shutil, subprocess, sys, threading, time, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HGV_REPO", "/repo")
PY = "/opt/higra/venv/bin/python"
CACHE = os.path.join(VERIF, ".build")
CXX = "clang++"

# always part of a module: classes that nearly everything needs
BASE = ["undirected_graph", "tree_graph", "lca_fast", "regular_graph", "embedding", "log", "graph_image",
        "scipy", "accumulators"]

# rough cost in cpu seconds, for scheduling only
COST = dict(tree_accumulators=44, alignement=18, fragmentation_curve=16, embedding=15, at_accumulator=14,
            regular_graph=13, horizontal_cuts=13, tree_attributes=12, tree_graph=12, graph_weights=11,
            graph_accumulator=11, component_tree=11, tree_of_shapes=11, watershed_hierarchy=10,
            tree_contour_accumulator=10, graph_core=9, undirected_graph=9)

VARIANTS = {
    "plain": dict(c=["-O0", "-g0"], l=[], env={}),
    "asan": dict(c=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"],
                 l=["-fsanitize=address", "-shared-libasan"], env={}),
    "asanub": dict(c=["-O0", "-g1", "-fno-omit-frame-pointer",
                      "-fsanitize=address,bounds,null,object-size,shift,integer-divide-by-zero,return,unreachable,vla-bound,bool",
                      "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
                   l=["-fsanitize=address,undefined", "-shared-libasan"], env={}),
}
TBB = ["-DHG_USE_TBB", "-isystem", VERIF + "/hgv/mt/stub"]
VARIANTS["tbb"] = dict(c=VARIANTS["plain"]["c"] + TBB, l=["-pthread"], env={})
VARIANTS["asantbb"] = dict(c=VARIANTS["asanub"]["c"] + TBB, l=VARIANTS["asanub"]["l"] + ["-pthread"], env={})
ASAN_RT = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"


class BuildError(Exception):
    pass


def log(*a):
    print("[build]", *a, flush=True)


def np_include():
    import glob
    c = glob.glob("/opt/higra/venv/lib/python3.*/site-packages/numpy/_core/include")
    return c[0]


def base_flags():
    return ["-std=gnu++17", "-fPIC", "-fvisibility=hidden", "-w", "-DHG_ENABLE_TRACE", "-DXTENSOR_USE_XSIMD",
            "-Dhigram_EXPORTS", "-I" + REPO + "/include", "-I" + REPO + "/higra", "-isystem", np_include(),
            "-isystem", REPO + "/lib/include", "-isystem", "/usr/include/python3.12"]


def find_units():
    """all the extension module's TUs: name -> path (name without py_ prefix)"""
    units = {}
    for d, _, fs in os.walk(REPO + "/higra"):
        for f in sorted(fs):
            if f.endswith(".cpp") and f != "pymodule.cpp":
                n = f[:-4]
                if n.startswith("py_"):
                    n = n[3:]
                if n in units:
                    n = os.path.relpath(os.path.join(d, f), REPO).replace("/", "_")
                units[n] = os.path.join(d, f)
    return units


def init_calls():
    src = open(REPO + "/higra/pymodule.cpp").read()
    return re.findall(r"^\s*((?:\w+::)*(py_init_\w+))\s*\(\s*m\s*\)\s*;", src, re.M), src


_fh_cache = {}
def file_hash(p):
    try:
        st = os.stat(p)
    except OSError:
        return "missing"
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in _fh_cache:
        with open(p, "rb") as f:
            _fh_cache[k] = hashlib.sha1(f.read()).hexdigest()
    return _fh_cache[k]


class Job:
    def __init__(self, name, src, flags, cost, text=None):
        self.name, self.src, self.flags, self.cost, self.text = name, src, flags, cost, text
        self.obj = None
        self.err = None

    def run(self):
        os.makedirs(CACHE + "/obj", exist_ok=True)
        cmd0 = [CXX] + self.flags
        key = hashlib.sha1(("\0".join(cmd0) + "\0" + self.src + "\0" + (self.text or "")).encode()).hexdigest()
        man = CACHE + "/obj/" + key + ".json"
        if os.path.exists(man):
            try:
                m = json.load(open(man))
                h = hashlib.sha1(b"".join((d + file_hash(d)).encode() for d in m["deps"])).hexdigest()
                o = CACHE + "/obj/" + key + "-" + h + ".o"
                if os.path.exists(o):
                    self.obj = o
                    os.utime(o)
                    return
            except (ValueError, KeyError, OSError):
                pass
        tmp = "%s/obj/%s.%d.%d" % (CACHE, key, os.getpid(), threading.get_ident())
        dep = tmp + ".d"
        p = subprocess.run(cmd0 + ["-MD", "-MF", dep, "-c", self.src, "-o", tmp + ".o"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode:
            self.err = p.stdout.decode(errors="replace")[-4000:]
            return
        deps = shlex.split(open(dep).read().replace("\\\n", " "))[1:]
        deps = [d for d in deps if d]
        h = hashlib.sha1(b"".join((d + file_hash(d)).encode() for d in deps)).hexdigest()
        o = CACHE + "/obj/" + key + "-" + h + ".o"
        os.replace(tmp + ".o", o)
        os.unlink(dep)
        with open(tmp + ".json", "w") as f:
            json.dump(dict(deps=deps), f)
        os.replace(tmp + ".json", man)
        self.obj = o


def run_jobs(jobs, nproc=None):
    nproc = nproc or os.cpu_count() or 8
    jobs = sorted(jobs, key=lambda j: -j.cost)
    lock = threading.Lock()
    it = iter(jobs)

    def work():
        while True:
            with lock:
                j = next(it, None)
            if j is None:
                return
            try:
                j.run()
            except Exception as e:  # noqa
                j.err = repr(e)
    ts = [threading.Thread(target=work) for _ in range(nproc)]
    [t.start() for t in ts]
    [t.join() for t in ts]


SPLIT = {"tree_accumulators": 4}


def numeric_types(parts):
    """the types of HG_TEMPLATE_NUMERIC_TYPES, in order, in consecutive groups (None if it cannot be read)"""
    try:
        m = re.findall(r"#define\s+HG_TEMPLATE_NUMERIC_TYPES((?:[^\n\\]|\\\n)*)", open(REPO + "/include/higra/utils.hpp").read())
    except OSError:
        return None
    if len(m) != 1:
        return None
    t = [x.strip() for x in m[0].replace("\\\n", " ").split("//")[0].split(",")]
    if not all(re.fullmatch(r"\w+", x) for x in t) or len(t) < parts:
        return None
    k = -(-len(t) // parts)
    return [t[i:i + k] for i in range(0, len(t), k)]


def write_if_changed(p, text):
    if os.path.exists(p) and open(p).read() == text:
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)


def gc_cache(limit=3 << 30):
    d = CACHE + "/obj"
    if not os.path.isdir(d):
        return
    fs = []
    for f in os.listdir(d):
        try:
            st = os.stat(d + "/" + f)
            fs.append((st.st_mtime, st.st_size, d + "/" + f))
        except OSError:
            pass
    tot = sum(f[1] for f in fs)
    for f in sorted(fs):
        if tot < limit:
            break
        try:
            os.unlink(f[2])
            tot -= f[1]
        except OSError:
            pass


SHIM = '''
import sys as _sys, types as _types
from . import _higram as _real
from ._higram import *
__all__ = [n for n in dir(_real) if not n.startswith("_")]
_hgv_full = %(full)r
_hgv_importing = True
_hgv_missing = []
_g = globals()
for _n in dir(_real):
    if not (_n.startswith("__") and _n.endswith("__")):
        _g[_n] = getattr(_real, _n)
class _HgvMissingBinding(BaseException):
    pass
def _hgv_lookup(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if _hgv_full:
        raise AttributeError(name)
    if _hgv_importing:
        _hgv_missing.append(name)
        return type(name, (), {})
    raise _HgvMissingBinding(name)
def __getattr__(name):
    return _hgv_lookup(name)
def _pkg_getattr(name):
    return _hgv_lookup(name)
_sys.modules["higra"].__getattr__ = _pkg_getattr
'''


def _link(so, objs, v):
    if "-shared-libasan" in v["l"]:  # allocation failures throw, as in a normal build
        nd = so + ".newdel.o"
        p = subprocess.run([CXX, "-fPIC", "-w", "-O1", "-c", VERIF + "/hgv/newdel.cpp", "-o", nd], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError("newdel: " + p.stdout.decode(errors="replace")[-3000:])
        objs = objs + [nd, "-Wl,-Bsymbolic-functions"]
    p = subprocess.run([CXX, "-shared", "-fPIC", "-o", so] + objs + v["l"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("link: " + p.stdout.decode(errors="replace")[-3000:])


def _compile(jobs):
    run_jobs(jobs)
    bad = [j for j in jobs if j.err]
    if bad:
        raise BuildError("compilation of %s failed:\n%s" % (bad[0].name, bad[0].err))


def _copy_py(pkg):
    for d, _, fs in os.walk(REPO + "/higra"):
        if "__pycache__" in d:
            continue
        for f in fs:
            if f.endswith(".py"):
                dst = os.path.join(pkg, os.path.relpath(os.path.join(d, f), REPO + "/higra"))
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(d, f), dst)


def _env(variant):
    env = dict(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    if variant.startswith("asan"):
        env["LD_PRELOAD"] = ASAN_RT
        env["ASAN_OPTIONS"] = ("detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:halt_on_error=1:exitcode=99:"
                               "allocator_may_return_null=1:quarantine_size_mb=64:redzone=128:max_allocation_size_mb=1500")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
        env["PYTHONMALLOC"] = "malloc"
    return env


def _import_test(outdir, env):
    code = "import sys; sys.path.insert(0, %r); import higra as hg; print(hg.__file__)" % outdir
    p = subprocess.run([PY, "-W", "ignore", "-c", code], env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("import: " + p.stdout.decode(errors="replace")[-3000:])


def _build_pristine(variant, outdir):
    """every TU, the repository's own pymodule.cpp, no tricks"""
    v = VARIANTS[variant]
    flags = base_flags() + v["c"]
    jobs = [Job(n, p, flags, COST.get(n, 6)) for n, p in find_units().items()]
    jobs.append(Job("pymodule", REPO + "/higra/pymodule.cpp", flags, 5))
    _compile(jobs)
    shutil.rmtree(outdir, ignore_errors=True)
    pkg = outdir + "/higra"
    os.makedirs(pkg)
    _link(pkg + "/higram.so", [j.obj for j in jobs], v)
    _copy_py(pkg)
    _import_test(outdir, _env(variant))


def _build_fast(units, variant, outdir):
    v = VARIANTS[variant]
    allu = find_units()
    calls, pysrc = init_calls()
    full = units is None
    names = list(allu) if full else list(dict.fromkeys(BASE + list(units)))
    miss = [u for u in names if u not in allu]
    if miss:
        raise BuildError("units not found: %s" % miss)
    flags = base_flags() + v["c"]
    defs = {n: set(re.findall(r"\bpy_init_\w+", open(p, errors="replace").read())) for n, p in allu.items()}
    jobs, split_ok = [], {}
    for n in names:
        cost = COST.get(n, 6)
        inits = [c for c in calls if c[1] in defs[n]]
        groups = numeric_types(SPLIT[n]) if n in SPLIT and len(inits) == 1 else None
        if groups:
            parts = []
            for k, types in enumerate(groups):
                text = ('#include "higra/utils.hpp"\n#undef HG_TEMPLATE_NUMERIC_TYPES\n'
                        '#define HG_TEMPLATE_NUMERIC_TYPES %s\n#define %s %s_hgv%d\n'
                        % (", ".join(types), inits[0][1], inits[0][1], k))
                hp = CACHE + "/inc/" + hashlib.sha1(text.encode()).hexdigest() + ".h"
                write_if_changed(hp, text)
                parts.append(Job("%s.%d" % (n, k), allu[n], flags + ["-include", hp], cost / 3.0))
            split_ok[n] = (parts, inits[0])
            jobs += parts
        else:
            jobs.append(Job(n, allu[n], flags, cost))
    sel = [c for c in calls if full or any(c[1] in defs[n] for n in names)]
    decl, body = "", ""
    for qual, fn in sel:
        ns = qual.split("::")[:-1]
        sp = [s for s in split_ok.values() if s[1] == (qual, fn)]
        fns = [fn + "_hgv%d" % k for k in range(len(sp[0][0]))] if sp else [fn]
        for f in fns:
            decl += "".join("namespace %s { " % x for x in ns) + "void %s(pybind11::module &m);" % f + " }" * len(ns) + "\n"
            body += "    %s(m);\n" % "::".join(ns + [f])
    text = re.sub(r'#include "all.hpp"', decl, pysrc)
    for qual, fn in calls:
        text = re.sub(r"^\s*" + re.escape(qual) + r"\s*\(\s*m\s*\)\s*;[^\n]*\n", "", text, flags=re.M)
    text, nrep = re.subn(r"(PYBIND11_MODULE\s*\(\s*)higram(\s*,\s*m\s*\)\s*\{)",
                         lambda mm: mm.group(1) + "_higram" + mm.group(2), text)
    if nrep != 1:
        raise BuildError("cannot adapt pymodule.cpp")
    idx = text.rfind("}")
    text = text[:idx] + "\n" + body + text[idx:]
    mp = CACHE + "/gen/" + hashlib.sha1(text.encode()).hexdigest() + ".cpp"
    write_if_changed(mp, text)
    jobs.append(Job("pymodule", mp, flags, 5, text))
    _compile(jobs)
    shutil.rmtree(outdir, ignore_errors=True)
    pkg = outdir + "/higra"
    os.makedirs(pkg)
    _link(pkg + "/_higram.so", [j.obj for j in jobs], v)
    _copy_py(pkg)
    with open(pkg + "/higram.py", "w") as f:
        f.write(SHIM % dict(full=full))
    _import_test(outdir, _env(variant))


def build(units=None, variant="plain", outdir=None):
    """Build the module with the given units (None: all). Returns dict(dir=, full=, env=)."""
    t0 = time.time()
    gc_cache()
    outdir = outdir or os.path.join(CACHE, "mod-%d" % os.getpid())
    try:
        _build_fast(units, variant, outdir)
        kind = "full" if units is None else "mini"
    except BuildError as e:
        log("fast build failed, building the repository's module as is:", str(e)[:1500])
        try:
            _build_pristine(variant, outdir)
            kind = "pristine"
        except BuildError as e2:
            if variant != "plain":
                raise
            log("clang++ build failed, trying g++:", str(e2)[:1500])
            global CXX
            CXX = "g++"
            _build_pristine(variant, outdir)
            kind = "pristine-g++"
    log("%s %s module built in %.1f s" % (kind, variant, time.time() - t0))
    return dict(dir=outdir, kind=kind, env=_env(variant), variant=variant)


def build_native(specs, outdir):
    """stand-alone programs: specs are dicts name, src (under hgv), flags"""
    t0 = time.time()
    os.makedirs(outdir, exist_ok=True)
    jobs = []
    for s in specs:
        fl = ["-std=gnu++17", "-w", "-pthread", "-DXTENSOR_USE_XSIMD", "-I" + REPO + "/include", "-isystem", REPO + "/lib/include"]
        jobs.append(Job(s["name"], VERIF + "/hgv/" + s["src"], fl + [f.replace("@", VERIF + "/hgv") for f in s["flags"]], 40))
    _compile(jobs)
    for s, j in zip(specs, jobs):
        p = subprocess.run([CXX, "-pthread", "-o", outdir + "/" + s["name"], j.obj] + [f for f in s["flags"] if f.startswith("-fsanitize")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError("link %s: %s" % (s["name"], p.stdout.decode(errors="replace")[-3000:]))
    log("native programs built in %.1f s" % (time.time() - t0))


if __name__ == "__main__":
    u = sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] != "all" else None
    print(build(u, sys.argv[2] if len(sys.argv) > 2 else "plain", outdir=CACHE + "/dev-" + (sys.argv[1] if len(sys.argv) > 1 else "all").replace(",", "_")[:60]))
