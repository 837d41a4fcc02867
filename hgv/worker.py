"""Runs one shard of the cases of a check against a built module.
usage: worker.py BUILD_DIR PROP SHARD NSHARDS MODE SEED OUT START [--one FAMILY IDX]"""
import importlib, json, os, resource, sys, time, traceback, warnings


def main():
    bdir, prop, shard, nsh, mode, seed, out, start = sys.argv[1:9]
    shard, nsh, seed, start = int(shard), int(nsh), int(seed), int(start)
    one = None
    if len(sys.argv) > 9:
        one = (sys.argv[10], int(sys.argv[11]))
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, verif)
    sys.path.insert(0, bdir)
    if mode != "asan" and not os.environ.get("HGV_NATIVE"):
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import higra as hg
    assert os.path.abspath(hg.__file__).startswith(os.path.abspath(bdir)), hg.__file__
    missing = ()
    sh = sys.modules.get("higra.higram")
    if hasattr(sh, "_hgv_importing"):
        sh._hgv_importing = False
        missing = sh._HgvMissingBinding
    from hgv import core
    mod = importlib.import_module("hgv.checks." + prop.lower())
    fams = core.FAMILIES
    cases = []
    for f in fams:
        for i in range(f[mode]):
            cases.append((f, i))
    # spread families over shards; order interleaved so that a time cap hits all families alike
    mine = [c for k, c in enumerate(cases) if k % nsh == shard]
    mine.sort(key=lambda c: (c[1] / max(1, c[0][mode])))
    if one:
        f = [f for f in fams if f["name"] == one[0]][0]
        mine = [(f, one[1])]
    deadline = time.time() + float(os.environ.get("HGV_BUDGET", "1e9"))
    prog = os.open(out + ".prog", os.O_RDWR | os.O_CREAT, 0o644)
    digests, counts, famstat, viol, samples = set(), {}, {}, [], []
    nev, truncated = 0, False
    vkeys = {}
    seen_sample = {}

    def save(done):
        with open(out + ".tmp", "w") as fo:
            json.dump(dict(done=done, evaluations=nev, counts=counts, famstat=famstat, violations=viol,
                           samples=samples, truncated=truncated, digests=[d.hex() for d in digests]), fo)
        os.replace(out + ".tmp", out)

    verbose = os.environ.get("HGV_VERBOSE")
    for k in range(start, len(mine)):
        f, idx = mine[k]
        if time.time() > deadline:
            truncated = True
            break
        os.pwrite(prog, ("%d %s %d\n" % (k, f["name"], idx)).ljust(120).encode(), 0)
        c = core.Ctx(seed, prop, f["name"], idx, mode)
        st = famstat.setdefault(f["name"], [0, 0.0, 0])
        t0 = time.perf_counter()
        v = None
        try:
            f["fn"](c)
        except core.Skip:
            st[2] += 1
        except core.Violation as e:
            v = (e.key, e.msg, "")
        except Exception as e:
            if missing and isinstance(e.__context__, missing):
                os._exit(77)
            tb = traceback.extract_tb(e.__traceback__)
            where = [t for t in tb if "/hgv/" not in t.filename]
            src = "harness" if not where and not _from_ext(e) else "exception"
            v = ("%s:%s" % (src, type(e).__name__), "unexpected %s: %s" % (type(e).__name__, str(e)[:500]),
                 "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
        except BaseException as e:
            if missing and isinstance(e, missing):
                print("missing binding", e, file=sys.stderr)
                os._exit(77)
            raise
        nev += 1
        st[0] += 1
        st[1] += time.perf_counter() - t0
        digests.update(c.digests)
        for n, x in c.counts.items():
            counts[n] = counts.get(n, 0) + x
        if v is None and seen_sample.get(f["name"], 0) < 1 and c.inputs and len(samples) < 12:
            seen_sample[f["name"]] = 1
            samples.append(dict(family=f["name"], idx=idx, inputs={a: core.show(b) for a, b in c.inputs.items()}))
        if v is not None:
            if verbose or one:
                print("VIOL", f["name"], idx, v[0], v[1], v[2], file=sys.stderr)
            vkeys[v[0]] = vkeys.get(v[0], 0) + 1
            if vkeys[v[0]] <= 3:
                viol.append(dict(family=f["name"], idx=idx, key=v[0], msg=v[1], trace=v[2],
                                 inputs={a: core.show(b, 3000) for a, b in c.inputs.items()}))
            if sum(vkeys.values()) >= 40:
                truncated = True
                break
    save(True)


def _from_ext(e):
    # exceptions coming straight out of the extension have no python frame of their own
    return True


main()
