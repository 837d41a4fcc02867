"""Builds, runs the shards of a check in worker processes, watches over them, and reports."""
import ast, json, os, re, shutil, signal, subprocess, sys, threading, time

from . import build as B

VERIF = B.VERIF
HANG = float(os.environ.get("HGV_HANG", "90"))


def check_source(prop):
    return os.path.join(VERIF, "hgv", "checks", prop.lower() + ".py")


def constants(prop):
    """read UNITS, RULE, ... from the check module without importing it (numpy is not needed here)"""
    d = {}
    for n in ast.parse(open(check_source(prop)).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except (ValueError, SyntaxError):
                pass
    return d


def known_findings(prop):
    """lines 'known: property=P key=K family=F | text' of known_findings.txt"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) family=(\S+) \| (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(dict(key=m.group(2), family=m.group(3), text=m.group(4)))
    return out


def spawn(mod, prop, shard, nsh, mode, seed, out, start, budget, one=None):
    env = dict(os.environ, **mod["env"])
    env["HGV_BUDGET"] = str(budget)
    env["PYTHONHASHSEED"] = "0"
    cmd = [B.PY, "-W", "ignore", os.path.join(VERIF, "hgv", "worker.py"), mod["dir"], prop, str(shard), str(nsh), mode, str(seed), out,
           str(start)]
    if one:
        cmd += ["--one", one[0], str(one[1])]
    err = open(out + ".err", "ab")
    return subprocess.Popen(cmd, env=env, stdout=err, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def read_prog(out):
    try:
        t = open(out + ".prog").read().split()
        return int(t[0]), t[1], int(t[2])
    except (OSError, IndexError, ValueError):
        return None


def tail(p, n=6000):
    try:
        return open(p, errors="replace").read()[-n:]
    except OSError:
        return ""


class NeedFull(Exception):
    pass


class HarnessError(Exception):
    pass


def run_mode(mod, prop, mode, seed, budget, work, nsh=8):
    """run all cases; returns merged result"""
    os.makedirs(work, exist_ok=True)
    st = []
    res = dict(evaluations=0, digests=set(), counts={}, famstat={}, violations=[], samples=[], truncated=False)

    def merge(out):
        try:
            r = json.load(open(out))
        except (OSError, ValueError):
            return False
        res["evaluations"] += r["evaluations"]
        res["digests"].update(r["digests"])
        for k, v in r["counts"].items():
            res["counts"][k] = res["counts"].get(k, 0) + v
        for k, v in r["famstat"].items():
            o = res["famstat"].setdefault(k, [0, 0.0, 0])
            for i in range(3):
                o[i] += v[i]
        res["violations"] += r["violations"]
        res["samples"] += r["samples"]
        res["truncated"] |= r["truncated"]
        return True

    t_end = time.time() + budget
    confirmed = 0
    for s in range(nsh):
        out = "%s/%s-%d-0.json" % (work, mode, s)
        st.append(dict(shard=s, gen=0, out=out, p=spawn(mod, prop, s, nsh, mode, seed, out, 0, budget), last=None,
                       t=time.time(), crashes=0, done=False))
    while not all(x["done"] for x in st):
        time.sleep(0.1)
        for x in st:
            if x["done"]:
                continue
            rc = x["p"].poll()
            if rc is None:
                pr = read_prog(x["out"])
                if pr != x["last"]:
                    x["last"], x["t"] = pr, time.time()
                    continue
                elif time.time() - x["t"] > HANG:
                    kill(x["p"])
                    rc = "hang"
                else:
                    continue
            if rc == 0:
                if not merge(x["out"]):
                    raise HarnessError("no result from worker: " + tail(x["out"] + ".err"))
                x["done"] = True
                continue
            if rc == 77:
                for y in st:
                    if not y["done"]:
                        kill(y["p"])
                raise NeedFull(tail(x["out"] + ".err"))
            pr = read_prog(x["out"])
            err = tail(x["out"] + ".err")
            if pr is None:
                raise HarnessError("worker failed before its first case (%s): %s" % (rc, err))
            k, fam, idx = pr
            # confirm by running that case alone, in a fresh process
            o1 = "%s/%s-%d-%d-confirm.json" % (work, mode, x["shard"], x["gen"])
            p1 = spawn(mod, prop, 0, 1, mode, seed, o1, 0, 1e9, one=(fam, idx))
            try:
                rc1 = p1.wait(HANG)
            except subprocess.TimeoutExpired:
                kill(p1)
                rc1 = "hang"
            err1 = tail(o1 + ".err")
            repro = rc1 != 0
            if rc == "hang" and rc1 == 0:
                pass  # slow machine: not a violation (that case is counted by nobody)
            elif rc in (-9,) and rc1 == 0:
                pass  # killed from outside, not reproduced alone
            else:
                e = err1 if repro else err
                key = crash_key(rc1 if repro else rc, e)
                res["violations"].append(dict(family=fam, idx=idx, key=key, msg=key + ("" if repro else
                                         " (when run after the cases before it)"), trace=e, inputs={},
                                         crash=True))
                confirmed += repro
                if rc1 == "hang" or confirmed >= 3:
                    # established: what the other shards would add is not worth the wait
                    for y in st:
                        if not y["done"] and y is not x:
                            kill(y["p"])
                            merge(y["out"])
                        y["done"] = True
                    res["truncated"] = True
                    break
            x["crashes"] += 1
            # partial results of a crashed worker are lost except for what it wrote: go on after that case
            if x["crashes"] >= 3 or time.time() > t_end:
                x["done"] = True
                res["truncated"] = True
                continue
            x["gen"] += 1
            x["out"] = "%s/%s-%d-%d.json" % (work, mode, x["shard"], x["gen"])
            x["p"] = spawn(mod, prop, x["shard"], nsh, mode, seed, x["out"], k + 1, max(5, t_end - time.time()))
            x["last"], x["t"] = None, time.time()
    return res


def crash_key(rc, err):
    if rc == "hang":
        return "hang"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        f = re.search(r"#\d+ 0x\w+ in ((?:hg|py_\w+|xt)::[\w:]+)", err)
        return "asan:" + m.group(1) + (":" + f.group(1) if f else "")
    m = re.search(r"runtime error: (.{0,80})", err)
    if m:
        return "ubsan:" + re.sub(r"[\s0-9x]+", "_", m.group(1))[:60]
    if isinstance(rc, int) and rc < 0:
        try:
            return "crash:" + signal.Signals(-rc).name
        except ValueError:
            pass
    return "crash:exit%s" % rc


def main(argv):
    t0 = time.time()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    const = constants(prop)
    units = const.get("UNITS")
    work = os.path.join(B.CACHE, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        if len(argv) > 2 and argv[1] == "--replay":
            return replay(prop, argv[2], units, work)
        return run(prop, tier, seed, const, units, work, t0)
    except B.BuildError as e:
        print("ERROR: build failed:", str(e)[-3000:])
        return 2
    except HarnessError as e:
        print("ERROR: harness:", str(e)[-3000:])
        return 2
    finally:
        if not os.environ.get("HGV_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


def replay(prop, path, units, work):
    r = json.load(open(path))
    mod = build(constants(prop), units, r.get("variant", "plain"), work)
    out = work + "/replay.json"
    p = spawn(mod, prop, 0, 1, r["mode"], r["seed"], out, 0, 1e9, one=(r["family"], r["idx"]))
    rc = p.wait()
    print(tail(out + ".err", 20000))
    bad = rc != 0 or json.load(open(out))["violations"]
    print("replay:", "VIOLATED" if bad else "held")
    return 1 if bad else 0


def build(const, units, variant, work):
    nat = const.get("NATIVE")
    t, err = None, []
    if nat:
        def f():
            try:
                B.build_native(nat, work + "/native")
            except BaseException as e:  # noqa
                err.append(e)
        t = threading.Thread(target=f)
        t.start()
    mod = B.build(units, variant, work + "/mod-" + variant)
    if nat:
        t.join()
        if err:
            raise err[0]
        mod["env"]["HGV_NATIVE"] = work + "/native"
    return mod


def run(prop, tier, seed, const, units, work, t0):
    plan = []  # (variant, mode, budget)
    quick_variant = const.get("QUICK_VARIANT", "plain")
    if tier == "quick":
        plan.append((quick_variant, "asan" if quick_variant.startswith("asan") else "quick", 600))
    else:
        if not quick_variant.startswith("asan"):
            plan.append((quick_variant, "thorough", 4 * 3600))
        plan.append((const.get("ASAN_VARIANT", "asanub"), "thorough" if quick_variant.startswith("asan") else "asan", 4 * 3600))
    total = dict(evaluations=0, digests=set(), counts={}, famstat={}, violations=[], samples=[], truncated=False)
    builds = []
    for variant, mode, budget in plan:
        mod = build(const, units, variant, work)
        rmode = "asan" if variant.startswith("asan") and mode != "thorough" else mode
        try:
            r = run_mode(mod, prop, rmode, seed, budget, work)
        except NeedFull as e:
            print("mini module lacks a binding, building everything:", str(e)[-300:])
            mod = build(const, None, variant, work)
            r = run_mode(mod, prop, rmode, seed, budget, work)
        if mod["kind"] == "mini" and not any(v["key"] == "hang" for v in r["violations"]) and \
                any(v["key"].startswith("exception:") for v in r["violations"]):
            print("unexpected exception with the mini module: confirming with the full module")
            shutil.rmtree(work + "/w2", ignore_errors=True)
            mod = build(const, None, variant, work)
            if tier == "quick":
                budget = max(60, 700 - (time.time() - t0))
            r = run_mode(mod, prop, rmode, seed, budget, work + "/w2")
        builds.append("%s/%s" % (mod["kind"], variant))
        for v in r["violations"]:
            v["variant"], v["mode"] = variant, rmode
        total["evaluations"] += r["evaluations"]
        total["digests"] |= r["digests"]
        total["truncated"] |= r["truncated"]
        total["samples"] += r["samples"]
        total["violations"] += r["violations"]
        for k, v in r["counts"].items():
            total["counts"][k] = total["counts"].get(k, 0) + v
        for k, v in r["famstat"].items():
            o = total["famstat"].setdefault(k, [0, 0.0, 0])
            for i in range(3):
                o[i] += v[i]
    return report(prop, tier, seed, const, total, builds, t0)


def report(prop, tier, seed, const, total, builds, t0):
    known = known_findings(prop)
    hit, new = set(), []
    for v in total["violations"]:
        for i, kf in enumerate(known):
            if kf["key"] == v["key"] and kf["family"] == v["family"]:
                hit.add(i)
                break
        else:
            new.append(v)
    for i in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[i]["text"]))
    byk = {}
    for v in new:
        byk.setdefault((v["family"], v["key"]), []).append(v)
    rdir = os.path.join(VERIF, "replays")
    nprinted = 0
    for (fam, key), vs in byk.items():
        v = min(vs, key=lambda z: z["idx"])
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d-s%d.json" % (prop, re.sub(r"\W+", "_", fam), v["idx"], seed))
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1)
        if nprinted < 8:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  family=%s idx=%d key=%s: %s" % (fam, v["idx"], key, v["msg"][:700]))
            if v.get("trace"):
                print("  " + v["trace"][-1500:].replace("\n", "\n  "))
        nprinted += 1
    samples, seen = [], set()
    for s in sorted(total["samples"], key=lambda s: (s["family"], s["idx"])):
        if s["family"] not in seen:
            seen.add(s["family"])
            samples.append(s)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=total["evaluations"], distinct_nontrivial=len(total["digests"]),
                            rule=const.get("RULE", ""), samples=samples[:12], builds=builds,
                            truncated=total["truncated"],
                            families={k: dict(cases=v[0], cpu_s=round(v[1], 2), skipped=v[2])
                                      for k, v in sorted(total["famstat"].items())},
                            observed=dict(sorted(total["counts"].items()))),
              assumptions=const.get("ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, tmp[:-4])
    for k, v in sorted(total["famstat"].items()):
        print("  %-28s %7d cases %8.1f cpu-s %5d skipped" % (k, v[0], v[1], v[2]))
    print("%s %s: %d cases, %d distinct non-trivial, %d oracle comparisons, %d violations, %.1f s%s" % (
        prop, tier, total["evaluations"], len(total["digests"]), total["counts"].get("checks", 0), len(new),
        time.time() - t0, " (truncated)" if total["truncated"] else ""))
    if new:
        return 1
    if total["evaluations"] == 0 or not total["digests"]:
        print("ERROR: nothing was observed")
        return 2
    return 0
