"""Development helper: tryseed.py ID... : apply each planted bug to a scratch copy, build the whole module, run the repository's
python tests, the demo and the check of its property.  (The C++ unit tests are run by vcheck only.)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/higra/venv/bin/python"
SC = "/tmp/hgv-seed/repo"

def sh(cmd, env=None, **kw):
    return subprocess.run(cmd, shell=True, env=dict(os.environ, **(env or {})), capture_output=True, text=True, **kw)

shutil.rmtree("/tmp/hgv-base", ignore_errors=True)
os.makedirs("/tmp/hgv-base")
if sh("python3 %s/hgv/build.py all" % V, cwd=V).returncode:
    sys.exit("base build failed")
sh("cp -a %s/.build/dev-all /tmp/hgv-base/_build" % V)
for sid in sys.argv[1:]:
    d = os.path.join(V, "seeded", sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    shutil.rmtree("/tmp/hgv-seed", ignore_errors=True)
    os.makedirs(SC)
    sh("git -C /repo archive HEAD | tar -x -C " + SC)
    r = sh("patch -p1 < %s/patch.diff" % d, cwd=SC)
    if r.returncode:
        print(sid, "PATCH", r.stdout, r.stderr); continue
    r = sh("python3 %s/hgv/build.py all" % V, env=dict(HGV_REPO=SC), cwd=V)
    if r.returncode:
        print(sid, "BUILD", r.stderr[-1500:]); continue
    b = V + "/.build/dev-all"
    os.makedirs(SC + "/_build", exist_ok=True)
    sh("cp -a %s/. %s/_build/" % (b, SC))
    env = dict(PYTHONPATH=SC + "/_build", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    os.makedirs("/tmp/hgv-seed/cwd")
    t = sh("%s -m pytest -p xdist.plugin -p pytest_timeout -p no:cacheprovider -q -n 6 --dist loadfile --timeout 300 %s/test/python" % (PY, SC), env=env, cwd="/tmp/hgv-seed/cwd")
    last = t.stdout.strip().splitlines()
    fails = [x for x in last if x.startswith("FAILED") or x.startswith("ERROR")]
    d0 = sh("bash %s/demo.sh" % d, cwd="/tmp/hgv-base")
    dm = sh("bash %s/demo.sh" % d, cwd=SC)
    c = sh("python3 check.py " + prop, env=dict(HGV_REPO=SC, VERIF_SEED="1"), cwd=V)
    v = [x for x in c.stdout.splitlines() if "VIOLATION" in x or "key=" in x][:2]
    print(sid, "| tests:", last[-1] if last else t.stderr[-300:], fails[:3], "| demo base", d0.returncode, d0.stderr[-300:], "rc", dm.returncode, dm.stderr.strip().splitlines()[-1:] , "| check rc", c.returncode, v, flush=True)
    if c.returncode not in (0, 1):
        print(c.stdout[-1500:], c.stderr[-1500:])
shutil.rmtree("/tmp/hgv-seed", ignore_errors=True)

shutil.rmtree("/tmp/hgv-base", ignore_errors=True)
