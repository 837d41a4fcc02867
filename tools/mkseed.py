"""Create a planted bug: mkseed.py SPEC.py ; SPEC defines SEEDS = [dict(id, property, file, old, new, needs, breaks, demo)].
'edits' (list of (file, old, new)) may replace file/old/new.  demo is Python code run on the built package."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch (run in the repository after its build)
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/_build PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec timeout 250 /opt/higra/venv/bin/python -W ignore "$here/demo.py"
'''
g = {}
exec(open(sys.argv[1]).read(), g)
for s in g["SEEDS"]:
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run(["git", "init", "-q", t], check=True)
    edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
    for f in sorted({e[0] for e in edits}):
        p = os.path.join(t, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        shutil.copy(os.path.join("/repo", f), p)
    subprocess.run(["git", "-C", t, "add", "-A"], check=True)
    for f, old, new in edits:
        p = os.path.join(t, f)
        x = open(p).read()
        n = x.count(old)
        if n != 1:
            print(s["id"], "pattern found", n, "times in", f)
            break
        open(p, "w").write(x.replace(old, new))
    else:
        diff = subprocess.run(["git", "-C", t, "diff"], check=True, capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")])
        print(s["id"], "ok" if r.returncode == 0 else "DOES NOT APPLY")
    shutil.rmtree(t)
