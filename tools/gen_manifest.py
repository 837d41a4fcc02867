#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of check modules and the properties file."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from hgv.harness import constants
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    pid = p["id"]
    f = V + "/hgv/checks/%s.py" % pid.lower()
    if os.path.exists(f):
        c = constants(pid)
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s" % pid, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % pid,
                           technique=c.get("TECHNIQUE", "runtime monitoring: independent naive oracle over generated workloads (plus address/UB sanitizer build in the thorough tier)"),
                           level="exploration",
                           level_note=c.get("NOTE", "Held on the executions listed in the evidence file (counts, distinct inputs); nothing is claimed for inputs not run. Trusts: the naive oracle in hgv/checks/%s.py, clang++, numpy/pybind11." % pid.lower())))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="See DESIGN.md. No hooks are needed in /repo: the checks compile /repo's own sources (clang++, with and without sanitizers) and observe the public interface.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
