#!/usr/bin/env python3
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE).stdout.decode().splitlines()
hooks = [c.split()[0] for c in commits if "verif hook" in c]
m = {"version": 1,
     "setup_cmd": "python3 -m py_compile check.py mc/build.py mc/registry.py",
     "hooks": {"guard": "TIRO_VERIF",
               "enable": "mc/build.py compiles /repo's sources with -DTIRO_VERIF=1 into /verif/.build",
               "source_commits": hooks},
     "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
                            "thorough_cmd": "python3 check.py %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check has been built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
