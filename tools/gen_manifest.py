#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks the harness has."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
meta = json.load(open(root + "/tools/checks.json"))
have = meta["checks"]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
src = [l.split()[0] for l in hooks.splitlines() if " hook:" in l]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i,
                       "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": have[i]["technique"], "level": have[i].get("level", "exploration"),
                       "level_note": have[i]["note"]})
    else:
        na.append({"property": i, "reason": meta["na"].get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./build.sh",
     "hooks": {"guard": meta["guard"], "enable": meta["enable"], "source_commits": src[::-1]},
     "checks": checks, "not_applicable": na, "notes": meta["notes"]}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
