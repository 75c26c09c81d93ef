#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import spec
NA = getattr(spec, "NOT_APPLICABLE", {})
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in spec.PROPS:
        p = spec.PROPS[i]
        b = p["bounds"]; b = b["quick"] if isinstance(b, dict) else b
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": spec.TECH, "level": "model_checking", "level_note": p["note"] + " Bounds (quick): " + b + ". Trusted: the engine, the environment model and clang's IR; validated by native replays on every run."})
    else: na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import build; build.engine()'", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
# every job's entry must exist in its property's harness files
import re
for p, s in spec.PROPS.items():
    src = "".join(open(V + "/harness/" + h).read() for h in s["harness"])
    for t in ("quick", "thorough"):
        for j in s["jobs"](t):
            if not re.search(r"\b%s\(\)" % j["entry"], src): sys.exit("%s: no entry %s in %s" % (p, j["entry"], s["harness"]))
