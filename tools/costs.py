#!/usr/bin/env python3
"""Measures thorough-only jobs and rewrites costs.json (spec.py runs the cheapest of them in the quick tier too).
usage: costs.py CAP_SECONDS [P..]: runs every thorough-only job of the named properties (default: all) for at most CAP seconds, eight at a time, and enters those that explored everything without a finding."""
import sys, os, json, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import spec, check, build
from concurrent.futures import ThreadPoolExecutor
cap, only = int(sys.argv[1]), sys.argv[2:]; costs = dict(spec.COSTS); dirs, work = {}, {}
for p, d in sorted(spec.PROPS.items()):
    if only and p not in only: continue
    q = d["jobs"]("quick")
    for j in d["jobs"]("thorough"):
        k = j["entry"] + " " + json.dumps(j["params"], sort_keys=True)
        if j not in q and k not in costs: work.setdefault(k, (d["harness"], j))
def built(h, j): return (tuple(h), int(j["params"].get("pmem", 0)) > 0)
for h, j in work.values():
    if built(h, j) not in dirs: dirs[built(h, j)] = check.get_build(h, built(h, j)[1])
def one(k):
    h, j = work[k]; f = tempfile.mktemp()
    subprocess.run([build.ENGINE, dirs[built(h, j)] + "/h.bc", "--entry", j["entry"], "--out", f, "--max-time", str(cap), "--seed", "1", "--repo", build.REPO, "--max-instr", str(j["instr"]), "--samples", "2", "--max-errors", "3"] + (["--rand"] if j["rand"] else []) + sum([["--param", "%s=%s" % x] for x in j["params"].items()], []), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if not os.path.exists(f): return k, None
    x = json.load(open(f)); os.unlink(f); return k, (round(x["wall_s"]) if x["exhausted"] and not x["errors"] else None)
with ThreadPoolExecutor(8) as ex:
    for k, s in ex.map(one, work):
        print(k, "not within the time" if s is None else "%d s" % s, flush=True)
        if s is not None: costs[k] = s
json.dump(dict(sorted(costs.items())), open(V + "/costs.json", "w"), indent=0)
