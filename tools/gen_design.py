#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then per property what decides it (from spec.py and properties.jsonl; costs from evidence/ when there), then
the planted bugs and which checks catch them (tools/catches.json, written by hand from runs of the checks on patched copies)."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import spec
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
cost = json.load(open(V + "/tools/cost.json")) if os.path.exists(V + "/tools/cost.json") else {}
for p in props: # remember the latest quick costs
    f = V + "/evidence/%s.json" % p["id"]
    if os.path.exists(f):
        e = json.load(open(f)); c = e["coverage"]
        if e["tier"] == "quick": cost[p["id"]] = {"wall": round(e["wall_s"]), "paths": c["paths_completed"], "queries": c["queries_discharged"], "asserts": c["assertions_evaluated"], "exhaustive": c["exhaustive"]}
json.dump(cost, open(V + "/tools/cost.json", "w"), indent=0, sort_keys=True)
head = open(V + "/tools/design_head.md").read()
nfix = sum(l.startswith("fixed:") for l in open(V + "/known-findings.txt"))
head = head.replace("NFIXED", str(nfix)).replace("QUICKCOST", "about %d s per check on average, %d s at most, including building the two programs" % (sum(c["wall"] for c in cost.values()) / max(1, len(cost)), max([c["wall"] for c in cost.values()] or [0])))
o = [head.rstrip(), "", "## 6. Per property", "",
     "Each entry `harness(parameters)` is one symbolic execution (job); parameters with several values are several jobs. `delays` is the number of scheduler deviations, `pmem`/`pun` the additional scheduling points (section 1). Oracle: the assertions of the harness, plus memory safety, leaks, descriptors, deadlocks and endless loops on every path.", ""]
def group(jobs):
    g = {}
    for j in jobs: g.setdefault(j["entry"], []).append(j["params"])
    r = []
    for e, ps in g.items():
        keys = sorted({k for q in ps for k in q}); d = []
        for k in keys:
            vs = sorted({q[k] for q in ps if k in q}); d.append("%s=%s" % (k, "/".join(map(str, vs)) if len(vs) < 9 else "%d..%d (%d values)" % (vs[0], vs[-1], len(vs))))
        r.append("`%s(%s)`%s" % (e, ", ".join(d), " x%d" % len(ps) if len(ps) > 1 else ""))
    return ", ".join(r)
for p in props:
    s = spec.PROPS[p["id"]]; b = s["bounds"]; b = b if isinstance(b, dict) else {"quick": b, "thorough": "as quick"}; c = cost.get(p["id"])
    o += ["### %s %s" % (p["id"], p["title"]), "", "Quantifier: " + p["quantifier"]["text"] + ".", "",
          "* Why tests cannot: " + p["why_tests_cant"], "* Code: " + ", ".join(p["anchors"]["files"]) + "; harness " + ", ".join(s["harness"]) + ".",
          "* Quick jobs: " + group(s["jobs"]("quick")), "* Quick bounds: " + b["quick"] + ".", "* Thorough bounds: " + b["thorough"] + ".", "* Remarks: " + s["note"]]
    if c: o += ["* Quick cost: %d s, %d paths, %d queries, %d assertions; all bounds exhausted: %s." % (c["wall"], c["paths"], c["queries"], c["asserts"], "yes" if c["exhaustive"] else "no")]
    o += [""]
cat = json.load(open(V + "/tools/catches.json"))
o += ["## 7. Planted bugs and what catches them", "", "Seeded bugs (`/verif/seeded`), each with a demonstration that passes on the unchanged tree and fails with the patch, and which passes the 33 stable tests. \"Caught by\" is the property's own quick check unless noted.", "", "| id | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]; o += ["| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), cat["seeded"].get(i, "not yet run"))]
o += ["", "Smaller changes (one or a few lines, without a demonstration) that were run against the checks while they grew; the checks named report them:", ""]
o += ["* " + ", ".join("%s (%s)" % (k, v) for k, v in sorted(cat["mutants"].items(), key=lambda x: (x[1], x[0]))), "", "Not reported, and why:", ""] + ["* %s: %s" % (k, v) for k, v in cat["survivors"].items()]
o += ["", "Behaviour-preserving rewrites the checks were run on (all quiet, no NOTE):", ""] + ["* " + x for x in cat["refactorings"]]
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n"); print(len(o), "lines")
