#!/usr/bin/env python3
"""trial.py HARNESS[,HARNESS] 'ENTRY k=v k=v' ... : runs single jobs by hand (time=SEC; pmem>0 uses the build with memory points)."""
import sys, os, json, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import check, build
build.engine(); hs = [h + ".cpp" for h in sys.argv[1].split(",")]; jobs = []
for a in sys.argv[2:]:
    w = a.split(); ps = dict(x.split("=") for x in w[1:]); t = int(ps.pop("time", 60)); jobs.append((w[0], ps, (t, ps.pop("instr", "3000000"))))
mems = {int(p.get("pmem", 0)) > 0 for _, p, _ in jobs}; dirs = {m: check.get_build(hs, m) for m in mems}
def one(j):
    e, ps, t = j; f = tempfile.mktemp(); d = dirs[int(ps.get("pmem", 0)) > 0]
    r = subprocess.run([build.ENGINE, d + "/h.bc", "--entry", e, "--out", f, "--max-time", str(t[0]), "--seed", "1", "--repo", build.REPO, "--max-instr", t[1], "--samples", "4", "--max-errors", "3"] + sum([["--param", k + "=" + v] for k, v in ps.items()], []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(f): return "%s %s FAILED %s" % (e, ps, r.stdout[-800:])
    d_ = json.load(open(f)); os.unlink(f)
    s = "%s %s %s paths, %s, %.1f s, solver %.1f, limit %d, %s %s" % (e, ps, d_["paths"], "exhausted" if d_["exhausted"] else "NOT EXHAUSTED (%d pending)" % d_["pending"], d_["wall_s"], d_["solver_s"], d_["limit_paths"], d_["reach"], d_["warnings"])
    ok = 0
    for smp in d_["samples"]:
        p = tempfile.mktemp(); check.write_replay(p, e, {k: int(v) for k, v in ps.items()}, smp["inputs"]); rc, out = check.native(d + "/h.native", p); os.unlink(p)
        import re
        if rc == 0 and re.findall(r"^OBS (\d+)$", out, re.M) == smp["obs"]: ok += 1
        else: s += "\n  MISMATCH rc=%d %s" % (rc, check.detail(out))
    s += " native ok %d/%d" % (ok, len(d_["samples"]))
    for x in d_["errors"]:
        p = tempfile.mktemp(); check.write_replay(p, e, {k: int(v) for k, v in ps.items()}, x["inputs"]); rc, out = check.native(d + "/h.native", p)
        s += "\n  ERR %s %s %s in %s | native: %s %s | %s | %s\n     %s" % (x["kind"], x["msg"], x["loc"], x["fn"], check.OUTCOME[rc], check.detail(out), [(n, h) for n, sz, h in x["inputs"]][-14:], p, x["stack"][:6])
    return s
with ThreadPoolExecutor(8) as ex:
    for s in ex.map(one, jobs): print(s, flush=True)
