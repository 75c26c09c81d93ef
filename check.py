#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's current tree by symbolic execution + SMT.

1. compiles /repo's current sources, the harness and the environment model to LLVM bitcode and to a native (ASan) program;
2. runs the symbolic engine on every job of the property (spec.py): inputs, schedules, faults, segmentations are symbolic;
3. replays every counterexample the solver produced against the native program (the real code): only a confirmed one is a violation;
4. replays a sample of the explored paths natively too and compares the observations (validates engine and model);
5. writes evidence/<property>.json.
"""
import sys, os, json, time, hashlib, subprocess, shutil, threading, argparse, glob, tempfile, re
from concurrent.futures import ThreadPoolExecutor
import build, spec
V = os.path.dirname(os.path.abspath(__file__))
NATENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=11:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:handle_abort=0:handle_segv=1:detect_odr_violation=0")
OUTCOME = {0: "ok", 10: "assertion", 11: "memory error (AddressSanitizer)", 13: "diverged", 14: "assumption", 15: "hang", 16: "excessive allocation", 17: "error", 18: "abort"}
FAILING = (10, 11, 15, 16, 18)

def tree_hash(harness, mem):
    h = hashlib.sha256()
    fs = sorted(glob.glob(build.REPO + "/*.[ch]pp") + glob.glob(build.REPO + "/values/*.[ch]pp") + glob.glob(build.REPO + "/*.h") + glob.glob(build.REPO + "/values/*.h")
                + glob.glob(V + "/model/*") + glob.glob(V + "/harness/*") + [V + "/build.py", V + "/engine/instr.cpp"])
    for f in fs: h.update(f.encode()); h.update(open(f, "rb").read())
    h.update((",".join(harness) + " mem" * mem).encode()); return h.hexdigest()[:20]

def get_build(harness, mem=False):
    """build directory for the current tree; reused only for identical content"""
    root = os.path.join(V, "build", "cache"); os.makedirs(root, exist_ok=True)
    d = os.path.join(root, tree_hash(harness, mem))
    if os.path.exists(d): os.utime(d) # in use: another build of this run does not clean it up
    if not (os.path.exists(d + "/h.bc") and os.path.exists(d + "/h.native")):
        tmp = tempfile.mkdtemp(dir=root, prefix="tmp")
        try:
            build.build(harness, tmp, mem)
            for f in os.listdir(tmp):
                if f not in ("h.bc", "h.native"): os.unlink(os.path.join(tmp, f))
            try: os.rename(tmp, d)
            except OSError: shutil.rmtree(tmp, ignore_errors=True)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True); raise
    os.utime(d)
    old = sorted((x for x in glob.glob(root + "/*") if x != d), key=os.path.getmtime)
    for x in old[:-12]:
        if time.time() - os.path.getmtime(x) > 3600: shutil.rmtree(x, ignore_errors=True)
    return d

def write_replay(path, entry, params, inputs, comment=(), timeout=10):
    with open(path, "w") as f:
        for c in comment: f.write("# " + c.replace("\n", " ") + "\n")
        f.write("entry %s\ntimeout %d\n" % (entry, timeout))
        for k, v in sorted(params.items()): f.write("param %s %d\n" % (k, v))
        for n, size, hx in inputs: f.write("in %s %d %s\n" % (n, size, hx))

def native(binary, path, env=None):
    try:
        r = subprocess.run([binary, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(NATENV, **(env or {})), timeout=60, errors="replace")
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), 15
    if rc < 0: rc = 11 if rc in (-11, -7, -8, -4) else 18 if rc == -6 else 17
    if rc not in OUTCOME: rc = 17
    return rc, out

def detail(out):
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|REPLAY-(ASSERT|ALLOC|HANG|ABORT|DIVERGED|ERROR|ASSUME)[^\n]*)", out)
    return m.group(1)[:200] if m else ""

def known_findings():
    p = os.path.join(V, "known-findings.txt"); r = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):
                d = dict(re.findall(r'(\w+)="([^"]*)"', l)); d["text"] = l.strip(); r.append(d)
    return r

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed; self.s = spec.PROPS[prop]
        self.lock = threading.Lock(); self.viol = []; self.known = []; self.notes = []; self.undec = []; self.start = time.time(); self.jobs = []; self.samples = []; self.valid = 0; self.mismatch = 0
        self.fns = {}
        self.rep = os.path.join(V, "evidence", "replays"); os.makedirs(self.rep, exist_ok=True)
        for f in glob.glob(self.rep + "/%s-*" % prop): os.unlink(f)
        self.nrep = 0

    def dir(self, job): return self.dirs[bool(job["params"].get("pmem"))]

    def handle_error(self, job, err):
        entry, params = job["entry"], job["params"]
        with self.lock: self.nrep += 1; k = self.nrep
        path = os.path.join(self.rep, "%s-%d.replay" % (self.prop, k))
        com = ["property %s" % self.prop, "%s: %s" % (err["kind"], err["msg"]), "at %s in %s" % (err["loc"], err["fn"])] + ["  " + s for s in err["stack"][:12]] + ["replay: python3 /verif/replay.py <this file>"]
        write_replay(path, entry, params, err["inputs"], com)
        rc, out = native(self.dir(job) + "/h.native", path)
        if rc not in FAILING: # reads of uninitialised heap memory: try other fill patterns
            for fill in ("0", "255", "1", "127"):
                rc2, out2 = native(self.dir(job) + "/h.native", path, {"ASAN_OPTIONS": NATENV["ASAN_OPTIONS"] + ":max_malloc_fill_size=4096:malloc_fill_byte=" + fill})
                if rc2 in FAILING: rc, out = rc2, out2; break
        what = "%s: %s (%s%s) [native replay: %s %s]" % (err["kind"], err["msg"], err["loc"], " in " + err["fn"] if err["fn"] else "", OUTCOME[rc], detail(out))
        with self.lock:
            if rc in FAILING:
                for kf in known_findings():
                    if kf.get("property") == self.prop and kf.get("kind") == err["kind"] and kf.get("msg") == err["msg"] and re.fullmatch(kf.get("where", ".*"), err["fn"] or "") and kf.get("entry", entry) == entry:
                        self.known.append((kf, what)); os.unlink(path); return
                self.viol.append((path, what))
            else:
                self.notes.append("engine reported %s in %s %s, not confirmed by the native replay (%s)" % (what, entry, params, OUTCOME[rc])); os.rename(path, path.replace(".replay", ".unconfirmed"))

    def handle_sample(self, job, smp):
        fd, path = tempfile.mkstemp(dir=self.tmp); os.close(fd)
        write_replay(path, job["entry"], job["params"], smp["inputs"])
        rc, out = native(self.dir(job) + "/h.native", path)
        obs = re.findall(r"^OBS (\d+)$", out, re.M)
        with self.lock:
            if rc == 0 and obs == smp["obs"]: self.valid += 1
            elif rc in (10, 11):
                self.nrep += 1; p = os.path.join(self.rep, "%s-%d.replay" % (self.prop, self.nrep)); shutil.copy(path, p)
                self.viol.append((p, "native run of an explored path fails: %s %s" % (OUTCOME[rc], detail(out))))
            else:
                self.mismatch += 1; p = os.path.join(self.rep, "%s-mismatch-%d" % (self.prop, self.mismatch)); shutil.copy(path, p)
                self.notes.append("path of %s %s: native run %s, observations %s instead of %s %s" % (job["entry"], job["params"], OUTCOME[rc], obs[:8], smp["obs"][:8], detail(out)))
        os.unlink(path)

    def undecided(self, job, why):
        with self.lock: self.undec.append(job); self.notes.insert(0, "not decided: %s %s (%s)" % (job["entry"], job["params"], why))

    def job(self, job):
        entry, params = job["entry"], job["params"]
        out = os.path.join(self.tmp, "j%d.json" % job["n"])
        limit = job["time"] if self.tier == "thorough" else min(job["time"], 740 - (time.time() - self.start))  # the whole quick check stays below 900 s
        if limit < 3: self.undecided(job, "no time left"); return
        cmd = [build.ENGINE, self.dir(job) + "/h.bc", "--entry", entry, "--out", out, "--max-time", "%.1f" % limit, "--seed", str(self.seed), "--repo", build.REPO, "--max-instr", str(job.get("instr", 3000000)), "--samples", str(job.get("samples", 6)), "--max-errors", "6"]
        if job.get("rand"): cmd.append("--rand")
        for k, v in sorted(params.items()): cmd += ["--param", "%s=%d" % (k, v)]
        if self.tier == "thorough": cmd += ["--dump-smt", self.smt, "--dump-every", "97"]
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit + (60 if self.tier == "quick" else 600))
        except subprocess.TimeoutExpired: self.undecided(job, "the engine did not end in time"); return
        if r.returncode or not os.path.exists(out): self.undecided(job, "the engine failed: " + r.stdout[-500:]); return
        d = json.load(open(out))
        foreign = [w for w in d["warnings"] if "unmodelled" in w and re.search(r"future|futex|semaphore|epoll|fork|sig|dup|barrier|spin|timer_|kill|ios_base", w.split()[-1])]
        if foreign and d["errors"]: self.undecided(job, foreign[0]); return  # neither the engine nor the native program represents what the code uses
        for e in d["errors"]: self.handle_error(job, e)
        for s in d["samples"]: self.handle_sample(job, s)
        with self.lock:
            self.jobs.append((job, d))
            if d["samples"]: self.samples.append({"job": entry, "params": params, **d["samples"][0]})
            for n, c, t in d["functions"]:
                o = self.fns.get(n); self.fns[n] = [max(c, o[0]) if o else c, t]
            if not d["paths"] and not d["errors"]: self.notes.append("no path of %s %s was completed" % (entry, params))
            for l in job.get("reach", []):
                if l not in d["reach"]: self.notes.append("%s %s did not reach '%s'" % (entry, params, l))
            for w in d["warnings"]: self.notes.append("engine: " + w)

    def crosscheck(self):
        """a second solver on a sample of the queries"""
        fs = sorted(glob.glob(self.smt + "/*.smt2"))[:60]; agree = bad = 0
        def one(f):
            want = open(f).readline().split()[-1]
            try: got = subprocess.run(["cvc5", "--tlimit=20000", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=40).stdout.strip()
            except Exception: got = "?"
            return want, got
        with ThreadPoolExecutor(8) as ex:
            for w, g in ex.map(one, fs):
                if g == w: agree += 1
                elif g in ("sat", "unsat"): bad += 1
        if bad: self.notes.append("cvc5 disagrees with z3 on %d queries" % bad)
        return agree, bad

    def run(self):
        t0 = time.time()
        build.engine()
        jobs = [dict(j, n=i) for i, j in enumerate(self.s["jobs"](self.tier))]; self.dirs = {}
        with ThreadPoolExecutor(2) as ex: self.dirs = dict(zip((False, True), ex.map(lambda m: get_build(self.s["harness"], m) if any(bool(j["params"].get("pmem")) == m for j in jobs) else None, (False, True))))
        tb = time.time() - t0
        self.tmp = tempfile.mkdtemp(dir=os.path.join(V, "build"), prefix="run"); self.smt = self.tmp + "/smt"; os.makedirs(self.smt)
        try:
            with ThreadPoolExecutor(spec.CORES) as ex: list(ex.map(self.job, sorted(jobs, key=lambda j: -j["time"])))
            xc = self.crosscheck() if self.tier == "thorough" else None
        finally: shutil.rmtree(self.tmp, ignore_errors=True)
        tot = lambda k: sum(d[k] for _, d in self.jobs)
        exh = all(d["exhausted"] for _, d in self.jobs) and not self.undec
        if len(self.undec) * 2 > len(jobs) and not self.viol: raise RuntimeError("%d of %d jobs gave no answer: %s" % (len(self.undec), len(jobs), self.notes[0]))
        cov = {"states": tot("states"), "transitions": tot("instructions"), "traces_validated_against_impl": self.valid, "samples": self.samples[:6], "exhaustive": exh,
               "what_is_counted": "states: symbolic states (execution paths, each standing for all inputs satisfying its path condition); transitions: LLVM instructions executed symbolically; traces: solver models of explored paths replayed on the native build with equal observations",
               "paths_completed": tot("paths"), "paths_infeasible": tot("infeasible"), "forks": tot("forks"), "assertions_evaluated": tot("asserts"), "assertion_queries": tot("assert_queries"), "path_feasibility_queries": tot("feasibility_checks"), "symbolic_bounds_checks": tot("bounds_checks"),
               "queries_discharged": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"), "query_cache_hits": tot("cache_hits"), "solver_s": round(tot("solver_s"), 3), "max_query_s": max([d["max_query_s"] for _, d in self.jobs] or [0]),
               "solver": "Z3 (QF_BV); assertions whose condition folds to true while terms are built need no query", "bounds": self.s["bounds"][self.tier] if isinstance(self.s["bounds"], dict) else self.s["bounds"],
               "functions_encoded": {n: "%d/%d instructions" % (c, t) for n, (c, t) in sorted(self.fns.items())},
               "jobs": [{"entry": j["entry"], "params": j["params"], "exhausted": d["exhausted"], "paths": d["paths"], "limit_paths": d["limit_paths"], "pending": d["pending"], "queries": d["queries"], "solver_s": round(d["solver_s"], 2), "wall_s": round(d["wall_s"], 2), "reach": d["reach"]} for j, d in sorted(self.jobs, key=lambda x: x[0]["n"])],
               "mismatching_traces": self.mismatch, "notes": self.notes[:40]}
        if xc: cov["second_solver"] = {"solver": "cvc5", "queries_agreeing": xc[0], "queries_disagreeing": xc[1]}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov, "assumptions": self.s["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        tmp = os.path.join(V, "evidence", self.prop + ".json.tmp"); json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, tmp[:-4])
        print("%s %s: %d jobs, %d paths, %d queries (%.1f s solver), %d assertions, exhaustive=%s, %d traces replayed, build %.1f s, total %.1f s" % (self.prop, self.tier, len(self.jobs), cov["paths_completed"], cov["queries_discharged"], cov["solver_s"], cov["assertions_evaluated"], exh, self.valid, tb, time.time() - t0))
        for n in self.notes[:15]: print("NOTE " + n)
        seen = set()
        for kf, what in self.known:
            if kf["text"] not in seen: seen.add(kf["text"]); print("KNOWN-FINDING: property=%s %s" % (self.prop, kf.get("text2", what)))
        for p, w in self.viol: print("VIOLATION property=%s replay=%s" % (self.prop, p)); print("  " + w)
        return 1 if self.viol else 0

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try: rc = Run(a.prop, a.tier, seed).run()
    except Exception as e:
        print("ERROR the check could not run: %s" % e); sys.exit(2)
    sys.stdout.flush(); sys.exit(rc)
if __name__ == "__main__": main()
