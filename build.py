#!/usr/bin/env python3
"""Builds everything a check needs: the engine, the bitcode of /repo + harness + model, and the native replay program."""
import os, re, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DSYM_REPO", "/repo")
ENGINE = os.path.join(V, "build", "dsym"); INSTR = os.path.join(V, "build", "instr")

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def engine():
    srcs = [os.path.join(V, "engine", f) for f in ("dsym.cpp", "expr.h", "mem.h", "instr.cpp")]
    if os.path.exists(ENGINE) and all(os.path.getmtime(ENGINE) >= os.path.getmtime(s) for s in srcs): return
    os.makedirs(os.path.dirname(ENGINE), exist_ok=True)
    cpp = subprocess.check_output(["llvm-config-18", "--cppflags"], text=True).split()
    ld = subprocess.check_output(["llvm-config-18", "--ldflags"], text=True).split()
    tmp = ENGINE + ".%d" % os.getpid()
    run(["g++", "-O2", "-g1", "-std=c++17", *cpp, "-Wno-deprecated-declarations", srcs[0], "-o", tmp, *ld, "-lLLVM-18", "-lz3", "-lpthread"])
    run(["g++", "-O1", "-std=c++17", *cpp, "-Wno-deprecated-declarations", srcs[3], "-o", tmp + ".i", *ld, "-lLLVM-18"])
    os.rename(tmp + ".i", INSTR); os.rename(tmp, ENGINE)

def repo_sources():
    return sorted(glob.glob(REPO + "/*.cpp") + glob.glob(REPO + "/values/*.cpp"))

IRFLAGS = ["-std=gnu++17", "-O1", "-U_FORTIFY_SOURCE", "-Xclang", "-disable-llvm-passes", "-D_GLIBCXX_ASSERTIONS", "-g", "-w", "-c", "-emit-llvm", "-fno-builtin-memcmp"]
NATFLAGS = ["-std=gnu++17", "-O1", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-c"]
WRAP = """accept accept4 access bind close connect eventfd eventfd_read eventfd_write fcntl getsockopt setsockopt inet_aton inet_addr inet_pton inet_ntoa inet_ntop listen poll ppoll read readv recv recvfrom
recvmsg send sendto sendmsg write writev shutdown socket socketpair timerfd_create timerfd_settime timerfd_gettime unlink remove stat lstat select nanosleep clock_nanosleep usleep sleep clock_gettime time ioctl dup pipe pipe2
epoll_create epoll_create1 epoll_ctl epoll_wait
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy pthread_self pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal
pthread_cond_broadcast pthread_cond_init pthread_cond_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_rwlock_init pthread_rwlock_destroy pthread_mutex_timedlock pthread_mutex_clocklock gettimeofday sched_yield getpeername getsockname __fdelt_chk __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort getaddrinfo freeaddrinfo __errno_location""".split()
WRAPCXX = {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE": 1, "_ZNSt6thread4joinEv": 1, "_ZNSt6thread6detachEv": 1,
           "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE": 1, "_ZNSt18condition_variable10notify_oneEv": 1, "_ZNSt18condition_variable10notify_allEv": 1,
           "_ZNSt18condition_variableC1Ev": 1, "_ZNSt18condition_variableD1Ev": 1, "_ZNSt6chrono3_V212steady_clock3nowEv": 1, "_ZNSt6chrono3_V212system_clock3nowEv": 1}

def build(harness, out, mem=False, native=True):
    """harness: list of .cpp files under /verif/harness. Produces out/h.bc and out/h.native.
    mem: with scheduling points at the accesses of shared memory; the native program then consists of the same instrumented bitcode."""
    os.makedirs(out, exist_ok=True)
    hs = [os.path.join(V, "harness", h) for h in harness]
    model = sorted(glob.glob(os.path.join(V, "model", "*.cpp")))
    jobs = []
    inc = ["-I" + REPO, "-I" + os.path.join(V, "model"), "-I" + os.path.join(V, "harness")]
    bcs, objs, reps = [], [], []
    def name(s, suf): return os.path.join(out, s.strip("/").replace("/", "_") + suf)
    for s in repo_sources(): # the library
        o = name(s, ".bc"); (reps if mem else bcs).append(o)
        jobs.append(["clang++-18", *IRFLAGS, *(["-fsanitize=address"] if mem else []), *inc, s, "-o", o])
        if native and not mem:
            o = name(s, ".o"); objs.append(o); jobs.append(["g++", *NATFLAGS, *inc, s, "-o", o])
    for s in hs + model:
        base = os.path.basename(s)
        if base != "native.cpp":
            o = name(s, ".bc"); bcs.append(o)
            jobs.append(["clang++-18", *IRFLAGS, *(["-fno-builtin"] if base.startswith("rt") else []), *inc, s, "-o", o])
        if native and not base.startswith("rt"):
            o = name(s, ".o"); objs.append(o)
            jobs.append(["clang++-18" if mem else "g++", *NATFLAGS, *inc, s, "-o", o])
    with ThreadPoolExecutor(12) as ex: list(ex.map(run, jobs))
    SIMP = "-passes=function(sroa,early-cse,simplifycfg,sroa),globaldce"
    if mem:
        lib = out + "/lib.bc"; run(["llvm-link-18", *reps, "-o", out + "/lib0.bc"]); run(["opt-18", "-passes=function(sroa,early-cse,simplifycfg,sroa)", out + "/lib0.bc", "-o", out + "/lib1.bc"]); run([INSTR, out + "/lib1.bc", lib]); bcs.append(lib)
        if native: objs.append(out + "/lib.o")
    def link_bc():
        run(["llvm-link-18", *bcs, "-o", out + "/all.bc"])
        run(["opt-18", SIMP, out + "/all.bc", "-o", out + "/h.bc"])
    def link_native():
        if mem: run(["clang++-18", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-c", lib, "-o", out + "/lib.o"])
        rt = subprocess.check_output(["clang++-18", "-print-runtime-dir"], text=True).strip() # the shared sanitizer runtime: its own system calls are not wrapped
        if not os.path.isdir(rt): rt = os.path.join(subprocess.check_output(["clang++-18", "-print-resource-dir"], text=True).strip(), "lib", "linux")
        w = ["-Wl,--wrap=" + s for s in WRAP if s] + ["-Wl,--wrap=" + s for s in WRAPCXX]
        for attempt in range(3):
            try: run([*(["clang++-18", "-shared-libsan", "-Wl,-rpath," + rt] if mem else ["g++"]), "-fsanitize=address,undefined", "-rdynamic", *objs, *w, "-o", out + "/h.native", "-lpthread", "-ldl"]); break
            except RuntimeError as e: # a wrapped function the model does not define: leave it unwrapped
                miss = set(re.findall(r"undefined reference to `__wrap_(\w+)'", str(e)))
                if not miss or attempt == 2: raise
                w = [x for x in w if x.split("--wrap=")[1] not in miss]
    with ThreadPoolExecutor(2) as ex:
        fs = [ex.submit(link_bc)] + ([ex.submit(link_native)] if native else [])
        for f in fs: f.result()

if __name__ == "__main__":
    engine()
    if len(sys.argv) > 2: build([a for a in sys.argv[2:] if a[0] != "-"], sys.argv[1], mem="--mem" in sys.argv, native="--no-native" not in sys.argv)
