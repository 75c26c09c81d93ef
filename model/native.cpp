// Native runtime: replays one solver-produced input file against the real compiled code (ASan + UBSan).
#include "dsym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <dlfcn.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <sys/syscall.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" void* __asan_region_is_poisoned(void*, size_t);
extern "C" const char* __asan_locate_address(void*, char*, size_t, void**, size_t*);
extern "C" void __sanitizer_start_switch_fiber(void** fake, const void* bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber(void* fake, const void** bottom, size_t* size);

namespace {
struct In { char name[64]; size_t n; unsigned char* data; };
In* ins; size_t nins, pos; bool relaxed;
struct Par { char name[32]; long v; }; Par pars[64]; int npars;
struct NCtx { ucontext_t uc; void* stack; size_t size; void (*fn)(void*); void* arg; bool done; void* fake; };
const int MAXC = 1024; NCtx ctxs[MAXC]; int nctx, cur;
uint64_t allocLimit; unsigned long long obs[4096]; size_t nobs; bool started;
const size_t STK = 1 << 20;
void finish(int code, const char* what, const char* msg) {
    for (size_t i = 0; i < nobs; i++) printf("OBS %llu\n", obs[i]);
    printf("%s %s\n", what, msg); fflush(stdout); _Exit(code);
}
uint64_t immortal; int guards; struct Blk { const volatile void* p; size_t n; } blks[1024]; size_t nblks; // what the initialisation of a static local allocates is no leak
void onAlloc(const volatile void* p, size_t n) { if (started && guards > 0 && nblks < 1024) { blks[nblks].p = p; blks[nblks++].n = n; immortal += n; } if (started && allocLimit && n > allocLimit) { started = false; finish(16, "REPLAY-ALLOC", "memory request above the limit"); } }
void onFree(const volatile void* p) { for (size_t i = 0; i < nblks; i++) if (blks[i].p == p) { immortal -= blks[i].n; blks[i] = blks[--nblks]; return; } }
void onAlarm(int) { static const char m[] = "REPLAY-HANG\n"; ssize_t r = syscall(1, 1, m, sizeof m - 1); (void)r; _exit(15); }
void arrive() { void* f = ctxs[cur].fake; __sanitizer_finish_switch_fiber(f, nullptr, nullptr); }
void tramp() { arrive(); ctxs[cur].fn(ctxs[cur].arg); finish(17, "REPLAY-ERROR", "context function returned"); }
}
extern "C" {
void dsym_make_symbolic(void* p, size_t n, const char* name) {
    if (pos >= nins) finish(13, "REPLAY-DIVERGED", "no more inputs");
    In& i = ins[pos++];
    if (strcmp(i.name, name) || i.n != n) { printf("expected %s[%zu], recorded %s[%zu]\n", name, n, i.name, i.n); finish(13, "REPLAY-DIVERGED", "different input"); }
    memcpy(p, i.data, n);
}
int dsym_range(const char* name, int lo, int hi) { int v; if (hi < lo) finish(14, "REPLAY-ASSUME", "empty range"); dsym_make_symbolic(&v, 4, name); if (v < lo || v > hi) finish(13, "REPLAY-DIVERGED", "choice out of range"); return v; }
void dsym_assume(int c) { if (!c) finish(14, "REPLAY-ASSUME", "assumption false"); }
void dsym_assert(int c, const char* m) { if (!c) finish(10, "REPLAY-ASSERT", m); }
void dsym_fail(const char* m) { finish(10, "REPLAY-ASSERT", m); }
uint64_t dsym_concretize(uint64_t v) { return v; }
int dsym_ctx_create(void (*fn)(void*), void* arg) {
    if (nctx >= MAXC) finish(17, "REPLAY-ERROR", "too many contexts");
    NCtx& c = ctxs[nctx]; getcontext(&c.uc); c.size = STK;
    c.stack = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    c.uc.uc_stack.ss_sp = c.stack; c.uc.uc_stack.ss_size = STK; c.uc.uc_link = 0; c.fn = fn; c.arg = arg; c.done = false; c.fake = 0;
    makecontext(&c.uc, tramp, 0); return nctx++;
}
void dsym_ctx_switch(int id) {
    int me = cur; if (id == me) return; cur = id;
    __sanitizer_start_switch_fiber(&ctxs[me].fake, ctxs[id].stack, ctxs[id].size);
    swapcontext(&ctxs[me].uc, &ctxs[id].uc);
    arrive();
}
int dsym_ctx_self(void) { return cur; }
void dsym_ctx_exit(int id) { int me = cur; ctxs[me].done = true; cur = id; __sanitizer_start_switch_fiber(nullptr, ctxs[id].stack, ctxs[id].size); setcontext(&ctxs[id].uc); abort(); }
void dsym_reach(const char*) {}
void dsym_observe(uint64_t v) { if (nobs < 4096) obs[nobs++] = v; }
long dsym_param(const char* name, long def) { for (int i = 0; i < npars; i++) if (!strcmp(pars[i].name, name)) return pars[i].v; return def; }
uint64_t dsym_live_bytes(void) { return __sanitizer_get_current_allocated_bytes() - immortal; }
int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*); void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g) { int r = __real___cxa_guard_acquire(g); guards += r; return r; }
void __wrap___cxa_guard_release(void* g) { guards--; __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(void* g) { guards--; __real___cxa_guard_abort(g); }
void dsym_alloc_limit(uint64_t n) { allocLimit = n; }
void dsym_end_path(void) { finish(0, "REPLAY-OK", ""); }
int dsym_is_symbolic(uint64_t) { return 0; }
int dsym_in_engine(void) { return 0; }
int dsym_is_freed(const void*) { return 0; }
__attribute__((no_sanitize("address"))) int dsym_points_to(const void* from, size_t n, const void* p) {
    if (__asan_region_is_poisoned((void*)from, n)) return 0;
    char nm[8]; void* base = 0; size_t size = 0; const char* k = __asan_locate_address((void*)p, nm, sizeof nm, &base, &size); if (!k || strcmp(k, "heap")) return 0;
    for (size_t i = 0; i + 8 <= n; i += 8) { char* v = *(char**)((char*)from + i); if (v >= (char*)base && v < (char*)base + size && (v < (char*)from || v >= (char*)from + n)) return 1; }
    return 0;
}
void __asan_on_error() { printf("REPLAY-ASAN\n"); fflush(stdout); }
}
static void onAbrt(int) { printf("REPLAY-ABORT\n"); fflush(stdout); _exit(18); }
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    FILE* f = fopen(argv[1], "r"); if (!f) return 2;
    static char line[1 << 20]; char entry[128] = ""; ins = (In*)malloc(sizeof(In) * 65536); int tmo = 10;
    while (fgets(line, sizeof line, f)) {
        char a[128]; size_t n; int off = 0;
        if (sscanf(line, "entry %127s", entry) == 1) continue;
        if (sscanf(line, "timeout %d", &tmo) == 1) continue;
        if (!strncmp(line, "param ", 6)) { sscanf(line, "param %31s %ld", pars[npars].name, &pars[npars].v); npars++; continue; }
        if (sscanf(line, "in %63s %zu %n", a, &n, &off) == 2) {
            In& i = ins[nins++]; strncpy(i.name, a, 63); i.name[63] = 0; i.n = n; i.data = (unsigned char*)malloc(n + 1);
            for (size_t k = 0; k < n; k++) { unsigned v; sscanf(line + off + 2 * k, "%2x", &v); i.data[k] = v; }
        }
    }
    fclose(f);
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry);
    if (!fn) { printf("no entry %s\n", entry); return 2; }

    signal(SIGALRM, onAlarm); signal(SIGABRT, onAbrt); alarm(tmo);
    __sanitizer_install_malloc_and_free_hooks(onAlloc, onFree);
    setvbuf(stdout, 0, _IOLBF, 0); printf("REPLAY-START\n");
    // context 0 runs on its own mapped stack, so that every fiber has known bounds
    nctx = 0; cur = 0; static ucontext_t back; static void* bfake;
    dsym_ctx_create([](void* p) { started = true; ((void (*)())p)(); finish(0, "REPLAY-OK", ""); }, (void*)fn);
    __sanitizer_start_switch_fiber(&bfake, ctxs[0].stack, ctxs[0].size);
    swapcontext(&back, &ctxs[0].uc);
    return 3;
}
