// Harness interface, provided by the symbolic engine or by the native replay runtime.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void dsym_make_symbolic(void* p, size_t n, const char* name); // n arbitrary bytes
void dsym_assume(int c);                                       // drop the path unless c can hold
void dsym_assert(int c, const char* msg);                      // violation if c can be false
void dsym_fail(const char* msg);
int dsym_range(const char* name, int lo, int hi);              // arbitrary choice, one path each
uint64_t dsym_concretize(uint64_t v);                          // one path per feasible value
int dsym_ctx_create(void (*fn)(void*), void* arg);             // coroutine contexts
void dsym_ctx_switch(int id);
int dsym_ctx_self(void);
void dsym_ctx_exit(int next);
void dsym_reach(const char* label);                            // vacuity witness
void dsym_observe(uint64_t v);                                 // compared between engine and native run
long dsym_param(const char* name, long def);
uint64_t dsym_live_bytes(void);                                // heap in use
void dsym_alloc_limit(uint64_t n);                             // 0: off
void dsym_end_path(void);
int dsym_is_symbolic(uint64_t v);
int dsym_in_engine(void);
int dsym_is_freed(const void* p);
int dsym_points_to(const void* from, size_t n, const void* p);  // does [from, from+n) hold a pointer into the heap object that contains p?
}
// --- small helpers
template<class T> inline T sym(const char* name) { T t; dsym_make_symbolic(&t, sizeof(T), name); return t; }
// branch-free comparison of n bytes
inline int eqbytes(const void* a, const void* b, size_t n) {
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; unsigned d = 0;
    for (size_t i = 0; i < n; i++) d |= (unsigned)(x[i] ^ y[i]);
    return d == 0;
}
