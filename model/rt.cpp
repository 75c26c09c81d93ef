// Engine-only runtime: the small compiled parts of libstdc++/libc that are not in headers.
#include <cstdint>
#include <cstddef>
#include <cerrno>
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
void* memrchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; while (n--) if (p[n] == (unsigned char)c) return (void*)(p + n); return 0; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
void* malloc(size_t); 
char* strdup(const char* s) { size_t n = strlen(s); char* r = (char*)malloc(n + 1); for (size_t i = 0; i <= n; i++) r[i] = s[i]; return r; }
void* mempcpy(void* d, const void* s, size_t n) { char* x = (char*)d; const char* y = (const char*)s; for (size_t i = 0; i < n; i++) x[i] = y[i]; return x + n; }
void bzero(void* d, size_t n) { char* x = (char*)d; for (size_t i = 0; i < n; i++) x[i] = 0; }
int isalnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isprint(int c) { return c >= 32 && c < 127; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int strcasecmp(const char* a, const char* b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* a, const char* b) { size_t n = strlen(b); for (;; a++) { if (!strncmp(a, b, n)) return (char*)a; if (!*a) return 0; } }
int pthread_once(int* c, void (*f)()) { if (!*c) { *c = 2; f(); } return 0; }
int getpid() { return 4242; }
char* strerror(int) { static char m[] = "error"; return m; }
void perror(const char*) {}
// snprintf and sprintf: the engine passes the variable arguments as an array
int dsym_format(char* d, size_t n, const char* f, const uint64_t* a) {
    size_t k = 0; auto put = [&](char c) { if (k + 1 < n) d[k] = c; k++; };
    for (; *f; f++) {
        if (*f != '%') { put(*f); continue; }
        f++; bool left = false, zero = false, plus = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else break; }
        int width = 0, prec = -1; if (*f == '*') { width = (int)*a++; f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = (int)*a++; f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        int sz = 4; for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') sz = 8; else if (*f == 'h') sz = sz == 2 ? 1 : 2; else break; }
        if (*f == '%') { put('%'); continue; }
        if (*f == 'c') { put((char)*a++); continue; }
        if (*f == 's') { const char* s = (const char*)*a++; int l = 0; while ((prec < 0 || l < prec) && s[l]) l++; if (!left) for (int i = l; i < width; i++) put(' '); for (int i = 0; i < l; i++) put(s[i]); if (left) for (int i = l; i < width; i++) put(' '); continue; }
        uint64_t v = *a++; bool neg = false, up = *f == 'X'; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10; if (*f == 'p') sz = 8;
        if (*f == 'd' || *f == 'i') { int64_t s = sz == 8 ? (int64_t)v : sz == 4 ? (int32_t)v : sz == 2 ? (int16_t)v : (int8_t)v; neg = s < 0; v = neg ? 0 - (uint64_t)s : (uint64_t)s; } else if (sz < 8) v &= ((uint64_t)1 << (8 * sz)) - 1;
        char t[24]; int l = 0; do { unsigned q = v % base; t[l++] = q < 10 ? '0' + q : (up ? 'A' : 'a') + q - 10; v /= base; } while (v);
        int total = l + (neg || plus); if (!left && !zero) for (int i = total; i < width; i++) put(' '); if (neg) put('-'); else if (plus) put('+'); if (!left && zero) for (int i = total; i < width; i++) put('0'); while (l) put(t[--l]); if (left) for (int i = total; i < width; i++) put(' ');
    }
    if (n) d[k < n ? k : n - 1] = 0; return (int)k;
}
void dsym_immortal(int d);
int __cxa_guard_acquire(uint8_t* g) { if (*g) return 0; dsym_immortal(1); return 1; }
void __cxa_guard_release(uint8_t* g) { *g = 1; dsym_immortal(-1); }
void __cxa_guard_abort(uint8_t*) { dsym_immortal(-1); }
uint16_t htons(uint16_t x) { return (uint16_t)(x << 8 | x >> 8); }
uint16_t ntohs(uint16_t x) { return (uint16_t)(x << 8 | x >> 8); }
uint32_t htonl(uint32_t x) { return __builtin_bswap32(x); }
uint32_t ntohl(uint32_t x) { return __builtin_bswap32(x); }

// ---- RTTI
extern void* _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern void* _ZTVN10__cxxabiv117__class_type_infoE[];
extern void* _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
}
struct TI { void* vt; const char* name; const TI* base; };
struct VmiBase { const TI* t; long off; };
struct VmiTI { void* vt; const char* name; unsigned flags, n; VmiBase b[1]; };
// offset of the unique `dst` subobject in an object of dynamic type t, or -1
static long findBase(const TI* t, const TI* dst) {
    if (t == dst) return 0;
    if (t->vt == (void*)&_ZTVN10__cxxabiv120__si_class_type_infoE[2]) return findBase(t->base, dst);
    if (t->vt == (void*)&_ZTVN10__cxxabiv121__vmi_class_type_infoE[2]) {
        const VmiTI* v = (const VmiTI*)t;
        for (unsigned i = 0; i < v->n; i++) { long r = findBase(v->b[i].t, dst); if (r >= 0) return r + (v->b[i].off >> 8); }
    }
    return -1;
}
extern "C" void* __dynamic_cast(const void* p, const void* src, const void* dst, long hint) {
    (void)src; (void)hint;
    void** vt = *(void***)p; long top = (long)vt[-2]; const TI* t = (const TI*)vt[-1];
    char* whole = (char*)p + top; long o = findBase(t, (const TI*)dst);
    return o < 0 ? 0 : whole + o;
}
extern "C" bool _ZNKSt9type_info7__equalERKS_(const TI* a, const TI* b) { return a == b; }

