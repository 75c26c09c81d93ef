#include "os.h"
#include <thread>
#include <mutex>
#include <memory>
#include <condition_variable>
#include <errno.h>
#include <string.h>
#include <poll.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <sys/timerfd.h>
#include <sys/eventfd.h>
#include <sys/stat.h>
#include <time.h>
#include <sys/time.h>
#undef errno
namespace os {
Env env = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1024, 1000 * S, 8};
enum { K_SOCK = 1, K_EVENT, K_TIMER };
static int FD0 = 100; /* the first descriptor of the process */ enum { NFD = 4096, NS = 1024, CAP = 1024, NC = 1024, NN = 6, QN = 8 };
enum { ST_NEW, ST_BOUND, ST_LISTEN, ST_PENDING, ST_CONN, ST_FAILED };
struct File { uint8_t kind, open, lib, nonblock, sema; int sock; uint64_t cnt; int64_t due, every; };
struct Sock { int self, domain, peer, st, err, fd, head, len; uint8_t eof, rst, wshut, rshut, closed, mine, queued; long ztail, tot; int wmax; int64_t when, sndtimeo; uint32_t ip; uint16_t port; int node; int q[QN], qn, lim; };
struct Node { char path[112]; uint8_t exists; int sock; };
struct C { int st; bool (*cond)(void*); void* arg; int64_t due; uint8_t idle, expired; void* cv; int err; int locks; };
struct Job { void (*fn)(void*); void* arg; };
static int nfl, nso, ncs = 1;
static Node nd[NN]; static int nnd;
#include "tables.h"
static int64_t clk = 1000 * S + 3; static int streak;
static int me() { return dsym_ctx_self(); }
static void err(int e) { CS(me()).err = e; }
int64_t now() { return clk; }
// ------------------------------------------------------------ scheduler
static int judging; // conditions of the harness may call the library: no switches then
static bool holds(bool (*f)(void*), void* a) { judging++; bool r = f(a); judging--; return r; }
static bool ready(int i) {
    C& c = CS(i); if (c.st == 1) return true; if (c.st != 2) return false;
    if (c.cond && holds(c.cond, c.arg)) return true;
    return c.due >= 0 && c.due <= clk;
}
static int nextReady(int from, int count) { // round robin, contexts that wait for idleness come last
    for (int k = 0; k < count; k++) { int i = (from + k) % ncs; if (!CS(i).idle && ready(i)) return i; }
    return -1;
}
static int choose(int first) { // first: where the round robin starts
    for (;;) {
        int c = nextReady(first, ncs);
        if (c >= 0) {
            while (env.delays > 0) { int span = (first + ncs - c - 1 + ncs) % ncs; int d = span ? nextReady((c + 1) % ncs, span) : -1; if (d < 0) break; if (!dsym_range("delay", 0, 1)) break; env.delays--; c = d; }
            return c;
        }
        for (int i = 0; i < ncs; i++) if (CS(i).st == 2 && CS(i).idle && CS(i).due < 0) return i;
        int64_t t = -1; for (int i = 0; i < ncs; i++) if (CS(i).st == 2 && CS(i).due >= 0 && (t < 0 || CS(i).due < t)) t = CS(i).due;
        for (int i = 0; i < nfl; i++) if (FL(i).open && FL(i).kind == K_TIMER && FL(i).due > clk && (t < 0 || FL(i).due < t)) t = FL(i).due;
        for (int i = 0; i < nso; i++) if (SO(i).st == ST_PENDING && SO(i).when > clk && (t < 0 || SO(i).when < t)) t = SO(i).when;
        if (t < 0) dsym_fail("deadlock: every thread waits for ever");
        if (t > clk) clk = t;
        if (clk > env.horizon) dsym_fail("a thread waits although it should have been released");
    }
}
static void go(int c) { C& x = CS(c); if (x.st == 2) { x.st = 1; x.idle = 0; } if (c != me()) { streak = 0; dsym_ctx_switch(c); } }
static void point(int on) {
    if (judging) return;
    if (++streak > 200) { streak = 0; int c = nextReady((me() + 1) % ncs, ncs); if (c >= 0 && c != me()) { go(c); return; } } // fairness: a spinning thread does not starve the others
    if (on && env.delays > 0 && ncs > 1) go(choose(me()));
}
// false: the time is over
static bool block(bool (*cond)(void*), void* arg, int64_t due, bool idle = false) {
    if (!idle && cond && holds(cond, arg)) return true;
    if (due >= 0 && due <= clk) return false;
    int m = me(); C& c = CS(m); streak = 0;
    for (;;) {
        c.cond = cond; c.arg = arg; c.due = due; c.idle = idle; c.st = 2;
        int n = choose((m + 1) % ncs); go(n);
        if (idle) return true;
        if (cond && holds(cond, arg)) return true;
        if (due >= 0 && due <= clk) return false;
    }
}
static void quit() { int m = me(); CS(m).st = 3; int n = choose((m + 1) % ncs); C& x = CS(n); if (x.st == 2) { x.st = 1; x.idle = 0; } streak = 0; dsym_ctx_exit(n); }
int addCtx(void (*fn)(void*), void* arg) { int id = dsym_ctx_create(fn, arg); if (id >= NC) dsym_fail("model: too many threads"); CS(id).st = 1; CS(id).due = -1; if (id >= ncs) ncs = id + 1; return id; }

static void runJob(void* p) { Job* j = (Job*)p; j->fn(j->arg); quit(); }
int spawn(void (*fn)(void*), void* arg) { Job* j = &JB(ncs); j->fn = fn; j->arg = arg; return addCtx(runJob, j); }
bool done(int t) { return CS(t).st == 3; }
void settle() { block(0, 0, -1, true); }
void nap(int64_t t) { block(0, 0, clk + t); }
bool waitFor(bool (*cond)(void*), void* arg, int64_t t) { return block(cond, arg, t < 0 ? -1 : clk + t); }
void yieldPoint() { point(1); }
struct Range { const char* p; size_t n; }; static Range rg[12]; static int nrg; static int memStreak;
void watch(const void* p, size_t n) { if (nrg < 12) { rg[nrg].p = (const char*)p; rg[nrg].n = n; nrg++; } }
extern "C" void dsym_mem_point(const void* p, int) { // before an access of memory that threads share (builds with memory points only)
    if (!env.pmem || env.delays <= 0 || ncs < 2 || judging) return; const char* a = (const char*)p; int hit = 0;
    for (int i = 0; i < nrg; i++) { if ((size_t)(a - rg[i].p) < rg[i].n) hit = 1; else if (env.pmem == 3 && dsym_points_to(rg[i].p, rg[i].n, p)) hit = 1; }
    if (!hit || (env.pmem == 1 && CS(me()).locks)) return;
    if (++memStreak > 20000) { memStreak = 0; int c = nextReady((me() + 1) % ncs, ncs); if (c >= 0 && c != me()) { go(c); return; } }
    go(choose(me()));
}
int threads() { int n = 0; for (int i = 1; i < ncs; i++) if (CS(i).st != 3) n++; return n; }
// ------------------------------------------------------------ descriptors
static int fdzero = -1; // the descriptor that has number 0
void fdBase(int n) { FD0 = n; } void fdZero(int i) { fdzero = i; }
static int num(int i) { return i == fdzero ? 0 : FD0 + i; } static int ix(int fd) { return fd == 0 && fdzero >= 0 ? fdzero : fd - FD0; } static bool known(int fd) { int i = ix(fd); return i >= 0 && i < nfl && num(i) == fd; }
static int newFd(int kind, int sock, int lib) { if (nfl >= NFD) dsym_fail("model: too many descriptors"); File& f = FL(nfl); f.kind = kind; f.open = 1; f.lib = lib; f.sock = sock; f.due = -1; return num(nfl++); }
static File* use(int fd, const char* what) {
    if (fd < 0) { err(EBADF); return 0; }
    if (!known(fd)) { dsym_fail("use of a descriptor that was never opened"); return 0; }
    File* f = &FL(ix(fd));
    if (!f->open) { dsym_fail(what); return 0; }
    return f;
}
int openFds() { int n = 0; for (int i = 0; i < nfl; i++) if (FL(i).open && FL(i).lib) n++; return n; }
int made() { int n = 0; for (int i = 0; i < nfl; i++) if (FL(i).lib) n++; return n; }
static bool fails(int op) { if (env.failOp != op) return false; env.failOp = OP_NONE; err(env.failErrno); return true; }
static int newSock(int domain) { if (nso >= NS) dsym_fail("model: too many sockets"); Sock& s = SO(nso); s.self = nso; s.domain = domain; s.peer = -1; s.fd = -1; s.node = -1; s.when = -1; return nso++; }
static void link2(int a, int b) { SO(a).peer = b; SO(b).peer = a; SO(a).st = SO(b).st = ST_CONN; }
static Sock& sk(int fd) { return SO(FL(ix(fd)).sock); }
static bool pendingDone(Sock& s) { // resolve a pending connect
    if (s.st != ST_PENDING) return true;
    if (s.when < 0 || s.when > clk) return false;
    if (s.err) s.st = ST_FAILED; else s.st = ST_CONN;
    return true;
}
static int space(Sock& s) { if (s.peer < 0) return 0; int n = env.sndbuf - SO(s.peer).len; return n < 0 ? 0 : n; }
static bool broken(Sock& s) { return s.wshut || s.peer < 0 || SO(s.peer).closed || SO(s.peer).rshut || s.rst; }
static bool canRead(Sock& s) { if (s.st == ST_LISTEN) return s.qn > 0; if (s.st == ST_FAILED) return true; if (s.st != ST_CONN) return false; return s.len || s.ztail || s.eof || s.rst || s.rshut; }
static bool canWrite(Sock& s) { if (s.st == ST_FAILED) return true; if (s.st != ST_CONN) return false; return broken(s) || space(s) > 0; }
static short revents(int fd, short ev) {
    if (fd < 0) return 0; if (!known(fd)) return POLLNVAL; File& f = FL(ix(fd));
    if (!f.open) return 0; // closed by another thread meanwhile: nothing is reported any more
    short r = 0;
    if (f.kind == K_EVENT) { if (f.cnt) r |= POLLIN; r |= POLLOUT; }
    else if (f.kind == K_TIMER) { if (f.due >= 0 && f.due <= clk) r |= POLLIN; }
    else { Sock& s = SO(f.sock); pendingDone(s);
        if (canRead(s)) r |= POLLIN; if (canWrite(s)) r |= POLLOUT;
        if (s.st == ST_CONN && (s.eof || s.rshut)) r |= POLLRDHUP;
        if (s.st == ST_CONN && (s.eof || s.rshut) && (s.wshut || (s.peer >= 0 && SO(s.peer).closed))) r |= POLLHUP;
        if (s.st == ST_FAILED || s.rst) r |= POLLERR | POLLHUP; if (s.st == ST_NEW || s.st == ST_BOUND) r |= POLLOUT | POLLHUP; }
    return r & (ev | POLLERR | POLLHUP);
}
bool readable(int fd) { return known(fd) && FL(ix(fd)).open && (revents(fd, POLLIN) & POLLIN); }
static void closeSock(int i) {
    Sock& s = SO(i); s.closed = 1;
    if (s.st == ST_LISTEN) { for (int k = 0; k < s.qn; k++) { Sock& x = SO(s.q[k]); x.closed = 1; if (x.peer >= 0) { SO(x.peer).rst = 1; SO(x.peer).eof = 1; SO(x.peer).queued = 0; } } s.qn = 0; if (s.node >= 0 && nd[s.node].sock == i) nd[s.node].sock = -1; s.st = ST_NEW; return; }
    if (s.peer >= 0) SO(s.peer).eof = 1;
    if (s.queued) { SO(s.peer).closed = 1; }
}
static int nodeOf(const char* p, bool make) {
    for (int i = 0; i < nnd; i++) if (!strcmp(nd[i].path, p)) return i;
    if (!make) return -1; if (nnd >= NN) dsym_fail("model: too many paths");
    int k = 0; while (p[k] && k < 111) { nd[nnd].path[k] = p[k]; k++; } nd[nnd].path[k] = 0; nd[nnd].exists = 0; nd[nnd].sock = -1; return nnd++;
}
int addFile(const char* p) { int n = nodeOf(p, true); nd[n].exists = 1; return n; }
bool exists(const char* p) { int n = nodeOf(p, false); return n >= 0 && nd[n].exists; }
static int findListener(int domain, uint32_t ip, uint16_t port, const char* path) {
    if (domain == AF_UNIX) { int n = nodeOf(path, false); return n < 0 || !nd[n].exists ? -1 : nd[n].sock; }
    for (int i = 0; i < nso; i++) if (SO(i).st == ST_LISTEN && SO(i).domain == AF_INET && SO(i).port == port && (SO(i).ip == ip || SO(i).ip == 0)) return i;
    return -1;
}
bool listening(int domain, uint32_t ip, uint16_t port, const char* path) {
    if (domain == AF_UNIX) { int l = findListener(domain, 0, 0, path); return l >= 0 && SO(l).st == ST_LISTEN; }
    for (int i = 0; i < nso; i++) if (SO(i).st == ST_LISTEN && SO(i).domain == AF_INET && SO(i).port == port && SO(i).ip == ip) return true;
    return false;
}
// connects socket a to listener l: the other end goes to its queue
static int enqueue(int a, int l, bool mine) { int b = newSock(SO(l).domain); SO(b).mine = mine; link2(a, b); SO(a).queued = 1; SO(l).q[SO(l).qn++] = b; return b; }
static int dequeue(int l, int lib) {
    Sock& s = SO(l); int b = s.q[0]; for (int k = 1; k < s.qn; k++) s.q[k - 1] = s.q[k]; s.qn--;
    int fd = newFd(K_SOCK, b, lib); SO(b).fd = fd; SO(SO(b).peer).queued = 0; return fd;
}
void pair(int domain, int* lib, int* mine) { int a = newSock(domain), b = newSock(domain); link2(a, b); *lib = newFd(K_SOCK, a, 1); *mine = newFd(K_SOCK, b, 0); SO(a).fd = *lib; SO(b).fd = *mine; SO(b).mine = 1; }
void pairLib(int domain, int* x, int* y) { pair(domain, x, y); FL(ix(*y)).lib = 1; SO(FL(ix(*y)).sock).mine = 0; }
Addr lastConnect, lastBind, lastUnlink;
static void note(Addr& l, const sockaddr* a) { l.count++; l.domain = a->sa_family; if (a->sa_family == AF_UNIX) { const char* p = ((const sockaddr_un*)a)->sun_path; int k = 0; while (k < 108 && p[k]) { l.path[k] = p[k]; k++; } l.path[k] = 0; } else { const sockaddr_in* i = (const sockaddr_in*)a; l.ip = __builtin_bswap32(i->sin_addr.s_addr); l.port = __builtin_bswap16(i->sin_port); } }
static void push(Sock& to, const unsigned char* p, size_t n) { unsigned char* b = BUF(to.self); if (to.len + n > CAP) dsym_fail("model: socket buffer too small"); 
    if (to.head + to.len + n > CAP) { for (int i = 0; i < to.len; i++) b[i] = b[to.head + i]; to.head = 0; }
    memcpy(b + to.head + to.len, p, n); to.len += n; to.tot += n; }
void deliver(int mine, const void* p, size_t n) { push(SO(sk(mine).peer), (const unsigned char*)p, n); }
void deliverZeros(int mine, long n) { SO(sk(mine).peer).ztail += n; }
int avail(int mine) { return sk(mine).len; }
long total(int mine) { return sk(mine).tot; }
const unsigned char* data(int mine) { Sock& s = sk(mine); return BUF(s.self) + s.head; }
void consume(int mine, int n) { Sock& s = sk(mine); s.head += n; s.len -= n; if (!s.len) s.head = 0; }
int maxWrite(int mine) { return SO(sk(mine).peer).wmax; }
int resetMaxWrite(int mine) { int r = maxWrite(mine); SO(sk(mine).peer).wmax = 0; return r; }
void closeMine(int mine) { File& f = FL(ix(mine)); if (!f.open) return; f.open = 0; closeSock(f.sock); }
void resetMine(int mine) { Sock& s = sk(mine); if (s.peer >= 0) { SO(s.peer).rst = 1; SO(s.peer).len = 0; SO(s.peer).ztail = 0; } closeMine(mine); }
void shutMine(int mine) { Sock& s = sk(mine); s.wshut = 1; if (s.peer >= 0) SO(s.peer).eof = 1; }
bool gone(int mine) { Sock& s = sk(mine); return s.peer < 0 || SO(s.peer).closed || s.rst; }
int listenTcp(uint32_t ip, uint16_t port) { int a = newSock(AF_INET); SO(a).st = ST_LISTEN; SO(a).ip = ip; SO(a).port = port; SO(a).lim = env.backlog; SO(a).mine = 1; return SO(a).fd = newFd(K_SOCK, a, 0); }
int listenUnix(const char* path) { int a = newSock(AF_UNIX); SO(a).st = ST_LISTEN; SO(a).node = nodeOf(path, true); nd[SO(a).node].exists = 1; nd[SO(a).node].sock = a; SO(a).lim = env.backlog; SO(a).mine = 1; return SO(a).fd = newFd(K_SOCK, a, 0); }
int acceptMine(int l) { int i = FL(ix(l)).sock; if (!SO(i).qn) return -1; return dequeue(i, 0); }
static int dial(int l) { if (l < 0 || SO(l).st != ST_LISTEN || SO(l).qn >= QN) return -1; int a = newSock(SO(l).domain); SO(a).mine = 1; int fd = newFd(K_SOCK, a, 0); SO(a).fd = fd; enqueue(a, l, false); return fd; }
int dialTcp(uint32_t ip, uint16_t port) { return dial(findListener(AF_INET, ip, port, 0)); }
int dialUnix(const char* path) { return dial(findListener(AF_UNIX, 0, 0, path)); }
int backlogOf(int mine) { return sk(mine).queued; }
// ------------------------------------------------------------ waits
struct PW { pollfd* p; nfds_t n; };
static bool pollReady(void* a) { PW* w = (PW*)a; for (nfds_t i = 0; i < w->n; i++) if (revents(w->p[i].fd, w->p[i].events)) return true; return false; }
static int doPoll(pollfd* p, nfds_t n, int64_t due) {
    point(env.psys); PW w = {p, n};
    for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && !use(p[i].fd, "poll on a closed descriptor")) return -1;
    if (due < 0 || due > clk) if (env.eintr > 0 && !pollReady(&w) && dsym_range("eintr", 0, 1)) {
        env.eintr--; int64_t t = clk + env.eintrAfter; if (env.eintrAfter && !(due >= 0 && due <= t) && !block(pollReady, &w, t)) { err(EINTR); return -1; } if (!env.eintrAfter) { err(EINTR); return -1; } }
    block(pollReady, &w, due);
    int r = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = revents(p[i].fd, p[i].events); if (p[i].revents) r++; }
    return r;
}
static bool badTime(const timespec* t) { return t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec >= 1000000000; }
const int64_t MAXSEC = 9223372036ll, TICK = 1000000000 / S;
static int64_t fraction(int64_t ns) { int64_t k = 0; for (int i = 0; i < S; i++) k += ns > i * TICK; return k; } // rounded up
static int64_t ticks(const timespec* t) { if (t->tv_sec < 0) return 0; if (t->tv_sec >= MAXSEC) return MAXSEC * S; return t->tv_sec * S + fraction(t->tv_nsec); }
static int64_t deadline(const timespec* t) { int64_t d = ticks(t); return d > MAXSEC * S - clk ? MAXSEC * S : clk + d; } // relative
static int64_t millis(int ms) { int64_t s = ms / 1000, r = ms % 1000; timespec t = {s, r * 1000000}; return clk + ticks(&t); }
static bool sockRead(void* a) { return canRead(*(Sock*)a); }
static bool sockWrite(void* a) { return canWrite(*(Sock*)a); }
static bool sockDone(void* a) { return pendingDone(*(Sock*)a); }
static ssize_t doRecv(int fd, void* b, size_t n, int flags) {
    File* f = use(fd, "recv on a closed descriptor"); if (!f) return -1;
    point(env.psys); if (f->kind != K_SOCK) { err(ENOTSOCK); return -1; } Sock& s = SO(f->sock);
    if (s.st != ST_CONN) { err(ENOTCONN); return -1; }
    if (fails(OP_RECV)) return -1;
    if (!canRead(s)) { if (f->nonblock || (flags & MSG_DONTWAIT)) { err(EAGAIN); return -1; } block(sockRead, &s, -1); }
    if (s.len || s.ztail) {
        size_t k = s.len + s.ztail; if (n < k) k = n; if (!k) return 0;
        if (env.rsplit > 0 && k > 1 && !(flags & MSG_WAITALL)) { int c = dsym_range("rlen", 0, (int)k - 1); if (c) { k = c; env.rsplit--; } }
        size_t h = k < (size_t)s.len ? k : s.len; memcpy(b, BUF(s.self) + s.head, h);
        size_t z = k - h; if (z) memset((char*)b + h, 0, z);
        if (!(flags & MSG_PEEK)) { s.head += h; s.len -= h; if (!s.len) s.head = 0; s.ztail -= z; }
        return k;
    }
    if (s.rst) { s.rst = 0; s.eof = 1; s.wshut = 1; err(ECONNRESET); return -1; }
    return 0;
}
static ssize_t doSend(int fd, const void* b, size_t n, int flags) {
    File* f = use(fd, "send on a closed descriptor"); if (!f) return -1;
    point(env.psys); if (f->kind != K_SOCK) { err(ENOTSOCK); return -1; } Sock& s = SO(f->sock);
    if (s.st != ST_CONN) { err(ENOTCONN); return -1; }
    if ((int)n > s.wmax) s.wmax = n;
    bool nb = f->nonblock || (flags & MSG_DONTWAIT); size_t sent = 0; const unsigned char* p = (const unsigned char*)b;
    if (fails(OP_SEND)) return -1;
    if (env.eagain > 0 && nb && n && !broken(s) && dsym_range("eagain", 0, 1)) { env.eagain--; err(EAGAIN); return -1; }
    for (;;) {
        if (broken(s)) { if (s.rst) { s.rst = 0; s.eof = 1; s.wshut = 1; err(ECONNRESET); return -1; } if (!(flags & MSG_NOSIGNAL)) dsym_fail("SIGPIPE kills the process"); err(EPIPE); return sent ? (ssize_t)sent : -1; }
        size_t k = space(s); if (k > n - sent) k = n - sent;
        if (!k && sent < n) { if (nb) { if (sent) return sent; err(EAGAIN); return -1; } block(sockWrite, &s, -1); continue; }
        if (env.wsplit > 0 && k > 1) { int c = dsym_range("wlen", 0, (int)k - 1); if (c) { k = c; env.wsplit--; push(SO(s.peer), p + sent, k); return sent + k; } }
        push(SO(s.peer), p + sent, k); sent += k;
        if (sent >= n || nb) return sent;
    }
}
static bool evReady(void* a) { File* f = (File*)a; return f->kind == K_EVENT ? f->cnt != 0 : f->due >= 0 && f->due <= clk; }
static ssize_t doRead(int fd, void* b, size_t n) {
    File* f = use(fd, "read from a closed descriptor"); if (!f) return -1;
    if (f->kind == K_SOCK) return doRecv(fd, b, n, 0);
    point(env.psys);
    if (n < 8) { err(EINVAL); return -1; }
    if (!evReady(f)) { if (f->nonblock) { err(EAGAIN); return -1; } block(evReady, f, -1); }
    uint64_t v;
    if (f->kind == K_EVENT) { v = f->sema ? 1 : f->cnt; f->cnt -= v; }
    else { v = 1; if (f->every > 0) { v += (clk - f->due) / f->every; f->due += v * f->every; } else f->due = -1; }
    memcpy(b, &v, 8); return 8;
}
static ssize_t doWrite(int fd, const void* b, size_t n) {
    File* f = use(fd, "write to a closed descriptor"); if (!f) return -1;
    if (f->kind == K_SOCK) return doSend(fd, b, n, 0);
    point(env.psys);
    if (f->kind != K_EVENT || n < 8) { err(EINVAL); return -1; }
    uint64_t v; memcpy(&v, b, 8); f->cnt += v; return 8;
}
static int parseIp(const char* s, uint32_t* out) { // dotted quad (1 to 4 parts), decimal
    uint32_t part[4]; int n = 0;
    for (;;) { if (*s < '0' || *s > '9') return 0; uint64_t v = 0; while (*s >= '0' && *s <= '9') { v = v * 10 + (*s++ - '0'); if (v > 0xffffffffull) return 0; } part[n++] = v; if (*s == '.') { if (n == 4) return 0; s++; } else break; }
    if (*s && *s != ' ' && *s != '\n' && *s != '\t') return 0;
    uint32_t r = 0; for (int i = 0; i < n - 1; i++) { if (part[i] > 255) return 0; r |= part[i] << (24 - 8 * i); }
    if (n > 1 && part[n - 1] > (0xffffffffu >> (8 * (n - 1)))) return 0;
    *out = r | part[n - 1]; return 1;
}
static bool mFree(void* a) { return ((pthread_mutex_t*)a)->__data.__owner == 0; }
static int lockM(pthread_mutex_t* m) {
    int w = me() + 1;
    if (m->__data.__owner == w) { if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { m->__data.__count++; return 0; } dsym_fail("deadlock: a thread locks a mutex that it holds already"); }
    block(mFree, m, -1); m->__data.__owner = w; m->__data.__count = 1; CS(w - 1).locks++; return 0;
}
static int unlockM(pthread_mutex_t* m) { if (m->__data.__owner != me() + 1) dsym_fail("a mutex is unlocked by a thread that does not hold it"); if (--m->__data.__count == 0) { m->__data.__owner = 0; CS(me()).locks--; } return 0; }
static bool cvGone(void* a) { return ((C*)a)->cv == 0; }
static int cvWait(void* c, pthread_mutex_t* m, int64_t due) { C& x = CS(me()); x.cv = c; unsigned n = m->__data.__count; m->__data.__count = 0; m->__data.__owner = 0; x.locks--; bool ok = block(cvGone, &x, due); x.cv = 0; block(mFree, m, -1); x.locks++; m->__data.__owner = me() + 1; m->__data.__count = n; return ok ? 0 : ETIMEDOUT; }
static void cvWake(void* c, bool all) { for (int i = 0; i < ncs; i++) if (CS(i).cv == c) { CS(i).cv = 0; if (!all) return; } }
static bool ctxDone(void* a) { return ((C*)a)->st == 3; }
static void runThread(void* p) { void** vt = *(void***)p; ((void (*)(void*))vt[2])(p); ((void (*)(void*))vt[1])(p); quit(); } // std::thread::_State: _M_run(), deleting destructor
}
using namespace os;
extern "C" {
int* __wrap___errno_location() { return &CS(me()).err; }
int __wrap_poll(pollfd* p, nfds_t n, int ms) { return doPoll(p, n, ms < 0 ? -1 : millis(ms)); }
int __wrap_ppoll(pollfd* p, nfds_t n, const timespec* t, const sigset_t*) { if (t && badTime(t)) { err(EINVAL); return -1; } return doPoll(p, n, t ? deadline(t) : -1); }
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* t) {
    static pollfd ps[16]; pollfd loc[16]; int k = 0; (void)ps;
    for (int x = 0; x < nfl; x++) { int i = num(x); if (i >= n) continue; short ev = 0; if (r && (r->fds_bits[i / 64] >> (i % 64) & 1)) ev |= POLLIN; if (w && (w->fds_bits[i / 64] >> (i % 64) & 1)) ev |= POLLOUT; if (ev && k < 16) { loc[k].fd = i; loc[k].events = ev; k++; } }
    timespec ts; if (t) { ts.tv_sec = t->tv_sec; ts.tv_nsec = t->tv_usec * 1000; if (t->tv_sec < 0 || t->tv_usec < 0) { err(EINVAL); return -1; } }
    int q = doPoll(loc, k, t ? deadline(&ts) : -1); if (q < 0) return q;
    for (int i = 0; i < (n + 63) / 64; i++) { if (r) r->fds_bits[i] = 0; if (w) w->fds_bits[i] = 0; if (e) e->fds_bits[i] = 0; }
    int c = 0; for (int i = 0; i < k; i++) { if (r && (loc[i].events & POLLIN) && (loc[i].revents & (POLLIN | POLLERR | POLLHUP))) { r->fds_bits[loc[i].fd / 64] |= 1l << (loc[i].fd % 64); c++; } if (w && (loc[i].events & POLLOUT) && (loc[i].revents & (POLLOUT | POLLERR))) { w->fds_bits[loc[i].fd / 64] |= 1l << (loc[i].fd % 64); c++; } }
    return c;
}
ssize_t __wrap_read(int fd, void* b, size_t n) { return doRead(fd, b, n); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { return doWrite(fd, b, n); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) { return doRecv(fd, b, n, fl); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int fl, void*, void*) { return doRecv(fd, b, n, fl); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) { return doSend(fd, b, n, fl); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int fl, const void*, unsigned) { return doSend(fd, b, n, fl); }
int __wrap_close(int fd) {
    if (fd < 0) { err(EBADF); return -1; }
    File* f = use(fd, "close of a closed descriptor"); if (!f) return -1;
    point(env.psys); f->open = 0; if (f->kind == K_SOCK) closeSock(f->sock); return 0;
}
int __wrap_shutdown(int fd, int how) {
    File* f = use(fd, "shutdown of a closed descriptor"); if (!f) return -1;
    point(env.psys); if (f->kind != K_SOCK) { err(ENOTSOCK); return -1; } Sock& s = SO(f->sock); if (s.st != ST_CONN) { err(ENOTCONN); return -1; }
    if (how != SHUT_RD) { s.wshut = 1; if (s.peer >= 0) SO(s.peer).eof = 1; } if (how != SHUT_WR) s.rshut = 1; return 0;
}
int __wrap_eventfd(unsigned init, int flags) { point(env.psys); int fd = newFd(K_EVENT, -1, 1); File& f = FL(ix(fd)); f.cnt = init; f.nonblock = !!(flags & EFD_NONBLOCK); f.sema = !!(flags & EFD_SEMAPHORE); return fd; }
int __wrap_eventfd_write(int fd, uint64_t v) { return doWrite(fd, &v, 8) == 8 ? 0 : -1; }
int __wrap_eventfd_read(int fd, uint64_t* v) { return doRead(fd, v, 8) == 8 ? 0 : -1; }
int __wrap_timerfd_create(int, int flags) { point(env.psys); int fd = newFd(K_TIMER, -1, 1); FL(ix(fd)).nonblock = !!(flags & TFD_NONBLOCK); return fd; }
int __wrap_timerfd_settime(int fd, int flags, const itimerspec* t, itimerspec* old) {
    File* f = use(fd, "timerfd_settime on a closed descriptor"); if (!f) return -1;
    point(env.psys); if (f->kind != K_TIMER || badTime(&t->it_value)) { err(EINVAL); return -1; }
    if (old) { memset(old, 0, sizeof *old); if (f->due >= 0) { int64_t l = f->due > clk ? f->due - clk : 0; old->it_value.tv_sec = l >> 3; old->it_value.tv_nsec = (l & 7) * TICK; } }
    f->every = ticks(&t->it_interval);
    if (!t->it_value.tv_sec && !t->it_value.tv_nsec) f->due = -1;
    else if (flags & TFD_TIMER_ABSTIME) f->due = ticks(&t->it_value);
    else f->due = deadline(&t->it_value);
    return 0;
}
int __wrap_socketpair(int domain, int type, int, int* v) { point(env.psys); pairLib(domain, v, v + 1); FL(ix(v[0])).nonblock = FL(ix(v[1])).nonblock = !!(type & SOCK_NONBLOCK); return 0; }
int __wrap_pipe2(int* v, int flags) { return __wrap_socketpair(AF_UNIX, flags & O_NONBLOCK ? SOCK_NONBLOCK : 0, 0, v); }
int __wrap_pipe(int* v) { return __wrap_pipe2(v, 0); }
int __wrap_socket(int domain, int type, int) { point(env.psys); if (fails(OP_SOCKET)) return -1; int s = newSock(domain); int fd = newFd(K_SOCK, s, 1); SO(s).fd = fd; FL(ix(fd)).nonblock = !!(type & SOCK_NONBLOCK); return fd; }
int __wrap_bind(int fd, const sockaddr* a, socklen_t) {
    File* f = use(fd, "bind of a closed descriptor"); if (!f) return -1;
    point(env.psys); note(lastBind, a); if (fails(OP_BIND)) return -1; Sock& s = SO(f->sock); if (a->sa_family != s.domain) { err(EINVAL); return -1; }
    if (s.domain == AF_UNIX) { const char* p = ((const sockaddr_un*)a)->sun_path; int n = nodeOf(p, true); if (nd[n].exists) { err(EADDRINUSE); return -1; } nd[n].exists = 1; nd[n].sock = f->sock; s.node = n; }
    else { const sockaddr_in* i = (const sockaddr_in*)a; s.ip = __builtin_bswap32(i->sin_addr.s_addr); s.port = __builtin_bswap16(i->sin_port); for (int k = 0; k < nso; k++) if (SO(k).st == ST_LISTEN && SO(k).domain == AF_INET && SO(k).port == s.port && (SO(k).ip == s.ip || !SO(k).ip || !s.ip)) { err(EADDRINUSE); return -1; } }
    s.st = ST_BOUND; return 0;
}
int __wrap_listen(int fd, int backlog) {
    File* f = use(fd, "listen on a closed descriptor"); if (!f) return -1;
    point(env.psys); if (fails(OP_LISTEN)) return -1; Sock& s = SO(f->sock); if (s.st == ST_LISTEN) return 0; if (s.st == ST_NEW && s.domain == AF_INET) { s.ip = 0; s.port = 49152 + f->sock; s.st = ST_BOUND; /* an unbound internet socket gets a port of its own */ } if (s.st != ST_BOUND) { err(EINVAL); return -1; } s.st = ST_LISTEN; s.lim = QN; return 0;
}
int __wrap_accept4(int fd, sockaddr*, socklen_t*, int flags) {
    File* f = use(fd, "accept on a closed descriptor"); if (!f) return -1;
    point(env.psys); Sock& s = SO(f->sock); if (s.st != ST_LISTEN) { err(EINVAL); return -1; }
    if (fails(OP_ACCEPT)) return -1;
    if (!s.qn) { if (f->nonblock) { err(EAGAIN); return -1; } block(sockRead, &s, -1); }
    int r = dequeue(f->sock, 1); FL(ix(r)).nonblock = !!(flags & SOCK_NONBLOCK); return r;
}
int __wrap_accept(int fd, sockaddr* a, socklen_t* l) { return __wrap_accept4(fd, a, l, 0); }
int __wrap_connect(int fd, const sockaddr* a, socklen_t) {
    File* f = use(fd, "connect of a closed descriptor"); if (!f) return -1;
    point(env.psys); note(lastConnect, a); Sock& s = SO(f->sock); if (a->sa_family != s.domain) { err(EINVAL); return -1; }
    if (s.st == ST_PENDING) { pendingDone(s); if (s.st == ST_PENDING) { err(EALREADY); return -1; } }
    if (s.st == ST_CONN) { err(EISCONN); return -1; }
    if (fails(OP_CONNECT)) return -1;
    int l; if (s.domain == AF_UNIX) l = findListener(AF_UNIX, 0, 0, ((const sockaddr_un*)a)->sun_path); else { const sockaddr_in* i = (const sockaddr_in*)a; l = findListener(AF_INET, __builtin_bswap32(i->sin_addr.s_addr), __builtin_bswap16(i->sin_port), 0); }
    int mode = env.connect; if (l < 0 || SO(l).st != ST_LISTEN) mode = 1;
    if (mode == 1) { err(s.domain == AF_UNIX ? ENOENT : ECONNREFUSED); return -1; }
    if (mode == 0) { enqueue(f->sock, l, true); return 0; }
    if (s.domain == AF_UNIX && f->nonblock) { err(EAGAIN); return -1; } // a UNIX connect is never in progress
    s.st = ST_PENDING; s.err = mode == 2 ? 0 : mode == 3 ? ECONNREFUSED : ETIMEDOUT; s.when = clk + (mode == 4 ? 127 * S : env.connectDelay);
    if (mode == 2) { enqueue(f->sock, l, true); s.st = ST_PENDING; }
    if (f->nonblock) { err(EINPROGRESS); return -1; }
    if (!block(sockDone, &s, s.sndtimeo > 0 ? clk + s.sndtimeo : -1)) { err(s.domain == AF_UNIX ? EAGAIN : EINPROGRESS); return -1; }
    if (s.st == ST_FAILED) { err(s.err); s.err = 0; return -1; }
    return 0;
}
int __wrap_getsockopt(int fd, int level, int name, void* v, socklen_t* n) {
    File* f = use(fd, "getsockopt of a closed descriptor"); if (!f) return -1;
    point(env.psys); if (f->kind != K_SOCK) { err(ENOTSOCK); return -1; } Sock& s = SO(f->sock); int r = 0;
    if (level == SOL_SOCKET && name == SO_DOMAIN) r = s.domain; else if (level == SOL_SOCKET && name == SO_ERROR) { pendingDone(s); r = s.st == ST_PENDING ? 0 : s.err; if (s.st != ST_PENDING) s.err = 0; } else if (level == SOL_SOCKET && name == SO_TYPE) r = SOCK_STREAM;
    if (*n >= 4) { memcpy(v, &r, 4); *n = 4; } return 0;
}
int __wrap_setsockopt(int fd, int level, int name, const void* v, socklen_t n) {
    File* f = use(fd, "setsockopt of a closed descriptor"); if (!f) return -1;
    point(env.psys); if (f->kind != K_SOCK) { err(ENOTSOCK); return -1; }
    if (level == SOL_SOCKET && name == SO_SNDTIMEO && n >= sizeof(timeval)) { timeval t; memcpy(&t, v, sizeof t); timespec z = {t.tv_sec, t.tv_usec * 1000}; SO(f->sock).sndtimeo = ticks(&z); }
    return 0;
}
int __wrap_fcntl(int fd, int cmd, long arg) {
    File* f = use(fd, "fcntl of a closed descriptor"); if (!f) return -1;
    point(env.psys); if (cmd == F_SETFL) { f->nonblock = !!((int)arg & O_NONBLOCK); return 0; } if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    return 0;
}
int __wrap_ioctl(int fd, unsigned long req, void* p) { File* f = use(fd, "ioctl of a closed descriptor"); if (!f) return -1; if (req == 0x5421) { int v; memcpy(&v, p, 4); f->nonblock = !!v; } else if (req == 0x541B) { int v = f->kind == K_SOCK ? SO(f->sock).len : 0; memcpy(p, &v, 4); } return 0; }
int __wrap_access(const char* p, int) { point(env.psys); if (exists(p)) return 0; err(ENOENT); return -1; }
int __wrap_stat(const char* p, struct stat* b) { if (!exists(p)) { err(ENOENT); return -1; } memset(b, 0, sizeof *b); b->st_mode = S_IFSOCK | 0777; return 0; }
int __wrap_lstat(const char* p, struct stat* b) { return __wrap_stat(p, b); }
int __wrap_unlink(const char* p) { point(env.psys); lastUnlink.count++; { int k = 0; while (k < 127 && p[k]) { lastUnlink.path[k] = p[k]; k++; } lastUnlink.path[k] = 0; } if (fails(OP_UNLINK)) return -1; int n = nodeOf(p, false); if (n < 0 || !nd[n].exists) { err(ENOENT); return -1; } nd[n].exists = 0; nd[n].sock = -1; return 0; }
int __wrap_remove(const char* p) { return __wrap_unlink(p); }
int __wrap_inet_aton(const char* s, in_addr* a) { uint32_t v; if (!parseIp(s, &v)) return 0; a->s_addr = __builtin_bswap32(v); return 1; }
in_addr_t __wrap_inet_addr(const char* s) { uint32_t v; return parseIp(s, &v) ? __builtin_bswap32(v) : (in_addr_t)-1; }
int __wrap_inet_pton(int af, const char* s, void* d) { uint32_t v; if (af != AF_INET || !parseIp(s, &v)) return 0; v = __builtin_bswap32(v); memcpy(d, &v, 4); return 1; }
char* __wrap_inet_ntoa(in_addr a) { static char b[20]; char* o = b; uint32_t v = __builtin_bswap32(a.s_addr); for (int i = 3; i >= 0; i--) { unsigned x = (v >> (8 * i)) & 255; if (x >= 100) *o++ = '0' + x / 100; if (x >= 10) *o++ = '0' + x / 10 % 10; *o++ = '0' + x % 10; if (i) *o++ = '.'; } *o = 0; return b; }
int __wrap_clock_gettime(clockid_t, timespec* t) { t->tv_sec = clk >> 3; t->tv_nsec = (clk & 7) * TICK; return 0; }
time_t __wrap_time(time_t* p) { time_t t = clk >> 3; if (p) *p = t; return t; }
int __wrap_nanosleep(const timespec* t, timespec* rem) { block(0, 0, deadline(t)); if (rem) rem->tv_sec = rem->tv_nsec = 0; return 0; }
int __wrap_clock_nanosleep(clockid_t, int fl, const timespec* t, timespec*) { block(0, 0, fl & 1 ? ticks(t) : deadline(t)); return 0; }
int __wrap_usleep(useconds_t u) { block(0, 0, clk + (int64_t)(u + 124999) / 125000); return 0; }
unsigned __wrap_sleep(unsigned s) { block(0, 0, clk + (int64_t)s * S); return 0; }
int __wrap_sched_yield() { point(1); return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); if (a) m->__data.__kind = *(const int*)a & 3; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { if (m->__data.__owner) dsym_fail("a locked mutex is destroyed"); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { point(env.plock); return lockM(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { point(env.plock); int w = me() + 1; if (m->__data.__owner == w && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { m->__data.__count++; return 0; } if (m->__data.__owner) return EBUSY; m->__data.__owner = w; m->__data.__count = 1; CS(me()).locks++; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { point(env.pun & 2); int r = unlockM(m); point(env.pun & 1); return r; }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { point(env.plock); if (m->__data.__owner != me() + 1 && !block(mFree, m, ticks(t))) return ETIMEDOUT; return lockM(m); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* t) { return __wrap_pthread_mutex_timedlock(m, t); }
static bool rwNoWriter(void* a) { return ((pthread_rwlock_t*)a)->__data.__cur_writer == 0; }
static bool rwFree(void* a) { auto r = (pthread_rwlock_t*)a; return r->__data.__cur_writer == 0 && r->__data.__readers == 0; }
int __wrap_pthread_rwlock_init(pthread_rwlock_t* r, const void*) { memset(r, 0, sizeof *r); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t* r) { if (!rwFree(r)) dsym_fail("a locked reader-writer lock is destroyed"); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* r) { point(env.plock); if (r->__data.__cur_writer == me() + 1) { dsym_fail("deadlock: a thread locks a reader-writer lock that it holds already"); } block(rwNoWriter, r, -1); r->__data.__readers++; CS(me()).locks++; return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* r) { point(env.plock); if (r->__data.__cur_writer == me() + 1) { dsym_fail("deadlock: a thread locks a reader-writer lock that it holds already"); } block(rwFree, r, -1); r->__data.__cur_writer = me() + 1; CS(me()).locks++; return 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* r) { point(env.plock); if (!rwNoWriter(r)) return EBUSY; r->__data.__readers++; CS(me()).locks++; return 0; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* r) { point(env.plock); if (!rwFree(r)) return EBUSY; r->__data.__cur_writer = me() + 1; CS(me()).locks++; return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* r) { point(env.pun & 2); if (r->__data.__cur_writer == me() + 1) r->__data.__cur_writer = 0; else if (r->__data.__readers) r->__data.__readers--; else dsym_fail("a reader-writer lock is unlocked that is not held"); CS(me()).locks--; point(env.pun & 1); return 0; }
int __wrap_gettimeofday(timeval* t, void*) { t->tv_sec = clk >> 3; t->tv_usec = (clk & 7) * (TICK / 1000); return 0; }
ssize_t __wrap_sendmsg(int fd, const msghdr* m, int fl) { size_t n = 0; for (size_t i = 0; i < m->msg_iovlen; i++) n += m->msg_iov[i].iov_len; char* b = new char[n + 1]; size_t k = 0; for (size_t i = 0; i < m->msg_iovlen; i++) { memcpy(b + k, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); k += m->msg_iov[i].iov_len; } ssize_t r = doSend(fd, b, n, fl); delete[] b; return r; }
ssize_t __wrap_writev(int fd, const iovec* v, int c) { msghdr m; memset(&m, 0, sizeof m); m.msg_iov = (iovec*)v; m.msg_iovlen = c; return __wrap_sendmsg(fd, &m, 0); }
ssize_t __wrap_recvmsg(int fd, msghdr* m, int fl) { size_t n = 0; for (size_t i = 0; i < m->msg_iovlen; i++) n += m->msg_iov[i].iov_len; char* b = new char[n + 1]; ssize_t r = doRecv(fd, b, n, fl); size_t k = 0; for (size_t i = 0; r > 0 && i < m->msg_iovlen && k < (size_t)r; i++) { size_t z = m->msg_iov[i].iov_len; if (z > r - k) z = r - k; memcpy(m->msg_iov[i].iov_base, b + k, z); k += z; } delete[] b; m->msg_controllen = 0; m->msg_flags = 0; return r; }
ssize_t __wrap_readv(int fd, const iovec* v, int c) { msghdr m; memset(&m, 0, sizeof m); m.msg_iov = (iovec*)v; m.msg_iovlen = c; return __wrap_recvmsg(fd, &m, 0); }
int __wrap_pthread_cond_init(pthread_cond_t*, const void*) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t*) { return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cvWait(c, m, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return cvWait(c, m, ticks(t)); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return cvWait(c, m, ticks(t)); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { cvWake(c, false); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { cvWake(c, true); return 0; }
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, std::unique_lock<std::mutex>* l) { cvWait(c, l->mutex()->native_handle(), -1); }
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) { cvWake(c, false); }
void __wrap__ZNSt18condition_variable10notify_allEv(void* c) { cvWake(c, true); }
void __wrap__ZNSt18condition_variableC1Ev(void* c) { memset(c, 0, sizeof(pthread_cond_t)); }
void __wrap__ZNSt18condition_variableD1Ev(void*) {}
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return clk * TICK; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return clk * TICK; }
pthread_t __wrap_pthread_self() { return 1000 + me(); }
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* t, void** st, void (*)()) {
    void* s = *st; *st = 0; int id = addCtx(runThread, s); *(unsigned long*)t = 1000 + id; point(env.psys);
}
void __wrap__ZNSt6thread4joinEv(std::thread* t) { unsigned long v = *(unsigned long*)t; if (!v) { dsym_fail("join of a thread that is not joinable"); return; } if ((int)v - 1000 == me()) dsym_fail("a thread joins itself"); point(env.psys); block(ctxDone, &CS(v - 1000), -1); *(unsigned long*)t = 0; }
void __wrap__ZNSt6thread6detachEv(std::thread* t) { if (!*(unsigned long*)t) dsym_fail("detach of a thread that is not joinable"); *(unsigned long*)t = 0; }
}
