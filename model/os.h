// Model of the kernel and the thread scheduler, shared by the engine and the native replays.
// Descriptors are never reused, time is virtual, threads are contexts that are switched at synchronisation points.
#pragma once
#include "dsym.h"
#include <stdint.h>
#include <stddef.h>
namespace os {
enum Op { OP_NONE, OP_SOCKET, OP_BIND, OP_LISTEN, OP_ACCEPT, OP_UNLINK, OP_CONNECT, OP_RECV, OP_SEND };
struct Env {
    int rsplit, wsplit;      // how many recv()/send() calls may transfer less than possible
    int eagain;              // how many non-blocking send() calls may report EAGAIN although the socket was writable
    int delays;              // how many times the scheduler may deviate from its default order
    int pmem;                // switch threads at accesses of watched memory: 1 while no mutex is held, 2 always, 3 also of heap objects it points to
    int plock, psys, pun;    // switch threads at mutex_lock / system calls / mutex_unlock (pun: 1 after, 2 before it)
    int eintr; int64_t eintrAfter; // how many waits may be interrupted by a signal, and after which time
    int failOp, failErrno;   // the next such operation fails
    int connect; int64_t connectDelay; // 0 immediately, 1 refused, 2 success after the delay, 3 refused after the delay, 4 never answered
    int sndbuf;              // capacity of a socket buffer
    int64_t horizon;         // virtual time nobody may still wait at
    int backlog;
};
extern Env env;
const int64_t S = 8;                 // virtual time is counted in eighths of a second, so that symbolic times stay easy for the solver
int64_t now();
// sockets of the harness
void pair(int domain, int* lib, int* mine);      // connected; the first end is for the library
void fdBase(int n); void fdZero(int i);          // the first descriptor number; the descriptor that has number 0 instead
void pairLib(int domain, int* a, int* b);         // both ends are for the library
void deliver(int mine, const void* p, size_t n); // bytes for the other end, available at once
void deliverZeros(int mine, long n);
int avail(int mine); long total(int mine);       // bytes that arrived here (unread / ever)
const unsigned char* data(int mine); void consume(int mine, int n);
int maxWrite(int mine); int resetMaxWrite(int mine); // largest single write of the other end (so far / since then)
void closeMine(int mine); void resetMine(int mine); void shutMine(int mine);
bool gone(int mine);                             // the other end was closed
int listenTcp(uint32_t ip, uint16_t port); int listenUnix(const char* path); int acceptMine(int l);
int dialTcp(uint32_t ip, uint16_t port); int dialUnix(const char* path); // pending until accepted; -1 refused
bool listening(int domain, uint32_t ip, uint16_t port, const char* path);
int backlogOf(int mine);                         // is this connection still waiting to be accepted?
int addFile(const char* path); bool exists(const char* path);
// scheduling
int spawn(void (*fn)(void*), void* arg); bool done(int t);
void settle();                                   // until everybody else is blocked, without passing of time
void nap(int64_t ticks);
bool waitFor(bool (*cond)(void*), void* arg, int64_t ticks); // ns < 0: for ever
void yieldPoint();
void watch(const void* p, size_t n);              // memory shared by threads
bool readable(int fd);                           // any open descriptor
int openFds();                                   // open descriptors of the library
int threads();                                   // unfinished threads (without main)
struct Addr { int domain, count; uint32_t ip; uint16_t port; char path[128]; };
extern Addr lastConnect, lastBind, lastUnlink;   // arguments of the latest such call and number of calls
int made();                                      // descriptors the library got so far
}
