// Helpers of the harnesses that exercise connections, clients and servers (public API only).
#pragma once
#include "os.h"
#include "ref.h"
#include "Connection.hpp"
#include "SafeConnection.hpp"
#include "Client.hpp"
#include "Server.hpp"
#include <sys/socket.h>
#include <errno.h>
#include <unistd.h>
using namespace os;
// one request with arbitrary content: an independent description and its reference encoding
struct Msg { uint32_t id; unsigned char name[12]; int nlen; int arg; uint64_t num; unsigned char str[4]; unsigned char f[64]; int n; };
static void encode(Msg& m) {
    unsigned char* p = m.f + 10; for (int i = 0; i < m.nlen; i++) *p++ = m.name[i];
    if (m.arg) { unsigned char* d = p; p += 6; *p++ = 'v'; Ref r; r.type = m.arg; r.num = m.num; r.len = m.arg == T_STR ? 2 : 0; r.bytes[0] = m.str[0]; r.bytes[1] = m.str[1]; p = enc(r, p); put(d, p - d, 4); put(d + 4, 1, 2); }
    m.n = p - m.f; put(m.f, m.n, 4); put(m.f + 4, m.id, 4); put(m.f + 8, m.nlen, 2);
}
// arg: 0 none, an integer type code or T_STR
static void symMsg(Msg& m, int nlen, int arg) {
    m.id = sym<uint32_t>("id"); m.nlen = nlen; dsym_make_symbolic(m.name, nlen, "name"); if (nlen == 1) dsym_assume(m.name[0] != '_');
    m.arg = arg; m.num = 0;
    if (arg == T_STR) dsym_make_symbolic(m.str, 2, "content"); else if (arg) { unsigned char b[8]; dsym_make_symbolic(b, intWidth(arg), "num"); m.num = get(b, intWidth(arg)); }
    encode(m);
}
static void fixMsg(Msg& m, uint32_t id, const char* name, int arg = 0, uint64_t num = 0) { m.id = id; m.nlen = strlen(name); memcpy(m.name, name, m.nlen); m.arg = arg; m.num = num; m.str[0] = 'x'; m.str[1] = 'y'; encode(m); }
static Request* req(const Msg& m) {
    Request* q = new Request(std::string((const char*)m.name, m.nlen)); q->SetId(m.id);
    if (m.arg) { Ref r; r.type = m.arg; r.num = m.num; r.len = m.arg == T_STR ? 2 : 0; r.bytes[0] = m.str[0]; r.bytes[1] = m.str[1]; q->Set("v", build(r), false); }
    return q;
}
// content of q is m
static int isMsg(Request* q, const Msg& m, bool checkId = true) {
    if (!q) return 0;
    std::string nm = q->GetName(); if ((int)nm.size() != m.nlen) return 0; int ok = eqbytes(nm.data(), m.name, m.nlen);
    if (checkId) ok &= q->GetId() == m.id;
    if ((int)q->GetArguments().size() != (m.arg ? 1 : 0)) return 0;
    if (m.arg) { Ref r; r.type = m.arg; r.num = m.num; r.len = m.arg == T_STR ? 2 : 0; r.bytes[0] = m.str[0]; r.bytes[1] = m.str[1]; Datum* d = *q->GetArguments().begin(); std::string dn = d->GetName(); ok &= dn.size() == 1 && dn[0] == 'v'; ok &= same(d->GetValue(), r); }
    return ok;
}
static void expectPull(Connection* c, const Msg& m, const char* msg, bool checkId = true) { Request* q = c->Pull(0); dsym_assert(q != 0, msg); dsym_assert(isMsg(q, m, checkId), msg); dsym_observe(q->GetSize()); delete q; }
static void expectNone(Connection* c, const char* msg) { Request* q = c->Pull(0); dsym_assert(q == 0, msg); delete q; }
// everything that arrived at the harness' end, read so far
struct Wire { int fd; unsigned char b[512]; int n; };
static void drain(Wire& w) { for (;;) { settle(); int k = avail(w.fd); if (!k) return; if (w.n + k > (int)sizeof w.b) dsym_fail("harness: wire buffer too small"); memcpy(w.b + w.n, data(w.fd), k); w.n += k; consume(w.fd, k); } }
// next frame on the wire: returns its length, 0 if there is none or it is incomplete
static int nextFrame(Wire& w, int& pos) { if (w.n - pos < 10) return 0; int l = (int)dsym_concretize(get(w.b + pos, 4)); if (l < 10 || pos + l > w.n) return 0; return l; }
static int isKeepAlive(const unsigned char* f, int l) { static const unsigned char k[11] = {11, 0, 0, 0, 0, 0, 0, 0, 1, 0, '_'}; return l == 11 && eqbytes(f, k, 11); }
static const unsigned char keepAlive[11] = {11, 0, 0, 0, 0, 0, 0, 0, 1, 0, '_'};
struct World { uint64_t mark; int64_t t0; };
static World begin(int64_t horizon = 55) { static bool first = true; long b = dsym_param("fdbase", -1); if (b >= 0 && first) fdBase(b); b = dsym_param("fdzero", 0); if (b && first) fdZero(dsym_range("fdzero", 0, b - 1)); first = false; World w; w.mark = dsym_live_bytes(); w.t0 = now(); env.horizon = now() + horizon * S; return w; }
static void end(const World& w) {
    settle();
    dsym_assert(threads() == 0, "every thread has ended");
    dsym_assert(openFds() == 0, "every descriptor is closed");
    dsym_observe(made());
    dsym_assert(dsym_live_bytes() == w.mark, "nothing leaked");
}
static void schedule() { env.delays = dsym_param("delays", 0); env.plock = dsym_param("plock", 1); env.psys = dsym_param("psys", 1); env.pun = dsym_param("pun", 0); env.pmem = dsym_param("pmem", 0); }
static void noSchedule() { env.delays = 0; }
static void segment() { env.rsplit = dsym_param("rsplit", 0); env.wsplit = dsym_param("wsplit", 0); env.eagain = dsym_param("eagain", 0); }
static int pick(const char* nm, const int* v, int n) { return v[dsym_range(nm, 0, n - 1)]; }
// is the connection closed in an orderly way?
static void expectClosed(Connection* c, int mine, const char* msg) { dsym_assert(!c->IsConnected(), msg); dsym_assert(c->WaitForStop(0), "the stopped event is readable"); dsym_assert(c->WaitForStop(0) && readable(c->GetStoppedEvent()), "the stopped event stays readable"); if (mine >= 0) dsym_assert(gone(mine), "the socket is closed"); }
static bool isDone(void* p) { return done(*(int*)p); }
static void joinThread(int t) { waitFor(isDone, &t, -1); }
