// P26-P33, P42: life cycle of one connection, waiting functions, timers, references.
#include "net.h"
struct Th { Connection* c; int kind, arg; Request* q; bool r, after; int64_t at; };
// what other threads may do meanwhile
enum { PULL, WAITSTOP, DISCONNECT, PUSH, SLEEP_DELIVER, SLEEP_DISC };
static void actor(void* p) {
    Th* t = (Th*)p;
    switch (t->kind) {
    case PULL: t->q = t->c->Pull(t->arg); break;
    case WAITSTOP: t->r = t->c->WaitForStop(t->arg); if (t->r && t->after) dsym_assert(!t->c->IsConnected() && t->c->GetType() == SocketTypeUndefined, "disconnected when WaitForStop() returns"); break;
    case DISCONNECT: t->c->Disconnect(t->arg & 1, t->arg & 2); if ((t->arg & 2) && t->after) dsym_assert(!t->c->IsConnected() && t->c->GetType() == SocketTypeUndefined, "disconnected when Disconnect() returns"); break;
    }
    t->at = now();
}
static Th ths[4]; static bool after; // the connection is not used again after its end: a waiter may look at it
static int go(int i, Connection* c, int kind, int arg) { ths[i].c = c; ths[i].after = after; ths[i].kind = kind; ths[i].arg = arg; ths[i].q = 0; ths[i].r = false; ths[i].at = -1; return spawn(actor, &ths[i]); }
static Wire wi;
// the wire holds exactly the requests m[0..n) and optionally keep-alives afterwards
static void expectWire(Msg* m, int n) { int pos = 0, k = 0; while (int l = nextFrame(wi, pos)) { if (k < n) { dsym_assert(l == m[k].n && eqbytes(wi.b + pos, m[k].f, l), "everything pushed before is written, in order, unchanged"); k++; } else dsym_assert(isKeepAlive(wi.b + pos, l), "nothing pushed afterwards is written"); pos += l; } dsym_assert(k == n, "everything pushed before is written"); dsym_assert(pos == wi.n, "only complete requests are written"); }

// --- P26
extern "C" void p26_flush() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); env.sndbuf = dsym_param("sndbuf", 1024); Connection* c = new Connection(a); watch(c, sizeof *c); c->SetSendBlockSize(dsym_param("block", 1024)); wi.fd = b; wi.n = 0; static Msg m[3]; int n = dsym_range("pushed", 0, dsym_param("max", 2)), th = dsym_param("threads", 0), early = dsym_range("early", 0, 1);
    segment(); schedule(); 
    for (int i = 0; i < n; i++) { symMsg(m[i], 2 + i, i ? 0 : T_8U); Request* q = req(m[i]); c->Push(q, false, 0, false); if (early) settle(); }
    int incoming = dsym_range("incoming", 0, 5); static Msg x; fixMsg(x, 1, "in"); if (incoming == 1 || incoming == 2) deliver(b, x.f, incoming == 1 ? x.n : 5); // the peer keeps talking
    int t = -1; if (th) t = go(0, c, DISCONNECT, 2); else c->Disconnect(false, false);
    if (!th) { Request* q = req(m[0]); c->Push(q, false, 0, true); if (dsym_range("again", 0, 1)) c->Disconnect(false, false); }
    if (incoming >= 3) { settle(); if (!gone(b)) { if (incoming == 5) shutMine(b); else deliver(b, x.f, incoming == 3 ? x.n : 5); dsym_reach("talks while flushing"); } } // ... or says something, or nothing more, meanwhile
    drain(wi); noSchedule(); dsym_assert(now() == w.t0, "the connection closes without waiting for a timer"); expectClosed(c, b, "the connection closes by itself"); if (t >= 0) dsym_assert(done(t), "Disconnect() returns");
    expectWire(m, n); dsym_reach("closed"); if (incoming == 1 && early) { Request* q = c->Pull(0); delete q; } delete c; end(w);
}
static Msg hm; static int hforced; static void answerAndLeave(Connection* c, Request* r) { r->SetName("bye"); r->SetId(hm.id); c->Push(r, false, 0, false); c->Disconnect(hforced, false); }
extern "C" void p26_handler() { // the handler disconnects
    World w = begin(); int a, b; pair(AF_INET, &a, &b); env.sndbuf = dsym_param("sndbuf", 1024); Connection* c = new Connection(a); watch(c, sizeof *c); c->SetHandlerDefault(answerAndLeave); hforced = 0; fixMsg(hm, 6, "bye"); wi.fd = b; wi.n = 0; static Msg m; fixMsg(m, 6, "zz"); segment(); schedule();
    deliver(b, m.f, m.n); if (dsym_range("second", 0, 1)) deliver(b, m.f, m.n); drain(wi); noSchedule(); expectClosed(c, b, "closed"); expectWire(&hm, 1); dsym_assert(now() == w.t0, "at once"); dsym_reach("closed"); delete c; end(w);
}
// Push and Disconnect from different threads: what Push accepted is flushed
static Msg pm; static void push1(void* p) { Request* q = req(pm); ((Connection*)p)->Push(q, false, 0, false); }
extern "C" void p26_race() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); env.sndbuf = dsym_param("sndbuf", 1024); Connection* c = new Connection(a); watch(c, sizeof *c); wi.fd = b; wi.n = 0; static Msg m; symMsg(m, 2, T_8U); fixMsg(pm, 3, "par"); segment(); schedule();
    Request* q = req(m); c->Push(q, false, 0, false); spawn(push1, c); int t = go(0, c, DISCONNECT, dsym_range("wait", 0, 1) * 2); if (dsym_range("twice", 0, 1)) c->Disconnect(false, false); drain(wi); noSchedule(); dsym_assert(done(t), "Disconnect() returns");
    dsym_assert(now() == w.t0, "at once"); expectClosed(c, b, "closed"); static Msg e[2]; e[0] = m; e[1] = pm; bool both = wi.n >= m.n + pm.n && eqbytes(wi.b + m.n, pm.f, pm.n); expectWire(e, both ? 2 : 1); dsym_reach("closed"); delete c; end(w);
}
// --- P27
static void forceFromHandler(Connection* c, Request* r) { delete r; c->Disconnect(true, false); }
extern "C" void p27_stop() {
    World w = begin(200); int a, b; pair(dsym_param("unix", 0) ? AF_UNIX : AF_INET, &a, &b); env.sndbuf = 8; Connection* c = new Connection(a); watch(c, sizeof *c); int cause = dsym_range("cause", 0, 8), st = dsym_range("state", 0, 3), act = dsym_range("waiters", 0, 2); static Msg m; fixMsg(m, 1, "abc", T_8U, 3);
    if (cause == 8) c->SetHandlerDefault(forceFromHandler);
    if (st == 1) { deliver(b, m.f, dsym_range("part", 1, m.n - 1)); settle(); } else if (st == 2) { for (int i = 0; i < 2; i++) { Request* q = req(m); c->Push(q, false, 0, false); } settle(); } else if (st == 3) { if (cause == 8) { dsym_end_path(); } deliver(b, m.f, m.n); }
    after = true; schedule(); int t0 = -1, t1 = -1, t2 = -1; if (act >= 1) { t0 = go(0, c, PULL, -1); t1 = go(1, c, WAITSTOP, -1); } if (act == 2) { settle(); t2 = cause == 5 ? -1 : go(2, c, DISCONNECT, 3); }
    bool timed = false;
    switch (cause) {
    case 0: c->Disconnect(true, false); break; case 1: closeMine(b); break; case 2: resetMine(b); break; case 6: shutMine(b); break;
    case 3: env.failOp = OP_RECV; env.failErrno = dsym_range("err", 0, 1) ? ECONNRESET : ETIMEDOUT; deliver(b, m.f, 1); break;
    case 4: { env.failOp = OP_SEND; env.failErrno = dsym_range("err", 0, 1) ? EPIPE : ECONNRESET; Request* q = req(m); c->Push(q, false, 0, true); consume(b, avail(b)); break; }
    case 5: timed = true; waitFor([](void* p) { return !((Connection*)p)->IsConnected(); }, c, 100 * S); break;
    case 7: c->Disconnect(false, false); c->Disconnect(true, false); break;
    case 8: if (st == 1) { closeMine(b); } else deliver(b, m.f, m.n); break;
    }
    settle(); noSchedule(); env.failOp = 0;
    if (timed) { dsym_assert(now() == w.t0 + 60 * S, "time-out of a silent peer"); settle(); } else dsym_assert(now() == w.t0, "at once");
    expectClosed(c, b, "the connection is disconnected"); dsym_assert(c->GetType() == SocketTypeUndefined && !c->IsDisconnecting(), "state after the disconnection");
    if (t0 >= 0) { dsym_assert(done(t0), "Pull() is released"); dsym_assert(done(t1) && ths[1].r, "WaitForStop() is released"); delete ths[0].q; } if (t2 >= 0) dsym_assert(done(t2), "Disconnect() is released");
    c->Disconnect(false, true); c->Disconnect(true, true); dsym_assert(c->WaitForStop(-1) && c->WaitForStop(5) && now() == (timed ? w.t0 + 60 * S : w.t0), "Disconnect() again is harmless"); Request* q = c->Pull(-1); delete q; dsym_reach("stopped"); delete c; end(w);
}
extern "C" void p27_never() { World w = begin(); Client* c = new Client(); watch(c, sizeof *c); int f = dsym_range("how", 0, 3); c->Disconnect(f & 1, f & 2); c->Disconnect(f & 1, f & 2); dsym_assert(!c->IsConnected() && !c->IsDisconnecting() && now() == w.t0, "harmless"); int l = listenTcp(0x7f000001, 9); dsym_assert(c->ConnectTcp("127.0.0.1", 9, 1), "can connect afterwards"); settle(); dsym_assert(c->IsConnected() && !c->WaitForStop(0) && !readable(c->GetStoppedEvent()), "connected"); delete c; dsym_reach("done"); end(w); }
// a race between several causes
extern "C" void p27_race() {
    World w = begin(200); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); static Msg m; fixMsg(m, 1, "abc"); after = true; schedule(); int t0 = go(0, c, DISCONNECT, dsym_range("x", 0, 3)), t1 = -1, t2; int y = dsym_range("y", 0, 3); 
    if (y == 0) closeMine(b); else if (y == 1) t1 = go(1, c, DISCONNECT, 3); else if (y == 2) t1 = go(1, c, PULL, -1); else { t1 = go(1, c, WAITSTOP, -1); deliver(b, m.f, m.n); } Request* q = req(m); c->Push(q, false); t2 = go(2, c, PULL, dsym_param("pull", 0)); settle(); noSchedule(); dsym_assert(done(t0) && done(t1 < 0 ? t0 : t1) && done(t2) && now() == w.t0, "everybody is released"); delete ths[1].q; delete ths[2].q; expectClosed(c, b, "disconnected"); dsym_reach("stopped"); delete c; end(w);
}
// --- P28: timers with arbitrary intervals and traffic
static int countKeepAlives(int b) { int n = avail(b), k = 0; dsym_assert(n % 11 == 0, "only keep-alive requests are sent"); for (int i = 0; i + 11 <= n; i += 11) { dsym_assert(isKeepAlive(data(b) + i, 11), "keep-alive request: \"_\", ID 0, no arguments"); k++; } consume(b, n); return k; }
extern "C" void p28_still_alive() {
    const bool far = dsym_param("wide", 0) == 2; World w = begin(far ? 20000000000ll : 4000000); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); c->SetTheirNaIntervalLimit(far ? 9000000000ll : 3000000); int64_t sa = 10, due; settle(); due = now() + sa * S; static Msg m; fixMsg(m, 5, "abc");
    int wide = dsym_param("wide", 0);
    for (int i = 0; i < dsym_param("steps", 3); i++) {
        int act = i == 0 && dsym_param("first", -1) >= 0 ? dsym_param("first", 0) : i == 1 && dsym_param("second", -1) >= 0 ? dsym_param("second", 0) : dsym_range("act", 0, 3);
        if (act == 1) { Request* q = req(m); c->Push(q, false, 0, false); settle(); dsym_assert(avail(b) == m.n && eqbytes(data(b), m.f, m.n), "sent"); consume(b, m.n); due = now() + sa * S; }
        else if (act == 2) { int64_t v = sym<int64_t>("interval"); dsym_assume(v >= -3); dsym_assume(v <= (far ? 4400000000ll : wide ? 300000 : 20)); c->SetOurSaInterval(v); sa = v < 1 ? 1 : v; due = now() + sa * S; settle(); }
        else if (act == 3) { static Msg x; fixMsg(x, 1, "_"); deliver(b, x.f, x.n); settle(); dsym_assert(!c->Pull(0), "keep-alives are not delivered"); } // receiving does not restart this timer
        int64_t d = sym<int64_t>("silence"); dsym_assume(d >= 0); dsym_assume(d <= 2 * sa * S + S / 2); nap(d); settle();
        int k = countKeepAlives(b), e = 0; while (due <= now()) { e++; due += sa * S; }
        dsym_assert(k == e, "exactly one keep-alive per idle interval"); if (e) dsym_reach("keep-alive"); else dsym_reach("active");
    }
    dsym_assert(c->IsConnected(), "still connected"); delete c; end(w);
}
extern "C" void p28_slow() { // a peer that reads slowly: partly written requests count as traffic
    const bool far = dsym_param("wide", 0) == 2; World w = begin(far ? 20000000000ll : 4000000); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); c->SetTheirNaIntervalLimit(far ? 9000000000ll : 3000000); int64_t sa = dsym_param("sa", 10), due; c->SetOurSaInterval(sa); env.sndbuf = dsym_param("sndbuf", 5); static Msg m; fixMsg(m, 5, "abcdef"); static Wire o; o.fd = b; o.n = 0; auto take = [&](int n) { if (n > avail(b)) n = avail(b); memcpy(o.b + o.n, data(b), n); o.n += n; consume(b, n); settle(); };
    Request* q = req(m); c->Push(q, false, 0, false); settle(); due = now() + sa * S; int sent = avail(b), idle = 0, steps = dsym_param("steps", 2);
    for (int i = 0; i < steps; i++) { int64_t d = sym<int64_t>("silence"); dsym_assume(d >= 0); dsym_assume(d <= sa * S + S); nap(d); settle(); while (due <= now()) { idle++; due += sa * S; } int k = dsym_range("read", 1, env.sndbuf); int before = o.n + avail(b); take(k); if (o.n + avail(b) > before) { due = now() + sa * S; dsym_reach("progress"); } }
    (void)sent; for (int i = 0; i < 40 && avail(b); i++) take(64); dsym_assert(o.n == m.n + 11 * idle && eqbytes(o.b, m.f, m.n), "exactly one keep-alive per idle interval"); for (int i = 0; i < idle; i++) dsym_assert(isKeepAlive(o.b + m.n + 11 * i, 11), "keep-alive request"); if (idle) dsym_reach("keep-alive"); else dsym_reach("active"); dsym_assert(c->IsConnected(), "still connected"); delete c; end(w);
}
extern "C" void p28_not_alive() {
    const bool far = dsym_param("wide", 0) == 2; World w = begin(far ? 20000000000ll : 4000000); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); c->SetOurSaInterval(far ? 9000000000ll : 3000000); int64_t na = 60, due; settle(); due = now() + na * S; static Msg m; fixMsg(m, 5, "abc"); static Msg ka; fixMsg(ka, 0, "_"); int wide = dsym_param("wide", 0), got = 0, off = dsym_param("head", 0); bool stuck = dsym_param("stuck", 0); if (stuck) env.sndbuf = 4; if (off) { deliver(b, m.f, off); settle(); }
    for (int i = 0; i < dsym_param("steps", 3); i++) {
        int act = i == 0 && dsym_param("first", -1) >= 0 ? dsym_param("first", 0) : i == 1 && dsym_param("second", -1) >= 0 ? dsym_param("second", 0) : dsym_range("act", 0, 4);
        if (act == 1) { deliver(b, m.f + off, m.n - off); off = 0; got++; settle(); due = now() + na * S; } else if (act == 2) { int64_t v = sym<int64_t>("interval"); dsym_assume(v >= -3); dsym_assume(v <= (far ? 4400000000ll : wide ? 300000 : 100)); c->SetTheirNaIntervalLimit(v); na = v < 1 ? 1 : v; due = now() + na * S; settle(); }
        else if (act == 3) { Request* q = req(m); c->Push(q, false); settle(); if (!stuck) consume(b, avail(b)); } // sending (even to a peer that does not read) does not restart this timer
        else if (act == 4) { if (off < m.n - 1) { int k = dsym_param("piece", 1); if (off + k > m.n - 1) k = m.n - 1 - off; deliver(b, m.f + off, k); off += k; settle(); due = now() + na * S; } } // part of a request
        int64_t d = sym<int64_t>("silence"); dsym_assume(d >= 0); dsym_assume(d <= na * S + S); int64_t t = now(); nap(d); settle();
        if (due <= now()) { dsym_assert(c->WaitForStop(0) && !c->IsConnected(), "a silent peer is disconnected"); dsym_assert(gone(b), "socket closed"); dsym_reach("timed out"); break; }
        dsym_assert(c->IsConnected() && !gone(b), "an active connection is not closed"); dsym_reach("alive"); (void)t;
    }
    delete c; end(w);
}
extern "C" void p28_when() { // exact moment of the time-out and of the keep-alives before it
    const bool far = dsym_param("wide", 0) == 2; World w = begin(far ? 20000000000ll : 4000000); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); int64_t sa = sym<int64_t>("sa"), na = sym<int64_t>("na"); dsym_assume(sa >= 1); dsym_assume(na >= 1); dsym_assume(na <= 3 * sa); dsym_assume(sa < (far ? 2900000000ll : 1000000)); c->SetOurSaInterval(sa); c->SetTheirNaIntervalLimit(na);
    dsym_assert(c->WaitForStop(-1), "a silent peer is disconnected"); dsym_assert(now() == w.t0 + na * S, "after exactly the configured time"); settle(); int k = countKeepAlives(b); dsym_assert((int64_t)k * sa <= na && (int64_t)(k + 1) * sa >= na, "keep-alives were sent meanwhile"); dsym_reach("timed out"); delete c; end(w);
}
// both ends are this library, default intervals: an idle connection stays up
extern "C" void p28_idle() { World w = begin(100000); int a, b; pairLib(AF_INET, &a, &b); Connection *x = new Connection(a), *y = new Connection(b); schedule(); nap(dsym_param("seconds", 200) * S); settle(); noSchedule(); dsym_assert(x->IsConnected() && y->IsConnected(), "an idle connection between two live ends stays up"); expectNone(x, "keep-alives are not delivered"); expectNone(y, "keep-alives are not delivered"); delete x; settle(); dsym_assert(!y->IsConnected(), "closed"); delete y; dsym_reach("idle"); end(w); }
// --- P29
static int far_; static Msg late; static int64_t lateAt; static void lateDeliver(void*) { nap(lateAt); deliver(far_, late.f, late.n); } static Connection* lc; static int lateHow; static void lateDisc(void*) { nap(lateAt); if (lateHow == 0) closeMine(far_); else lc->Disconnect(lateHow == 1, false); }
static void quiet(Connection* c) { c->SetOurSaInterval(3999999999ll); c->SetTheirNaIntervalLimit(3999999999ll); }
extern "C" void p29_timeout() { // any time-out, nothing arrives
    World w = begin(3000000000ll); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); quiet(c); int t = sym<int>("timeout"); dsym_assume(t >= 0);
    Request* q = c->Pull(t); dsym_assert(q == 0, "nothing arrived"); dsym_assert(now() == w.t0 + (int64_t)t * S, "Pull(t) waits t seconds"); dsym_reach("waited"); delete c; end(w);
}
extern "C" void p29_arrival() { // any time-out, a request or the end arrives at any time
    World w = begin(3000000000ll); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); quiet(c); int t = sym<int>("timeout"); dsym_assume(t != 0); lateAt = sym<int64_t>("delay"); dsym_assume(lateAt >= 0); dsym_assume(lateAt <= 2200000000ll * S); far_ = b; lc = c; int ends = dsym_range("what", 0, 3); bool forever = t < 0; schedule();
    symMsg(late, 2, T_8U); int th; if (ends == 0) th = spawn(lateDeliver, 0); else { lateHow = ends - 1; th = spawn(lateDisc, 0); }
    Request* q = c->Pull(t); int64_t at = now() - w.t0; noSchedule(); joinThread(th);
    if (ends == 0) { if (q) { dsym_assert(isMsg(q, late), "the request"); dsym_assert(at == lateAt, "as soon as it arrives"); dsym_assert(forever || lateAt <= (int64_t)t * S, "not after the time-out"); dsym_reach("arrived"); delete q; } else { dsym_assert(!forever && at == (int64_t)t * S && lateAt >= at, "null only after t seconds without a request"); dsym_reach("timed out"); } }
    else { dsym_assert(q == 0, "no request"); if (forever || lateAt < (int64_t)t * S) { dsym_assert(at == lateAt, "released when the connection ends"); dsym_reach("ended"); } else dsym_assert(at == (int64_t)t * S, "after t seconds"); }
    delete c; end(w);
}
extern "C" void p29_order() { // requests arrive while others are pulled, then the connection ends
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); static Msg m[3]; int n = dsym_param("reqs", 2), how = dsym_range("how", 0, 3); for (int i = 0; i < n; i++) symMsg(m[i], 2, i & 1 ? T_8U : 0);
    segment(); schedule(); for (int i = 0; i < n; i++) { deliver(b, m[i].f, m[i].n); } if (how == 1) closeMine(b); else if (how == 2) go(0, c, DISCONNECT, 1); else if (how == 3) go(0, c, DISCONNECT, 0);
    if (!dsym_param("timeout", -1)) settle();
    int i = 0; for (int k = 0; k < n + 2; k++) { Request* q = c->Pull(how == 0 && i == n ? 2 : dsym_param("timeout", -1)); if (q) { dsym_assert(i < n && isMsg(q, m[i]), "in arrival order"); i++; delete q; } else if (how == 0 && i < n) dsym_fail("Pull() gave up on a live connection"); else if (how == 0) break; }
    settle(); noSchedule(); if (how == 1) { for (; i < n; i++) expectPull(c, m[i], "received requests can be pulled after the disconnection"); dsym_reach("after end"); }
    if (how) { while (Request* q = c->Pull(-1)) { dsym_assert(i < n && isMsg(q, m[i]), "in arrival order"); i++; delete q; } dsym_assert(now() == w.t0, "never blocks on a disconnected connection"); }
    else dsym_assert(i == n && now() == w.t0 + 2 * S, "all arrive"); dsym_reach("pulled"); delete c; end(w);
}
// --- P30
extern "C" void p30_hold() {
    World w = begin(); int l = listenTcp(0x7f000001, 4000); (void)l; int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); int n = dsym_range("refs", 1, dsym_param("max", 2)), cause = dsym_range("cause", 0, 3), before = dsym_range("before", 0, 1); static Msg m; fixMsg(m, 1, "ab"); SafeConnection* s[3]; schedule();
    if (before) { for (int i = 0; i < n; i++) s[i] = new SafeConnection(c); } else { c->IncreaseRefs(); }
    if (dsym_range("unread", 0, 1)) deliver(b, m.f, m.n);
    int fds = openFds(); if (cause == 0) c->Disconnect(true, false); else if (cause == 1) c->Disconnect(false, false); else if (cause == 2) closeMine(b); else resetMine(b);
    settle(); if (!before) { for (int i = 0; i < n; i++) s[i] = new SafeConnection(c); c->DecreaseRefs(); settle(); }
    dsym_assert((int)c->GetRefs() == n, "number of references"); dsym_assert(!c->WaitForStop(0), "a referenced connection is not torn down"); dsym_assert(openFds() >= fds, "its descriptors stay open");
    Connection& r = (*s[0])(); Request* q = r.Pull(0); delete q; q = r.Pull(-1); delete q; r.Push(Request("x")); r.SetOurSaInterval(5); r.SetTheirNaIntervalLimit(500); r.SetHandlerDefault(0); r.SetHandlerNamed("x", 0); r.Disconnect(false, false); r.Disconnect(true, false); dsym_assert(!r.WaitForStop(1), "still referenced"); r.GetType(); r.IsConnected(); r.IsDisconnecting(); r.Push(Request("x")); dsym_assert(now() == w.t0 + S, "methods do not block"); r.IncreaseRefs(); r.DecreaseRefs();
    for (int i = 0; i < n; i++) { dsym_assert(!c->WaitForStop(0), "not torn down before the last release"); delete s[i]; settle(); } noSchedule();
    dsym_assert(now() == w.t0 + S, "promptly"); expectClosed(c, b, "torn down after the last release"); dsym_assert(c->GetRefs() == 0, "no references"); dsym_reach("released"); delete c; end(w);
}
static SafeConnection* held; static void releaser(void* p) { delete (SafeConnection*)p; } static void deleter(void* p) { delete (Connection*)p; }
static void user(void* p) { SafeConnection* s = (SafeConnection*)p; Connection& r = (*s)(); Request* q = r.Pull(0); delete q; r.Push(Request("x")); r.IsConnected(); { SafeConnection t(&r); r.Disconnect(true, false); } delete s; }
extern "C" void p30_race() { // references are released and the connection destroyed in parallel
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); SafeConnection *x = new SafeConnection(c), *y = new SafeConnection(c); schedule(); if (dsym_range("peer", 0, 1)) closeMine(b); int t0 = spawn(user, x), t2 = spawn(dsym_range("second", 0, 1) ? user : releaser, y); int mode = dsym_range("destroy", 0, 1), t1 = -1; if (mode) t1 = spawn(deleter, c); settle(); noSchedule(); dsym_assert(done(t0) && done(t2), "holders are not blocked"); if (mode) { dsym_assert(done(t1), "the destructor ends once nobody holds a reference"); } else { expectClosed(c, b, "torn down"); delete c; } dsym_assert(now() == w.t0, "promptly"); dsym_reach("released"); end(w);
}
extern "C" void p30_destroy() { // while referenced the object is not freed
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); SafeConnection* x = new SafeConnection(c); schedule(); int t = spawn(deleter, c); settle(); dsym_assert(!done(t), "not freed while referenced"); Connection& r = (*x)(); r.Push(Request("x")); Request* q = r.Pull(0); delete q; dsym_assert(r.GetRefs() == 1, "alive"); r.tag = "t"; nap(5 * S); settle(); dsym_assert(!done(t) && r.tag == "t", "not freed while referenced"); delete x; settle(); noSchedule(); dsym_assert(done(t) && now() == w.t0 + 5 * S, "freed afterwards"); dsym_reach("freed"); end(w);
}
// --- P31
static int hcalls; static void count(Connection*, Request* r) { hcalls++; delete r; }
extern "C" void p31_reconnect() {
    World w = begin(500); int un = dsym_param("unix", 0); int l = un ? listenUnix("/s") : listenTcp(0x7f000001, 4000); Client* c = new Client(); watch(c, sizeof *c); hcalls = 0; wi.n = 0; static Msg m, x, y; symMsg(m, 2, T_8U); fixMsg(x, 7, "new", T_STR); fixMsg(y, 8, "ans"); c->SetHandlerNamed("h", count); c->SetRecvBlockSize(100); c->SetMaxRequestSize(1000); c->SetOurSaInterval(7); c->SetTheirNaIntervalLimit(70); c->tag = "tag"; env.sndbuf = dsym_param("sndbuf", 5);
    for (int s = 0; s < dsym_param("sessions", 1); s++) {
        dsym_assert(un ? c->ConnectUnix("/s", 5) : c->ConnectTcp("127.0.0.1", 4000, 5), "connected"); int b = acceptMine(l); int st = dsym_param("state", -1) >= 0 ? dsym_param("state", 0) : dsym_range("state", 0, 5), why = dsym_range("why", 0, 4); schedule();
        if (st == 1) { deliver(b, m.f, dsym_range("part", 1, m.n)); settle(); } else if (st == 2) { Request* q = req(m); c->Push(q, false); q = req(m); c->Push(q, false); if (dsym_range("started", 0, 1)) settle(); } else if (st == 3) { deliver(b, m.f, m.n); deliver(b, m.f, 3); } else if (st == 4) { Request* q = req(m); c->Push(q, false); c->Disconnect(false, false); if (dsym_range("started", 0, 1)) settle(); } else if (st == 5) { deliver(b, m.f, m.n); settle(); deliver(b, m.f, m.n); Request* q = req(m); c->Push(q, false); consume(b, avail(b)); }
        bool drainIt = false; int kt = -1; if (why == 0) c->Disconnect(true, false); else if (why == 1) { c->Disconnect(false, false); drainIt = true; } else if (why == 2) closeMine(b); else if (why == 3) resetMine(b); else kt = spawn([](void* p) { ((Connection*)p)->Disconnect(true, true); }, c);
        if (drainIt) for (int i = 0; i < 20; i++) { settle(); consume(b, avail(b)); }
        if (kt >= 0) joinThread(kt); dsym_assert(c->WaitForStop(-1), "stopped"); if (dsym_param("settle", 0)) settle(); noSchedule();
    }
    env.sndbuf = 1024; schedule(); dsym_assert(un ? c->ConnectUnix("/s", 5) : c->ConnectTcp("127.0.0.1", 4000, 5), "can connect again"); int b = acceptMine(l); dsym_assert(c->IsConnected() && !c->IsDisconnecting() && !c->WaitForStop(0) && !readable(c->GetStoppedEvent()), "state of a new connection"); expectNone(c, "no request of the former session"); wi.fd = b; wi.n = 0; drain(wi); dsym_assert(wi.n == 0, "no bytes of the former session"); int64_t t0 = now();
    deliver(b, x.f, x.n); Request* q = req(y); c->Push(q, false, 0, false); drain(wi); dsym_assert(wi.n == y.n && eqbytes(wi.b, y.f, y.n), "the new session sends exactly its requests"); expectPull(c, x, "the new session delivers exactly its requests"); expectNone(c, "nothing else"); fixMsg(m, 3, "h"); deliver(b, m.f, m.n); settle(); dsym_assert(hcalls == 1, "handlers are kept"); dsym_assert(c->GetRecvBlockSize() == 100 && c->GetMaxRequestSize() == 1000 && c->GetOurSaInterval() == 7 && c->GetTheirNaIntervalLimit() == 70 && c->tag == "tag", "settings are kept"); noSchedule();
    if (dsym_param("timers", 1)) { nap(7 * S - 1); settle(); dsym_assert(avail(b) == 0, "no early keep-alive"); nap(1); settle(); dsym_assert(avail(b) == 11, "keep-alive of the new session"); q = c->Pull(1); dsym_assert(!q && now() == t0 + 8 * S, "Pull waits again"); }
    dsym_reach("reconnected"); delete c; end(w);
}
// --- P33
extern "C" void p33_destroy() {
    World w = begin(); int l = listenTcp(0x7f000001, 4000); int st = dsym_range("state", 0, 9), cl = st == 0 ? 1 : dsym_range("client", 0, 1), a, b = -1; Connection* c; Client* k = 0; env.sndbuf = 7; static Msg m; symMsg(m, 2, T_8U); schedule();
    if (cl) { c = k = new Client(); if (st) { dsym_assert(k->ConnectTcp("127.0.0.1", 4000, 5), "connected"); b = acceptMine(l); } } else { pair(AF_INET, &a, &b); c = new Connection(a); }
    watch(c, cl ? sizeof *k : sizeof *c);
    switch (st) {
    case 0: if (dsym_range("failed", 0, 1)) dsym_assert(!k->ConnectTcp("127.0.0.1", 1, 5), "refused"); break; case 1: if (dsym_range("settle", 0, 1)) settle(); break;
    case 2: { for (int i = dsym_range("unsent", 1, 2); i > 0; i--) { Request* q = req(m); c->Push(q, false); } if (dsym_range("settle", 0, 1)) settle(); break; }
    case 3: { for (int i = dsym_range("unread", 1, 2); i > 0; i--) deliver(b, m.f, m.n); if (dsym_range("settle", 0, 1)) settle(); break; }
    case 4: deliver(b, m.f, dsym_range("part", 1, m.n - 1)); if (dsym_range("settle", 0, 1)) settle(); break;
    case 5: c->Disconnect(true, true); break; case 6: { Request* q = req(m); c->Push(q, false); c->Disconnect(false, false); if (dsym_range("settle", 0, 1)) settle(); break; }
    case 7: closeMine(b); if (dsym_range("settle", 0, 1)) settle(); break; case 8: { deliver(b, m.f, m.n); settle(); closeMine(b); if (dsym_range("settle", 0, 1)) settle(); break; } 
    case 9: { deliver(b, m.f, m.n); deliver(b, m.f, 3); Request* q = req(m); c->Push(q, false); settle(); resetMine(b); if (dsym_range("settle", 0, 1)) settle(); break; } }
    delete c; noSchedule(); dsym_assert(now() == w.t0, "destruction does not wait"); if (b >= 0) dsym_assert(gone(b), "the connection is closed"); dsym_assert(openFds() == 0, "every descriptor is closed"); dsym_reach("destroyed"); end(w);
}
// --- P42
extern "C" void p42_wait() { // every waiting function, every number of seconds; 0: nothing happens, 1: it happens after any time
    World w = begin(3000000000ll); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); quiet(c); int t = sym<int>("timeout"), f = dsym_param("fn", 0); int64_t due = -1; far_ = b; lc = c; lateHow = 1; bool happens = dsym_param("happens", 0); schedule(); if (dsym_param("eintr", 0)) { settle(); env.eintr = dsym_param("eintr", 0); env.eintrAfter = sym<int64_t>("signal"); dsym_assume(env.eintrAfter >= 1); dsym_assume(env.eintrAfter < 40 * S); }
    if (happens) { lateAt = sym<int64_t>("delay"); dsym_assume(lateAt >= 0); dsym_assume(lateAt < 2200000000ll * S); due = w.t0 + lateAt; } else dsym_assume(t >= 0);
    Server* s = 0; bool r = false; int th = -1, dropped = -1;
    if (f == 0) { if (happens) th = spawn(lateDisc, 0); r = c->WaitForStop(t); }
    else if (f == 1) { if (happens) th = spawn(lateDeliver, 0); fixMsg(late, 1, "ab"); Request* q = c->Pull(t); r = q != 0; delete q; }
    else if (f == 2 || f == 3) { if (happens) th = spawn(lateDeliver, 0); fixMsg(late, 1, "ab"); int x, y; pair(AF_INET, &x, &y); far_ = y; r = f == 2 ? Utils::SelectRead(x, t) : true; if (f == 3) { dsym_assert(Utils::SelectWrite(x, t) && now() == w.t0, "writable at once"); env.sndbuf = 0; r = Utils::SelectWrite(x, t); env.sndbuf = 1024; } dropped = x; }
    int64_t at = now() - w.t0; noSchedule(); if (th >= 0) joinThread(th); if (dropped >= 0) close(dropped);
    if (!happens) { dsym_assert(!r, "nothing happened"); dsym_assert(at == (int64_t)t * S, "waits exactly the given number of seconds"); dsym_reach("waited"); }
    else if (t < 0) { dsym_assert(r && at == lateAt, "a negative time-out waits indefinitely"); dsym_reach("forever"); }
    else { if (r) { dsym_assert(at == lateAt && lateAt <= (int64_t)t * S, "released when it happens"); dsym_reach("happened"); } else { dsym_assert(at == (int64_t)t * S && lateAt >= at, "gives up after the given time"); dsym_reach("gave up"); } }
    (void)due; (void)s; delete c; end(w);
}
