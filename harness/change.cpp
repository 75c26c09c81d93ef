// P17, P18, P20: settings that change while data is on its way.
#include "net.h"
static const int BLK[] = {3, 1024, 0, 7, 1};
// --- P17: block sizes and the limit change while a stream arrives (the limit stays big enough for every frame)
extern "C" void p17_change() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); static Msg m[2]; static unsigned char s[128]; symMsg(m[0], 2, T_8U); symMsg(m[1], 3, T_STR); int len = 0; for (Msg& x : m) { memcpy(s + len, x.f, x.n); len += x.n; }
    c->SetRecvBlockSize(pick("block", BLK, dsym_param("blocks", 5))); segment(); schedule(); int at = 0;
    for (int k = dsym_param("cuts", 2); k > 0; k--) {
        int e = dsym_range("cut", at, len); if (e > at) deliver(b, s + at, e - at); at = e; if (dsym_range("settle", 0, 1)) settle();
        switch (dsym_range("what", 0, 3)) { case 0: c->SetRecvBlockSize(pick("block", BLK, dsym_param("blocks", 5))); break; case 1: c->SetMaxRequestSize(dsym_range("max", 0, 1) ? m[1].n : 0x7fffffff); break; case 2: c->SetMaxRequestSize(0xffffffff); c->SetRecvBlockSize(2); break; default: c->SetSendBlockSize(1); c->SetOurSaInterval(3); c->SetTheirNaIntervalLimit(5); }
    }
    if (at < len) deliver(b, s + at, len - at); settle(); noSchedule(); dsym_assert(now() == w.t0, "delivery needs no time");
    for (Msg& x : m) expectPull(c, x, "every request is delivered, in order, unchanged"); expectNone(c, "nothing else is delivered"); dsym_assert(c->IsConnected() && !gone(b), "still connected"); dsym_reach("delivered"); delete c; end(w);
}
// --- P18: the block size changes in the middle of a request
extern "C" void p18_change() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); env.sndbuf = dsym_param("sndbuf", 5); Connection* c = new Connection(a); watch(c, sizeof *c); static Msg m[2]; static unsigned char s[128]; symMsg(m[0], 2, T_8U); symMsg(m[1], 3, T_STR); int len = 0; Wire wi; wi.fd = b; wi.n = 0;
    uint32_t blk = pick("block", BLK, dsym_param("blocks", 5)); c->SetSendBlockSize(blk); segment(); schedule(); for (Msg& x : m) { memcpy(s + len, x.f, x.n); len += x.n; Request* q = req(x); c->Push(q, false, 0, false); }
    for (int k = dsym_param("changes", 2); k > 0; k--) {
        settle(); if (int z = avail(b)) { int t = dsym_range("read", 0, z); memcpy(wi.b + wi.n, data(b), t); wi.n += t; blk = pick("block", BLK, dsym_param("blocks", 5)); dsym_assert(resetMaxWrite(b) <= 1024, "size of a write"); c->SetSendBlockSize(blk); if (dsym_range("other", 0, 1)) { c->SetRecvBlockSize(1); c->SetMaxRequestSize(10); c->SetOurSaInterval(3); c->SetTheirNaIntervalLimit(5); } if (t) consume(b, t); settle(); if (!env.delays) dsym_assert(maxWrite(b) <= (int)(blk < 1 ? 1 : blk), "no write exceeds the block size set last"); }
    }
    drain(wi); noSchedule(); dsym_assert(wi.n == len && eqbytes(wi.b, s, len), "exactly the encoded requests are written, in push order"); dsym_assert(now() == w.t0 && c->IsConnected(), "sending needs no time"); dsym_reach("sent"); delete c; end(w);
}
// --- P20: the limit changes between two frames, from outside or in the handler of the first one
static uint32_t newMax; static bool inHandler; static int seen; static uint32_t seenLen;
static void onReq(Connection* c, Request* r) { if (!seen++ && inHandler) c->SetMaxRequestSize(newMax); seenLen = r->GetSize(); delete r; }
extern "C" void p20_change() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); seen = 0; int first = dsym_range("first", 10, 12), before = dsym_range("before", 12, 14); newMax = dsym_range("then", 8, 15); int l = dsym_range("length", 10, 15); inHandler = dsym_range("handler", 0, 1); if (inHandler || dsym_range("handle", 0, 1)) c->SetHandlerDefault(onReq); bool handled = inHandler || c->GetHandlerDefault();
    c->SetMaxRequestSize(before); static Msg x, y; symMsg(x, first - 10, 0); symMsg(y, l - 10, 0); segment(); schedule(); int part = dsym_range("part", 0, 3); // less than the length prefix of the second frame may be there already
    deliver(b, x.f, x.n); if (inHandler && dsym_range("together", 0, 1)) { deliver(b, y.f, y.n); settle(); } else { if (part) deliver(b, y.f, part); settle(); if (!inHandler) c->SetMaxRequestSize(newMax); dsym_assert(c->IsConnected(), "connected"); deliver(b, y.f + part, y.n - part); settle(); }
    noSchedule(); uint32_t max = newMax < 10 ? 10 : newMax; dsym_assert(c->GetMaxRequestSize() == max && now() == w.t0, "limit in force"); bool ok = (uint32_t)l <= max;
    if (handled) dsym_assert(seen == 1 + ok, "handled"); else { expectPull(c, x, "the first request is received"); if (ok) expectPull(c, y, "a frame within the new limit is received"); expectNone(c, "nothing else"); }
    if (ok) { dsym_assert(c->IsConnected() && !gone(b), "still connected"); dsym_reach("received"); } else { expectClosed(c, b, "a frame above the new limit closes the connection"); dsym_reach("refused"); }
    delete c; end(w);
}
// --- P34 (and P23, P28): the settings of one connection do not touch another one
static int got[2]; static Connection* who[2]; static void ha(Connection* c, Request* r) { dsym_assert(c == who[0], "the connection of the handler"); got[0]++; delete r; } static void hb(Connection* c, Request* r) { dsym_assert(c == who[1], "the connection of the handler"); got[1]++; delete r; }
extern "C" void p34_two() {
    World w = begin(); int a[2], b[2]; for (int i = 0; i < 2; i++) { pair(i && dsym_param("unix", 0) ? AF_UNIX : AF_INET, a + i, b + i); who[i] = new Connection(a[i]); watch(who[i], sizeof(Connection)); got[i] = 0; } int x = dsym_range("which", 0, 1), y = 1 - x; Connection *c = who[x], *d = who[y];
    c->SetSendBlockSize(3); c->SetRecvBlockSize(5); c->SetMaxRequestSize(12); c->SetOurSaInterval(3); c->SetTheirNaIntervalLimit(100); c->tag = "one"; c->id = 5; int dummy; c->SetSessionData(&dummy); c->SetHandlerDefault(x ? hb : ha);
    dsym_assert(d->GetSendBlockSize() == 1024 && d->GetRecvBlockSize() == 1024 && d->GetMaxRequestSize() == 16384 && d->GetOurSaInterval() == 10 && d->GetTheirNaIntervalLimit() == 60 && d->tag == "" && d->id == 0 && !d->GetSessionData<int>() && !d->GetHandlerDefault() && !d->GetHandlerNamed("ab"), "the other connection keeps its settings");
    bool named = dsym_range("named", 0, 1); if (named) d->SetHandlerNamed("ab", y ? hb : ha); dsym_assert(!c->GetHandlerNamed("ab"), "not the handler of the other one"); static Msg m, big; fixMsg(m, 1, "ab"); fixMsg(big, 2, "abc"); schedule();
    for (int i = 0; i < 2; i++) deliver(b[i], m.f, m.n); Request* q = req(big); c->Push(q, true, 0, false); d->Push(q, false, 0, false); settle(); noSchedule(); dsym_assert(got[x] == 1 && got[y] == named, "each one calls its own handler"); if (!named) expectPull(d, m, "queued by the other one"); expectNone(c, "handled"); expectNone(d, "handled");
    dsym_assert(maxWrite(b[x]) == 3 && maxWrite(b[y]) == big.n, "each one writes blocks of its size"); for (int i = 0; i < 2; i++) { dsym_assert(avail(b[i]) == big.n && eqbytes(data(b[i]), big.f, big.n), "sent"); consume(b[i], big.n); }
    int64_t t0 = now(); nap(4 * S); settle(); dsym_assert(avail(b[x]) == 11 && avail(b[y]) == 0, "each one keeps its own interval"); nap(t0 + 10 * S + 1 - now()); settle(); dsym_assert(avail(b[x]) == 33 && avail(b[y]) == 11, "each one keeps its own interval");
    for (int i = 0; i < 2; i++) deliver(b[i], big.f, big.n); settle(); expectClosed(c, b[x], "above the limit of this connection"); dsym_assert(d->IsConnected(), "not above that of the other one"); expectPull(d, big, "received"); dsym_assert(d->GetMaxRequestSize() == 16384 && !d->IsDisconnecting(), "state"); dsym_reach("done"); for (Connection* e : who) delete e; end(w);
}
