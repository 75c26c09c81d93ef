// P17-P25, P34: framing, sending, delivery and dispatch of one connection.
#include "net.h"

static const int SHAPES[][2] = {{2, 0}, {3, T_8U}, {0, T_STR}, {1, T_16S}, {4, 0}};
static void shapedMsg(Msg& m, int i) { symMsg(m, SHAPES[i][0], SHAPES[i][1]); }

// --- P17: the stream arrives in any pieces
extern "C" void p17_segments() {
    World w = begin(); int a, b; pair(dsym_param("unix", 0) ? AF_UNIX : AF_INET, &a, &b);
    Connection* c = new Connection(a); watch(c, sizeof *c);
    static const int blocks[] = {1024, 1, 2, 3, 4, 5, 11}; long blk = dsym_param("block", -1); if (blk < 0) blk = pick("block", blocks, 7); c->SetRecvBlockSize(blk);
    int n = dsym_param("reqs", 2), sh = dsym_param("shape", 0); static Msg m[4]; static unsigned char s[256]; int len = 0;
    for (int i = 0; i < n; i++) { shapedMsg(m[i], (sh + i) % 5); memcpy(s + len, m[i].f, m[i].n); len += m[i].n; }
    segment(); schedule();
    int at = 0; for (int k = dsym_param("cuts", 1); k > 0 && at < len; k--) { int c1 = dsym_range("cut", at, len); if (c1 > at) { deliver(b, s + at, c1 - at); settle(); at = c1; } }
    if (at < len) deliver(b, s + at, len - at);
    settle(); noSchedule();
    dsym_assert(now() == w.t0, "delivery needs no time");
    for (int i = 0; i < n; i++) expectPull(c, m[i], "every request of the stream is delivered, in order, unchanged");
    expectNone(c, "nothing else is delivered"); dsym_assert(c->IsConnected(), "still connected"); dsym_assert(!gone(b), "socket open");
    dsym_reach("delivered"); delete c; end(w);
}
// a long frame in pieces: more than the receive block and any buffer of fixed size
extern "C" void p17_long() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c);
    int l = dsym_param("len", 3000); if (dsym_param("max", 0)) c->SetMaxRequestSize(dsym_param("max", 0)); if (dsym_param("block", 0)) c->SetRecvBlockSize(dsym_param("block", 0));
    unsigned char h[32]; uint32_t id = sym<uint32_t>("id"); unsigned char nm = sym<unsigned char>("nm"); dsym_assume(nm != '_'); put(h, l, 4); put(h + 4, id, 4); put(h + 8, 1, 2); h[10] = nm; // one string argument "v" of zeros
    put(h + 11, l - 11, 4); put(h + 15, 1, 2); h[17] = 'v'; h[18] = T_STR; put(h + 19, l - 23, 4); put(h + 23, l - 27, 4);
    segment(); deliver(b, h, 27); deliverZeros(b, l - 27); settle();
    static Msg m; fixMsg(m, 5, "ab"); deliver(b, m.f, m.n); settle(); env.rsplit = 0;
    Request* q = c->Pull(0); dsym_assert(q && q->GetId() == id && (int)q->GetSize() == l, "long request delivered");
    std::string n = q->GetName(); dsym_assert(n.size() == 1 && (unsigned char)n[0] == nm, "name"); ValueStr* v = dynamic_cast<ValueStr*>((*q->GetArguments().begin())->GetValue()); dsym_assert(v && (int)v->Get().size() == l - 27, "content"); delete q;
    expectPull(c, m, "request after the long one"); dsym_reach("delivered"); delete c; end(w);
}
// --- P18: what is pushed reaches the wire
extern "C" void p18_wire() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); env.sndbuf = dsym_param("sndbuf", 1024);
    Connection* c = new Connection(a); watch(c, sizeof *c);
    static const int blocks[] = {1024, 1, 2, 7, 11, 64}; long blk = dsym_param("block", -1); if (blk < 0) blk = pick("block", blocks, 6); c->SetSendBlockSize(blk);
    int n = dsym_param("reqs", 2), sh = dsym_param("shape", 0); static Msg m[4]; static unsigned char s[256]; int len = 0; Wire wi; wi.fd = b; wi.n = 0;
    segment(); schedule();
    for (int i = 0; i < n; i++) {
        shapedMsg(m[i], (sh + i) % 5); memcpy(s + len, m[i].f, m[i].n); len += m[i].n; Request* q = req(m[i]); Request* r;
        int how = dsym_param("how", -1); if (how < 0) how = dsym_range("how", 0, 2);
        if (how == 0) { r = c->Push(q, false, 0, false); } else if (how == 1) { r = c->Push(q, true, 0, false); delete q; } else { r = c->Push(*q, 0, false); delete q; }
        dsym_assert(r == 0, "Push without waiting returns null");
        if (i + 1 < n && dsym_param("gap", 1) && dsym_range("gap", 0, 1)) drain(wi);
    }
    drain(wi); noSchedule();
    dsym_assert(wi.n == len, "exactly the encoded requests are written"); dsym_assert(eqbytes(wi.b, s, len), "the bytes on the wire are the encodings in push order");
    dsym_assert(maxWrite(b) <= blk, "no write exceeds the block size"); dsym_assert(now() == w.t0, "sending needs no time"); dsym_assert(c->IsConnected(), "still connected");
    dsym_reach("sent"); delete c; end(w);
}
// several threads push at once
struct Pusher { Connection* c; Msg* m; int n; };
static void pusher(void* p) { Pusher* x = (Pusher*)p; for (int i = 0; i < x->n; i++) { Request* q = req(x->m[i]); x->c->Push(q, false, 0, false); } }
// a request longer than the send block, the socket buffer and any buffer of fixed size, among small ones
extern "C" void p18_long() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); env.sndbuf = dsym_param("sndbuf", 1000); Connection* c = new Connection(a); watch(c, sizeof *c); c->SetSendBlockSize(dsym_param("block", 1024)); int n = dsym_param("len", 3000); static Msg m; symMsg(m, 2, T_8U);
    char* x = new char[n]; for (int i = 0; i < n; i++) x[i] = (char)(i * 5 + (i >> 9)); const int pos[5] = {0, 255, n / 2, 65535, n - 1}; for (int i : pos) if (i < n) dsym_make_symbolic(x + i, 1, "byte");
    uint32_t id = sym<uint32_t>("id"); unsigned char h[27]; int l = n + 27; put(h, l, 4); put(h + 4, id, 4); put(h + 8, 1, 2); h[10] = 'l'; put(h + 11, l - 11, 4); put(h + 15, 1, 2); h[17] = 'v'; h[18] = T_STR; put(h + 19, n + 4, 4); put(h + 23, n, 4);
    segment(); schedule(); Request* q = req(m); c->Push(q, false, 0, false); { Request r("l"); r.SetId(id); r.Set("v", new ValueStr(std::string(x, n)), false); c->Push(r, 0, false); } q = req(m); c->Push(q, false, 0, false);
    int total = m.n + l + m.n, got = 0; char* o = new char[total]; for (;;) { settle(); int k = avail(b); if (!k) break; dsym_assert(got + k <= total, "nothing else is sent"); memcpy(o + got, data(b), k); got += k; consume(b, k); } noSchedule();
    dsym_assert(got == total && now() == w.t0, "everything is sent without waiting"); int ok = eqbytes(o, m.f, m.n); ok &= eqbytes(o + m.n, h, 27); ok &= eqbytes(o + m.n + 27, x, n); ok &= eqbytes(o + m.n + l, m.f, m.n); dsym_assert(ok, "the bytes of the requests, in order"); delete[] o; delete[] x; dsym_reach("sent"); delete c; end(w);
}
extern "C" void p18_threads() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); env.sndbuf = dsym_param("sndbuf", 1024); Connection* c = new Connection(a); watch(c, sizeof *c); c->SetSendBlockSize(dsym_param("block", 1024));
    static Msg m[2][2]; int n = dsym_param("reqs", 2); static Pusher p[2]; Wire wi; wi.fd = b; wi.n = 0;
    for (int t = 0; t < 2; t++) { for (int i = 0; i < n; i++) { symMsg(m[t][i], 2, 0); m[t][i].name[0] = 'A' + t; m[t][i].name[1] = '0' + i; encode(m[t][i]); } p[t].c = c; p[t].m = m[t]; p[t].n = n; }
    static Msg old; fixMsg(old, 9, "old"); for (int i = dsym_param("warm", 0); i > 0; i--) { Request* q = req(old); c->Push(q, false, 0, false); settle(); dsym_assert(avail(b) == old.n, "sent"); consume(b, old.n); }
    segment(); schedule(); int t0 = spawn(pusher, &p[0]), t1 = spawn(pusher, &p[1]); drain(wi); noSchedule();
    dsym_assert(done(t0) && done(t1), "Push does not block"); int pos = 0, next[2] = {0, 0};
    while (int l = nextFrame(wi, pos)) { int t = (int)dsym_concretize(wi.b[pos + 10]) - 'A'; dsym_assert(t == 0 || t == 1, "frames are not mixed up"); dsym_assert(next[t] < n, "no request is sent twice"); Msg& e = m[t][next[t]++]; dsym_assert(l == e.n && eqbytes(wi.b + pos, e.f, l), "requests of one thread stay in order and unchanged"); pos += l; }
    dsym_assert(pos == wi.n && next[0] == n && next[1] == n, "every request is sent exactly once"); dsym_reach("sent"); delete c; end(w);
}
// --- P19: two endpoints
static Msg echoM; static int echoed;
static void echo(Connection* c, Request* r) { echoed++; r->SetName("echo"); c->Push(r, false, 0, false); }
extern "C" void p19_pair() {
    World w = begin(); int a, b; pairLib(dsym_param("unix", 0) ? AF_UNIX : AF_INET, &a, &b); env.sndbuf = dsym_param("sndbuf", 1024);
    Connection *x = new Connection(a), *y = new Connection(b); watch(x, sizeof *x); watch(y, sizeof *y); int blk = dsym_param("block", 1024); x->SetSendBlockSize(blk); y->SetRecvBlockSize(blk);
    int n = dsym_param("reqs", 2); static Msg mx[2], my[2]; static Pusher p; for (int i = 0; i < n; i++) { shapedMsg(mx[i], i); shapedMsg(my[i], i + 1); }
    segment(); schedule(); p.c = y; p.m = my; p.n = n; int t = spawn(pusher, &p);
    for (int i = 0; i < n; i++) { Request* q = req(mx[i]); x->Push(q, false, 0, false); }
    settle(); noSchedule(); dsym_assert(done(t), "Push does not block"); dsym_assert(now() == w.t0, "delivery needs no time");
    for (int i = 0; i < n; i++) { expectPull(y, mx[i], "delivered in order, unchanged"); expectPull(x, my[i], "delivered in order, unchanged (other direction)"); }
    expectNone(x, "exactly once"); expectNone(y, "exactly once"); dsym_assert(x->IsConnected() && y->IsConnected(), "both stay connected");
    dsym_reach("delivered"); delete x; delete y; end(w);
}
// another thread takes the requests out while they arrive
static Msg pulledM[3]; static int pulledN, pulledT; static void puller(void* p) { Connection* c = (Connection*)p; for (int i = 0; i < pulledN; i++) { Request* q = c->Pull(pulledT); if (!q) { i--; dsym_assert(pulledT == 0, "Pull() waits"); nap(1); continue; } dsym_assert(isMsg(q, pulledM[i]), "delivered in order, unchanged, exactly once"); delete q; } }
extern "C" void p19_pull() {
    World w = begin(); int a, b; pairLib(AF_INET, &a, &b); Connection *x = new Connection(a), *y = new Connection(b); watch(y, sizeof *y); int n = pulledN = dsym_param("reqs", 2); pulledT = dsym_param("timeout", -1); for (int i = 0; i < n; i++) shapedMsg(pulledM[i], i);
    static Msg old; fixMsg(old, 9, "old"); for (int i = dsym_param("warm", 0); i > 0; i--) { Request* q = req(old); x->Push(q, false, 0, false); settle(); expectPull(y, old, "delivered"); }
    segment(); schedule(); int t = spawn(puller, y); for (int i = 0; i < n; i++) { Request* q = req(pulledM[i]); x->Push(q, false, 0, false); }
    joinThread(t); settle(); noSchedule(); dsym_assert(now() - w.t0 < S, "delivery needs no time"); expectNone(y, "exactly once"); expectNone(x, "exactly once"); dsym_assert(x->IsConnected() && y->IsConnected(), "both stay connected"); dsym_reach("delivered"); delete x; delete y; end(w);
}
// requests are answered from a handler while others are being sent
extern "C" void p19_echo() {
    World w = begin(); int a, b; pairLib(AF_INET, &a, &b); env.sndbuf = dsym_param("sndbuf", 1024); Connection *x = new Connection(a), *y = new Connection(b); watch(x, sizeof *x); watch(y, sizeof *y); y->SetHandlerDefault(echo);
    int n = dsym_param("reqs", 2); static Msg m[3]; echoed = 0; segment(); schedule();
    for (int i = 0; i < n; i++) { symMsg(m[i], 2, T_8U); Request* q = req(m[i]); x->Push(q, false, 0, false); }
    settle(); noSchedule(); dsym_assert(echoed == n, "handler called for each request");
    for (int i = 0; i < n; i++) { memcpy(m[i].name, "echo", 4); m[i].nlen = 4; expectPull(x, m[i], "answers in order"); }
    expectNone(x, "exactly once"); expectNone(y, "consumed by the handler"); dsym_reach("answered"); delete x; delete y; end(w);
}
// two connections whose handlers use each other
static Connection* fw_[2]; static int fwn; static void forward(Connection* c, Request* r) { fwn++; Connection* o = c == fw_[0] ? fw_[1] : fw_[0]; o->SetOurSaInterval(20); o->Push(r, false, 0, false); o->IsDisconnecting(); Request* q = o->Pull(0); delete q; }
extern "C" void p19_forward() {
    World w = begin(); int a, b, d, e; pair(AF_INET, &a, &b); pair(AF_UNIX, &d, &e); Connection *x = new Connection(a), *y = new Connection(d); watch(x, sizeof *x); watch(y, sizeof *y); fw_[0] = x; fw_[1] = y; fwn = 0; x->SetHandlerDefault(forward); y->SetHandlerDefault(forward); int n = dsym_param("reqs", 1); static Msg m[2], k[2]; for (int i = 0; i < n; i++) { symMsg(m[i], 2, T_8U); symMsg(k[i], 3, 0); }
    segment(); schedule(); for (int i = 0; i < n; i++) { deliver(b, m[i].f, m[i].n); deliver(e, k[i].f, k[i].n); } static Wire wb, we; wb.fd = b; we.fd = e; wb.n = we.n = 0; for (int i = 0; i < 2; i++) { drain(wb); drain(we); } noSchedule();
    dsym_assert(fwn == 2 * n && now() == w.t0, "every request is handled"); int p = 0, q = 0; for (int i = 0; i < n; i++) { dsym_assert(nextFrame(we, p) == m[i].n && eqbytes(we.b + p, m[i].f, m[i].n), "passed on in order, unchanged"); p += m[i].n; dsym_assert(nextFrame(wb, q) == k[i].n && eqbytes(wb.b + q, k[i].f, k[i].n), "passed on in order, unchanged"); q += k[i].n; } dsym_assert(p == we.n && q == wb.n, "nothing else is sent");
    dsym_reach("forwarded"); delete x; delete y; end(w);
}
// --- P20: frame size limits
extern "C" void p20_length() { // any declared length
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); uint32_t max = 16384;
    if (dsym_param("setmax", 0)) { static const int some[] = {0, 9, 10, 11, 12, 100, 4097, 16383, 3999999}; uint32_t s = dsym_param("setmax", 0) == 2 ? (uint32_t)pick("which", some, 9) : sym<uint32_t>("max"); bool any = dsym_param("setmax", 0) == 3; if (!any) dsym_assume(s < 4000000); c->SetMaxRequestSize(sym<uint32_t>("former")); c->SetMaxRequestSize(s); max = s < 10 ? 10 : s; dsym_assert(c->GetMaxRequestSize() == max, "limit in force"); }
    uint32_t l = sym<uint32_t>("length"); if (dsym_param("setmax", 0) == 3) dsym_assume((l < 4000000) | (l > max)); unsigned char f[4]; put(f, l, 4); env.rsplit = dsym_param("rsplit", 0);
    if (dsym_param("setmax", 0) != 1 && dsym_param("setmax", 0) != 3) dsym_alloc_limit(max < 4096 ? 4096 : max); deliver(b, f, 4); settle(); dsym_alloc_limit(0); env.rsplit = 0;
    if (l < 10 || l > max) { dsym_reach("refused"); dsym_assert(now() == w.t0, "closes at once"); expectClosed(c, b, "a frame of impossible size closes the connection"); }
    else { dsym_reach("awaited"); dsym_assert(c->IsConnected() && !gone(b), "a frame of legal size does not close the connection"); }
    expectNone(c, "nothing is delivered"); delete c; end(w);
}
extern "C" void p20_exact() { // whole frames around the limit
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); int max = dsym_param("max", 0); if (max) c->SetMaxRequestSize(max); else max = 16384; if (max < 10) max = 10;
    int lo = dsym_param("lo", max - 1), l = dsym_range("length", lo < 10 ? 10 : lo, max + 1); if (dsym_param("block", 0)) c->SetRecvBlockSize(dsym_param("block", 0));
    unsigned char h[32]; int n; uint32_t id = sym<uint32_t>("id"); put(h, l, 4); put(h + 4, id, 4);
    if (l < 27) { put(h + 8, l - 10, 2); n = 10; } else { put(h + 8, 0, 2); put(h + 10, l - 10, 4); put(h + 14, 1, 2); h[16] = 'v'; h[17] = T_UNDEF; put(h + 18, l - 22, 4); n = 22; }
    dsym_alloc_limit(max < 4096 ? 4096 : max + 64); deliver(b, h, n); if (l > n) deliverZeros(b, l - n); settle(); dsym_alloc_limit(0);
    if (l > max) { expectClosed(c, b, "a frame above the limit closes the connection"); expectNone(c, "it is not delivered"); dsym_reach("too long"); }
    else { Request* q = c->Pull(0); dsym_assert(q && q->GetId() == id && (int)q->GetSize() == l, "a frame up to the limit is received"); delete q; dsym_assert(c->IsConnected(), "still connected"); dsym_reach("received"); }
    delete c; end(w);
}
// --- P21: hostile peers
static int handled; static void drop(Connection*, Request* r) { handled++; std::string s = r->GetName(); for (Datum* d : r->GetArguments()) { char* e = d->Serialize(); delete[] e; } delete r; }
static void finishHostile(World& w, Connection* c, int b, int how) {
    settle(); noSchedule(); env.rsplit = 0;
    for (;;) { Request* q = c->Pull(0); if (!q) break; std::string s = q->GetName(); const char* e = q->Serialize(); delete[] e; for (Datum* d : q->GetArguments()) { uint32_t z = d->GetSize(); dsym_observe(z); d->GetValue(); } delete q; dsym_reach("request"); }
    dsym_assert(now() == w.t0, "nothing waits");
    if (c->IsConnected()) { dsym_assert(how == 0, "a closed transport ends the connection"); dsym_assert(!gone(b), "socket open"); dsym_reach("connected"); static Msg m; fixMsg(m, 9, "zz"); Request* q = req(m); int n0 = avail(b); c->Push(q, false, 0, false); settle(); dsym_assert(avail(b) == n0 + m.n && eqbytes(data(b) + n0, m.f, m.n), "the connection still works"); }
    else { expectClosed(c, b, "closed"); dsym_reach("closed"); }
    delete c; end(w);
}
static void endOf(int b, int how) { if (how == 1) closeMine(b); else if (how == 2) resetMine(b); else if (how == 3) shutMine(b); }
extern "C" void p21_stream() { // any bytes
    World w = begin(); int a, b; pair(AF_INET, &a, &b); handled = 0; Connection* c = new Connection(a); watch(c, sizeof *c); int max = dsym_param("max", 0); if (max) c->SetMaxRequestSize(max); if (dsym_param("handler", 0)) c->SetHandlerDefault(drop); if (dsym_param("block", 0)) c->SetRecvBlockSize(dsym_param("block", 0));
    int n = dsym_param("n", 14), how = dsym_range("end", 0, 3); static unsigned char f[64]; dsym_make_symbolic(f, n, "bytes"); segment(); schedule(); dsym_alloc_limit(65536);
    deliver(b, f, n); if (dsym_param("settle", 1)) settle(); endOf(b, how); finishHostile(w, c, b, how); 
}
extern "C" void p21_frame() { // complete frames with any content
    World w = begin(); int a, b; pair(AF_INET, &a, &b); handled = 0; Connection* c = new Connection(a); watch(c, sizeof *c); if (dsym_param("handler", 0)) c->SetHandlerDefault(drop);
    int n = dsym_param("n", 18), k = dsym_param("frames", 1), how = dsym_range("end", 0, 3); static unsigned char f[64]; segment(); schedule(); dsym_alloc_limit(65536);
    for (int i = 0; i < k; i++) { dsym_make_symbolic(f, n, "bytes"); put(f, n, 4); deliver(b, f, n); }
    int cut = dsym_param("cut", 0); if (cut) { put(f, n, 4); deliver(b, f, dsym_range("part", 0, n - 1)); }
    if (dsym_param("settle", 1)) settle(); endOf(b, how); finishHostile(w, c, b, how);
}
// --- P22: malformed frame between good ones
extern "C" void p22_between() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); int n = dsym_param("n", 14), k = dsym_param("bad", 1); static Msg g1, g2; shapedMsg(g1, 1); shapedMsg(g2, 2); static unsigned char f[2][64]; bool ok[2];
    segment(); deliver(b, g1.f, g1.n);
    for (int i = 0; i < k; i++) { dsym_make_symbolic(f[i], n, "bytes"); put(f[i], n, 4); Request q; char* e = new char[n]; memcpy(e, f[i], n); ok[i] = q.Deserialize(e, n) != 0; delete[] e; deliver(b, f[i], n); if (ok[i]) { std::string s = q.GetName(); if (s == "_") ok[i] = false; } }
    deliver(b, g2.f, g2.n); settle(); env.rsplit = 0;
    expectPull(c, g1, "the frame before is delivered");
    for (int i = 0; i < k; i++) if (ok[i]) { Request* q = c->Pull(0); dsym_assert(q && q->GetId() == (uint32_t)get(f[i] + 4, 4), "a decodable frame is delivered"); delete q; dsym_reach("decodable"); } else dsym_reach("malformed");
    expectPull(c, g2, "the frame after is delivered"); expectNone(c, "nothing is delivered for a malformed frame"); dsym_assert(c->IsConnected() && !gone(b), "still connected"); dsym_assert(now() == w.t0, "nothing waits"); delete c; end(w);
}
// --- P23: dispatch
struct Call { int h; Connection* c; Msg* m; }; static Call calls[8]; static int ncalls; static Msg* expected[4]; static int nexp;
static void got(int h, Connection* c, Request* r) { if (ncalls >= 8) dsym_fail("too many handler calls"); calls[ncalls].h = h; calls[ncalls].c = c; calls[ncalls].m = 0; for (int i = 0; i < nexp; i++) if (dsym_concretize(r->GetId()) == expected[i]->id) { calls[ncalls].m = expected[i]; dsym_assert(isMsg(r, *expected[i]), "the handler gets the request unchanged"); } ncalls++; delete r; }
static void h1(Connection* c, Request* r) { got(1, c, r); } static void h2(Connection* c, Request* r) { got(2, c, r); } static void h3(Connection* c, Request* r) { got(3, c, r); }
static RequestHandler HS[] = {0, h1, h2, h3};
struct Reg { unsigned char nm[4]; int len; int h; }; static Reg regs[4]; static int nreg, dflt;
static void regSet(Connection* c, const unsigned char* nm, int len, int h) { c->SetHandlerNamed(std::string((const char*)nm, len), HS[h]); int k = -1; for (int i = 0; i < nreg; i++) if (regs[i].len == len && eqbytes(regs[i].nm, nm, len)) k = i; if (k < 0) { k = nreg++; memcpy(regs[k].nm, nm, len); regs[k].len = len; } regs[k].h = h; }
static int regFind(const Msg& m) { for (int i = 0; i < nreg; i++) if (regs[i].len == m.nlen && eqbytes(regs[i].nm, m.name, m.nlen) && regs[i].h) return regs[i].h; return dflt; }
static void anyMsg(Msg& m, int maxName) { m.nlen = dsym_range("namelen", 0, maxName); dsym_make_symbolic(m.name, m.nlen, "name"); m.arg = 0; m.num = 0; }
extern "C" void p23_dispatch() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); ncalls = nexp = nreg = dflt = 0; static Msg m[3]; int n = dsym_param("reqs", 2), ml = dsym_param("namelen", 2);
    unsigned char nm[4]; dsym_make_symbolic(nm, 2, "registered"); int nl = dsym_range("reglen", 0, 2);
    regSet(c, nm, nl, 1); if (dsym_param("two", 1)) regSet(c, (const unsigned char*)"ab", 2, 2); if (dsym_range("default", 0, 1)) { c->SetHandlerDefault(h3); dflt = 3; }
    schedule(); static Msg* pulled[4]; int np = 0, nc = 0; static Call want[4];
    for (int i = 0; i < n; i++) {
        anyMsg(m[i], ml); m[i].id = 100 + i; encode(m[i]); expected[nexp++] = &m[i]; deliver(b, m[i].f, m[i].n);
        bool ka = m[i].nlen == 1 && m[i].name[0] == '_'; 
        if (!ka) { int h = regFind(m[i]); if (h) { want[nc].h = h; want[nc].m = &m[i]; nc++; dsym_reach("handled"); } else { pulled[np++] = &m[i]; dsym_reach("queued"); } } else dsym_reach("keep-alive");
        if (i + 1 < n) { int ch = dsym_range("change", 0, 4); if (!ch) continue; settle();
            if (ch == 1) regSet(c, nm, nl, 2); else if (ch == 2) regSet(c, nm, nl, 0); else if (ch == 3) { c->SetHandlerDefault(0); dflt = 0; } else { c->SetHandlerDefault(h2); dflt = 2; } }
    }
    settle(); noSchedule();
    dsym_assert(ncalls == nc, "each request is handled exactly once"); for (int i = 0; i < nc; i++) { dsym_assert(calls[i].h == want[i].h, "the handler registered for exactly that name, else the default one"); dsym_assert(calls[i].m == want[i].m && calls[i].c == c, "in arrival order, on this connection"); }
    for (int i = 0; i < np; i++) expectPull(c, *pulled[i], "requests without handler are queued in order"); expectNone(c, "handled requests and keep-alives are not queued"); delete c; end(w);
}
// registrations change while requests arrive: whichever registration counts, one consumer gets each request
static const char* rn[] = {"aa", "bb", "cc", "dd"}; static int rkeep; static void registrar(void* p) { Connection* c = (Connection*)p; for (int i = 0; i < dsym_param("changes", 2); i++) switch (dsym_range("change", 0, 5)) { case 0: c->SetHandlerNamed("aa", h2); break; case 1: c->SetHandlerNamed("aa", 0); break; case 2: c->SetHandlerNamed("bb", h2); break; case 3: c->SetHandlerNamed("0", h2); break; case 4: c->SetHandlerDefault(h2); break; case 5: c->SetHandlerDefault(0); } }
extern "C" void p23_race() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); ncalls = nexp = 0; static Msg m[2]; int n = dsym_param("reqs", 1); (void)rkeep; if (dsym_range("named", 0, 1)) c->SetHandlerNamed("aa", h1); if (dsym_range("other", 0, 1)) c->SetHandlerNamed("cc", h3); if (dsym_range("default", 0, 1)) c->SetHandlerDefault(h3);
    for (int i = 0; i < n; i++) { fixMsg(m[i], 100 + i, rn[i ? dsym_range("name", 0, 1) : 0]); expected[nexp++] = &m[i]; } schedule(); for (int i = 0; i < n; i++) deliver(b, m[i].f, m[i].n); int t = spawn(registrar, c); settle(); noSchedule(); dsym_assert(done(t) && c->IsConnected() && now() == w.t0, "setting a handler does not block");
    int k = ncalls; bool seen[2] = {false, false}; for (int i = 0; i < ncalls; i++) { int j = calls[i].m == &m[0] ? 0 : 1; dsym_assert(calls[i].m && !seen[j], "exactly one consumer"); seen[j] = true; dsym_assert(calls[i].c == c && (calls[i].h != 1 || calls[i].m->name[0] == 'a'), "a handler registered for the name"); if (i) dsym_assert(calls[i].m == &m[1], "in arrival order"); }
    while (Request* q = c->Pull(0)) { int j = (int)dsym_concretize(q->GetId()) - 100; dsym_assert(j >= 0 && j < n && !seen[j] && isMsg(q, m[j]), "exactly one consumer"); seen[j] = true; k++; delete q; } dsym_assert(k == n, "each request is delivered exactly once"); dsym_reach("delivered"); delete c; end(w);
}
// a handler uses the connection that calls it and changes the registrations
static int inDo; static void busy(Connection* c, Request* r) { Request* q = c->Pull(0); delete q; switch (inDo) { case 0: c->SetHandlerNamed("aa", 0); break; case 1: c->SetHandlerNamed("aa", h2); break; case 2: c->SetHandlerDefault(h2); break; case 3: c->SetHandlerNamed("bb", h2); break; case 4: { SafeConnection s(c); s().SetOurSaInterval(30); s().SetTheirNaIntervalLimit(90); s().GetRefs(); break; } case 5: c->SetRecvBlockSize(3); c->SetMaxRequestSize(20); break; } Request x("re"); x.SetId(r->GetId()); c->Push(x, 0, false); got(1, c, r); }
extern "C" void p23_inside() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); ncalls = nexp = 0; inDo = dsym_range("do", 0, 5); static Msg m[3]; static const int nm[3] = {0, 0, 1}; c->SetHandlerNamed("aa", busy); int dflt0 = dsym_range("default", 0, 1); if (dflt0) c->SetHandlerDefault(h3); for (int i = 0; i < 3; i++) { fixMsg(m[i], 100 + i, rn[nm[i]]); expected[nexp++] = &m[i]; }
    segment(); schedule(); int one = dsym_range("together", 0, 1); for (int i = 0; i < 3; i++) { deliver(b, m[i].f, m[i].n); if (!one) settle(); } settle(); noSchedule();
    int d = inDo == 2 ? 2 : dflt0 ? 3 : 0, want[3] = {1, inDo == 0 ? d : inDo == 1 ? 2 : 1, inDo == 3 ? 2 : d}, k = 0; for (int i = 0; i < 3; i++) if (want[i]) { dsym_assert(k < ncalls && calls[k].h == want[i] && calls[k].m == &m[i], "the registration in force when the request is handled counts"); k++; } dsym_assert(ncalls == k, "each request is handled exactly once");
    for (int i = 0; i < 3; i++) if (!want[i]) expectPull(c, m[i], "requests without handler are queued in order"); expectNone(c, "nothing else"); static Wire wi; wi.fd = b; wi.n = 0; drain(wi); int pos = 0, j = 0; while (int l = nextFrame(wi, pos)) { dsym_assert(get(wi.b + pos + 4, 4) == m[j].id, "answers in order"); while (++j < 3 && want[j] != 1) ; pos += l; } dsym_assert(pos == wi.n && j >= 1 && (j == 3 || want[j] != 1), "every answer is sent"); dsym_assert(c->IsConnected() && now() == w.t0, "no deadlock"); dsym_reach("handled"); delete c; end(w);
}
// --- P24: request IDs on the wire
static void idsOf(Wire& wi, uint32_t* ids, int& n, int want) { int pos = 0; n = 0; while (int l = nextFrame(wi, pos)) { dsym_assert(n < want, "no additional frame"); ids[n++] = (uint32_t)get(wi.b + pos + 4, 4); pos += l; } dsym_assert(pos == wi.n && n == want, "every request is on the wire"); }
extern "C" void p24_ids() {
    World w = begin(); bool un = dsym_param("unix", 0); int l = un ? listenUnix("/i") : listenTcp(0x7f000001, 4000); schedule(); Client* x = new Client(); watch(x, sizeof *x); dsym_assert(un ? x->ConnectUnix("/i", 5) : x->ConnectTcp("127.0.0.1", 4000, 5), "connected"); int bx = acceptMine(l), a, by; pair(un ? AF_UNIX : AF_INET, &a, &by); Connection* y = new Connection(a); watch(y, sizeof *y);
    int n = dsym_param("reqs", 3); uint32_t first[2] = {0, 0};
    for (int s = 0; s < dsym_param("sessions", 2); s++) {
        uint32_t own[4]; bool chg[4]; int nn = 0; Wire wx, wy; wx.fd = bx; wx.n = 0; wy.fd = by; wy.n = 0;
        for (int i = 0; i < n; i++) { own[i] = sym<uint32_t>("own"); chg[i] = dsym_range("assign", 0, 1); static Msg m; symMsg(m, 2, 0); m.id = own[i]; Request *q = req(m), *r = req(m); if (i & 1) { x->Push(*q, 0, chg[i]); delete q; } else x->Push(q, false, 0, chg[i]); y->Push(r, true, 0, chg[i]); delete r; }
        drain(wx); drain(wy); uint32_t ix[4], iy[4]; idsOf(wx, ix, nn, n); idsOf(wy, iy, nn, n); int half = -1;
        for (int i = 0; i < n; i++) {
            if (!chg[i]) { dsym_assert(ix[i] == own[i] && iy[i] == own[i], "an unchanged ID is sent as it is"); dsym_reach("own id"); continue; }
            dsym_assert((ix[i] ^ iy[i]) & 1, "the two ends use different halves"); if (half >= 0) dsym_assert((int)(ix[i] & 1) == half, "an end stays in its half"); half = ix[i] & 1; dsym_assert(half == 1, "the client uses odd IDs");
            for (int j = 0; j < i; j++) if (chg[j]) dsym_assert(ix[i] != ix[j] && iy[i] != iy[j], "assigned IDs are distinct");
            dsym_reach("assigned");
        }
        for (int i = 0; i < n; i++) if (chg[i]) { if (s == 0) { if (!first[0]) first[0] = ix[i]; } else { dsym_assert(ix[i] <= first[0] || !first[0], "numbering starts again after a reconnect"); break; } }
        if (s + 1 < dsym_param("sessions", 2)) { x->Disconnect(true, true); dsym_assert(un ? x->ConnectUnix("/i", 5) : x->ConnectTcp("127.0.0.1", 4000, 5), "connected again"); bx = acceptMine(l); }
        else break;
        int a2; delete y; pair(AF_INET, &a2, &by); y = new Connection(a2);
    }
    noSchedule(); delete x; delete y; end(w);
}
static void pusherId(void* p) { Pusher* x = (Pusher*)p; for (int i = 0; i < x->n; i++) { Request* q = req(x->m[i]); x->c->Push(q, false, 0, true); } }
extern "C" void p24_threads() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); static Msg m[2]; static Pusher p[2]; int n = dsym_param("reqs", 2); for (int t = 0; t < 2; t++) { fixMsg(m[t], 0, t ? "bb" : "aa"); }
    static Msg mm[2][3]; for (int t = 0; t < 2; t++) { for (int i = 0; i < 3; i++) mm[t][i] = m[t]; p[t].c = c; p[t].m = mm[t]; p[t].n = n; } schedule(); spawn(pusherId, &p[0]); spawn(pusherId, &p[1]); Wire wi; wi.fd = b; wi.n = 0; drain(wi); noSchedule();
    uint32_t ids[8]; int k; idsOf(wi, ids, k, 2 * n); for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) dsym_assert(ids[i] != ids[j] && !((ids[i] ^ ids[j]) & 1), "IDs assigned by several threads are distinct and in one half"); dsym_reach("checked"); delete c; end(w);
}
// --- P25: ownership and state
extern "C" void p25_copy() { // the snapshot is taken at the time of the call
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); static Msg m; symMsg(m, 2, T_16U); int chg = dsym_range("assign", 0, 1), ref = dsym_range("byref", 0, 1);
    { Request* q = req(m); Request* r = ref ? c->Push(*q, 0, chg) : c->Push(q, true, 0, chg); dsym_assert(r == 0, "no response is waited for"); dsym_assert(isMsg(q, m), "the caller's request is untouched"); 
      q->SetName("other"); q->SetId(1); q->Set("v", new Value64U(1), false); if (dsym_range("early", 0, 1)) { delete q; q = 0; } settle(); delete q; }
    dsym_assert(avail(b) == m.n, "exactly one request is sent"); if (chg) put(m.f + 4, get(data(b) + 4, 4), 4); dsym_assert(eqbytes(data(b), m.f, m.n), "the snapshot is sent"); delete c; dsym_reach("sent"); end(w);
}
// a connection that is not (or not any more) accepting requests; states: 0 never connected, 1 graceful disconnection in progress, 2 disconnected, 3 peer closed
extern "C" void p25_refused() {
    World w = begin(); int l = listenTcp(0x7f000001, 4000); Client* c = new Client(); watch(c, sizeof *c); int b = -1, state = dsym_range("state", 0, 3); env.sndbuf = 4; Wire wi; wi.n = 0;
    if (state) { dsym_assert(c->ConnectTcp("127.0.0.1", 4000, 5), "connected"); b = acceptMine(l); wi.fd = b; if (state == 1) { c->Disconnect(false, false); if (dsym_range("wait", 0, 1)) settle(); } else if (state == 2) { c->Disconnect(true, true); } else { closeMine(b); settle(); } }
    static Msg m; symMsg(m, 2, T_16U); uint64_t before = dsym_live_bytes();
    for (int i = 0; i < 3; i++) { Request* q = req(m); Request* r = i == 0 ? c->Push(q, false, 0, true) : i == 1 ? c->Push(q, true, 0, true) : c->Push(*q, 0, false); dsym_assert(r == 0, "Push returns null"); if (i) { dsym_assert(isMsg(q, m), "untouched"); delete q; } }
    dsym_assert(dsym_live_bytes() == before, "a refused request is consumed");
    if (state == 1) { drain(wi); dsym_assert(wi.n == 11 && isKeepAlive(wi.b, 11), "nothing is sent after Disconnect"); }
    if (state) { c->WaitForStop(-1); settle(); if (state != 3) { Wire x; x.fd = b; x.n = 0; drain(x); dsym_assert(x.n == 0, "nothing is sent"); } }
    env.sndbuf = 1024; dsym_assert(c->ConnectTcp("127.0.0.1", 4000, 5), "connected again"); b = acceptMine(l); Wire y; y.fd = b; y.n = 0; drain(y); dsym_assert(y.n == 0, "nothing refused is sent later"); static Msg k; fixMsg(k, 7, "ok"); Request* q = req(k); c->Push(q, false, 0, false); drain(y); dsym_assert(y.n == k.n && eqbytes(y.b, k.f, k.n), "works again"); dsym_reach("refused");
    delete c; end(w);
}
struct Disc { Connection* c; bool forced; bool wait; }; static void disconnector(void* p) { Disc* d = (Disc*)p; d->c->Disconnect(d->forced, d->wait); }
extern "C" void p25_race() { // Push while another thread or the peer disconnects
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); int how = dsym_range("how", 0, 2); static Msg m[2]; symMsg(m[0], 2, T_8U); symMsg(m[1], 3, 0); static Disc d; d.c = c; d.forced = how == 1; d.wait = dsym_range("waits", 0, 1);
    schedule(); if (how < 2) spawn(disconnector, &d); else closeMine(b);
    for (int i = 0; i < 2; i++) { Request* q = req(m[i]); c->Push(q, i == 1, 0, false); if (i) { dsym_assert(isMsg(q, m[i]), "untouched"); delete q; } }
    settle(); noSchedule(); dsym_assert(now() == w.t0, "nothing waits"); expectClosed(c, b, "disconnected");
    if (how < 2) { Wire wi; wi.fd = b; wi.n = 0; drain(wi); int pos = 0, k = 0; bool fin = false; while (int l = nextFrame(wi, pos)) { dsym_assert(!fin, "nothing after the end of a graceful disconnection"); if (isKeepAlive(wi.b + pos, l)) fin = true; else { while (k < 2 && !(l == m[k].n && eqbytes(wi.b + pos, m[k].f, l))) k++; dsym_assert(k < 2, "only whole pushed requests, in order"); k++; } pos += l; } if (how == 0) dsym_assert(pos == wi.n, "only whole requests"); }
    delete c; dsym_reach("ended"); end(w);
}
// --- P34: settings
static int probes; static void hp1(Connection*, Request* r) { delete r; } static void hp2(Connection*, Request* r) { delete r; }
extern "C" void p34_settings() {
    World w = begin(); int a = -1, b; bool conn = dsym_range("connected", 0, 1); Client* cl = 0; Connection* c; if (conn) { pair(AF_INET, &a, &b); c = new Connection(a); } else c = cl = new Client();
    dsym_assert(c->GetSendBlockSize() == 1024 && c->GetRecvBlockSize() == 1024 && c->GetMaxRequestSize() == 16384, "default sizes"); dsym_assert(c->GetOurSaInterval() == 10 && c->GetTheirNaIntervalLimit() == 60, "default intervals"); dsym_assert(!c->GetHandlerDefault() && !c->GetHandlerNamed("x") && !c->GetHandlerNamed("") && !c->GetSessionData<int>() && c->tag == "" && c->id == 0, "no handlers, no session data");
    for (int i = 0; i < 2; i++) {
        uint32_t x = sym<uint32_t>("send"), y = sym<uint32_t>("recv"), z = sym<uint32_t>("max"); int64_t s = sym<int64_t>("sa"), t = sym<int64_t>("na");
        c->SetSendBlockSize(x); c->SetRecvBlockSize(y); c->SetMaxRequestSize(z); c->SetOurSaInterval(s); c->SetTheirNaIntervalLimit(t);
        dsym_assert(c->GetSendBlockSize() == (x < 1 ? 1 : x), "send block size"); dsym_assert(c->GetRecvBlockSize() == (y < 1 ? 1 : y), "receive block size"); dsym_assert(c->GetMaxRequestSize() == (z < 10 ? 10 : z), "maximum request size"); dsym_assert(c->GetOurSaInterval() == (s < 1 ? 1 : s), "still-alive interval"); dsym_assert(c->GetTheirNaIntervalLimit() == (t < 1 ? 1 : t), "not-alive limit");
    }
    std::string n1 = symName(2, "n1"), n2 = symName(2, "n2"); bool eq = n1 == n2; c->SetHandlerNamed(n1, hp1); dsym_assert(c->GetHandlerNamed(n1) == hp1, "named handler"); dsym_assert(c->GetHandlerNamed(n2) == (eq ? hp1 : 0), "only for its name"); dsym_assert(!c->GetHandlerDefault(), "no default"); c->SetHandlerNamed(n2, hp2); dsym_assert(c->GetHandlerNamed(n1) == (eq ? hp2 : hp1) && c->GetHandlerNamed(n2) == hp2, "both handlers"); c->SetHandlerDefault(hp1); dsym_assert(c->GetHandlerDefault() == hp1, "default handler"); c->SetHandlerNamed(n1, 0); dsym_assert(!c->GetHandlerNamed(n1) && c->GetHandlerNamed(n2) == (eq ? 0 : hp2) && c->GetHandlerDefault() == hp1, "removed"); c->SetHandlerNamed(n1, 0); c->SetHandlerDefault(0); dsym_assert(!c->GetHandlerDefault(), "removed");
    uint64_t p = sym<uint64_t>("data"); c->SetSessionData((int*)p); dsym_assert((uint64_t)c->GetSessionData<int>() == p, "session data"); c->SetSessionData<int>(0); dsym_assert(!c->GetSessionData<int>(), "session data reset"); std::string tg = symName(2, "tag"); c->tag = tg; c->id = 77; dsym_assert(sameStr(c->tag, tg) && c->id == 77, "tag and id");
    if (conn) dsym_assert(c->GetType() == SocketTypeTcp && c->IsConnected() && !c->IsDisconnecting(), "state"); else dsym_assert(c->GetType() == SocketTypeUndefined && !c->IsConnected() && !c->IsDisconnecting(), "state");
    dsym_reach("checked"); delete c; n1.clear(); n2.clear(); tg.clear(); end(w);
}
