// Long histories and long names: whatever a connection or server counts, stores or looks up, beyond 8 and 16 bits and beyond the first blocks of its containers.
// A few of the values are arbitrary, the others follow a pattern.
#include "net.h"
static bool few(int i, int n) { return i == 0 || i == 127 || i == 255 || i == 256 || i == n / 2 || i == n - 1; }
static uint32_t mid[70000]; static Msg mm;
static const Msg& msg(int i) { fixMsg(mm, mid[i], "ab"); mm.name[1] = 'a' + i % 26; mm.name[0] = 'a' + i / 26 % 26; encode(mm); return mm; }
static void ids(int n) { for (int i = 0; i < n; i++) mid[i] = few(i, n) ? sym<uint32_t>("id") : 1000003u * i; }
// received
static int handled; static void take(Connection* c, Request* r) { dsym_assert(isMsg(r, msg(handled)), "handled in order, unchanged"); handled++; delete r; }
extern "C" void many_receive() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); if (dsym_param("block", 0)) c->SetRecvBlockSize(dsym_param("block", 0)); int n = dsym_param("reqs", 300), per = dsym_param("together", 80), h = dsym_param("handler", 0); ids(n); handled = 0; if (h == 1) c->SetHandlerDefault(take); else if (h == 2) for (int i = 0; i < 26 * 26; i++) { char nm[3] = {(char)('a' + i / 26), (char)('a' + i % 26), 0}; c->SetHandlerNamed(nm, take); }
    segment(); for (int i = 0; i < n;) { static unsigned char s[1024]; int len = 0; for (int k = 0; k < per && i < n; k++, i++) { const Msg& m = msg(i); memcpy(s + len, m.f, m.n); len += m.n; } deliver(b, s, len); settle(); }
    if (dsym_range("ended", 0, 1)) { closeMine(b); settle(); dsym_assert(!c->IsConnected(), "ended"); } else dsym_assert(c->IsConnected() && now() == w.t0, "still connected");
    if (h) dsym_assert(handled == n, "every request is handled exactly once"); else for (int i = 0; i < n; i++) { Request* q = c->Pull(0); dsym_assert(q && isMsg(q, msg(i)), "every request is delivered, in order, unchanged"); delete q; }
    expectNone(c, "nothing else is delivered"); dsym_reach("delivered"); delete c; end(w);
}
// sent; how: 0 kept connected, 1 Disconnect(false) after the last Push
extern "C" void many_send() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); env.sndbuf = dsym_param("sndbuf", 64); Connection* c = new Connection(a); watch(c, sizeof *c); if (dsym_param("block", 0)) c->SetSendBlockSize(dsym_param("block", 0)); int n = dsym_param("reqs", 300), how = dsym_range("end", 0, 1); ids(n); segment();
    for (int i = 0; i < n; i++) { Request* q = req(msg(i)); if (i % 3 == 0) c->Push(q, false, 0, false); else { if (i % 3 == 1) c->Push(q, true, 0, false); else c->Push(*q, 0, false); delete q; } if (i % 50 == 7) settle(); }
    if (how) { c->Disconnect(false, false); Request* q = req(msg(0)); c->Push(q, false, 0, false); }
    unsigned char buf[64]; int have = 0, i = 0; for (;;) { settle(); int k = avail(b); if (!k) break; for (const unsigned char* d = data(b); k > 0; k--) { buf[have++] = *d++; consume(b, 1); if (have == 12 && i < n) { dsym_assert(eqbytes(buf, msg(i).f, 12), "every request is sent, in order, unchanged, exactly once"); have = 0; i++; } dsym_assert(have < 12, "nothing else is sent"); } }
    dsym_assert(i == n && now() == w.t0, "everything is sent without waiting"); if (how) { dsym_assert(have == 11 && isKeepAlive(buf, 11), "then it closes"); expectClosed(c, b, "closes by itself"); dsym_reach("flushed"); } else { dsym_assert(have == 0 && c->IsConnected(), "still connected"); dsym_reach("sent"); }
    delete c; end(w);
}
// never sent: a long queue is freed with the connection, or dropped before the next session
extern "C" void many_unsent() {
    World w = begin(); int l = listenTcp(0x7f000001, 4000); Client* c = new Client(); watch(c, sizeof *c); int n = dsym_param("reqs", 300); ids(n); env.sndbuf = 30; dsym_assert(c->ConnectTcp("127.0.0.1", 4000, 5), "connected"); int b = acceptMine(l);
    for (int i = 0; i < n; i++) { Request* q = req(msg(i)); c->Push(q, false, 0, false); if (i % 4 == 0) deliver(b, msg(i).f, msg(i).n); if (i % 20 == 0) settle(); } settle(); int how = dsym_range("then", 0, 2);
    if (how == 0) { c->Disconnect(true, true); env.sndbuf = 1024; dsym_assert(c->ConnectTcp("127.0.0.1", 4000, 5), "connected again"); b = acceptMine(l); settle(); dsym_assert(avail(b) == 0, "nothing of the former session is sent"); Request* q = req(msg(3)); c->Push(q, false, 0, false); settle(); dsym_assert(avail(b) == 12 && eqbytes(data(b), msg(3).f, 12), "the new session's request is sent"); deliver(b, msg(1).f, msg(1).n); settle(); expectPull(c, msg(1), "and received"); expectNone(c, "nothing of the former session is delivered"); }
    else if (how == 1) { closeMine(b); settle(); } dsym_reach("dropped"); delete c; end(w);
}
// assigned IDs of a long session
static uint32_t tab[1 << 17]; static bool addId(uint32_t id) { uint32_t h = (id * 2654435761u) >> 15; while (tab[h]) { if (tab[h] == id + 1) return false; h = (h + 1) & 0x1ffff; } tab[h] = id + 1; return true; }
extern "C" void many_ids() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); int n = dsym_param("reqs", 600), cl = dsym_param("client", 0); Connection* c; int l = -1; if (cl) { l = listenTcp(0x7f000001, 4000); Client* x = new Client(); dsym_assert(x->ConnectTcp("127.0.0.1", 4000, 5), "connected"); b = acceptMine(l); c = x; ::close(a); } else c = new Connection(a);
    Request q("x"); int half = -1; for (int i = 0; i < n;) { for (int k = 0; k < 50 && i < n; k++, i++) c->Push(q, 0, true); settle(); for (int len = avail(b); len; len -= 11) { dsym_assert(len >= 11 && get(data(b), 4) == 11, "a request"); uint32_t id = (uint32_t)dsym_concretize(get(data(b) + 4, 4)); consume(b, 11); if (half < 0) half = id & 1; dsym_assert((int)(id & 1) == half, "an end stays in its half"); dsym_assert(half == (cl ? 1 : 0), "its own half"); dsym_assert(addId(id), "assigned IDs are distinct"); handled++; } }
    dsym_assert(handled == n, "every request is on the wire"); dsym_observe(n); dsym_reach("assigned"); delete c; end(w);
}
// named handlers with long and similar names
static int who; static void n1(Connection*, Request* r) { who = 1; delete r; } static void n2(Connection*, Request* r) { who = 2; delete r; } static void n3(Connection*, Request* r) { who = 3; delete r; }
extern "C" void long_names() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); static const int lens[] = {14, 15, 16, 31, 32, 33, 63, 64, 127, 128, 254, 255, 256, 257, 300, 600}; int n = pick("length", lens, 16); static unsigned char f[1024]; unsigned char* p = f + 10; for (int i = 0; i < n; i++) p[i] = 'a' + i % 23;
    std::string base((char*)p, n), first = base, last = base, longer = base + 'x', shorter = base.substr(0, n - 1), cut = base; unsigned char x = sym<unsigned char>("x"), y = sym<unsigned char>("y"); int at = dsym_range("at", 0, 2); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; cut[at] = (char)x; int kind = dsym_range("kind", 0, 2); const std::string& other = kind == 0 ? cut : kind == 1 ? longer : shorter; 
    c->SetHandlerNamed(base, n1); bool same = kind == 0 && x == base[at]; c->SetHandlerNamed(other, n2); if (dsym_range("default", 0, 1)) c->SetHandlerDefault(n3); dsym_assert(c->GetHandlerNamed(base) == (same ? n2 : n1) && c->GetHandlerNamed(other) == n2, "reads back");
    int sent = dsym_range("sent", 0, 2); int len = n; if (sent == 0) ; else if (sent == 1) { len = (int)other.size(); for (int i = 0; i < len; i++) p[i] = other[i]; } else p[at] = y; // the name on the wire
    put(f, 10 + len, 4); put(f + 4, 7, 4); put(f + 8, len, 2); bool eq1 = sent == 0 || (sent == 1 && same), eq2 = (sent == 0 && same) || sent == 1; if (sent == 2) { eq1 = y == (unsigned char)base[at]; eq2 = kind == 0 && y == x; if (eq1 && same) eq2 = true; }
    int want = eq2 ? 2 : eq1 ? 1 : c->GetHandlerDefault() ? 3 : 0; who = 0; deliver(b, f, 10 + len); settle(); dsym_assert(who == want, "the handler registered for exactly this name"); Request* q = c->Pull(0); dsym_assert((q != 0) == (want == 0), "queued when there is no handler"); if (q) { std::string g = q->GetName(); dsym_assert((int)g.size() == len && eqbytes(g.data(), p, len), "the name is unchanged"); delete q; } dsym_observe(want);
    base.swap(first); { std::string e; first.swap(e); } c->SetHandlerNamed(last, 0); dsym_assert(!c->GetHandlerNamed(last) && (same || c->GetHandlerNamed(other) == n2), "removed, the other one stays"); dsym_reach("dispatched"); delete c; { std::string e1, e2, e3, e4, e5; base.swap(e1); last.swap(e2); longer.swap(e3); shorter.swap(e4); cut.swap(e5); } end(w);
}
// many references
extern "C" void many_refs() {
    World w = begin(); int a, b; pair(AF_INET, &a, &b); Connection* c = new Connection(a); watch(c, sizeof *c); int n = dsym_param("refs", 300); static SafeConnection* s[70000]; for (int i = 0; i < n; i++) if (i & 1) s[i] = new SafeConnection(c); else c->IncreaseRefs(); dsym_assert((int)c->GetRefs() == n, "number of references"); int cause = dsym_range("cause", 0, 1); if (cause) closeMine(b); else c->Disconnect(true, false); settle();
    for (int i = 0; i < n; i++) { if (i < 3 || i > n - 3 || i % 64 == 0) { settle(); dsym_assert(!c->WaitForStop(0) && openFds() > 0 && (int)c->GetRefs() == n - i, "not torn down before the last release"); } if (i & 1) delete s[i]; else c->DecreaseRefs(); }
    settle(); expectClosed(c, b, "torn down after the last release"); dsym_assert(now() == w.t0, "promptly"); dsym_reach("released"); delete c; end(w);
}
// many connections of one server run: one after the other, or at once
static Server* sv; static uint32_t last; static int con, dis; static void onCon(Server* s, Connection* c) { con++; last = c->id; dsym_assert(c->id != 0, "non-zero ID"); dsym_assert(addId((uint32_t)dsym_concretize(c->id)), "IDs are not used again"); } static void onDis(Server*, Connection* c) { dis++; last = c->id; }
static void answer(Connection* c, Request* r) { r->SetName("re"); c->Push(r, false, 0, false); }
extern "C" void many_connections() {
    World w = begin(); Server* s = new Server(); sv = s; watch(s, sizeof *s); s->SetConnectedHandler(onCon); s->SetDisconnectedHandler(onDis); int un = dsym_param("unix", 0), n = dsym_param("peers", 270), atOnce = dsym_param("together", 1), lim = dsym_param("limit", -1); if (lim >= 0) s->SetMaxConnections(lim); dsym_assert(un ? s->StartUnix("/s") : s->StartTcp("127.0.0.1", 4000), "started"); static int b[1024]; static uint32_t id[1024]; int m = 0; uint32_t q = sym<uint32_t>("lookup"); int found = 0; static Msg hi; fixMsg(hi, 4, "hi");
    for (int i = 0; i < n; i++) {
        b[i] = un ? dialUnix("/s") : dialTcp(0x7f000001, 4000); settle(); if (lim >= 0 && i - m >= lim) { dsym_assert(backlogOf(b[i]), "no further one is accepted"); closeMine(b[m]); settle(); m++; dsym_assert(!backlogOf(b[i]), "accepted when a slot is free"); }
        dsym_assert(con == i + 1, "announced exactly once"); if (dis == m - (lim >= 0) && lim >= 0) ; id[i] = 0; { SafeConnection* x = 0; if (lim < 0) { id[i] = last; x = s->GetConnection(last); dsym_assert(x && (*x)().id == last && (*x)().IsConnected(), "found by its ID"); (*x)().tag = "t" + std::to_string(i); delete x; if (few(i, n)) { deliver(b[i], hi.f, hi.n); settle(); x = s->GetConnection(last); expectPull(&(*x)(), hi, "served"); delete x; } } }
        if (lim < 0 && i - m >= atOnce - 1) { closeMine(b[m]); settle(); dsym_assert(last == id[m] && s->GetConnection(id[m]) == 0, "gone"); { SafeConnection* x = s->GetConnection("t" + std::to_string(m)); dsym_assert(!x, "its tag is gone"); } m++; } dsym_assert(dis == m, "every end is announced exactly once");
    }
    if (lim < 0) { for (int i = m; i < n; i++) { SafeConnection* x = s->GetConnection("t" + std::to_string(i)); dsym_assert(x && (*x)().id == id[i], "found by its tag"); delete x; found |= q == id[i]; } SafeConnection* x = s->GetConnection(q); dsym_assert((x != 0) == !!found, "found exactly while connected"); if (x) dsym_assert((*x)().id == q, "the connection with this ID"); delete x; }
    s->Stop(-1); dsym_assert(now() == w.t0, "stops promptly"); for (int i = 0; i < n; i++) dsym_assert(i < m || gone(b[i]), "closed"); dsym_reach("served"); delete s; end(w);
}
