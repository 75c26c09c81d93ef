// P32, P35-P42: clients connecting, servers.
#include "net.h"
static const uint32_t LO = 0x7f000001; static const char* LOS = "127.0.0.1";
// --- P35
static int64_t nextAt; 
static void checkIdle(Client* c, int fds) { dsym_assert(!c->IsConnected() && !c->IsConnecting() && !c->IsDisconnecting() && c->GetType() == SocketTypeUndefined, "a failed connect leaves the client disconnected"); settle(); dsym_assert(openFds() == fds, "a failed connect leaves no descriptor"); }
static void checkWorks(Client* c, int l, int type) { // connected: data flows both ways and another connect is refused
    dsym_assert(c->IsConnected() && !c->IsConnecting() && !c->IsDisconnecting() && c->GetType() == type && !c->WaitForStop(0) && !readable(c->GetStoppedEvent()), "state after a successful connect"); int b = acceptMine(l); dsym_assert(b >= 0, "the listener sees the client");
    int n = lastConnect.count, m = made(); dsym_assert(!c->ConnectTcp(LOS, 4001, 1) && !c->ConnectUnix("/t", 1), "refuses to connect while connected"); dsym_assert(lastConnect.count == n && made() == m, "nothing is attempted while connected");
    static Msg x, y; fixMsg(x, 6, "in", T_8U, 3); fixMsg(y, 9, "out"); deliver(b, x.f, x.n); Request* q = req(y); c->Push(q, false, 0, false); settle(); expectPull(c, x, "receives"); dsym_assert(avail(b) == y.n && eqbytes(data(b), y.f, y.n), "sends"); consume(b, y.n);
    dsym_assert(c->IsConnected() && !gone(b), "still connected"); nextAt = b;
}
extern "C" void p35_tcp() { // every outcome of the connection attempt, any time-out
    World w = begin(1000); int l = listenTcp(LO, 4000); Client* c = new Client(); watch(c, sizeof *c); int fds = openFds(); schedule();
    for (int i = 0; i < dsym_param("tries", 1); i++) {
        int mode = dsym_range("outcome", 0, 6); int t = sym<int>("timeout"); dsym_assume(t <= 100); int64_t d = 0, t0 = now(); env.connect = mode <= 4 ? mode : 0; if (mode == 2 || mode == 3) { d = sym<int64_t>("delay"); dsym_assume(d > 0); dsym_assume(d <= 130 * S); env.connectDelay = d; } if (mode == 4) d = 127 * S; if (mode == 5) { env.failOp = OP_SOCKET; env.failErrno = EMFILE; } if (mode == 6) { env.failOp = OP_CONNECT; env.failErrno = dsym_range("err", 0, 2) ? ECONNREFUSED : ENETUNREACH; }
        bool r = c->ConnectTcp(LOS, 4000, t); int64_t el = now() - t0; bool con = c->IsConnected(); env.failOp = 0; env.connect = 0; dsym_assert(r == con, "the result tells whether the client is connected");
        bool slow = mode >= 2 && mode <= 4, intime = t < 0 || d <= (int64_t)t * S;
        if (mode == 0) dsym_assert(r, "connected"); if (mode == 1 || mode >= 3) dsym_assert(!r, "failed");
        if (slow && t >= 0) dsym_assert(el <= (int64_t)t * S, "not after the time-out"); if (slow && intime && mode == 2 && !(t >= 0 && d == (int64_t)t * S)) dsym_assert(r && el == d, "connected in time"); if (slow && !intime) dsym_assert(!r, "timed out"); if (!slow) dsym_assert(el == 0, "at once");
        if (r) { noSchedule(); checkWorks(c, l, SocketTypeTcp); dsym_reach("connected"); c->Disconnect(true, true); schedule(); } else { dsym_reach("failed"); checkIdle(c, fds); while (acceptMine(l) >= 0) {} }
    }
    dsym_assert(c->ConnectTcp(LOS, 4000, 3), "can be retried"); noSchedule(); checkWorks(c, l, SocketTypeTcp); dsym_assert(lastConnect.domain == AF_INET && lastConnect.ip == LO && lastConnect.port == 4000, "address and port"); delete c; end(w);
}
extern "C" void p35_address() { // any port, many addresses
    World w = begin(); Client* c = new Client(); watch(c, sizeof *c); int fds = openFds(); uint16_t port = sym<uint16_t>("port"); char ip[20]; uint32_t want = 0; int valid = 1, kind = dsym_range("address", 0, 8);
    if (kind == 0) { int k = 0; for (int i = 0; i < 4; i++) { int digits = i == 0 ? 2 : 1; uint32_t v = 0; for (int j = 0; j < digits; j++) { unsigned char d = sym<unsigned char>("digit"); dsym_assume(d >= '0'); dsym_assume(d <= '9'); if (!j && digits > 1) dsym_assume(d != '0'); ip[k++] = d; v = v * 10 + (d - '0'); } want = want << 8 | v; ip[k++] = i < 3 ? '.' : 0; } }
    else { static const char* A[] = {"127.0.0.1", "192.168.255.3", "255.255.255.254", "", "abc", "256.1.1.1", "1.2.3.4.5", "localhost"}; static const uint32_t V[] = {LO, 0xc0a8ff03, 0xfffffffe, 0, 0, 0, 0, 0}; strcpy(ip, A[kind - 1]); want = V[kind - 1]; valid = kind <= 3; }
    int l = valid ? listenTcp(want, port) : -1; std::string a(ip); bool r = c->ConnectTcp(a, port, 3); dsym_assert(r == !!valid, "succeeds exactly for a valid address"); dsym_assert(now() == w.t0, "at once");
    if (r) { dsym_assert(lastConnect.count == 1 && lastConnect.domain == AF_INET && lastConnect.ip == want && lastConnect.port == port, "exactly the address and port given"); checkWorks(c, l, SocketTypeTcp); dsym_reach("connected"); }
    else { checkIdle(c, fds); dsym_assert(lastConnect.count == 0, "no connection to another address"); l = listenTcp(LO, 77); dsym_assert(c->ConnectTcp(LOS, 77, 3), "can be retried"); checkWorks(c, l, SocketTypeTcp); dsym_reach("failed"); }
    delete c; a.clear(); end(w);
}
static std::string longPath(int n) { std::string s(n, 'p'); if (n) s[0] = '/'; return s; }
extern "C" void p35_unix() {
    World w = begin(1000); Client* c = new Client(); watch(c, sizeof *c); int fds = openFds(); static const int lens[] = {1, 2, 20, 106, 107, 108, 109, 127, 300}; int len = lens[dsym_range("length", 0, 8)]; std::string p = longPath(len); bool fits = len <= 107; if (len > 1 && fits) { char x = sym<char>("char"); dsym_assume(x != 0); p[len - 1] = x; }
    int l = fits ? listenUnix(p.c_str()) : listenUnix("/x"); schedule(); 
    for (int i = 0; i < dsym_param("tries", 1); i++) {
        int mode = dsym_range("outcome", 0, 6), forever = dsym_range("forever", 0, 1); int t = forever ? -1 : sym<int>("timeout"); if (mode == 6) { dsym_assume(t >= 0); dsym_assume(t <= 100); } env.connect = mode <= 3 ? mode : mode == 6 ? 4 : 0; int64_t d = 0, t0 = now(); if (mode == 2 || mode == 3) env.connectDelay = d = 3 * S; if (mode == 6) d = 127 * S; if (mode == 4) { env.failOp = OP_SOCKET; env.failErrno = EMFILE; } if (mode == 5) { env.failOp = OP_CONNECT; env.failErrno = ECONNREFUSED; }
        bool r = c->ConnectUnix(p, t); int64_t el = now() - t0; env.failOp = 0; env.connect = 0; dsym_assert(r == c->IsConnected(), "the result tells whether the client is connected"); if (!fits || mode == 1 || mode >= 3) dsym_assert(!r, "failed"); else if (mode == 0) dsym_assert(r, "connected");
        if (d && fits && t >= 0) { dsym_assert(el <= (int64_t)t * S + 1, "not after the time-out"); dsym_assert(el >= d || el >= (int64_t)t * S, "neither before it"); if ((int64_t)t * S > d && mode == 2) dsym_assert(r, "connected in time"); } if (!d || !fits) dsym_assert(el == 0, "at once");
        if (r) { noSchedule(); checkWorks(c, l, SocketTypeUnix); dsym_assert(lastConnect.domain == AF_UNIX && (int)strlen(lastConnect.path) == len && eqbytes((unsigned char*)lastConnect.path, (const unsigned char*)p.c_str(), len), "exactly the path given"); dsym_reach("connected"); c->Disconnect(true, true); schedule(); } else { checkIdle(c, fds); if (!fits) dsym_assert(lastConnect.count == 0, "no connection to another path"); dsym_reach("failed"); while (acceptMine(l) >= 0) {} }
    }
    dsym_assert(c->ConnectUnix(fits ? p : std::string("/x"), 3), "can be retried"); noSchedule(); checkWorks(c, l, SocketTypeUnix); delete c; std::string().swap(p); end(w);
}
// --- servers
struct Ev { int kind; uint32_t id; Connection* c; }; static Ev evs[16]; static int nev; static int busy; // connections between the two handlers
static Server* sv;
static void note(int k, Server* s, Connection* c) { if (nev >= 16) dsym_fail("too many handler calls"); dsym_assert(s == sv, "the handler gets its server"); evs[nev].kind = k; evs[nev].id = (uint32_t)dsym_concretize(c->id); evs[nev].c = c; nev++; }
static int count(int kind, uint32_t id) { int n = 0; for (int i = 0; i < nev; i++) if (evs[i].kind == kind && evs[i].id == id) n++; return n; }
static void onCon(Server* s, Connection* c) { dsym_assert(c->id != 0, "the ID is set in the connected handler"); note(1, s, c); watch(c, sizeof *c); char t[3] = {'t', (char)('0' + c->id), 0}; c->tag = t; busy++; }
static void onDis(Server* s, Connection* c) { note(2, s, c); dsym_assert(c->tag.size() == 2 && c->tag[1] == (char)('0' + c->id), "the object is valid in the disconnected handler"); dsym_assert(!c->IsConnected(), "disconnected"); busy--; }
static bool startTcp(Server* s, uint16_t port = 4000) { return s->StartTcp(LOS, port); }
static Server* newServer(bool tcp = true) { nev = 0; busy = 0; sv = new Server(); watch(sv, sizeof *sv); sv->SetConnectedHandler(onCon); sv->SetDisconnectedHandler(onDis); dsym_assert(tcp ? startTcp(sv) : sv->StartUnix("/s"), "started"); return sv; }
static int dial() { int b = dialTcp(LO, 4000); dsym_assert(b >= 0, "the server listens"); return b; }
static bool works(int b, Server* s, uint32_t id) { // the connection of this peer is served
    static Msg m; fixMsg(m, 4, "to"); SafeConnection* x = s->GetConnection(id); if (!x) return false; Request* q = req(m); (*x)().Push(q, false, 0, false); settle(); bool ok = avail(b) == m.n && eqbytes(data(b), m.f, m.n); consume(b, avail(b)); deliver(b, m.f, m.n); settle(); q = (*x)().Pull(0); ok = ok && isMsg(q, m); delete q; delete x; return ok;
}
// --- P36
static int served(int* b, int n) { int k = 0; for (int i = 0; i < n; i++) if (b[i] >= 0 && !gone(b[i]) && !backlogOf(b[i])) k++; return k; }
extern "C" void p36_limit() {
    World w = begin(); Server* s = new Server(); watch(s, sizeof *s); sv = s; nev = 0; busy = 0; s->SetConnectedHandler(onCon); s->SetDisconnectedHandler(onDis); int lim = -1; schedule(); int before = dsym_range("before", 0, 1); int sym1 = dsym_param("symbolic", 0);
    if (before) { lim = sym1 ? sym<int32_t>("limit") : dsym_range("limit", -1, 3); s->SetMaxConnections(lim); dsym_assert(s->GetMaxConnections() == lim, "reads back"); }
    dsym_assert(startTcp(s), "started"); int b[8], n = 0, peak = dsym_param("peers", 3); for (int i = 0; i < 8; i++) b[i] = -1; int alive = 0, cur = 0;
    for (int i = 0; i < dsym_param("steps", 3); i++) {
        int act = i == 0 && dsym_param("first", -1) >= 0 ? dsym_param("first", 0) : dsym_range("act", 0, 3);
        if (act == 0) { for (int k = dsym_range("arrive", 1, peak); k > 0 && n < 6; k--) { b[n++] = dial(); alive++; } }
        else if (act == 1) { int k = dsym_range("leave", 0, 5); if (k >= n || b[k] < 0) dsym_end_path(); closeMine(b[k]); b[k] = -1; alive--; }
        else if (act == 2) { lim = sym1 ? sym<int32_t>("limit") : dsym_range("limit", -1, 3); s->SetMaxConnections(lim); dsym_assert(s->GetMaxConnections() == lim, "reads back"); if (i + 1 < dsym_param("steps", 3) && dsym_param("rush", 0) && dsym_range("rush", 0, 1)) continue; }
        else { uint32_t k = dsym_range("whom", 1, 4); SafeConnection* x = s->GetConnection(k); if (!x) dsym_end_path(); (*x)().Disconnect(true, false); delete x; settle(); int g = 0; for (int j = 0; j < n; j++) if (b[j] >= 0 && gone(b[j])) { closeMine(b[j]); b[j] = -1; g++; } dsym_assert(g == 1, "exactly this one is disconnected"); alive--; }
        settle(); int now_ = served(b, n); dsym_assert(busy == now_, "every served connection was announced, every other one taken back");
        if (lim < 0) dsym_assert(now_ == alive, "every client is served without a limit"); 
        else { dsym_assert(now_ <= lim || now_ <= cur, "never more connections than the maximum"); dsym_assert(now_ >= (lim < alive ? lim : alive), "pending clients are accepted when the limit allows it"); }
        cur = now_;
    }
    noSchedule(); dsym_reach("done"); dsym_assert(now() == w.t0, "nothing waits"); delete s; end(w);
}
// the limit holds at every moment: it is observed whenever a connection is announced
static int maxBusy; static void onConPeak(Server* s, Connection* c) { onCon(s, c); if (busy > maxBusy) maxBusy = busy; }
static int rb[4]; static void arrivals(void*) { for (int i = 0; i < 2; i++) { rb[i] = dialTcp(LO, 4000); yieldPoint(); } } static void leaver(void*) { closeMine(rb[3]); }
extern "C" void p36_race() {
    World w = begin(); Server* s = newServer(); s->SetConnectedHandler(onConPeak); maxBusy = 0; int lim = dsym_range("limit", 0, 2); s->SetMaxConnections(lim); rb[0] = rb[1] = rb[2] = -1; rb[3] = dial(); settle(); schedule(); spawn(arrivals, 0); int lv = dsym_range("leaves", 0, 1); if (lv) spawn(leaver, 0); int nl = lim; if (dsym_range("raise", 0, 1)) { s->SetMaxConnections(3); nl = 3; } settle(); noSchedule();
    int alive = lv ? 2 : 3, srv = 0; for (int i = 0; i < 4; i++) if (i != 2 && rb[i] >= 0 && !gone(rb[i]) && !backlogOf(rb[i])) srv++; if (lv && !gone(rb[3])) {} 
    dsym_assert(maxBusy <= nl, "never more connections than the maximum"); dsym_assert(busy == (nl < alive ? nl : alive), "everybody the limit allows is served"); (void)srv; dsym_assert(now() == w.t0, "nothing waits"); dsym_reach("done"); delete s; end(w);
}
// --- P37
static uint32_t seen[8]; static int nseen; static void saw(Connection* c, Request* r) { if (nseen < 8) seen[nseen++] = (uint32_t)dsym_concretize(c->id); r->SetName("re"); c->Push(r, false, 0, false); }
static void onConHandler(Server* s, Connection* c) { onCon(s, c); c->SetHandlerDefault(saw); }
extern "C" void p37_ids() {
    World w = begin(); Server* s = newServer(!dsym_param("unix", 0)); s->SetConnectedHandler(onConHandler); nseen = 0; schedule(); int n = dsym_param("peers", 2), b[4]; static Msg m; fixMsg(m, 4, "hi");
    for (int i = 0; i < n; i++) { b[i] = dsym_param("unix", 0) ? dialUnix("/s") : dial(); deliver(b[i], m.f, m.n); if (dsym_param("gap", 0) && dsym_range("gap", 0, 1)) settle(); }
    settle(); noSchedule(); dsym_assert(nev == n && nseen <= n, "every connection is announced once"); uint32_t ids[4]; for (int i = 0; i < n; i++) { dsym_assert(evs[i].kind == 1 && evs[i].id, "non-zero ID"); ids[i] = evs[i].id; int k = 0; for (int j = 0; j < n; j++) { if (j < nseen && seen[j] == evs[i].id) k++; if (j < i) dsym_assert(evs[i].id != evs[j].id, "distinct IDs"); } if (!k) { SafeConnection* x = s->GetConnection(evs[i].id); dsym_assert(x != 0, "found"); expectPull(&(*x)(), m, "a request that came before the handler was set is queued"); delete x; nseen++; seen[nseen - 1] = evs[i].id; k++; } dsym_assert(k == 1, "the request handler sees the ID, once"); } dsym_assert(nseen == n, "every request arrives at its own connection");
    schedule(); int left = dsym_range("leaves", 0, n); uint32_t gid = 0; if (left < n) { closeMine(b[left]); settle(); for (int i = 0; i < nev; i++) if (evs[i].kind == 2) gid = evs[i].id; dsym_assert(gid != 0, "disconnection announced"); }
    if (dsym_range("another", 0, 1)) { b[3] = dsym_param("unix", 0) ? dialUnix("/s") : dial(); settle(); for (int i = 0; i < n; i++) dsym_assert(evs[nev - 1].id != ids[i], "IDs are not used again"); ids[n] = evs[nev - 1].id; n++; }
    noSchedule(); uint32_t q = sym<uint32_t>("lookup"); int want = 0; for (int i = 0; i < n; i++) want |= (ids[i] == q) & (ids[i] != gid); SafeConnection* x = s->GetConnection(q); dsym_assert((x != 0) == !!want, "found exactly while connected"); if (x) { dsym_assert((*x)().id == q && (*x)().GetRefs() == 1 && (*x)().IsConnected(), "the connection with this ID"); delete x; dsym_reach("found"); } else dsym_reach("not found");
    char tg[4]; dsym_make_symbolic(tg, 2, "tag"); int tl = dsym_range("taglen", 0, 2); std::string ts(tg, tl); want = 0; for (int i = 0; i < n; i++) want |= tl == 2 ? (tg[0] == 't') & (tg[1] == (char)('0' + ids[i])) & (ids[i] != gid) : 0; x = s->GetConnection(ts); dsym_assert((x != 0) == !!want, "found exactly by its tag"); if (x) { dsym_assert(sameStr((*x)().tag, ts), "the connection with this tag"); delete x; }
    ts.clear(); delete s; end(w);
}
extern "C" void p37_tags() { // tags of any content and length
    World w = begin(); Server* s = newServer(); s->SetDisconnectedHandler(0); int n = dsym_param("peers", 2), len = dsym_param("len", 3), b[4]; uint32_t id[4]; char t[4][8]; int tl[4]; for (int i = 0; i < n; i++) { b[i] = dial(); settle(); id[i] = evs[nev - 1].id; }
    for (int i = 0; i < n; i++) { tl[i] = dsym_range("taglen", 0, len); if (tl[i]) dsym_make_symbolic(t[i], tl[i], "tag"); SafeConnection* x = s->GetConnection(id[i]); dsym_assert(x != 0, "found"); { std::string v(t[i], tl[i]); (*x)().tag.swap(v); } delete x; }
    char q[8]; int ql = dsym_range("lookuplen", 0, len + 1); if (ql) dsym_make_symbolic(q, ql, "lookup"); int want = 0; for (int i = 0; i < n; i++) if (tl[i] == ql) want |= eqbytes(q, t[i], ql);
    { std::string ts(q, ql); SafeConnection* x = s->GetConnection(ts); dsym_assert((x != 0) == !!want, "found exactly by its tag"); if (x) { dsym_assert(sameStr((*x)().tag, ts), "the connection with this tag"); dsym_reach("found"); delete x; } else dsym_reach("not found"); }
    for (int i = 0; i < n; i++) { SafeConnection* x = s->GetConnection(id[i]); dsym_assert(x != 0, "still found by its ID"); { std::string v; (*x)().tag.swap(v); } delete x; } delete s; end(w);
}
extern "C" void p37_longtags() { // long tags that are equal, differ in one byte, or of which one continues the other
    World w = begin(); Server* s = newServer(); s->SetDisconnectedHandler(0); static const int lens[] = {8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 600}; int n = pick("length", lens, 15), b[2]; uint32_t id[2]; for (int i = 0; i < 2; i++) { b[i] = dial(); settle(); id[i] = evs[nev - 1].id; }
    std::string base; for (int i = 0; i < n; i++) base += (char)('a' + i % 23); std::string o = base, q = base; int at = dsym_range("at", 0, 2); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; unsigned char x = sym<unsigned char>("x"), y = sym<unsigned char>("y"); int kind = dsym_range("kind", 0, 2), look = dsym_range("look", 0, 2), first = dsym_range("first", 0, 1); if (kind == 0) o[at] = x; else if (kind == 1) o += 'x'; else o.resize(n - 1); if (look == 1) q = o; else if (look == 2) q[at] = y;
    for (int i = 0; i < 2; i++) { SafeConnection* c = s->GetConnection(id[i]); dsym_assert(c != 0, "found"); (*c)().tag = (i == 0) == (first == 0) ? base : o; delete c; } bool e0 = q.size() == base.size() && eqbytes(q.data(), base.data(), q.size()), e1 = q.size() == o.size() && eqbytes(q.data(), o.data(), q.size());
    SafeConnection* c = s->GetConnection(q); dsym_assert((c != 0) == (e0 || e1), "found exactly by its tag"); if (c) { dsym_assert((e0 && (*c)().id == id[first]) || (e1 && (*c)().id == id[1 - first]), "the connection with this tag"); dsym_reach("found"); delete c; } else dsym_reach("not found"); delete s; { std::string a1, a2, a3; base.swap(a1); o.swap(a2); q.swap(a3); } end(w);
}
static bool ending; static void onConLook(Server* s, Connection* c) { onCon(s, c); SafeConnection* x = s->GetConnection(c->id); dsym_assert(x ? &(*x)() == c : ending, "found in its connected handler"); delete x; }
static void onDisLook(Server* s, Connection* c) { onDis(s, c); SafeConnection* x = s->GetConnection(c->id); dsym_assert(!x, "not found any more in the disconnected handler"); }
struct Look { Server* s; int n, got; uint32_t id; bool byTag, use; }; static void looker(void* p) { Look* k = (Look*)p; for (int i = 0; i < k->n; i++) { SafeConnection* x = k->byTag ? k->s->GetConnection(std::string("t1")) : k->s->GetConnection(k->id); if (x) { k->got++; Connection& r = (*x)(); dsym_assert(r.id == k->id, "the connection with this ID"); dsym_assert(count(1, k->id) == 1, "announced before it can be looked up"); if (k->use) { r.Push(Request("x")); Request* q = r.Pull(0); delete q; yieldPoint(); dsym_assert(r.tag == "t1", "valid while referenced"); r.Disconnect(true, false); yieldPoint(); r.IsConnected(); } delete x; } yieldPoint(); } }
extern "C" void p37_race() { // lookups in parallel to arrivals and departures
    World w = begin(); Server* s = newServer(); s->SetConnectedHandler(onConLook); s->SetDisconnectedHandler(onDisLook); ending = false; static Look k; k.s = s; k.n = dsym_param("looks", 2); k.got = 0; k.id = 1; k.byTag = dsym_range("tag", 0, 1); k.use = dsym_range("use", 0, 1); int early = dsym_range("early", 0, 1), b0 = -1; if (early) { b0 = dial(); settle(); }
    schedule(); ending = k.use; int t = spawn(looker, &k), b = -1; if (!early) b = dial(); int what = dsym_range("what", 0, 3); if (what) ending = true; if (what == 1) { closeMine(b >= 0 ? b : b0); } else if (what == 2) { SafeConnection* x = s->GetConnection(1u); if (x) { (*x)().Disconnect(true, false); delete x; } } else if (what == 3) s->Stop(-1);
    settle(); noSchedule(); dsym_assert(done(t), "the lookup does not block"); dsym_assert(now() == w.t0, "nothing waits"); if (k.got) dsym_reach("found"); else dsym_reach("not found"); delete s; end(w);
}
// --- P38
extern "C" void p38_handlers() {
    World w = begin(); Server* s = new Server(); watch(s, sizeof *s); sv = s; nev = 0; busy = 0; int hs = dsym_range("handlers", 0, 3); if (hs & 1) s->SetConnectedHandler(onCon); if (hs & 2) s->SetDisconnectedHandler(hs & 1 ? onDis : [](Server* s, Connection* c) { note(2, s, c); }); dsym_assert(s->GetConnectedHandler() == (hs & 1 ? onCon : 0), "reads back"); dsym_assert(startTcp(s), "started"); schedule();
    int n = dsym_param("peers", 2), b[4], how[4]; static Msg m; fixMsg(m, 4, "hi"); bool gap = dsym_range("gap", 0, 1); for (int i = 0; i < n; i++) { b[i] = dial(); if (gap) settle(); }
    for (int i = 0; i < n; i++) { how[i] = dsym_range("ends", 0, 3); if (how[i] == 1) closeMine(b[i]); else if (how[i] == 2) resetMine(b[i]); else if (how[i] == 3) { settle(); SafeConnection* x = s->GetConnection((uint32_t)i + 1); dsym_assert(x != 0, "found"); (*x)().Disconnect(dsym_range("forced", 0, 1), false); delete x; } }
    settle(); noSchedule(); dsym_assert(now() == w.t0, "nothing waits");
    for (int i = 0; i < n; i++) { uint32_t id = i + 1; dsym_assert(count(1, id) == !!(hs & 1), "the connected handler runs exactly once"); dsym_assert(count(2, id) == (hs & 2 && how[i] ? 1 : 0), "the disconnected handler runs exactly once, when the connection ended"); int first = -1, last = -1; for (int k = 0; k < nev; k++) if (evs[k].id == id) { if (evs[k].kind == 1) first = k; else last = k; } if (hs == 3 && how[i]) dsym_assert(first < last && evs[first].c == evs[last].c, "in this order, for the same object"); dsym_assert(gone(b[i]) == (how[i] != 0), "closed exactly when it ended"); if (!how[i]) dsym_assert(works(b[i], s, id), "the others keep working"); }
    dsym_reach("done"); s->SetConnectedHandler(0); s->SetDisconnectedHandler(0); int c = dial(); settle(); dsym_assert(works(c, s, n + 1), "works without handlers"); delete s; end(w);
}
static void replaceCon(Server* s, Connection* c) { onCon(s, c); c->Disconnect(true, false); }
extern "C" void p38_reject() { // the connected handler turns the client away
    World w = begin(); Server* s = newServer(); s->SetConnectedHandler(replaceCon); schedule(); int a = dial(), b = dial(); settle(); noSchedule(); dsym_assert(nev == 4 && count(1, 1) == 1 && count(2, 1) == 1 && count(1, 2) == 1 && count(2, 2) == 1, "both handlers exactly once each"); dsym_assert(gone(a) && gone(b) && now() == w.t0, "closed"); dsym_reach("done"); delete s; end(w);
}
// --- P39
extern "C" void p39_start() {
    World w = begin(); Server* s = new Server(); watch(s, sizeof *s); sv = s; int base = openFds(), un = dsym_param("unix", 0); schedule(); bool was = false;
    for (int i = 0; i < dsym_param("tries", 1); i++) {
        int f = dsym_range("fault", 0, 6), del = dsym_range("replace", 0, 1), file = dsym_range("exists", 0, 1); const char* p = "/srv"; std::string path = p; std::string ip = LOS; int foreign = -1; int ul = lastUnlink.count; env.failErrno = EACCES; bool ok = true, had = exists(p);
        if (un && file && !had) { addFile(p); had = true; }
        switch (f) { case 1: env.failOp = OP_SOCKET; ok = false; break; case 2: env.failOp = OP_BIND; ok = false; break; case 3: env.failOp = OP_LISTEN; ok = false; break;
            case 4: if (un) { env.failOp = OP_UNLINK; ok = !(del && had); } else { ip = "300.1.1.1"; ok = false; } break; case 5: if (un) { path = longPath(dsym_range("len", 108, 110)); ok = false; } else { foreign = listenTcp(LO, 4000); ok = false; } break; case 6: if (un) { path = longPath(107); } else { ip = ""; ok = false; } break; }
        bool inuse = un && path == p && had && !del; if (inuse) ok = false;
        bool r = un ? s->StartUnix(path, del) : s->StartTcp(ip, 4000); env.failOp = 0; dsym_assert(r == ok, "true exactly when the server listens"); const char* pc = path.c_str();
        if (un) { bool ask = del && had && path == p; dsym_assert(ask || lastUnlink.count == ul, "an existing file is removed only when asked to"); if (lastUnlink.count != ul) dsym_assert(!strcmp(lastUnlink.path, p), "only this file"); if (had && !r && f != 2 && f != 3) { if (!(ask && f == 0)) dsym_assert(exists(p) || ask, "kept"); } if (had && !del && path == p) dsym_assert(exists(p), "an existing file is kept"); }
        if (r) { dsym_assert(un ? listening(AF_UNIX, 0, 0, pc) : listening(AF_INET, LO, 4000, 0), "listens on exactly the address given"); dsym_assert(s->GetType() == (un ? SocketTypeUnix : SocketTypeTcp), "type"); if (un) dsym_assert(s->GetUnixPath() == path, "path"); else dsym_assert(s->GetTcpIp() == LO && s->GetTcpPort() == 4000 && s->GetTcpIpString() == LOS, "address"); int b = un ? dialUnix(pc) : dial(); settle(); dsym_assert(!backlogOf(b), "accepts"); closeMine(b); settle();
            int fds = openFds(), cnt = lastBind.count, mk = made(); bool again = dsym_range("again", 0, 1) ? s->StartTcp(LOS, 4001) : s->StartUnix("/other", true); dsym_assert(!again && openFds() == fds && made() == mk && lastBind.count == cnt, "refuses to start again"); dsym_assert(s->GetType() == (un ? SocketTypeUnix : SocketTypeTcp), "type"); if (un) dsym_assert(s->GetUnixPath() == path, "path"); else dsym_assert(s->GetTcpPort() == 4000, "port"); b = un ? dialUnix(pc) : dial(); settle(); dsym_assert(!backlogOf(b), "still accepts"); s->Stop(-1); dsym_assert(gone(b), "stopped"); dsym_reach("started"); was = true; }
        else { dsym_reach("failed"); }
        settle(); dsym_assert(s->GetType() == SocketTypeUndefined && openFds() == base && threads() == 0, "not running"); s->WaitForStop(-1); s->Stop(-1); dsym_assert(now() == w.t0, "nothing to wait for"); if (foreign >= 0) closeMine(foreign); path.clear(); ip.clear(); { std::string().swap(path); std::string().swap(ip); }
    }
    dsym_assert(un ? s->StartUnix("/srv", true) : s->StartTcp(LOS, 4000), "can be started later"); int b = un ? dialUnix("/srv") : dial(); dsym_assert(b >= 0, "listens"); settle(); noSchedule(); dsym_assert(!backlogOf(b), "accepts"); dsym_assert(!gone(b), "serves"); (void)was; delete s; end(w);
}
extern "C" void p39_address() { // every port and every address of single digits
    World w = begin(); Server* s = new Server(); watch(s, sizeof *s); uint16_t port = sym<uint16_t>("port"); char ip[20]; uint32_t want = 0; int kind = dsym_range("address", 0, 7), valid = 1;
    if (kind == 0) { int k = 0; for (int i = 0; i < 4; i++) { unsigned char d = sym<unsigned char>("digit"); dsym_assume(d >= '0'); dsym_assume(d <= '9'); want = want << 8 | (d - '0'); ip[k++] = d; ip[k++] = i < 3 ? '.' : 0; } }
    else { static const char* A[] = {"0.0.0.0", "192.168.255.3", "255.255.255.254", "", "abc", "1.2.3.256", "1.2.3.4.5"}; static const uint32_t V[] = {0, 0xc0a8ff03, 0xfffffffe, 0, 0, 0, 0}; strcpy(ip, A[kind - 1]); want = V[kind - 1]; valid = kind <= 3; }
    { std::string a(ip); bool r = s->StartTcp(a, port); dsym_assert(r == !!valid, "starts exactly on a valid address"); if (r) { dsym_assert(lastBind.count == 1 && lastBind.domain == AF_INET && lastBind.ip == want && lastBind.port == port, "exactly the address and port given"); dsym_assert(s->GetTcpIp() == want && s->GetTcpPort() == port, "reported"); { std::string is = s->GetTcpIpString(); dsym_assert(sameStr(is, a), "reported as text"); } dsym_reach("started"); } else { dsym_assert(openFds() == 2 && lastBind.count == 0 && s->GetType() == SocketTypeUndefined, "nothing left"); dsym_reach("failed"); } }
    dsym_assert(now() == w.t0, "nothing waits"); delete s; end(w);
}
// --- P40
struct Wait { Server* s; bool stopper; int t; int64_t at; bool clean; int n; int* b; bool un; }; static bool allGone(int* b, int n) { for (int i = 0; i < n; i++) if (!gone(b[i])) return false; return true; }
static bool released(Wait* k) { return allGone(k->b, k->n) && !(k->un ? listening(AF_UNIX, 0, 0, "/s") || exists("/s") : listening(AF_INET, LO, 4000, 0)) && k->s->GetType() == SocketTypeUndefined; }
static void waiter(void* p) { Wait* k = (Wait*)p; if (k->stopper) k->s->Stop(k->t); else k->s->WaitForStop(k->t); k->clean = released(k); k->at = now(); }
static SafeConnection* keep; static int64_t keepFor; static void keeper(void*) { nap(keepFor); delete keep; }
static void slowHandler(Connection* c, Request* r) { delete r; SafeConnection* x = sv->GetConnection(c->id); delete x; nap(2 * S); x = sv->GetConnection(c->id); delete x; c->Push(Request("done")); }
extern "C" void p40_stop() {
    World w = begin(); int un = dsym_param("unix", 0), handlers = dsym_range("handlers", 0, 1); Server* s = newServer(!un); int base = 2; if (!handlers) { s->SetConnectedHandler(0); s->SetDisconnectedHandler(0); } int n = dsym_range("peers", 0, dsym_param("peers", 2)), b[4]; static Msg m; fixMsg(m, 4, "hi"); env.sndbuf = 6; int64_t len = 0;
    for (int i = 0; i < n; i++) { b[i] = un ? dialUnix("/s") : dial(); settle(); int st = i == 0 ? dsym_range("state", 0, 5) : 0; uint32_t id = i + 1;
        if (st == 1) { deliver(b[i], m.f, m.n); deliver(b[i], m.f, 5); settle(); } else if (st == 2) { SafeConnection* x = s->GetConnection(id); (*x)().Push(Request("long one")); (*x)().Push(Request("x")); delete x; settle(); } else if (st == 3) { keep = s->GetConnection(id); keepFor = 3 * S; len = 3 * S; spawn(keeper, 0); } else if (st == 4) { SafeConnection* x = s->GetConnection(id); (*x)().SetHandlerDefault(slowHandler); delete x; deliver(b[i], m.f, m.n); settle(); len = 2 * S; } else if (st == 5) { SafeConnection* x = s->GetConnection(id); (*x)().Push(Request("x")); (*x)().Disconnect(false, false); delete x; } }
    bool pend = n < 3 && dsym_range("pending", 0, 1); schedule(); if (pend) { b[n] = un ? dialUnix("/s") : dial(); n++; } static Wait k[2]; int ts[2] = {-1, -1}; for (int i = 0; i < 2; i++) { k[i].s = s; k[i].stopper = i == 1; k[i].t = -1; k[i].at = -1; k[i].clean = false; k[i].n = n; k[i].b = b; k[i].un = un; } int second = dsym_range("callers", 0, 2); if (second >= 1) ts[0] = spawn(waiter, &k[0]); if (second == 2) ts[1] = spawn(waiter, &k[1]);
    int t = dsym_range("timeout", -1, 1); s->Stop(t); int64_t el = now() - w.t0; static Wait me; me = k[0]; if (t < 0) dsym_assert(released(&me), "everything is closed when Stop() returns"); if (t >= 0 && len > t * S) dsym_assert(el <= t * S, "waits no longer than asked"); else dsym_assert(el <= len, "waits no longer than necessary"); s->WaitForStop(-1); dsym_assert(released(&me), "everything is closed when WaitForStop() returns"); int64_t z = now() - w.t0; settle(); noSchedule(); dsym_assert(z <= len && now() - w.t0 <= len, "stops promptly");
    for (int i = 0; i < 2; i++) if (ts[i] >= 0) { dsym_assert(done(ts[i]), "every caller is released"); dsym_assert(k[i].clean, "callers are released only after everything was closed"); }
    for (int i = 0; i < 3; i++) { nap(S); settle(); } dsym_assert(threads() == 0 && openFds() == base && s->GetType() == SocketTypeUndefined, "not running any more"); if (un) dsym_assert(lastUnlink.count == 1 && !strcmp(lastUnlink.path, "/s"), "removes its own socket file only"); else dsym_assert(lastUnlink.count == 0, "no file is removed"); 
    int64_t t1 = now(); s->Stop(-1); s->Stop(5); s->WaitForStop(-1); s->WaitForStop(7); dsym_assert(now() == t1, "harmless when not running"); if (handlers) for (uint32_t id = 1; id < 4; id++) dsym_assert(count(1, id) <= 1 && count(2, id) <= 1, "handlers at most once");
    if (dsym_param("restart", 1)) { nev = 0; busy = 0; s->SetConnectedHandler(onCon); s->SetDisconnectedHandler(onDis); bool other = dsym_range("other", 0, 1); dsym_assert((un != 0) != other ? s->StartUnix("/s") : startTcp(s), "can be started again"); un = (un != 0) != other; env.sndbuf = 1024; int c = un ? dialUnix("/s") : dial(); settle(); dsym_assert(!backlogOf(c) && works(c, s, evs[nev - 1].id), "the new run works"); t1 = now(); s->WaitForStop(2); dsym_assert(now() == t1 + 2 * S && s->GetType() != SocketTypeUndefined && !gone(c), "WaitForStop() waits for the new run"); k[0].s = s; k[0].stopper = false; k[0].t = -1; k[0].n = 1; b[0] = c; k[0].un = un; int wt = spawn(waiter, &k[0]); settle(); dsym_assert(!done(wt), "waits"); s->Stop(-1); settle(); dsym_assert(done(wt) && k[0].clean, "released by the new stop"); dsym_assert(gone(c), "closed"); }
    dsym_reach("stopped"); delete s; end(w);
}
extern "C" void p40_destroy() { // destruction in any state
    World w = begin(); int st = dsym_range("state", 0, 4), un = dsym_range("unix", 0, 1); int b[2] = {-1, -1}; static Msg m; fixMsg(m, 4, "hi"); schedule(); Server* s; if (st == 0) { s = new Server(); } else s = newServer(!un); if (st >= 2) { b[0] = un ? dialUnix("/s") : dial(); if (dsym_range("settle", 0, 1)) settle(); } if (st == 3) { deliver(b[0], m.f, m.n); deliver(b[0], m.f, 4); } if (st == 4) s->Stop(0); delete s; settle(); noSchedule(); dsym_assert(now() == w.t0, "promptly"); if (b[0] >= 0) dsym_assert(gone(b[0]), "connections are closed"); dsym_assert(!listening(AF_INET, LO, 4000, 0) && !exists("/s"), "the address is released"); dsym_reach("destroyed"); end(w);
}
extern "C" void p40_race() { // Stop() while clients come, go and are looked up
    World w = begin(); Server* s = newServer(); rb[0] = rb[1] = rb[2] = -1; rb[3] = dial(); settle(); static Look k; k.s = s; k.n = 1; k.got = 0; k.id = 1; k.byTag = false; k.use = true; schedule(); int t0 = spawn(leaver, 0); int t1 = spawn(looker, &k); int c = dsym_range("arrives", 0, 1) ? dialTcp(LO, 4000) : -1; if (dsym_range("twice", 0, 1)) s->Stop(0); s->Stop(-1); dsym_assert(!listening(AF_INET, LO, 4000, 0) && s->GetType() == SocketTypeUndefined, "stopped"); settle(); noSchedule(); dsym_assert(done(t0) && done(t1) && now() == w.t0, "promptly"); if (c >= 0) dsym_assert(gone(c), "closed"); dsym_assert(openFds() == 2, "closed"); dsym_reach("stopped"); delete s; end(w);
}
// --- P41
extern "C" void p41_server() {
    World w = begin(); Server* s = newServer(); env.eintr = dsym_param("eintr", 1); env.eintrAfter = 0; int b[4]; b[0] = dial(); settle(); schedule(); int fails = dsym_range("acceptfails", 0, 1); if (fails) { static const int E[] = {ECONNABORTED, EMFILE, EINTR, EAGAIN, ENOBUFS}; env.failOp = OP_ACCEPT; env.failErrno = E[dsym_range("errno", 0, 4)]; } b[1] = dial(); if (dsym_range("gap", 0, 1)) settle(); b[2] = dial(); settle(); env.failOp = 0; if (dsym_range("leaves", 0, 1)) { closeMine(b[0]); settle(); dsym_assert(count(2, 1) == 1, "a departure is noticed"); b[0] = -1; }
    settle(); noSchedule(); dsym_assert(!backlogOf(b[1]) && !backlogOf(b[2]) && !gone(b[1]) && !gone(b[2]), "pending clients are served afterwards"); dsym_assert(nev == (b[0] < 0 ? 4 : 3), "announced once each"); for (int i = 0; i < nev; i++) if (evs[i].kind == 1 && !(evs[i].id == evs[0].id && b[0] < 0)) { int ok = 0; SafeConnection* x = s->GetConnection(evs[i].id); dsym_assert(x && (*x)().IsConnected(), "live connections are not disturbed"); delete x; (void)ok; } if (b[0] >= 0) dsym_assert(works(b[0], s, evs[0].id), "live connections work"); dsym_assert(now() == w.t0, "nothing waits"); env.eintr = 0; s->Stop(-1); dsym_assert(s->GetType() == SocketTypeUndefined, "stops"); dsym_reach("served"); delete s; end(w);
}
extern "C" void p41_conn() {
    World w = begin(200); int a, b; pair(AF_INET, &a, &b); env.sndbuf = 8; Connection* c = new Connection(a); watch(c, sizeof *c); env.eintr = dsym_param("eintr", 2); env.eintrAfter = dsym_range("later", 0, 1) * 5 * S; schedule(); static Msg m, x; fixMsg(m, 4, "hi", T_8U, 7); fixMsg(x, 5, "ho"); int cut = dsym_range("cut", 0, 1) * 6; deliver(b, m.f, cut); settle(); Wire wi; wi.fd = b; wi.n = 0; int64_t t0 = now(); deliver(b, m.f + cut, m.n - cut); Request* q = req(x); c->Push(q, false, 0, false); drain(wi); dsym_assert(now() == t0, "an interrupted wait stalls nothing"); expectPull(c, m, "received"); dsym_assert(wi.n == x.n && eqbytes(wi.b, x.f, x.n), "sent"); dsym_assert(c->IsConnected(), "still connected");
    int end_ = dsym_range("end", 0, 2); if (end_ == 0) { nap(25 * S); settle(); drain(wi); dsym_assert(c->IsConnected() && wi.n == x.n + 2 * 11, "keep-alives as usual"); c->Disconnect(true, true); } else if (end_ == 1) { q = req(x); c->Push(q, false, 0, false); c->Disconnect(false, false); t0 = now(); wi.n = 0; drain(wi); dsym_assert(wi.n >= x.n && eqbytes(wi.b, x.f, x.n) && now() == t0, "graceful disconnection"); } else { t0 = now(); q = c->Pull(7); dsym_assert(!q && now() == t0 + 7 * S, "waits as long as asked"); bool r = c->WaitForStop(3); dsym_assert(!r && now() == t0 + 10 * S, "waits as long as asked"); closeMine(b); settle(); } settle(); noSchedule(); env.eintr = 0; expectClosed(c, -1, "disconnected"); dsym_reach("done"); delete c; end(w);
}
// --- P42
static Server* stopIt; static int64_t stopAt; static void stopLater(void*) { nap(stopAt); stopIt->Stop(0); }
extern "C" void p42_server() { // Server::WaitForStop() and Stop() with any number of seconds
    World w = begin(3000000000ll); Server* s = newServer(); int t = sym<int>("timeout"), happens = dsym_param("happens", 0), f = dsym_param("fn", 0); int b = -1; if (f == 1) { b = dial(); settle(); keep = s->GetConnection(1u); (*keep)().SetOurSaInterval(3999999999ll); (*keep)().SetTheirNaIntervalLimit(3999999999ll); settle(); } stopIt = s; schedule(); int th = -1; if (happens) { stopAt = sym<int64_t>("delay"); dsym_assume(stopAt >= 0); dsym_assume(stopAt < 2200000000ll * S); } else dsym_assume(t >= 0);
    if (f == 0) { if (happens) th = spawn(stopLater, 0); s->WaitForStop(t); } else { keepFor = stopAt; if (happens) th = spawn(keeper, 0); s->Stop(t); }
    int64_t at = now() - w.t0; bool stopped = s->GetType() == SocketTypeUndefined; noSchedule(); if (th >= 0) joinThread(th); else if (f == 1) { delete keep; } 
    if (!happens) { dsym_assert(!stopped && at == (int64_t)t * S, "waits exactly the given number of seconds"); dsym_reach("waited"); } else if (t < 0) { dsym_assert(stopped && at == stopAt, "a negative time-out waits indefinitely"); dsym_reach("forever"); } else if (stopped) { dsym_assert(at == stopAt && at <= (int64_t)t * S, "released when it happens"); dsym_reach("happened"); } else { dsym_assert(at == (int64_t)t * S && stopAt >= at, "gives up after the given time"); dsym_reach("gave up"); }
    if (happens || f == 1) s->WaitForStop(-1); delete s; end(w);
}
// --- P19: client and server of this library, end to end
static void answer(Connection* c, Request* r) { r->SetName(r->GetName() + "!"); c->Push(r, false, 0, false); } static void onConAnswer(Server* s, Connection* c) { onCon(s, c); c->SetHandlerDefault(answer); }
extern "C" void p19_server() {
    World w = begin(); int un = dsym_param("unix", 0), nc = dsym_param("clients", 1), n = dsym_param("reqs", 2); Server* s = newServer(!un); s->SetConnectedHandler(onConAnswer); env.sndbuf = dsym_param("sndbuf", 1024); schedule(); Client* c[2]; static Msg m[2][3];
    for (int k = 0; k < nc; k++) { c[k] = new Client(); watch(c[k], sizeof *c[k]); dsym_assert(un ? c[k]->ConnectUnix("/s", 5) : c[k]->ConnectTcp(LOS, 4000, 5), "connected"); if (!dsym_param("fast", 0)) settle(); }
    for (int i = 0; i < n; i++) for (int k = 0; k < nc; k++) { symMsg(m[k][i], 2, i ? 0 : T_8U); m[k][i].name[1] = '0' + i; encode(m[k][i]); Request* q = req(m[k][i]); c[k]->Push(q, false, 0, false); }
    int end_ = dsym_range("end", 0, 2); if (!dsym_param("fast", 0)) for (int k = 0; k < nc; k++) for (int i = 0; i < n; i++) { m[k][i].name[2] = '!'; m[k][i].nlen = 3; Request* q = c[k]->Pull(-1); dsym_assert(q && isMsg(q, m[k][i]), "every request is answered, in order"); delete q; }
    if (end_ == 0) s->Stop(-1); else if (end_ == 1) for (int k = 0; k < nc; k++) c[k]->Disconnect(false, true); else for (int k = 0; k < nc; k++) { delete c[k]; c[k] = 0; }
    settle(); noSchedule(); if (end_) { if (s->GetType() != SocketTypeUndefined) for (int k = 0; k < nc; k++) dsym_assert(count(1, k + 1) == 1 && count(2, k + 1) == 1, "the server notices the end"); } for (int k = 0; k < nc; k++) if (c[k]) { dsym_assert(!c[k]->IsConnected(), "disconnected"); if (!dsym_param("fast", 0)) expectNone(c[k], "exactly once"); delete c[k]; }
    dsym_assert(now() == w.t0, "nothing waits"); dsym_reach("done"); delete s; end(w);
}
// --- P36, P37, P38: what is kept and what is forgotten when a server stops and starts again (of another kind, too)
extern "C" void p36_restart() {
    World w = begin(); Server* s = new Server(); watch(s, sizeof *s); sv = s; nev = 0; busy = 0; s->SetConnectedHandler(onCon); s->SetDisconnectedHandler(onDis); int lim = dsym_range("limit", -1, 2); s->SetMaxConnections(lim); int runs = dsym_param("runs", 2), b[3][3]; uint32_t last = 0; schedule();
    for (int r = 0; r < runs; r++) {
        bool un = dsym_range("unix", 0, 1); dsym_assert(un ? s->StartUnix("/s") : startTcp(s), "started"); dsym_assert(s->GetMaxConnections() == lim && s->GetConnectedHandler() == onCon && s->GetDisconnectedHandler() == onDis, "settings are kept"); int n = dsym_range("peers", 0, dsym_param("peers", 2)); nev = 0; busy = 0;
        for (int i = 0; i < n; i++) { b[r][i] = un ? dialUnix("/s") : dial(); dsym_assert(b[r][i] >= 0, "the server listens"); } settle();
        int want = lim < 0 || lim > n ? n : lim; dsym_assert(served(b[r], n) == want && nev == want, "as many clients as the limit allows are served"); for (int i = 0; i < want; i++) { dsym_assert(evs[i].kind == 1 && works(b[r][i], s, evs[i].id), "each one works"); last = evs[i].id; }
        if (want && dsym_range("leaves", 0, 1)) { closeMine(b[r][0]); settle(); int x = lim >= 0 && n > lim ? 1 : 0; dsym_assert(count(2, evs[0].id) == 1 && nev == want + 1 + x, "a pending client takes the free slot"); SafeConnection* c = s->GetConnection(evs[0].id); dsym_assert(!c, "not found once it ended"); b[r][0] = -1; dsym_reach("left"); }
        if (r + 1 < runs || dsym_range("stop", 0, 1)) { s->Stop(-1); for (int i = 0; i < n; i++) if (b[r][i] >= 0) dsym_assert(gone(b[r][i]) || backlogOf(b[r][i]), "closed"); SafeConnection* c = s->GetConnection(last); dsym_assert(!c, "no connection is found after the stop"); c = s->GetConnection(std::string("t1")); dsym_assert(!c, "no connection is found after the stop"); if (dsym_range("change", 0, 1)) { lim = dsym_range("newlimit", -1, 2); s->SetMaxConnections(lim); } dsym_reach("stopped"); }
    }
    noSchedule(); dsym_assert(now() == w.t0, "nothing waits"); delete s; end(w);
}
// handlers that change while the server runs: the one set when the connection arrives or ends is called
static int hc[4]; static void con0(Server* s, Connection* c) { note(1, s, c); hc[0]++; } static void con1(Server* s, Connection* c) { note(1, s, c); hc[1]++; } static void dis0(Server* s, Connection* c) { note(2, s, c); hc[2]++; } static void dis1(Server* s, Connection* c) { note(2, s, c); hc[3]++; }
extern "C" void p38_change() {
    World w = begin(); Server* s = new Server(); watch(s, sizeof *s); sv = s; nev = 0; for (int& x : hc) x = 0; ConnectionHandler C[3] = {0, con0, con1}, D[3] = {0, dis0, dis1}; int want[4] = {0, 0, 0, 0}, cc = 0, dd = 0; dsym_assert(startTcp(s), "started"); schedule(); int b[3], n = 0; bool left[3] = {false, false, false};
    for (int i = 0; i < dsym_param("steps", 3); i++) {
        cc = dsym_range("connected", 0, 2); dd = dsym_range("disconnected", 0, 2); s->SetConnectedHandler(C[cc]); s->SetDisconnectedHandler(D[dd]); dsym_assert(s->GetConnectedHandler() == C[cc] && s->GetDisconnectedHandler() == D[dd], "reads back");
        if (n && dsym_range("act", 0, 1)) { int k = dsym_range("who", 0, n - 1); if (left[k]) dsym_end_path(); left[k] = true; closeMine(b[k]); if (dd) want[1 + dd]++; } else { b[n++] = dial(); if (cc) want[cc - 1]++; }
        settle(); for (int k = 0; k < 4; k++) dsym_assert(hc[k] == want[k], "exactly the handler set at that time is called, once");
    }
    noSchedule(); for (int k = 0; k < n; k++) if (!left[k]) dsym_assert(works(b[k], s, k + 1), "the connections work"); dsym_assert(now() == w.t0, "nothing waits"); s->SetDisconnectedHandler(0); dsym_reach("done"); delete s; end(w);
}
// handlers that look other connections up while several of them come and go at once
static int np; static void lookAll(Server* s) { for (uint32_t id = 1; id <= (uint32_t)np + 1; id++) { SafeConnection* x = s->GetConnection(id); if (x) dsym_assert((*x)().id == id, "the connection with this ID"); delete x; } for (int i = 1; i <= np + 1; i++) { char t[3] = {'t', (char)('0' + i), 0}; SafeConnection* x = s->GetConnection(std::string(t)); if (x) dsym_assert((*x)().tag == t, "the connection with this tag"); delete x; } }
static void onConAll(Server* s, Connection* c) { onCon(s, c); lookAll(s); } static void onDisAll(Server* s, Connection* c) { onDis(s, c); lookAll(s); SafeConnection* x = s->GetConnection(c->id); dsym_assert(!x, "not found any more once it ended"); }
extern "C" void p37_handlers() {
    World w = begin(); Server* s = newServer(); np = dsym_param("peers", 3); s->SetConnectedHandler(onConAll); s->SetDisconnectedHandler(onDisAll); int b[4]; for (int i = 0; i < np; i++) b[i] = dial(); if (!dsym_param("fast", 0)) settle(); schedule(); bool left[4] = {false, false, false, false}; int n = np;
    for (int i = 0; i < np; i++) if (dsym_range("leaves", 0, 1)) { left[i] = true; closeMine(b[i]); } if (dsym_range("another", 0, 1)) b[n++] = dial(); if (dsym_range("stop", 0, 1)) { s->Stop(-1); settle(); noSchedule(); for (int i = 1; i <= n; i++) { SafeConnection* x = s->GetConnection((uint32_t)i); dsym_assert(!x, "none after the stop"); dsym_assert(count(2, i) <= count(1, i) && count(1, i) <= 1, "once"); } dsym_reach("stopped"); }
    else { settle(); noSchedule(); for (int i = 0; i < n; i++) { dsym_assert(count(1, i + 1) == 1 && count(2, i + 1) == left[i], "once"); if (left[i]) { SafeConnection* x = s->GetConnection((uint32_t)i + 1); dsym_assert(!x, "not found once it ended"); } else dsym_assert(works(b[i], s, i + 1), "the others work"); } dsym_reach("done"); }
    dsym_assert(now() == w.t0, "nothing waits"); delete s; end(w);
}
// the handlers themselves stop the server, change its limit, look connections up, use and end the connection
static int inAct, inWhere, inDone; static Msg inM;
static void inside(int where, Server* s, Connection* c) { // in the connected (0), disconnected (1) or request handler (2) of the first connection
    if (where != inWhere || inDone || c->id != 1) return; inDone = 1;
    switch (inAct) {
        case 0: s->Stop(); break;
        case 1: s->SetMaxConnections(0); dsym_assert(s->GetMaxConnections() == 0, "reads back"); break;
        case 2: s->SetMaxConnections(-1); break;
        case 3: dsym_assert(!startTcp(s) && !s->StartUnix("/other"), "a running server is not started again"); break;
        case 4: { Request* q = c->Pull(0); if (where == 1) dsym_assert(isMsg(q, inM), "what came before the end can still be pulled"); else dsym_assert(q == 0, "nothing to pull"); delete q; q = req(inM); c->Push(q, false, 0, false); break; }
        case 5: c->Disconnect(dsym_range("forced", 0, 1)); break;
        case 6: c->SetHandlerDefault(0); c->SetHandlerNamed("hi", 0); c->SetMaxRequestSize(100); c->SetRecvBlockSize(1); c->SetSendBlockSize(2); c->SetOurSaInterval(3); c->SetTheirNaIntervalLimit(4); break;
        case 7: s->SetConnectedHandler(0); s->SetDisconnectedHandler(0); break;
        default: { SafeConnection* x = s->GetConnection((uint32_t)2); if (x) { (*x)().Push(Request("note"), 0, false); delete x; } }
    }
}
static void insideReq(Connection* c, Request* r) { r->SetName("done"); inside(2, sv, c); c->Push(r, false, 0, false); }
static void insideCon(Server* s, Connection* c) { onCon(s, c); if (inWhere == 2 && !inDone && c->id == 1) c->SetHandlerDefault(insideReq); inside(0, s, c); } static void insideDis(Server* s, Connection* c) { onDis(s, c); inside(1, s, c); }
extern "C" void p38_inside() {
    World w = begin(); fixMsg(inM, 4, "hi"); static Msg out; fixMsg(out, 4, "done"); inAct = dsym_range("act", 0, 8); inWhere = dsym_range("where", 0, 2); inDone = 0; Server* s = newServer(); s->SetConnectedHandler(insideCon); s->SetDisconnectedHandler(insideDis); bool fast = dsym_param("fast", 0); if (fast && (inWhere == 2 || inAct == 4)) dsym_end_path(); schedule(); int a = dial(); if (!fast) settle(); int b = dialTcp(LO, 4000); if (!fast) settle();
    if (inWhere == 2 || inAct == 4) deliver(a, inM.f, inM.n); if (!fast) settle(); if (inWhere == 1) closeMine(a); settle(); noSchedule(); dsym_assert(now() == w.t0, "nothing waits"); dsym_assert(inDone, "the handler was called");
    for (uint32_t i = 1; i < 3; i++) dsym_assert(count(1, i) <= 1 && count(2, i) <= count(1, i), "at most once");
    if (inAct == 0) { dsym_assert(s->GetType() == SocketTypeUndefined, "stopped"); dsym_assert((inWhere == 1 || gone(a)) && (b < 0 || gone(b) || backlogOf(b)), "closed"); dsym_assert(startTcp(s), "can be started again"); nev = 0; int c = dial(); settle(); dsym_assert(nev == 1 && works(c, s, evs[0].id), "works again"); dsym_reach("stopped"); }
    else {
        dsym_assert(s->GetType() == SocketTypeTcp, "running"); bool waits = inAct == 1 && (inWhere == 0 || (fast && backlogOf(b))); if (waits) { dsym_assert(backlogOf(b), "not accepted"); s->SetMaxConnections(-1); settle(); } if (!backlogOf(b)) consume(b, avail(b)); dsym_assert(!backlogOf(b) && works(b, s, 2), "the other connection works"); if (inAct != 7) dsym_assert(count(1, 2) == 1, "announced"); 
        if (inWhere == 1 || inAct == 5) { SafeConnection* x = s->GetConnection((uint32_t)1); dsym_assert(!x, "ended"); if (inWhere != 1) dsym_assert(gone(a), "closed"); if (inAct != 7 || inWhere == 1) dsym_assert(count(2, 1) == 1, "taken back"); } else if (inWhere == 0) { consume(a, avail(a)); if (inAct == 4) { SafeConnection* x = s->GetConnection((uint32_t)1); expectPull(&(*x)(), inM, "queued"); delete x; } dsym_assert(works(a, s, 1), "the connection works"); } else dsym_assert(avail(a) >= out.n && eqbytes(data(a) + avail(a) - out.n, out.f, out.n), "answered"); dsym_reach("runs");
    }
    delete s; end(w);
}
// --- two servers in one process
static Server* two[2]; static int tc[2], td[2]; static void con2(Server* s, Connection* c) { int k = s == two[0] ? 0 : 1; dsym_assert(s == two[k], "the handler gets its server"); tc[k]++; c->tag = k ? "second" : "first"; } static void dis2(Server* s, Connection* c) { int k = s == two[0] ? 0 : 1; dsym_assert(s == two[k] && c->tag == (k ? "second" : "first"), "of its server"); td[k]++; }
static int dialTwo(int k, int kind) { return k == 0 ? dialTcp(LO, 4000) : kind ? dialTcp(LO, 4001) : dialUnix("/t"); } static bool startTwo(int k, int kind) { return k == 0 ? startTcp(two[0]) : kind ? startTcp(two[1], 4001) : two[1]->StartUnix("/t"); }
extern "C" void p40_two() {
    World w = begin(); int kind = dsym_range("kind", 0, 1), lim[2], b[2][3], n[2], want[2]; schedule();
    for (int k = 0; k < 2; k++) { two[k] = new Server(); watch(two[k], sizeof(Server)); tc[k] = td[k] = 0; two[k]->SetConnectedHandler(con2); two[k]->SetDisconnectedHandler(dis2); lim[k] = dsym_range("limit", 0, 2); if (lim[k] == 2) lim[k] = -1; two[k]->SetMaxConnections(lim[k]); }
    for (int k = 0; k < 2; k++) dsym_assert(startTwo(k, kind), "started"); for (int k = 0; k < 2; k++) { n[k] = 2; for (int i = 0; i < n[k]; i++) { b[k][i] = dialTwo(k, kind); dsym_assert(b[k][i] >= 0, "listens"); } } settle();
    for (int k = 0; k < 2; k++) { want[k] = lim[k] < 0 || lim[k] > n[k] ? n[k] : lim[k]; dsym_assert(served(b[k], n[k]) == want[k] && tc[k] == want[k] && td[k] == 0, "each server serves its own clients, as many as its limit allows"); for (int i = 0; i < want[k]; i++) dsym_assert(works(b[k][i], two[k], i + 1), "each connection works"); SafeConnection* x = two[k]->GetConnection(std::string(k ? "first" : "second")); dsym_assert(!x, "the other server's connections are not found"); x = two[k]->GetConnection((uint32_t)want[k] + 1); dsym_assert(!x, "not found"); }
    int k = dsym_range("whom", 0, 1), o = 1 - k, how = dsym_range("how", 0, 2); if (how == 0) two[k]->Stop(-1); else if (how == 1) { two[k]->Stop(0); settle(); } else { delete two[k]; two[k] = 0; } settle();
    for (int i = 0; i < n[k]; i++) dsym_assert(gone(b[k][i]) || backlogOf(b[k][i]), "closed"); dsym_assert(two[o]->GetType() != SocketTypeUndefined && two[o]->GetMaxConnections() == lim[o] && served(b[o], n[o]) == want[o] && td[o] == 0, "the other server keeps its connections"); for (int i = 0; i < want[o]; i++) dsym_assert(works(b[o][i], two[o], i + 1), "each of them works");
    if (two[k]) { dsym_assert(two[k]->GetType() == SocketTypeUndefined, "stopped"); int t = tc[k]; dsym_assert(startTwo(k, kind), "can be started again"); b[k][0] = dialTwo(k, kind); settle(); dsym_assert(tc[k] == t + (lim[k] != 0), "serves again"); dsym_reach("again"); } if (want[o]) { closeMine(b[o][0]); settle(); dsym_assert(td[o] == 1, "announced by the other server"); }
    noSchedule(); dsym_assert(now() == w.t0, "nothing waits"); for (Server* s : two) delete s; dsym_reach("done"); end(w);
}
// a thread that holds several connections waits for a request of one of them while the server stops or the connection ends
static int pullWhich, pullWait; static SafeConnection* held[3]; static bool pullGot; static void puller(void*) { Request* q = (*held[pullWhich])().Pull(pullWait ? -1 : 7); pullGot = q != 0; delete q; for (SafeConnection*& x : held) { delete x; x = 0; } }
extern "C" void p40_held() {
    World w = begin(); Server* s = newServer(); int n = dsym_param("peers", 2), b[3]; for (int i = 0; i < n; i++) { b[i] = dial(); settle(); } for (SafeConnection*& x : held) x = 0; pullWhich = dsym_range("pulls", 0, n - 1); pullWait = dsym_range("forever", 0, 1); for (int i = 0; i < n; i++) if (i == pullWhich || dsym_range("holds", 0, 1)) { held[i] = s->GetConnection((uint32_t)i + 1); dsym_assert(held[i] != 0, "found"); }
    schedule(); int t = spawn(puller, 0), how = dsym_range("how", 0, 2); if (dsym_range("waits", 0, 1)) settle(); if (how == 0) s->Stop(-1); else if (how == 1) { s->Stop(0); s->WaitForStop(-1); } else { delete s; s = 0; }
    settle(); noSchedule(); dsym_assert(done(t) && !pullGot, "the waiting thread is released"); dsym_assert(now() == w.t0, "nothing waits"); for (int i = 0; i < n; i++) dsym_assert(gone(b[i]), "every connection is closed"); if (s) { dsym_assert(s->GetType() == SocketTypeUndefined, "stopped"); delete s; } dsym_reach("stopped"); end(w);
}
