// P01-P08: the codec.
#include "ref.h"

// --- P01
extern "C" void p01_value() {
    uint64_t mark = dsym_live_bytes();
    {
        Ref r; int lo = dsym_param("lo", 0), hi = dsym_param("hi", 10);
        anyRef(r, dsym_param("depth", 1), dsym_param("len", 3), dsym_param("el", 2), lo, hi);
        Value* v = build(r); uint32_t size = v->GetSize(); const char* s = v->Serialize();
        dsym_assert(size == encSize(r), "GetSize() is the length of the encoding");
        Value* w = fresh(r.type);
        if (dsym_param("used", 0) && r.type != T_ARR) { Ref o; symRef(o, r.type, 2); delete w; w = build(o); } // target with other content
        uint32_t used = w->Deserialize(s, size);
        dsym_assert(used == size, "used bytes == GetSize()");
        dsym_assert(w->GetSize() == size, "decoded value has the same size");
        dsym_assert(same(w, r), "decoded value equals the original");
        dsym_assert(same(v, r), "serializing does not change the value");
        dsym_observe(used); dsym_observe(r.num);
        delete[] s; delete v; delete w; dsym_reach("round trip");
    }
    dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
// --- P02
static void fillRequest(Request& q, int nargs, int depth, int len, int lo, int hi) {
    for (int i = 0; i < nargs; i++) { Ref r; anyRef(r, depth, len, 2, lo, hi); Value* v = build(r); std::string n = symName(dsym_param("argname", 1), "argname"); q.Set(n, v, false); }
}
extern "C" void p02_request() {
    uint64_t mark = dsym_live_bytes();
    {
        Request a(symName(dsym_param("namelen", 2))); a.SetId(sym<uint32_t>("id"));
        fillRequest(a, dsym_param("args", 1), dsym_param("depth", 1), dsym_param("len", 2), dsym_param("lo", 0), dsym_param("hi", 10));
        const char* s = a.Serialize(); uint32_t size = a.GetSize();
        Request b; if (dsym_param("used", 0)) { b.SetName("old"); b.SetId(77); b.Set("x", new Value8U(3), false); b.Set("y", new ValueStr("zz"), false); }
        uint32_t used = b.Deserialize((char*)s, size);
        dsym_assert(used == size, "used bytes == GetSize()");
        dsym_assert(b.GetSize() == size, "decoded request has the same size");
        dsym_assert(sameRequest(a, b), "decoded request equals the original");
        dsym_observe(size); dsym_observe(b.GetArguments().size()); delete[] s; dsym_reach("round trip");
    }
    dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
extern "C" void p02_datum() {
    uint64_t mark = dsym_live_bytes();
    {
        Ref r; anyRef(r, 1, dsym_param("len", 2), 1); Datum d; d.SetName(symName(dsym_param("namelen", 2))); d.SetValue(build(r), false);
        uint32_t size = d.GetSize(); char* s = d.Serialize(); Datum e;
        if (dsym_param("used", 0)) { e.SetName("former"); e.SetValue(new ValueStr("content"), false); }
        uint32_t used = e.Deserialize(s, size); std::string x = d.GetName(), y = e.GetName();
        dsym_assert(used == size, "used bytes == GetSize()"); dsym_assert(e.GetSize() == size, "decoded datum has the same size");
        dsym_assert(sameStr(x, y), "name"); dsym_assert(e.GetType() == r.type && same(e.GetValue(), r), "value");
        dsym_observe(used); delete[] s; dsym_reach("round trip");
    }
    dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
// --- P03
extern "C" void p03_value() {
    Ref r; anyRef(r, dsym_param("depth", 1), dsym_param("len", 2), dsym_param("el", 2), dsym_param("lo", 0), dsym_param("hi", 10));
    static unsigned char exp[512]; uint32_t size = (uint32_t)(enc(r, exp) - exp);
    Value* v = build(r); const char* s = v->Serialize();
    dsym_assert(v->GetSize() == size, "size of the encoding"); dsym_assert(eqbytes(s, exp, size), "bytes of the encoding");
    char* in = new char[size]; memcpy(in, exp, size); Value* w = fresh(r.type); uint32_t used = w->Deserialize(in, size);
    dsym_assert(used == size, "reference encoding is accepted"); dsym_assert(same(w, r), "reference encoding is understood");
    dsym_observe(used); delete[] s; delete[] in; delete v; delete w; dsym_reach("compared");
}
static uint32_t refRequest(unsigned char* o, uint32_t id, const std::string& name, const Ref* vals, const std::string* names, int n) {
    unsigned char* p = o + 10; for (size_t i = 0; i < name.size(); i++) *p++ = name[i];
    for (int i = 0; i < n; i++) { unsigned char* d = p; p += 6; for (size_t k = 0; k < names[i].size(); k++) *p++ = names[i][k]; p = enc(vals[i], p); put(d, p - d, 4); put(d + 4, names[i].size(), 2); }
    put(o, p - o, 4); put(o + 4, id, 4); put(o + 8, name.size(), 2); return p - o;
}
extern "C" void p03_request() {
    int n = dsym_param("args", 1); static Ref vals[3]; std::string names[3]; uint32_t id = sym<uint32_t>("id"); std::string name = symName(dsym_param("namelen", 2));
    for (int i = 0; i < n; i++) { anyRef(vals[i], dsym_param("depth", 0), dsym_param("len", 1), 1, dsym_param("lo", 0), dsym_param("hi", 10)); names[i] = std::string(1, (char)('a' + i)) + symName(1, "argname"); }
    static unsigned char exp[512]; uint32_t size = refRequest(exp, id, name, vals, names, n);
    Request q(name); q.SetId(id); for (int i = 0; i < n; i++) q.Set(names[i], build(vals[i]), false);
    const char* s = q.Serialize();
    dsym_assert(q.GetSize() == size, "size of the encoding"); dsym_assert(eqbytes(s, exp, size), "bytes of the encoding"); delete[] s;
    char* in = new char[size]; memcpy(in, exp, size); Request w; uint32_t used = w.Deserialize(in, size); delete[] in;
    dsym_assert(used == size, "reference encoding is accepted"); std::string wn = w.GetName();
    dsym_assert(w.GetId() == id && sameStr(wn, name) && (int)w.GetArguments().size() == n, "reference encoding is understood"); int i = 0;
    for (Datum* d : w.GetArguments()) { std::string dn = d->GetName(); dsym_assert(sameStr(dn, names[i]) && same(d->GetValue(), vals[i]), "argument of the reference encoding"); i++; }
    dsym_observe(used); dsym_reach("compared");
}
// --- P04 / P07
static void touch(Value* v, bool str) {
    if (!v) return; uint32_t n = v->GetSize(); const char* s = v->Serialize(); delete[] s; dsym_observe(n); dsym_observe(v->GetType());
    if (auto* a = dynamic_cast<ValueArr*>(v)) for (uint32_t i = 0; i < a->GetCount(); i++) touch(a->Get(i), str);
    if (auto* a = dynamic_cast<ValueStr*>(v)) { std::string g = a->Get(); dsym_observe(g.size()); }
    if (str) { std::string t = v->ToString(2); dsym_observe(t.size()); }
    ValueUndefined* u = dynamic_cast<ValueUndefined*>(v); Value* c = fresh(v->GetType()); if (u || v->GetType() <= T_ARR) c->CopyFrom(v); dsym_observe(c->GetSize()); delete c;
}
// the whole buffer is one exactly sized heap block, so every read outside it is seen
static char* symBuf(int n) { char* b = new char[n]; dsym_make_symbolic(b, n, "buf"); return b; }
extern "C" void p04_value() {
    uint64_t mark = dsym_live_bytes(); int n = dsym_param("n", 10), t = dsym_param("type", 9), again = dsym_param("again", 0); char* b = symBuf(n);
    if (dsym_param("limit", 0)) dsym_alloc_limit(512 + 16 * n);
    Value* v = fresh(t); uint32_t u = v->Deserialize(b, n); dsym_observe(u); if (u) dsym_reach("accepted"); else dsym_reach("rejected");
    dsym_assert(u <= (uint32_t)n, "reports at most the given bytes");
    if (again) { char* c = symBuf(again); touch(v, false); u = v->Deserialize(c, again); dsym_observe(u); delete[] c; } // reuse of a decoded object
    dsym_alloc_limit(0);
    touch(v, dsym_param("str", 0)); delete v; delete[] b; dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
extern "C" void p04_datum() {
    uint64_t mark = dsym_live_bytes(); int n = dsym_param("n", 14); char* b = symBuf(n);
    if (dsym_param("limit", 0)) dsym_alloc_limit(512 + 16 * n);
    { Datum d; uint32_t u = d.Deserialize(b, n); dsym_observe(u); dsym_alloc_limit(0); dsym_assert(u <= (uint32_t)n, "reports at most the given bytes"); if (u) dsym_reach("accepted"); else dsym_reach("rejected");
      std::string nm = d.GetName(); dsym_observe(nm.size()); dsym_observe(d.GetSize()); d.GetValid(); char* s = d.Serialize(); delete[] s; touch(d.GetValue(), false); }
    delete[] b; dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
extern "C" void p04_request() {
    uint64_t mark = dsym_live_bytes(); int n = dsym_param("n", 24), used = dsym_param("used", 0); char* b = symBuf(n);
    { Request q; if (used) q.Set("x", new ValueStr("old"), false);
      if (dsym_param("limit", 0)) dsym_alloc_limit(512 + 16 * n);
      uint32_t u = q.Deserialize(b, n); dsym_observe(u); dsym_alloc_limit(0); dsym_assert(u <= (uint32_t)n, "reports at most the given bytes"); if (u) dsym_reach("accepted"); else dsym_reach("rejected");
      std::string nm = q.GetName(); dsym_observe(nm.size()); dsym_observe(q.GetSize()); dsym_observe(q.GetId());
      const char* s = q.Serialize(); delete[] s; for (Datum* d : q.GetArguments()) touch(d->GetValue(), false);
      if (dsym_param("str", 0)) { std::string t = q.ToString(); dsym_observe(t.size()); }
      Request c; c.CopyFrom(&q); dsym_observe(c.GetSize()); q.Get("x"); }
    delete[] b; dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
// --- P05: reference acceptance rules. Returns 0 when the value at b must be rejected, given exactly n available bytes; otherwise its extent inside an array.
static uint32_t mustValue(const unsigned char* b, uint32_t n, int t, int depth) {
    if (n < 5) return 0; if (t >= 0 && b[0] != t) return 0; uint32_t len = (uint32_t)get(b + 1, 4); if (len > n - 5) return 0; int ty = b[0], w = intWidth(ty);
    if (w) return len < (uint32_t)w ? 0 : 5 + len;
    if (ty == T_STR) { if (len < 4) return 0; return (uint32_t)get(b + 5, 4) == len - 4 ? 5 + len : 0; }
    if (ty == T_ARR) { if (len < 4) return 0; if (depth <= 0) return 5 + len; uint32_t cnt = (uint32_t)get(b + 5, 4); if (cnt > (len - 4) / 5) return 0; return 5 + len; }
    return 5 + len;
}
extern "C" void p05_value() {
    int n = dsym_param("n", 12), t = dsym_param("type", 9); char* b = symBuf(n); Value* v = fresh(t); uint32_t u = v->Deserialize(b, n); dsym_observe(u);
    dsym_assert(u <= (uint32_t)n, "never more than the given bytes");
    uint32_t m = mustValue((unsigned char*)b, n, t, 1); if (!m) { dsym_assert(u == 0, "undersized or inconsistent value is rejected"); dsym_reach("must reject"); } else dsym_reach("may accept");
    delete v; delete[] b;
}
extern "C" void p05_datum() {
    int n = dsym_param("n", 14); char* b = symBuf(n); Datum d; uint32_t u = d.Deserialize(b, n); dsym_observe(u); dsym_assert(u <= (uint32_t)n, "never more than the given bytes");
    const unsigned char* p = (unsigned char*)b; bool bad = n < 6;
    if (!bad) { uint32_t tot = get(p, 4), nl = get(p + 4, 2); bad = tot > (uint32_t)n || tot < 6 + nl || !mustValue(p + 6 + dsym_concretize(nl), tot - 6 - nl, -1, 1); }
    if (bad) { dsym_assert(u == 0, "undersized or inconsistent datum is rejected"); dsym_reach("must reject"); } else dsym_reach("may accept");
    delete[] b;
}
extern "C" void p05_request() {
    int n = dsym_param("n", 20); char* b = symBuf(n); Request q; uint32_t u = q.Deserialize(b, n); dsym_observe(u); dsym_assert(u <= (uint32_t)n, "never more than the given bytes");
    const unsigned char* p = (unsigned char*)b; bool bad = n < 10; if (!bad) { uint32_t tot = get(p, 4), nl = get(p + 8, 2); bad = tot > (uint32_t)n || tot < 10 + nl; }
    if (bad) { dsym_assert(u == 0, "undersized or inconsistent request is rejected"); dsym_reach("must reject"); } else dsym_reach("may accept");
    delete[] b;
}
extern "C" void p05_prefix_value() {
    Ref r; anyRef(r, dsym_param("depth", 1), dsym_param("len", 2), dsym_param("el", 2), dsym_param("lo", 0), dsym_param("hi", 10));
    static unsigned char e[512]; int size = (int)(enc(r, e) - e); int k = dsym_range("cut", 0, size - 1);
    char* b = new char[k]; memcpy(b, e, k); Value* v = fresh(r.type); uint32_t u = v->Deserialize(b, k); dsym_observe(u);
    dsym_assert(u == 0, "strict prefix of a value is rejected"); delete v; delete[] b; dsym_reach("prefix");
}
extern "C" void p05_prefix_request() {
    int n = dsym_param("args", 1); static Ref vals[3]; std::string names[3]; uint32_t id = sym<uint32_t>("id"); std::string name = symName(dsym_param("namelen", 1));
    for (int i = 0; i < n; i++) { anyRef(vals[i], dsym_param("depth", 0), dsym_param("len", 1), 1, dsym_param("lo", 0), dsym_param("hi", 10)); names[i] = symName(1, "argname"); }
    static unsigned char e[512]; int size = refRequest(e, id, name, vals, names, n); int k = dsym_range("cut", 0, size - 1);
    char* b = new char[k]; memcpy(b, e, k); Request q; uint32_t u = q.Deserialize(b, k); dsym_observe(u); dsym_assert(u == 0, "strict prefix of a request is rejected"); delete[] b; dsym_reach("prefix");
    if (n) { // and of its first datum
        int off = 10 + name.size(), dl = (int)get(e + off, 4); if (k < dl) { char* c = new char[k]; memcpy(c, e + off, k); Datum d; dsym_assert(d.Deserialize(c, k) == 0, "strict prefix of a datum is rejected"); delete[] c; } }
}
// --- P06
extern "C" void p06_value() {
    Ref r; anyRef(r, dsym_param("depth", 1), dsym_param("len", 2), dsym_param("el", 2), dsym_param("lo", 0), dsym_param("hi", 10));
    static unsigned char e[512]; int size = (int)(enc(r, e) - e), tail = dsym_range("tail", 1, dsym_param("tail", 6)); char* b = new char[size + tail]; memcpy(b, e, size); dsym_make_symbolic(b + size, tail, "tailbytes");
    Value* v = fresh(r.type); uint32_t u = v->Deserialize(b, size + tail); dsym_observe(u); dsym_assert(u == (uint32_t)size, "used bytes do not include what follows"); dsym_assert(same(v, r), "content does not depend on what follows"); delete v; delete[] b; dsym_reach("tail");
}
extern "C" void p06_request() {
    int n = dsym_param("args", 1); static Ref vals[3]; std::string names[3]; uint32_t id = sym<uint32_t>("id"); std::string name = symName(dsym_param("namelen", 1));
    for (int i = 0; i < n; i++) { anyRef(vals[i], dsym_param("depth", 0), dsym_param("len", 1), 1, dsym_param("lo", 0), dsym_param("hi", 10)); names[i] = std::string(1, (char)('a' + i)); }
    static unsigned char e[512]; int size = refRequest(e, id, name, vals, names, n), tail = dsym_range("tail", 1, dsym_param("tail", 14)); char* b = new char[size + tail]; memcpy(b, e, size); dsym_make_symbolic(b + size, tail, "tailbytes");
    Request q; uint32_t u = q.Deserialize(b, size + tail); dsym_observe(u); dsym_assert(u == (uint32_t)size, "used bytes do not include what follows"); std::string qn = q.GetName();
    dsym_assert(q.GetId() == id && sameStr(qn, name) && (int)q.GetArguments().size() == n, "content does not depend on what follows"); int i = 0;
    for (Datum* d : q.GetArguments()) { std::string dn = d->GetName(); dsym_assert(sameStr(dn, names[i]) && same(d->GetValue(), vals[i]), "argument does not depend on what follows"); i++; }
    if (n) { int off = 10 + name.size(), dl = (int)get(e + off, 4); Datum d; uint32_t du = d.Deserialize(b + off, size + tail - off); std::string dn = d.GetName(); dsym_assert(du == (uint32_t)dl && sameStr(dn, names[0]) && same(d.GetValue(), vals[0]), "datum does not depend on what follows"); }
    delete[] b; dsym_reach("tail");
}
// --- P08
extern "C" void p08_value() {
    int n = dsym_param("n", 12), t = dsym_param("type", 9); char* b = symBuf(n); Value* v = fresh(t); uint32_t u = v->Deserialize(b, n); dsym_observe(u);
    if (u) { uint32_t size = v->GetSize(); const char* s = v->Serialize(); Value* w = fresh(t); uint32_t u2 = w->Deserialize(s, size); dsym_assert(u2 == size, "the re-encoding decodes completely");
        dsym_assert(sameValue(v, w), "the re-encoding has the same content"); delete w; delete[] s; dsym_reach("accepted"); }
    delete v; delete[] b;
}
extern "C" void p08_request() {
    int n = dsym_param("n", 22); char* b = symBuf(n); Request q; uint32_t u = q.Deserialize(b, n); dsym_observe(u);
    if (u) { uint32_t size = q.GetSize(); const char* s = q.Serialize(); dsym_assert((uint32_t)get((const unsigned char*)s, 4) == size, "declared length is the size"); Request w; uint32_t u2 = w.Deserialize((char*)s, size); dsym_assert(u2 == size, "the re-encoding decodes completely"); dsym_assert(sameRequest(q, w), "the re-encoding has the same content"); delete[] s; dsym_reach("accepted"); if (q.GetArguments().size()) dsym_reach("with arguments"); }
    delete[] b;
}
extern "C" void p08_datum() {
    int n = dsym_param("n", 16); char* b = symBuf(n); Datum d; uint32_t u = d.Deserialize(b, n); dsym_observe(u);
    if (u) { uint32_t size = d.GetSize(); char* s = d.Serialize(); Datum e; uint32_t u2 = e.Deserialize(s, size); dsym_assert(u2 == size, "the re-encoding decodes completely"); std::string x = d.GetName(), y = e.GetName(); dsym_assert(sameStr(x, y) && sameValue(d.GetValue(), e.GetValue()), "the re-encoding has the same content"); delete[] s; dsym_reach("accepted"); }
    delete[] b;
}
// --- sizes beyond 8 and 16 bit: a few bytes are arbitrary, the others follow a pattern
static const int SIZES[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097};
static int bigSize(const char* nm, int def, int lo = 0) { int n = dsym_param(nm, def); if (n >= 0) return n; n = SIZES[dsym_range("size", 0, (int)(sizeof SIZES / sizeof *SIZES) - 1)]; if (n < lo) dsym_end_path(); return n; } // -1: any of the sizes
static int bigPos_[8], nbig_; static int bigPos(int n) { nbig_ = 0; const int p[6] = {0, 254, 255, n / 2, 65535, n - 1}; for (int k : p) { bool dup = k < 0 || k >= n; for (int i = 0; i < nbig_; i++) dup |= bigPos_[i] == k; if (!dup) bigPos_[nbig_++] = k; } return nbig_; }
static char* bigBytes(int n) { char* b = new char[n]; for (int i = 0; i < n; i++) b[i] = (char)(i * 7 + (i >> 8)); int k = bigPos(n); for (int i = 0; i < k; i++) dsym_make_symbolic(b + bigPos_[i], 1, "byte"); return b; }
// reference encoding; kind 0: string, 1: raw, 2: array of two halves, 3: array in an array, 4: array of n numbers
static char* bigEnc(int kind, const char* c, int n, uint32_t& size) {
    uint32_t one = kind == 1 ? 5 + n : 9 + n; size = kind <= 1 ? one : kind == 2 ? 9 + 2 * 9 + n : kind == 3 ? 18 + one : 9 + 6 * n; unsigned char* e = new unsigned char[size]; unsigned char* p = e;
    auto head = [&](int t, uint32_t len) { *p = t; put(p + 1, len, 4); p += 5; }; auto str = [&](const char* s, uint32_t k) { head(T_STR, k + 4); put(p, k, 4); p += 4; memcpy(p, s, k); p += k; };
    if (kind == 0) str(c, n); else if (kind == 1) { head(T_UNDEF, n); memcpy(p, c, n); } else { head(T_ARR, size - 5); put(p, kind == 2 ? 2 : kind == 3 ? 1 : n, 4); p += 4; if (kind == 2) { str(c, n / 2); str(c + n / 2, n - n / 2); } else if (kind == 3) { head(T_ARR, size - 14); put(p, 1, 4); p += 4; str(c, n); } else for (int i = 0; i < n; i++) { head(T_8U, 1); *p++ = c[i]; } }
    return (char*)e;
}
static Value* bigBuild(int kind, const char* c, int n) {
    if (kind == 0) { if (dsym_range("how", 0, 1)) return new ValueStr(std::string(c, n)); ValueStr* s = new ValueStr(); s->Set(c, n); return s; }
    if (kind == 1) { uint32_t k; char* e = bigEnc(1, c, n, k); Value* u = new ValueUndefined(); dsym_assert(u->Deserialize(e, k) == k, "raw value"); delete[] e; return u; }
    ValueArr* a = new ValueArr(); if (kind == 2) { ValueStr s(std::string(c, n / 2)), t(std::string(c + n / 2, n - n / 2)); a->Push(&s); a->Push(&t); } else if (kind == 3) { ValueArr i; ValueStr s(std::string(c, n)); i.Push(&s); a->Push(&i); } else for (int i = 0; i < n; i++) { Value8U v((uint8_t)c[i]); a->Push(&v); }
    return a;
}
static int bigSame(int kind, Value* v, const char* c, int n) {
    auto is = [&](Value* x, const char* s, int k) { auto* p = dynamic_cast<ValueStr*>(x); if (!p) return 0; std::string g = p->Get(); return (int)((int)g.size() == k && eqbytes(g.data(), s, k)); };
    if (kind == 0) return is(v, c, n); if (kind == 1) { auto* u = dynamic_cast<ValueUndefined*>(v); if (!u || u->GetSize() != 5u + n) return 0; const char* s = u->Serialize(); int ok = eqbytes(s + 5, c, n); delete[] s; return ok; }
    auto* a = dynamic_cast<ValueArr*>(v); if (!a) return 0; if (kind == 2) return a->GetCount() == 2 && is(a->Get(0), c, n / 2) && is(a->Get(1), c + n / 2, n - n / 2);
    if (kind == 3) { auto* i = a->GetCount() == 1 ? dynamic_cast<ValueArr*>(a->Get(0)) : 0; return i && i->GetCount() == 1 && is(i->Get(0), c, n); }
    if ((int)a->GetCount() != n) return 0; for (int i = 0; i < n; i++) { auto* p = dynamic_cast<Value8U*>(a->Get(i)); if (!p || p->Get() != (uint8_t)c[i]) return 0; } return 1;
}
extern "C" void big_value() { // what: 1 round trip, 2 reference bytes, 4 strict prefixes, 8 followed by other bytes, 16 copies
    uint64_t mark = dsym_live_bytes(); int kind = dsym_param("kind", 0), n = bigSize("n", 70000), what = dsym_param("what", 1); uint32_t size; char* c = bigBytes(n); char* e = bigEnc(kind, c, n, size); int t = kind == 0 ? T_STR : kind == 1 ? T_UNDEF : T_ARR;
    if (what & 3) { Value* v = bigBuild(kind, c, n); dsym_assert(v->GetSize() == size, "size of the encoding"); const char* s = v->Serialize(); if (what & 2) dsym_assert(eqbytes(s, e, size), "bytes of the encoding"); Value* w = fresh(t); dsym_assert(w->Deserialize(what & 2 ? e : s, size) == size, "the encoding is accepted"); dsym_assert(w->GetSize() == size, "decoded value has the same size"); dsym_assert(bigSame(kind, w, c, n) && bigSame(kind, v, c, n), "decoded value equals the original"); delete[] s; delete v; delete w; }
    if (what & 4) { int cut = dsym_range("cut", 0, 5); const uint32_t cuts[6] = {size - 1, size - 4, size / 2, size - 65535, size - 65536, size - 256}; uint32_t k = cuts[cut]; if (k >= size) dsym_end_path(); char* b = new char[k]; memcpy(b, e, k); Value* w = fresh(t); dsym_assert(w->Deserialize(b, k) == 0, "strict prefix of a value is rejected"); delete w; delete[] b; }
    if (what & 8) { char* b = new char[size + 3]; memcpy(b, e, size); dsym_make_symbolic(b + size, 3, "tailbytes"); Value* w = fresh(t); dsym_assert(w->Deserialize(b, size + 3) == size, "used bytes do not include what follows"); dsym_assert(bigSame(kind, w, c, n), "content does not depend on what follows"); delete w; delete[] b; }
    if (what & 16) { Value* v = bigBuild(kind, c, n); Value* w = fresh(t); w->CopyFrom(v); Datum d; d.SetValue(v, true); delete v; dsym_assert(bigSame(kind, w, c, n) && bigSame(kind, d.GetValue(), c, n), "the copy has the same content"); delete w; }
    dsym_observe(size); delete[] c; delete[] e; dsym_reach("big"); dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
// requests: name of namelen bytes, args arguments with names of argname bytes and strings of n bytes
extern "C" void big_request() {
    uint64_t mark = dsym_live_bytes(); { int nl = bigSize("namelen", 1), na = dsym_param("args", 1), al = bigSize("argname", 1, 1), n = bigSize("n", 1), what = dsym_param("what", 1); uint32_t id = sym<uint32_t>("id"); char *name = bigBytes(nl), *an = bigBytes(al), *c = bigBytes(n);
    auto argName = [&](int i) { std::string s(an, al); s[al - 1] = (char)i; if (al > 1) s[al - 2] = (char)(i >> 8); return s; };
    uint32_t dl = 6 + al + 9 + n, size = 10 + nl + na * dl; unsigned char* e = new unsigned char[size]; put(e, size, 4); put(e + 4, id, 4); put(e + 8, nl, 2); memcpy(e + 10, name, nl); unsigned char* p = e + 10 + nl;
    for (int i = 0; i < na; i++) { put(p, dl, 4); put(p + 4, al, 2); std::string s = argName(i); memcpy(p + 6, s.data(), al); unsigned char* v = p + 6 + al; v[0] = T_STR; put(v + 1, n + 4, 4); put(v + 5, n, 4); memcpy(v + 9, c, n); p += dl; }
    auto check = [&](Request& q) { std::string x = q.GetName(); dsym_assert(q.GetId() == id && (int)x.size() == nl && eqbytes(x.data(), name, nl) && (int)q.GetArguments().size() == na, "ID, name and number of arguments"); int i = 0, ok = 1; for (Datum* d : q.GetArguments()) { std::string m = d->GetName(), w = argName(i++); ok &= sameStr(m, w); auto* s = dynamic_cast<ValueStr*>(d->GetValue()); if (!s) { ok = 0; break; } std::string g = s->Get(); ok &= (int)g.size() == n && eqbytes(g.data(), c, n); } dsym_assert(ok, "arguments"); };
    if (what & 3) { Request q(std::string(name, nl)); q.SetId(id); for (int i = 0; i < na; i++) q.Set(argName(i), new ValueStr(std::string(c, n)), false); dsym_assert(q.GetSize() == size, "size of the encoding"); const char* s = q.Serialize(); if (what & 2) dsym_assert(eqbytes(s, e, size), "bytes of the encoding"); Request w; dsym_assert(w.Deserialize(what & 2 ? (char*)e : (char*)s, size) == size, "the encoding is accepted"); dsym_assert(w.GetSize() == size, "decoded request has the same size"); check(w); check(q); if (what & 16) { Request y; y.Set("old", new Value8U(1), false); y.CopyFrom(&w); check(y); } delete[] s; }
    if (what & 4) { int cut = dsym_range("cut", 0, 5); const uint32_t cuts[6] = {size - 1, size - 4, size / 2, size - 65535, size - 65536, size - 256}; uint32_t k = cuts[cut]; if (k < size) { char* b = new char[k]; memcpy(b, e, k); Request w; dsym_assert(w.Deserialize(b, k) == 0, "strict prefix of a request is rejected"); delete[] b; } }
    if (what & 8) { char* b = new char[size + 3]; memcpy(b, e, size); dsym_make_symbolic(b + size, 3, "tailbytes"); Request w; dsym_assert(w.Deserialize(b, size + 3) == size, "used bytes do not include what follows"); check(w); delete[] b; }
    dsym_observe(size); delete[] e; delete[] name; delete[] an; delete[] c; dsym_reach("big"); } dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}

// arrays nested in arrays, as deep as n
extern "C" void deep_value() {
    uint64_t mark = dsym_live_bytes(); static const int DP[] = {31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 1000, 1024}; int max = dsym_param("max", 20), n = dsym_range("depth", 1, max + dsym_param("deep", 0)); if (n > max) n = DP[n - max - 1]; int what = dsym_param("what", 1); uint32_t size = 9 * n + 9; unsigned char* e = new unsigned char[size + 3]; unsigned char* p = e; for (int i = 0; i < n; i++) { *p = T_ARR; put(p + 1, size - 9 * i - 5, 4); put(p + 5, 1, 4); p += 9; } int32_t x = sym<int32_t>("num"); *p = T_32S; put(p + 1, 4, 4); put(p + 5, (uint32_t)x, 4);
    auto is = [&](Value* v) { for (int i = 0; i < n; i++) { auto* a = dynamic_cast<ValueArr*>(v); if (!a || a->GetCount() != 1) return false; v = a->Get(0); } auto* y = dynamic_cast<Value32S*>(v); return y && y->Get() == x; };
    Value* v; { Value* in = new Value32S(x); for (int i = 0; i < n; i++) { ValueArr* a = new ValueArr(); a->Push(in); delete in; in = a; } v = in; } dsym_assert(is(v), "content");
    if (what & 3) { dsym_assert(v->GetSize() == size, "size of the encoding"); const char* s = v->Serialize(); if (what & 2) dsym_assert(eqbytes(s, e, size), "bytes of the encoding"); ValueArr w; dsym_assert(w.Deserialize(what & 2 ? (char*)e : s, size) == size && is(&w), "decoded value equals the original"); delete[] s; }
    if (what & 4) { uint32_t k = dsym_range("cut", 0, size - 1); char* b = new char[k]; memcpy(b, e, k); ValueArr w; dsym_assert(w.Deserialize(b, k) == 0, "strict prefix of a value is rejected"); delete[] b; }
    if (what & 8) { dsym_make_symbolic(e + size, 3, "tailbytes"); ValueArr w; dsym_assert(w.Deserialize((char*)e, size + 3) == size && is(&w), "content does not depend on what follows"); }
    if (what & 16) { ValueArr w; w.CopyFrom(v); delete v; v = 0; dsym_assert(is(&w), "the copy has the same content"); }
    if (what & 32) { touch(v, false); } delete v; delete[] e; dsym_reach("deep"); dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
// a valid request with several arguments of which one or two stretches of w bytes are arbitrary
static int example(unsigned char* e) {
    static Ref in[6], arr[2], top[4]; auto num = [](Ref& r, int t, uint64_t v) { r.type = t; r.num = v; r.len = 0; r.el = 0; r.n = 0; }; auto bytes = [](Ref& r, int t, const char* s) { r.type = t; r.num = 0; r.len = strlen(s); memcpy(r.bytes, s, r.len); r.el = 0; r.n = 0; }; auto list = [](Ref& r, Ref* el, int n) { r.type = T_ARR; r.num = 0; r.len = 0; r.el = el; r.n = n; };
    num(in[0], T_8U, 200); bytes(in[1], T_STR, "xy"); num(arr[0], T_64S, 0x8877665544332211ull); bytes(arr[1], T_UNDEF, "raw"); list(in[2], arr, 2); bytes(in[3], T_STR, ""); bytes(top[0], T_STR, "hello"); num(top[1], T_32S, 0xfffffffe); list(top[2], in, 4); bytes(top[3], T_UNDEF, "data"); std::string nm[4] = {"a", "bb", "list", "r"}; return refRequest(e, 0x01020304, "req", top, nm, 4);
}
extern "C" void mutant() { // what: 1 every accessor, 2 allocations, 4 re-encoding, 8 reports no more than given; only: 0 the whole request, 1 its array value
    uint64_t mark = dsym_live_bytes(); static unsigned char e[256]; int size = example(e), w = dsym_param("w", 4), what = dsym_param("what", 1), off = 0; bool arr = dsym_param("only", 0); if (arr) { off = 10 + 3 + (6 + 1 + 14) + (6 + 2 + 9) + 6 + 4; size = (int)get(e + off + 1, 4) + 5; }
    char* b = new char[size]; memcpy(b, e + off, size); for (int i = 0; i < dsym_param("stretches", 1); i++) { int at = dsym_range("at", 0, size - w); dsym_make_symbolic(b + at, w, "bytes"); }
    if (what & 2) dsym_alloc_limit(512 + 16 * size);
    if (arr) { ValueArr v; uint32_t u = v.Deserialize(b, size); dsym_observe(u); dsym_alloc_limit(0); dsym_assert(u <= (uint32_t)size, "reports at most the given bytes"); if (what & 1) touch(&v, false); if (u && (what & 4)) { const char* s = v.Serialize(); ValueArr x; uint32_t n = v.GetSize(); dsym_assert(x.Deserialize(s, n) == n && sameValue(&v, &x), "the re-encoding has the same content"); delete[] s; } dsym_reach(u ? "accepted" : "rejected"); }
    else { Request q; uint32_t u = q.Deserialize(b, size); dsym_observe(u); dsym_alloc_limit(0); dsym_assert(u <= (uint32_t)size, "reports at most the given bytes"); if (what & 1) { std::string nm = q.GetName(); dsym_observe(nm.size()); for (Datum* d : q.GetArguments()) { touch(d->GetValue(), false); d->GetValid(); } Request c; c.CopyFrom(&q); dsym_observe(c.GetSize()); q.Get("list"); } if (u && (what & 4)) { uint32_t n = q.GetSize(); const char* s = q.Serialize(); Request x; dsym_assert(x.Deserialize((char*)s, n) == n && sameRequest(q, x), "the re-encoding has the same content"); delete[] s; } dsym_reach(u ? "accepted" : "rejected"); }
    delete[] b; dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
// hostile nesting: n arrays inside of each other, as a value and as an argument; the innermost bytes are arbitrary
extern "C" void deep_hostile() {
    uint64_t mark = dsym_live_bytes(); static const int NS[] = {1, 500, 1023, 1024, 1025, 2000, 150000}; int n = NS[dsym_range("depth", 0, 6)], rest = dsym_param("rest", 0), size = 9 * n + rest; unsigned char* e = new unsigned char[size]; for (int i = 0; i < n; i++) { e[9 * i] = T_ARR; put(e + 9 * i + 1, size - 9 * i - 5, 4); put(e + 9 * i + 5, 1, 4); } if (rest) dsym_make_symbolic(e + 9 * n, rest, "bytes"); else put(e + 9 * n - 4, 0, 4);
    auto deepTouch = [&](Value* v) { uint32_t k = v->GetSize(); const char* s = v->Serialize(); ValueArr x; dsym_assert(x.Deserialize(s, k) == k, "accepted values re-encode"); delete[] s; };
    if (dsym_param("arg", 0)) { char* b = new char[size + 18]; put((unsigned char*)b, size + 18, 4); put((unsigned char*)b + 4, 7, 4); put((unsigned char*)b + 8, 1, 2); b[10] = 'q'; put((unsigned char*)b + 11, size + 7, 4); put((unsigned char*)b + 15, 1, 2); b[17] = 'a'; memcpy(b + 18, e, size); Request q; uint32_t u = q.Deserialize(b, size + 18); dsym_assert(u <= (uint32_t)size + 18, "reports at most the given bytes"); if (u) for (Datum* d : q.GetArguments()) deepTouch(d->GetValue()); Request c; c.CopyFrom(&q); dsym_observe(u); dsym_reach(u ? "accepted" : "rejected"); delete[] b; }
    else { ValueArr v; uint32_t u = v.Deserialize((char*)e, size); dsym_assert(u <= (uint32_t)size, "reports at most the given bytes"); if (u) deepTouch(&v); ValueArr c; c.CopyFrom(&v); dsym_observe(u); dsym_reach(u ? "accepted" : "rejected"); }
    delete[] e; dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
