// P09-P16 once more: values, arrays, datums and requests beyond the sizes where representations change (short strings, 8 and 16 bit lengths)
#include "ref.h"
static const int SZ[] = {0, 1, 2, 4, 7, 8, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000};
static int sz(const char* nm, int max) { int k = 0; while (k < (int)(sizeof SZ / sizeof *SZ) && SZ[k] <= max) k++; return SZ[dsym_range(nm, 0, k - 1)]; }
// n bytes of a pattern, arbitrary ones at the ends, in the middle and around the places where 8 bits end
struct Blob { unsigned char* b; int n; Blob(int n_, int salt) : b(new unsigned char[n_ + 1]), n(n_) { for (int i = 0; i < n; i++) b[i] = (unsigned char)(i * 13 + (i >> 8) + salt); const int at[5] = {0, n - 1, n / 2, 255, 256}; for (int k = 0; k < 5; k++) if (at[k] >= 0 && at[k] < n) dsym_make_symbolic(b + at[k], 1, "byte"); b[n] = 0; } Blob(const Blob&) = delete; ~Blob() { delete[] b; }
    std::string s() const { return std::string((char*)b, n); } };
static int same(const std::string& s, const Blob& r) { return (int)s.size() == r.n && eqbytes(s.data(), r.b, r.n); }
static int holds(const ValueStr& v, const Blob& r) { return same(v.Get(), r) && same((std::string)v, r) && v.GetSize() == 9u + r.n; }
extern "C" void scale_string() { // from any size to any size by any of the ways to change a string
    uint64_t mark = dsym_live_bytes(); { int max = dsym_param("max", 257); Blob x(sz("from", max), 1), y(sz("to", dsym_param("tomax", max)), 5); ValueStr* v = dsym_range("made", 0, 1) ? new ValueStr(x.s()) : new ValueStr(); if (v->GetSize() == 9 && x.n) v->Set((char*)x.b, x.n); dsym_assert(holds(*v, x), "content");
    switch (dsym_range("op", 0, 5)) {
    case 0: v->Set(y.s()); break;
    case 1: v->Set((char*)y.b, y.n); break;
    case 2: { ValueStr o(y.s()); v->CopyFrom(&o); o.Set("other"); break; }
    case 3: { ValueStr o(y.s()); const char* e = o.Serialize(); dsym_assert(v->Deserialize(e, o.GetSize()) == 9u + y.n, "accepted"); delete[] e; break; }
    case 4: { Value* d = new ValueStr(y.s()); Datum t; t.SetName("a"); t.SetValue(v, true); t.SetValue(d, false); v->CopyFrom(t.GetValue()); break; }
    default: { std::string s = y.s(); v->Set(s); if (y.n) s[0] ^= 1; } }
    dsym_assert(holds(*v, y), "content after the change"); dsym_observe(y.n); delete v; dsym_reach("string"); } dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
static int valAt(ValueArr& a, int i, uint32_t x) { auto* p = dynamic_cast<Value32U*>(a.Get(i)); return p && p->Get() == x; }
extern "C" void scale_array() { // arrays of many elements: how they are made, one change anywhere (also out of range), everything checked
    uint64_t mark = dsym_live_bytes(); { static const int NS[] = {254, 255, 256, 257, 300}; int n = dsym_param("n", -1); if (n < 0) n = NS[dsym_range("count", 0, 4)]; ValueArr* a = new ValueArr(); int made = dsym_range("made", 0, 3);
    auto fill = [&](ValueArr* t) { for (int i = 0; i < n; i++) { Value32U v(i * 3 + 1); t->Push(&v); } };
    if (made == 0) fill(a); else if (made == 1) { a->New(n); dsym_assert((int)a->GetCount() == n, "New() makes that many"); for (int i = 0; i < n; i++) dsym_assert(a->Get(i) && a->Get(i)->GetType() == T_UNDEF, "New() makes undefined values"); for (int i = n - 1; i >= 0; i--) { Value32U v(i * 3 + 1); dsym_assert(a->Set(i, &v), "Set"); } } else if (made == 2) { ValueArr o; fill(&o); Value8U z(1); a->Push(&z); a->CopyFrom(&o); Value32U w(9); o.Set(0, &w); } else { ValueArr o; fill(&o); const char* e = o.Serialize(); dsym_assert(a->Deserialize(e, o.GetSize()) == o.GetSize(), "accepted"); delete[] e; }
    int at = -1, cnt = n; uint32_t x = sym<uint32_t>("num"); Value32U v(x); static const int AT[] = {0, 1, 127, 128, 253, 254, 255, 256, 257, 299};
    switch (dsym_range("op", 0, 4)) {
    case 0: { at = AT[dsym_range("at", 0, 9)]; bool ok = at < n; dsym_assert(a->Set(at, &v) == ok, "Set says whether the index exists"); if (!ok) at = -1; break; }
    case 1: a->Push(&v); at = n; cnt = n + 1; break;
    case 2: { uint32_t i = sym<uint32_t>("idx"); dsym_assume(i >= (uint32_t)n); dsym_assert(!a->Set(i, &v), "Set beyond the end does nothing"); dsym_assert(!a->Get(i), "Get beyond the end is null"); break; }
    case 3: { ValueArr o; o.CopyFrom(a); a->Clear(); dsym_assert(a->GetCount() == 0 && !a->Get(0), "Clear"); a->CopyFrom(&o); break; }
    default: a->CopyFrom(a); }
    dsym_assert((int)a->GetCount() == cnt, "count"); int ok = 1; for (int i = 0; i < cnt; i++) ok &= valAt(*a, i, i == at ? x : i * 3 + 1); dsym_assert(ok && !a->Get(cnt), "elements"); dsym_assert(a->GetSize() == 9u + 9u * cnt, "size"); delete a; dsym_observe(cnt); dsym_reach("array"); } dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
static std::string argNm(int i) { char b[8] = {'a', (char)('a' + i / 676 % 26), (char)('a' + i / 26 % 26), (char)('a' + i % 26), 0}; return b; }
extern "C" void scale_args() { // requests with many arguments: one of them set again, removed, or removed and set again
    uint64_t mark = dsym_live_bytes(); { int n = dsym_param("n", 300); Request* q = new Request("r"); for (int i = 0; i < n; i++) q->Emplace<Value32U>(argNm(i), (uint32_t)(i * 5)); static const int AT[] = {0, 1, 127, 128, 254, 255, 256, 257, -2, -1}; int at = AT[dsym_range("at", 0, 9)]; if (at < 0) at += n; if (at >= n) dsym_end_path(); uint32_t x = sym<uint32_t>("num"); int op = dsym_range("op", 0, 5), cnt = n;
    switch (op) {
    case 0: q->Set(argNm(at), new Value32U(x), false); break;
    case 1: { Value32U v(x); q->Set(argNm(at), v); break; }
    case 2: q->Set(argNm(at), 0, false); cnt--; break;
    case 3: q->Set(argNm(at), 0, true); q->Emplace<Value32U>(argNm(at), x); break;
    case 4: q->Emplace<Value32U>(argNm(at), x); break;
    default: q->Emplace<Value32U>(argNm(n), x); cnt++; at = n; }
    if (dsym_param("copied", 0)) { Request* c = new Request(); c->CopyFrom(q); delete q; q = c; }
    dsym_assert((int)q->GetArguments().size() == cnt, "one entry per name"); int i = 0, ok = 1, k = 0; bool gone = op == 2, last = op == 3;
    for (Datum* d : q->GetArguments()) { if ((gone || last) && i == at) i++; bool end = last && k == cnt - 1; int w = end ? at : i; std::string m = d->GetName(); auto* p = dynamic_cast<Value32U*>(d->GetValue()); ok &= m == argNm(w) && p && p->Get() == (w == at ? x : (uint32_t)w * 5); i++; k++; }
    dsym_assert(ok, "names, values and order"); Value* g = q->Get(argNm(at)); if (gone) dsym_assert(!g, "a removed argument is gone"); else { auto* p = dynamic_cast<Value32U*>(g); dsym_assert(p && p->Get() == x, "Get returns the last value"); }
    dsym_assert(!q->Get("aaa") && !q->Get("") && !q->Get("aaaaa"), "other names are not set"); delete q; dsym_observe(cnt); dsym_reach("args"); } dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
extern "C" void scale_names() { // two long names which are equal, differ in one place, or of which one continues the other
    uint64_t mark = dsym_live_bytes(); { static const int NL[] = {1, 2, 8, 15, 16, 17, 32, 33, 64, 255, 256, 257, 1000}; int n = NL[dsym_range("len", 0, 12)]; std::string a(n, 'x'); for (int i = 0; i < n; i++) a[i] = (char)('a' + i % 26); std::string b = a; int eq = 1, how = dsym_range("how", 0, 3);
    static const int AT[] = {0, 1, 7, 14, 15, 16, 31, 254, 255, 256}; int at = 0;
    if (how == 1 || how == 3) { int k = dsym_range("at", 0, 11); at = k == 10 ? n / 2 : k == 11 ? n - 1 : AT[k]; if (at >= n) dsym_end_path(); }
    if (how == 1) { unsigned char c = sym<unsigned char>("chr"); eq = c == (unsigned char)a[at]; b[at] = (char)c; } else if (how == 2) { b += (char)sym<unsigned char>("chr"); eq = 0; } else if (how == 3) { a[at] = b[at] = 0; b[n - 1] = (char)sym<unsigned char>("chr"); eq = b[n - 1] == a[n - 1]; }
    bool swap = dsym_range("swap", 0, 1); if (swap) std::swap(a, b);
    Request q; q.Emplace<Value32U>(a, 1u); q.Emplace<Value32U>(b, 2u); Value32U* x = dynamic_cast<Value32U*>(q.Get(a)); Value32U* y = dynamic_cast<Value32U*>(q.Get(b)); dsym_assert(x && y && y->Get() == 2, "the value set last");
    if (eq) dsym_assert(q.GetArguments().size() == 1 && x == y, "equal names are one argument"); else { dsym_assert(q.GetArguments().size() == 2 && x->Get() == 1, "different names are two arguments"); q.Set(a, 0, false); dsym_assert(!q.Get(a) && q.Get(b) == y && q.GetArguments().size() == 1, "the other one stays"); }
    dsym_observe(eq); dsym_reach(eq ? "equal" : "different"); } dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
extern "C" void scale_valid() { // validity of names of any size
    static const char sample[] = "aZ0_-mA9zb"; int n = sz("len", 70000); if (!n) dsym_end_path(); int k = dsym_range("at", 0, 4), at = k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : k == 3 ? 31 : 32; if (at >= n) dsym_end_path(); std::string s(n, 'a'); for (int i = 0; i < n; i++) s[i] = sample[i % 10]; unsigned char c = sym<unsigned char>("c"); s[at] = (char)c; Datum d; d.SetName(s); int g = d.GetValid();
    bool ok = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-'; dsym_assert(g == (n <= 32 && ok), "valid exactly for 1 to 32 allowed characters"); std::string t = d.GetName(); dsym_assert(t.size() == s.size() && eqbytes(t.data(), (const unsigned char*)s.data(), n), "the name is kept"); dsym_observe(g); dsym_reach(g ? "valid" : "invalid");
}
