// P09-P16: values, arrays, datums and requests as containers.
#include "ref.h"

// operation number k of a history; the first ones can be fixed to split the work
static int opOf(int k, int max) { long f = k == 0 ? dsym_param("first", -1) : k == 1 ? dsym_param("second", -1) : -1; return f >= 0 ? (int)f : dsym_range("op", 0, max); }
// ---------------------------------------------------------------- P09
static int expectDec(const std::string& s, bool neg, uint64_t mag) { // s ends with the decimal form of the number, which is preceded by a blank
    char d[24]; int n = 0; uint64_t m = mag; do { d[n++] = (char)('0' + m % 10); m /= 10; } while (m); if (neg) d[n++] = '-';
    if ((int)s.size() <= n) return 0; int ok = s[s.size() - n - 1] == ' '; for (int i = 0; i < n; i++) ok &= s[s.size() - 1 - i] == d[i]; return ok;
}
template<class C, class I> static void intCase(uint8_t code) {
    C dflt; dsym_assert(dflt.Get() == 0, "default is 0"); dsym_assert(dflt.GetType() == code, "type code of the class");
    I v = sym<I>("v"), w = sym<I>("w"); C a(v); dsym_assert(a.Get() == v, "constructor"); dsym_assert((I)a == v, "conversion"); dsym_assert(a.GetType() == code, "type code");
    C b(w); b.CopyFrom(&a); dsym_assert(b.Get() == v && a.Get() == v, "CopyFrom"); a.Set(w); dsym_assert(a.Get() == w && b.Get() == v, "Set");
    b.CopyFrom(&b); dsym_assert(b.Get() == v, "CopyFrom itself"); C c = v; dsym_assert(c.Get() == v, "initialization");
    Value* p = &a; p->CopyFrom(&b); dsym_assert(a.Get() == v, "CopyFrom through the base class"); dsym_assert(a.GetSize() == 5 + sizeof(I), "size"); dsym_observe((uint64_t)a.Get()); dsym_reach("int");
}
extern "C" void p09_ints() {
    switch (dsym_range("type", 1, 8)) { case T_64S: intCase<Value64S, int64_t>(T_64S); break; case T_64U: intCase<Value64U, uint64_t>(T_64U); break; case T_32S: intCase<Value32S, int32_t>(T_32S); break; case T_32U: intCase<Value32U, uint32_t>(T_32U); break;
    case T_16S: intCase<Value16S, int16_t>(T_16S); break; case T_16U: intCase<Value16U, uint16_t>(T_16U); break; case T_8S: intCase<Value8S, int8_t>(T_8S); break; default: intCase<Value8U, uint8_t>(T_8U); }
}
template<class C, class I> static void strCase() {
    // numbers around the corners of the type: the low bits are arbitrary
    int bits = dsym_param("bits", 4); const int w = 8 * sizeof(I); const bool sgn = (I)~(I)0 < 0; uint64_t top = sgn ? ((uint64_t)1 << (w - 1)) - 1 : ~(uint64_t)0 >> (64 - w), mask = (((uint64_t)1 << bits) - 1) & top, base;
    switch (dsym_range("corner", 0, 4)) { case 0: base = 0; break; case 1: base = top; break; case 2: base = 96; break; case 3: base = w >= 32 ? 1000000000 : 64; break; default: base = w == 64 ? 1000000000000000000ull : w == 32 ? 1000000 : 96; }
    uint64_t mag = (base & ~mask) | (sym<uint64_t>("low") & mask); bool neg = sgn && dsym_range("neg", 0, 1); if (neg && dsym_range("min", 0, 1)) mag = top + 1; // also the most negative number
    I v = (I)(neg ? 0 - mag : mag); if (mag == 0) neg = false; C a(v); std::string s = a.ToString(); dsym_assert(expectDec(s, neg, mag), "ToString() ends with the number in decimal");
    dsym_observe(s.size()); dsym_reach("text");
}
extern "C" void p09_text() {
    switch (dsym_param("type", 1)) { case T_64S: strCase<Value64S, int64_t>(); break; case T_64U: strCase<Value64U, uint64_t>(); break; case T_32S: strCase<Value32S, int32_t>(); break; case T_32U: strCase<Value32U, uint32_t>(); break;
    case T_16S: strCase<Value16S, int16_t>(); break; case T_16U: strCase<Value16U, uint16_t>(); break; case T_8S: strCase<Value8S, int8_t>(); break; default: strCase<Value8U, uint8_t>(); }
}
// ---------------------------------------------------------------- P10
struct Bytes { unsigned char b[16]; int n; };
static Bytes symBytes(int max) { Bytes r; r.n = dsym_range("len", 0, max); dsym_make_symbolic(r.b, r.n, "bytes"); return r; }
static int holds(const ValueStr& v, const Bytes& r) { std::string s = v.Get(); std::string t = v; return (int)s.size() == r.n && eqbytes(s.data(), r.b, r.n) && s == t && v.GetSize() == 9u + r.n; }
extern "C" void p10_string() {
    uint64_t mark = dsym_live_bytes(); int max = dsym_param("len", 3), ops = dsym_param("ops", 2);
    {
        Bytes cur = symBytes(max); ValueStr* v;
        switch (dsym_range("ctor", 0, 2)) {
        case 0: v = new ValueStr(std::string((char*)cur.b, cur.n)); break;
        case 1: { char z[20]; int n = 0; for (; n < cur.n && cur.b[n]; n++) z[n] = cur.b[n]; z[n] = 0; cur.n = n; v = new ValueStr(z); break; } // C string: up to the first zero
        default: v = new ValueStr(); cur.n = 0; }
        dsym_assert(holds(*v, cur), "content after construction");
        for (int i = 0; i < ops; i++) {
            switch (dsym_range("op", 0, 5)) {
            case 0: cur = symBytes(max); v->Set(std::string((char*)cur.b, cur.n)); break;
            case 1: { cur = symBytes(max); char* h = new char[cur.n]; memcpy(h, cur.b, cur.n); v->Set(h, cur.n); memset(h, 'Z', cur.n); delete[] h; break; } // exactly sized, changed afterwards
            case 2: { cur = symBytes(max); ValueStr o(std::string((char*)cur.b, cur.n)); v->CopyFrom(&o); dsym_assert(holds(o, cur), "CopyFrom leaves the original"); o.Set("other"); break; }
            case 3: v->CopyFrom(v); break;
            case 4: v->Set(v->Get()); break;
            default: { std::string s = *v; ValueStr o(s); v->Set("x"); v->CopyFrom(&o); } }
            dsym_assert(holds(*v, cur), "content after an operation");
        }
        dsym_observe(cur.n); delete v; dsym_reach("done");
    }
    dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
extern "C" void p10_text() { // ToString shows the content, and never fails
    Bytes b = symBytes(dsym_param("len", 3)); ValueStr v(std::string((char*)b.b, b.n)); std::string s = v.ToString(); dsym_observe(s.size()); dsym_assert(b.n == 0 || s.size() > (size_t)b.n, "text"); dsym_assert(holds(v, b), "ToString changes nothing"); dsym_reach("text");
}
// ---------------------------------------------------------------- P11 / P14 arrays
// reference values: trees in a static pool
struct N { uint8_t type; uint64_t num; unsigned char c; int n; N* el[8]; };
static N nodes[256]; static int nnodes;
static N* node(uint8_t t) { dsym_assume(nnodes < 256); N* x = &nodes[nnodes++]; x->type = t; x->num = 0; x->n = 0; return x; }
static N* dup(const N* o) { N* x = node(o->type); x->num = o->num; x->c = o->c; x->n = o->n; for (int i = 0; o->type == T_ARR && i < o->n; i++) x->el[i] = dup(o->el[i]); return x; }
static int eqN(Value* v, const N* r) {
    if (!v || v->GetType() != r->type) return 0;
    if (r->type == T_32S) { auto* p = dynamic_cast<Value32S*>(v); return p && p->Get() == (int32_t)r->num; }
    if (r->type == T_STR) { auto* p = dynamic_cast<ValueStr*>(v); if (!p) return 0; std::string s = p->Get(); return (int)s.size() == r->n && (r->n == 0 || (unsigned char)s[0] == r->c); }
    if (r->type == T_ARR) { auto* p = dynamic_cast<ValueArr*>(v); if (!p || (int)p->GetCount() != r->n) return 0; int ok = 1; for (int i = 0; i < r->n; i++) ok &= eqN(p->Get(i), r->el[i]); return ok && !p->Get(r->n); }
    return dynamic_cast<ValueUndefined*>(v) && v->GetSize() == 5;
}
// an arbitrary new value together with its reference
static Value* anyVal(N*& r, bool arrays) {
    switch (dsym_range("val", 0, arrays ? 3 : 2)) {
    case 0: { r = node(T_32S); int32_t x = sym<int32_t>("int"); r->num = (uint32_t)x; return new Value32S(x); }
    case 1: { r = node(T_STR); r->n = 1; r->c = sym<unsigned char>("chr"); return new ValueStr(std::string(1, (char)r->c)); }
    case 2: r = node(T_UNDEF); return new ValueUndefined();
    default: { r = node(T_ARR); r->n = 1; N* e = node(T_32S); int32_t x = sym<int32_t>("int"); e->num = (uint32_t)x; r->el[0] = e; ValueArr* a = new ValueArr(); Value32S i(x); a->Push(&i); return a; } }
}
static void spoil(Value* v) { // change the original after it was copied
    if (auto* p = dynamic_cast<Value32S*>(v)) p->Set(p->Get() + 1); if (auto* p = dynamic_cast<ValueStr*>(v)) p->Set("spoiled"); if (auto* p = dynamic_cast<ValueArr*>(v)) { Value32S z(7); p->Push(&z); }
}
static void cap(N* r, int lim) { dsym_assume(r->n < lim); }
static N* setEl(N* r, int i, N* x) { r->el[i] = x; return r; }
extern "C" void p11_array() {
    uint64_t mark = dsym_live_bytes(); int ops = dsym_param("ops", 3), leak = dsym_param("leak", 1);
    {
        ValueArr* a = new ValueArr(); N* r = node(T_ARR);
        for (int k = 0; k < ops; k++) {
            int op = k < (int)dsym_param("pushes", 0) ? 0 : opOf(k - (int)dsym_param("pushes", 0), 9);
            switch (op) {
            case 0: { N* x; Value* v = anyVal(x, dsym_param("nest", 1)); cap(r, 5); a->Push(v); r->el[r->n++] = x; spoil(v); delete v; break; }
            case 1: { uint32_t i = sym<uint32_t>("index"); N* x; Value* v = anyVal(x, false); bool ok = a->Set(i, v); spoil(v); delete v; dsym_assert(ok == (i < (uint32_t)r->n), "Set reports whether the index exists"); if (ok) setEl(r, (int)dsym_concretize(i), x); break; }
            case 2: { int n = dsym_range("count", 0, 3); a->New(n); r = node(T_ARR); r->n = n; for (int i = 0; i < n; i++) r->el[i] = node(T_UNDEF); break; }
            case 3: a->Clear(); r = node(T_ARR); break;
            case 4: { ValueArr o; N* q = node(T_ARR); int n = dsym_range("count", 0, 2); for (int i = 0; i < n; i++) { N* x; Value* v = anyVal(x, false); o.Push(v); delete v; q->el[q->n++] = x; } a->CopyFrom(&o); r = q; o.Clear(); break; }
            case 5: { uint32_t i = sym<uint32_t>("index"); Value* v = a->Get(i); dsym_assert((v != 0) == (i < (uint32_t)r->n), "Get returns null exactly outside the bounds"); dsym_assert(!a->Set(i, 0), "Set with null is refused"); break; }
            case 6: { cap(r, 4); N* s = dup(r); a->Push(a); r->el[r->n++] = s; break; } // itself as an element
            case 7: { dsym_assume(r->n > 0); int i = dsym_range("from", 0, r->n - 1), j = dsym_range("to", 0, r->n); if (j == r->n) { cap(r, 5); N* x = dup(r->el[i]); a->Push(a->Get(i)); r->el[r->n++] = x; } else { N* x = dup(r->el[i]); dsym_assert(a->Set(j, a->Get(i)), "Set"); r->el[j] = x; } break; } // element as an argument
            case 8: a->CopyFrom(a); break;
            default: { dsym_assume(r->n > 0); int i = dsym_range("from", 0, r->n - 1); if (r->el[i]->type == T_ARR) { N* x = dup(r->el[i]); if (dsym_range("how", 0, 1)) { a->CopyFrom(a->Get(i)); r = x; } else { N* w = dup(r); dsym_assert(a->Set(i, a), "Set itself"); r->el[i] = w; } } else { N* w = dup(r); dsym_assert(a->Set(i, a), "Set itself"); r->el[i] = w; } } }
            dsym_assert((int)a->GetCount() == r->n, "number of elements"); dsym_assert(eqN(a, r), "elements equal the reference list");
        }
        uint32_t sz = a->GetSize(); const char* s = a->Serialize(); ValueArr b; dsym_assert(b.Deserialize(s, sz) == sz && eqN(&b, r), "encoding of the array"); delete[] s;
        dsym_observe(sz); delete a; dsym_reach("done");
    }
    if (leak) dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
// ---------------------------------------------------------------- P12 / P14 requests
struct RM { struct { unsigned char name; N* v; } a[8]; int n; };
static int findR(RM& m, unsigned char c) { for (int i = 0; i < m.n; i++) if (m.a[i].name == c) return i; return -1; }
static void setR(RM& m, unsigned char c, N* v) { int i = findR(m, c); if (!v) { if (i >= 0) { for (; i + 1 < m.n; i++) m.a[i] = m.a[i + 1]; m.n--; } return; } if (i >= 0) m.a[i].v = v; else { m.a[m.n].name = c; m.a[m.n].v = v; m.n++; } }
static std::string nm(unsigned char c) { return std::string(1, (char)c); }
static void sameR(Request& q, RM& m) {
    dsym_assert((int)q.GetArguments().size() == m.n, "number of arguments"); int i = 0;
    for (Datum* d : q.GetArguments()) { std::string s = d->GetName(); dsym_assert(s.size() == 1 && (unsigned char)s[0] == m.a[i].name, "names in order of first insertion"); dsym_assert(eqN(d->GetValue(), m.a[i].v) && d->GetType() == m.a[i].v->type, "last value set"); i++; }
}
extern "C" void p12_request() {
    uint64_t mark = dsym_live_bytes(); int ops = dsym_param("ops", 3), leak = dsym_param("leak", 1);
    {
        Request q; RM m; m.n = 0; uint32_t size0 = q.GetSize();
        for (int k = 0; k < ops; k++) {
            unsigned char c = sym<unsigned char>("key");
            switch (opOf(k, 8)) {
            case 0: { N* x; Value* v = anyVal(x, false); q.Set(nm(c), v); spoil(v); delete v; setR(m, c, x); break; }
            case 1: { N* x; Value* v = anyVal(x, false); q.Set(nm(c), v, false); dsym_assert(q.Get(nm(c)) == v, "the stolen value itself is held"); setR(m, c, x); break; }
            case 2: { N* x = node(T_32S); int32_t z = sym<int32_t>("int"); x->num = (uint32_t)z; q.Emplace<Value32S>(nm(c), z); setR(m, c, x); break; }
            case 3: { N* x = node(T_STR); x->n = 1; x->c = sym<unsigned char>("chr"); ValueStr s(nm(x->c)); q.Emplace<ValueStr>(nm(c), s); dsym_assert(eqN(&s, x), "the original is untouched"); setR(m, c, x); break; }
            case 4: q.Set(nm(c), (Value*)0, dsym_range("copy", 0, 1)); setR(m, c, 0); break;
            case 5: { N* x; Value* v = anyVal(x, true); q.Set(nm(c), *v); delete v; setR(m, c, x); break; }
            case 6: { unsigned char d = sym<unsigned char>("key2"); int i = findR(m, d); Value* v = q.Get(nm(d)); dsym_assert((v != 0) == (i >= 0), "Get is null exactly when the name is not set"); N* x = i >= 0 ? dup(m.a[i].v) : 0; q.Set(nm(c), v); setR(m, c, x); break; } // alias of another argument or itself
            case 7: { int i = findR(m, c); Value* v = q.Get(nm(c)); dsym_assert((v != 0) == (i >= 0), "Get is null exactly when the name is not set"); if (v) { dsym_assert(eqN(v, m.a[i].v), "Get returns the value"); q.Set(nm(c), v, false); } break; }
            default: { ValueArr arr; Value32S one(1); arr.Push(&one); q.Set(nm(c), arr); ValueArr* p = q.Get<ValueArr>(nm(c)); dsym_assert(p != 0, "Get<ValueArr>"); q.Set(nm(c), p->Get(0)); N* x = node(T_32S); x->num = 1; setR(m, c, x); } } // element of the held array replaces it
            sameR(q, m);
        }
        uint32_t s = size0; for (int i = 0; i < m.n; i++) s += 7 + (m.a[i].v->type == T_32S ? 9 : m.a[i].v->type == T_STR ? 9 + m.a[i].v->n : m.a[i].v->type == T_ARR ? 18 : 5);
        dsym_assert(q.GetSize() == s, "GetSize"); dsym_observe(s); dsym_reach("done");
    }
    if (leak) dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
// ---------------------------------------------------------------- P13
static Value* otherContent(uint8_t t) { switch (t) { case T_STR: return new ValueStr("former content"); case T_ARR: { ValueArr* a = new ValueArr(); Value8U x(9); a->Push(&x); ValueStr s("z"); a->Push(&s); a->Push(a); return a; }
    case T_UNDEF: { ValueUndefined* u = new ValueUndefined(); char b[11] = {0, 6, 0, 0, 0, 'f', 'o', 'r', 'm', 'e', 'r'}; u->Deserialize(b, 11); return u; } default: return fresh(t); } }
static void mutate(Value* v) {
    switch (v->GetType()) { case T_64S: ((Value64S*)v)->Set(((Value64S*)v)->Get() + 1); break; case T_64U: ((Value64U*)v)->Set(((Value64U*)v)->Get() + 1); break; case T_32S: ((Value32S*)v)->Set(((Value32S*)v)->Get() + 1); break; case T_32U: ((Value32U*)v)->Set(((Value32U*)v)->Get() + 1); break;
    case T_16S: ((Value16S*)v)->Set(((Value16S*)v)->Get() + 1); break; case T_16U: ((Value16U*)v)->Set(((Value16U*)v)->Get() + 1); break; case T_8S: ((Value8S*)v)->Set(((Value8S*)v)->Get() + 1); break; case T_8U: ((Value8U*)v)->Set(((Value8U*)v)->Get() + 1); break;
    case T_STR: ((ValueStr*)v)->Set("changed"); break; case T_ARR: { ValueArr* a = (ValueArr*)v; if (a->GetCount() && a->Get(0)->GetType() != T_ARR) mutate(a->Get(0)); else { Value8U x(1); a->Push(&x); } break; } default: { char b[7] = {0, 2, 0, 0, 0, 'x', 'y'}; v->Deserialize(b, 7); } }
}
extern "C" void p13_value() {
    uint64_t mark = dsym_live_bytes();
    {
        Ref r; anyRef(r, dsym_param("depth", 1), dsym_param("len", 2), 2, dsym_param("lo", 0), dsym_param("hi", 10)); Value* o = build(r); Value* t = 0; Request* q = 0; Datum* d = 0; ValueArr* arr = 0;
        switch (dsym_range("form", 0, 6)) {
        case 0: t = fresh(r.type); t->CopyFrom(o); break;
        case 1: t = otherContent(r.type); t->CopyFrom(o); break;
        case 2: q = new Request(); q->Set("k", o); t = q->Get("k"); break;
        case 3: q = new Request(); q->Set("k", new ValueStr("former"), false); q->Set("k", *o); t = q->Get("k"); break;
        case 4: d = new Datum(); d->SetValue(o); t = d->GetValue(); break;
        case 5: arr = new ValueArr(); arr->Push(o); t = arr->Get(0); break;
        default: arr = new ValueArr(); arr->New(2); arr->Set(1, o); t = arr->Get(1); }
        dsym_assert(t && t != o, "a separate object"); dsym_assert(same(t, r), "the copy equals the original"); dsym_assert(same(o, r), "the original is unchanged"); dsym_assert(sameValue(t, o), "the copy encodes like the original");
        if (dsym_range("who", 0, 1)) { mutate(o); dsym_assert(same(t, r), "changing the original does not show in the copy"); delete o; o = 0; dsym_assert(same(t, r), "destroying the original does not affect the copy"); }
        else { mutate(t); dsym_assert(same(o, r), "changing the copy does not show in the original"); if (!q && !d && !arr) { delete t; t = 0; } delete q; delete d; delete arr; if (q || d || arr) t = 0; q = 0; d = 0; arr = 0; dsym_assert(same(o, r), "destroying the copy does not affect the original"); }
        if (q || d || arr) t = 0; delete o; delete t; delete q; delete d; delete arr; dsym_reach("copied");
    }
    dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
extern "C" void p13_request() {
    uint64_t mark = dsym_live_bytes();
    {
        int n = dsym_param("args", 2); Request* o = new Request(symName(1)); o->SetId(sym<uint32_t>("id")); static Ref r[3]; std::string names[3];
        for (int i = 0; i < n; i++) { anyRef(r[i], 0, 1, 1, dsym_param("lo", 0), dsym_param("hi", 10)); names[i] = std::string(1, (char)('a' + i)); o->Set(names[i], build(r[i]), false); }
        Request* t = new Request("former"); t->SetId(99); int had = dsym_range("had", 0, 3); if (had & 1) t->Set("b", new ValueStr("old"), false); if (had & 2) t->Set("zz", new Value8U(1), false);
        t->CopyFrom(o); dsym_assert(sameRequest(*o, *t), "the copy equals the original"); dsym_assert((int)t->GetArguments().size() == n, "nothing of the former content is left");
        const char* es = o->Serialize(); uint32_t sz = o->GetSize();
        switch (dsym_range("then", 0, 3)) {
        case 0: o->SetName("changed"); o->SetId(o->GetId() + 1); for (int i = 0; i < n; i++) { mutate(o->Get(names[i])); } o->Set("new", new Value8U(1), false); break;
        case 1: delete o; o = 0; break;
        case 2: t->SetName("changed"); t->Set("new", new Value8U(1), false); for (int i = 0; i < n; i++) mutate(t->Get(names[i])); delete t; t = o; o = 0; break;
        default: t->CopyFrom(t); }
        dsym_assert(t->GetSize() == sz, "size unaffected"); const char* ts = t->Serialize(); dsym_assert(eqbytes(ts, es, sz), "not affected by the other object"); delete[] es; delete[] ts; delete o; delete t; dsym_observe(sz); dsym_reach("copied");
    }
    dsym_assert(dsym_live_bytes() == mark, "nothing leaked");
}
// ---------------------------------------------------------------- P14: mixed histories over all containers
extern "C" void p14_mixed() {
    uint64_t mark = dsym_live_bytes(); int ops = dsym_param("ops", 3);
    {
        Request* q = new Request("q"); Request* p = new Request("p"); Datum* d = new Datum(); ValueArr* a = new ValueArr(); uint32_t tag = 0;
        for (int k = 0; k < ops; k++) {
            int op = opOf(k, 13); N* x; std::string key = dsym_range("key", 0, 1) ? "a" : "b";
            switch (op) {
            case 0: { Value* v = anyVal(x, true); q->Set(key, v, true); delete v; break; }
            case 1: q->Set(key, anyVal(x, true), false); break;
            case 2: q->Set(key, (Value*)0); break;
            case 3: p->CopyFrom(q); break;
            case 4: q->CopyFrom(p); break;
            case 5: { uint32_t n = q->GetSize(); const char* s = q->Serialize(); uint32_t cut = dsym_range("cut", 0, 1) ? n - 1 : n; char* b = new char[cut]; memcpy(b, s, cut); delete[] s; p->Deserialize(b, cut); delete[] b; break; }
            case 6: d->SetValue(anyVal(x, true), false); break;
            case 7: { Value* v = anyVal(x, false); d->SetValue(v, true); delete v; break; }
            case 8: d->SetValue(dsym_range("self", 0, 1) ? d->GetValue() : 0, true); break;
            case 9: a->Push(d->GetValue()); break;
            case 10: q->Set(key, a, true); break;
            case 11: { if (Value* v = q->Get(key)) { if (v->GetType() == T_ARR) a->CopyFrom(v); else d->SetValue(v); } break; }
            case 12: { uint32_t n = d->GetSize(); char* s = d->Serialize(); Datum e; e.SetValue(new ValueStr("x"), false); e.Deserialize(s, n); delete[] s; break; }
            default: { delete a; a = new ValueArr(); if (dsym_range("which", 0, 1)) { delete q; q = new Request("q"); } } }
            tag += q->GetSize() + p->GetSize() + d->GetSize() + a->GetSize();
        }
        dsym_observe(tag); delete q; delete p; delete d; delete a; dsym_reach("done");
    }
    dsym_assert(dsym_live_bytes() == mark, "every object freed");
}
// ---------------------------------------------------------------- P15
template<class T> static void typed(Request& q, const std::string& n, uint8_t real, uint8_t code) { T* p = q.Get<T>(n); dsym_assert((p != 0) == (real == code), "Get<T> gives a pointer exactly when the argument is a T"); dsym_assert(!p || (Value*)p == q.Get(n), "and it is the argument"); dsym_assert(q.Get<T>(n + "?") == 0, "missing name"); }
static void allTyped(Request& q, const std::string& n, uint8_t t) {
    typed<Value64S>(q, n, t, T_64S); typed<Value64U>(q, n, t, T_64U); typed<Value32S>(q, n, t, T_32S); typed<Value32U>(q, n, t, T_32U); typed<Value16S>(q, n, t, T_16S); typed<Value16U>(q, n, t, T_16U); typed<Value8S>(q, n, t, T_8S); typed<Value8U>(q, n, t, T_8U);
    typed<ValueStr>(q, n, t, T_STR); typed<ValueArr>(q, n, t, T_ARR); typed<ValueUndefined>(q, n, t, T_UNDEF);
    Value* v = q.Get(n); const char* s = v->Serialize(); dsym_assert(v->GetType() == t && (uint8_t)s[0] == t, "GetType agrees with the class and the encoding"); delete[] s;
}
extern "C" void p15_set() { Ref r; anyRef(r, 1, 1, 1); Request q; q.Set("k", build(r), false); for (Datum* d : q.GetArguments()) dsym_assert(d->GetType() == r.type, "type of the datum"); allTyped(q, "k", r.type); dsym_observe(r.type); dsym_reach("typed"); }
extern "C" void p15_wire() { // the peer chooses type and content
    int n = dsym_param("n", 8); uint8_t b[64]; uint32_t total = 10 + 7 + n; put(b, total, 4); put(b + 4, 1, 4); put(b + 8, 0, 2); put(b + 10, 7 + n, 4); put(b + 14, 1, 2); b[16] = 'k'; dsym_make_symbolic(b + 17, n, "value");
    Request q; uint32_t u = q.Deserialize((char*)b, total); dsym_observe(u); if (q.GetArguments().empty()) { dsym_assert(q.Get("k") == 0 && q.Get<ValueStr>("k") == 0, "not set"); dsym_reach("rejected"); return; }
    uint8_t t = (uint8_t)dsym_concretize(b[17]); for (Datum* d : q.GetArguments()) dsym_assert(d->GetType() == t, "type of the datum is the type sent"); allTyped(q, "k", t); dsym_reach("typed");
}
// ---------------------------------------------------------------- P16
static int okChar(unsigned char c) { return (c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z') | (c >= '0') & (c <= '9') | (c == '_') | (c == '-'); }
extern "C" void p16_valid() { // all bytes arbitrary
    int n = dsym_range("len", 0, dsym_param("len", 3)); unsigned char b[16]; dsym_make_symbolic(b, n, "name"); Datum d; d.SetName(std::string((char*)b, n)); int ok = n > 0; for (int i = 0; i < n; i++) ok &= okChar(b[i]);
    int g = d.GetValid(); dsym_assert(g == ok, "valid exactly when all characters are allowed and there is at least one"); dsym_observe(g); dsym_reach(g ? "valid" : "invalid");
}
extern "C" void p16_long() { // every length up to 40, one arbitrary byte anywhere
    static const char sample[] = "aZ0_-mA9zb"; int n = dsym_range("len", 1, 40); int at = dsym_range("at", 0, n - 1); char b[48]; for (int i = 0; i < n; i++) b[i] = sample[i % 10]; unsigned char c = sym<unsigned char>("c"); b[at] = (char)c; Datum d; d.SetName(std::string(b, n)); if (dsym_range("val", 0, 1)) d.SetValue(0);
    int g = d.GetValid(); dsym_assert(g == (n <= 32 && okChar(c)), "valid exactly for 1 to 32 allowed characters"); dsym_observe(g); dsym_reach(g ? "valid" : "invalid");
}
