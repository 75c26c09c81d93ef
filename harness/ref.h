// Independent reference model of the Dowow Protocol encoding, used as the oracle.
#pragma once
#include "dsym.h"
#include "Value.hpp"
#include "ValueType.hpp"
#include "values/All.hpp"
#include "Datum.hpp"
#include "Request.hpp"
#include <cstring>
#include <string>
using namespace DowowNetwork;

// type codes of the protocol, written down independently of ValueType.hpp
enum : uint8_t { T_UNDEF = 0, T_64S = 1, T_64U = 2, T_32S = 3, T_32U = 4, T_16S = 5, T_16U = 6, T_8U = 7, T_8S = 8, T_STR = 9, T_ARR = 10 };

struct Ref { uint8_t type; uint64_t num; unsigned char bytes[16]; uint32_t len; Ref* el; uint32_t n; };

static inline int intWidth(uint8_t t) { return t >= T_64S && t <= T_8S ? 8 >> ((t - 1) / 2) : 0; }
static inline void put(unsigned char* o, uint64_t v, int n) { for (int i = 0; i < n; i++) o[i] = (unsigned char)(v >> (8 * i)); }
static inline uint64_t get(const unsigned char* o, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)o[i] << (8 * i); return v; }

static uint32_t encSize(const Ref& r) {
    if (intWidth(r.type)) return 5 + intWidth(r.type);
    if (r.type == T_STR) return 5 + 4 + r.len;
    if (r.type == T_ARR) { uint32_t s = 9; for (uint32_t i = 0; i < r.n; i++) s += encSize(r.el[i]); return s; }
    return 5 + r.len;
}
static unsigned char* enc(const Ref& r, unsigned char* o) {
    uint32_t sz = encSize(r); o[0] = r.type; put(o + 1, sz - 5, 4); unsigned char* p = o + 5;
    if (intWidth(r.type)) put(p, r.num, intWidth(r.type));
    else if (r.type == T_STR) { put(p, r.len, 4); for (uint32_t i = 0; i < r.len; i++) p[4 + i] = r.bytes[i]; }
    else if (r.type == T_ARR) { put(p, r.n, 4); p += 4; for (uint32_t i = 0; i < r.n; i++) p = enc(r.el[i], p); return o + sz; }
    else for (uint32_t i = 0; i < r.len; i++) p[i] = r.bytes[i];
    return o + sz;
}
// a Value object of the given type, default content
static Value* fresh(uint8_t t) {
    switch (t) {
    case T_64S: return new Value64S(); case T_64U: return new Value64U(); case T_32S: return new Value32S(); case T_32U: return new Value32U();
    case T_16S: return new Value16S(); case T_16U: return new Value16U(); case T_8S: return new Value8S(); case T_8U: return new Value8U();
    case T_STR: return new ValueStr(); case T_ARR: return new ValueArr(); default: return new ValueUndefined(); }
}
// the Value described by a Ref, built through the public API
static Value* build(const Ref& r) {
    switch (r.type) {
    case T_64S: return new Value64S((int64_t)r.num); case T_64U: return new Value64U(r.num); case T_32S: return new Value32S((int32_t)r.num); case T_32U: return new Value32U((uint32_t)r.num);
    case T_16S: return new Value16S((int16_t)r.num); case T_16U: return new Value16U((uint16_t)r.num); case T_8S: return new Value8S((int8_t)r.num); case T_8U: return new Value8U((uint8_t)r.num);
    case T_STR: { ValueStr* s = new ValueStr(); s->Set((const char*)r.bytes, r.len); return s; }
    case T_ARR: { ValueArr* a = new ValueArr(); for (uint32_t i = 0; i < r.n; i++) { Value* e = build(r.el[i]); a->Push(e); delete e; } return a; }
    default: { // raw values can only be filled by decoding
        ValueUndefined* u = new ValueUndefined(); unsigned char b[32]; b[0] = T_UNDEF; put(b + 1, r.len, 4); for (uint32_t i = 0; i < r.len; i++) b[5 + i] = r.bytes[i]; u->Deserialize((const char*)b, 5 + r.len); return u; } }
}
// the content of v is exactly r (compared through typed accessors, raw values through Serialize)
static int same(Value* v, const Ref& r) {
    if (!v || v->GetType() != r.type) return 0;
    switch (r.type) {
    case T_64S: { auto* p = dynamic_cast<Value64S*>(v); return p && p->Get() == (int64_t)r.num; } case T_64U: { auto* p = dynamic_cast<Value64U*>(v); return p && p->Get() == r.num; }
    case T_32S: { auto* p = dynamic_cast<Value32S*>(v); return p && p->Get() == (int32_t)r.num; } case T_32U: { auto* p = dynamic_cast<Value32U*>(v); return p && p->Get() == (uint32_t)r.num; }
    case T_16S: { auto* p = dynamic_cast<Value16S*>(v); return p && p->Get() == (int16_t)r.num; } case T_16U: { auto* p = dynamic_cast<Value16U*>(v); return p && p->Get() == (uint16_t)r.num; }
    case T_8S: { auto* p = dynamic_cast<Value8S*>(v); return p && p->Get() == (int8_t)r.num; } case T_8U: { auto* p = dynamic_cast<Value8U*>(v); return p && p->Get() == (uint8_t)r.num; }
    case T_STR: { auto* p = dynamic_cast<ValueStr*>(v); if (!p) return 0; std::string s = p->Get(); return s.size() == r.len && eqbytes(s.data(), r.bytes, r.len); }
    case T_ARR: { auto* p = dynamic_cast<ValueArr*>(v); if (!p || p->GetCount() != r.n) return 0; int ok = 1; for (uint32_t i = 0; i < r.n; i++) ok &= same(p->Get(i), r.el[i]); return ok; }
    default: { if (!dynamic_cast<ValueUndefined*>(v) || v->GetSize() != 5 + r.len) return 0; const char* s = v->Serialize(); int ok = s[0] == 0 && get((const unsigned char*)s + 1, 4) == r.len && eqbytes(s + 5, r.bytes, r.len); delete[] s; return ok; } }
}
// two values have the same encoding
static int sameValue(Value* a, Value* b) {
    if (!a || !b || a->GetType() != b->GetType() || a->GetSize() != b->GetSize()) return 0;
    const char *x = a->Serialize(), *y = b->Serialize(); int ok = eqbytes(x, y, a->GetSize()); delete[] x; delete[] y; return ok;
}
static int sameStr(const std::string& a, const std::string& b) { return a.size() == b.size() && eqbytes(a.data(), b.data(), a.size()); }
// same id, name, arguments in the same order
static int sameRequest(const Request& a, const Request& b) {
    if (a.GetArguments().size() != b.GetArguments().size()) return 0;
    int ok = a.GetId() == b.GetId(); std::string x = a.GetName(), y = b.GetName(); ok &= sameStr(x, y);
    auto i = a.GetArguments().begin(); auto j = b.GetArguments().begin();
    for (; i != a.GetArguments().end(); ++i, ++j) { std::string p = (*i)->GetName(), q = (*j)->GetName(); ok &= sameStr(p, q); ok &= (*i)->GetType() == (*j)->GetType(); ok &= sameValue((*i)->GetValue(), (*j)->GetValue()); }
    return ok;
}
// ---- symbolic content
// shapes: 0..10 plain type codes; strings and raw values of length up to maxLen; arrays from a list of shapes
static Ref pool_[48]; static int npool_;
static void symRef(Ref& r, int type, int len) { // scalar, string or raw
    r.type = (uint8_t)type; r.num = 0; r.len = 0; r.el = 0; r.n = 0;
    if (intWidth(r.type)) { unsigned char b[8]; dsym_make_symbolic(b, intWidth(r.type), "num"); r.num = get(b, intWidth(r.type)); }
    else if (type != T_ARR) { r.len = len; dsym_make_symbolic(r.bytes, len, "content"); }
}
static Ref* allocRefs(int n) { Ref* r = pool_ + npool_; npool_ += n; return r; }
// any value: leaf types with any content up to maxLen bytes; arrays of up to maxEl elements, nested up to depth
static void anyRef(Ref& r, int depth, int maxLen, int maxEl, int lo = T_UNDEF, int hi = T_ARR) {
    int t = dsym_range("type", lo, depth > 0 ? hi : (hi < T_STR ? hi : T_STR));
    if (t == T_ARR) { r.type = T_ARR; r.num = 0; r.len = 0; r.n = dsym_range("count", 0, maxEl); r.el = allocRefs(r.n); for (uint32_t i = 0; i < r.n; i++) anyRef(r.el[i], depth - 1, maxLen, maxEl); return; }
    int len = (t == T_STR || t == T_UNDEF) ? dsym_range("len", 0, maxLen) : 0;
    symRef(r, t, len);
}
static std::string symName(int maxLen, const char* nm = "name") {
    int n = dsym_range("namelen", 0, maxLen); char b[64]; dsym_make_symbolic(b, n, nm); return std::string(b, n);
}
