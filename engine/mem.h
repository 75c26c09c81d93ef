// Copy-on-write symbolic memory.
#pragma once
#include "expr.h"
#include <cstring>

enum ObjKind : uint8_t { OK_GLOBAL, OK_CONST, OK_STACK, OK_MALLOC, OK_NEW, OK_NEWARR };

struct ObjData { // refcounted, copied on write when shared
    int rc; uint32_t cap; // bytes with storage
    uint8_t* b; uint8_t* t; // bytes; tags: 0 concrete, 1 uninitialised, 2 symbolic
    Expr** s;
    static ObjData* make(uint32_t cap, uint8_t tag) {
        ObjData* d=(ObjData*)malloc(sizeof(ObjData));
        d->rc=1; d->cap=cap; d->b=(uint8_t*)malloc(cap*2+8); d->t=d->b+cap; d->s=nullptr;
        memset(d->b,0,cap); memset(d->t,tag,cap);
        return d;
    }
    ObjData* clone() {
        ObjData* d=(ObjData*)malloc(sizeof(ObjData));
        d->rc=1; d->cap=cap; d->b=(uint8_t*)malloc(cap*2+8); d->t=d->b+cap; d->s=nullptr;
        memcpy(d->b,b,cap*2);
        if (s) { d->s=(Expr**)malloc(sizeof(Expr*)*cap); memcpy(d->s,s,sizeof(Expr*)*cap); }
        return d;
    }
    void grow(uint32_t ncap) {
        uint8_t* nb=(uint8_t*)malloc(ncap*2+8);
        memset(nb,0,ncap); memcpy(nb,b,cap);
        memset(nb+ncap,1,ncap); memcpy(nb+ncap,t,cap);
        free(b); b=nb; t=nb+ncap;
        if (s) { s=(Expr**)realloc(s,sizeof(Expr*)*ncap); }
        cap=ncap;
    }
    static void unref(ObjData* d) { if (d && --d->rc==0) { free(d->b); free(d->s); free(d); } }
    void setSym(uint32_t i, Expr* e) {
        if (e->isConst()) { b[i]=(uint8_t)e->val; t[i]=0; return; }
        if (!s) s=(Expr**)malloc(sizeof(Expr*)*cap);
        s[i]=e; t[i]=2;
    }
};

struct Obj {
    ObjData* d=nullptr; // null: not live
    uint64_t size=0;
    Expr* ssize=nullptr; // symbolic size (64 bit)
    const void* site=nullptr; // allocation instruction
    ObjKind kind=OK_STACK; bool freed=false, immortal=false; const char* name=nullptr;
};

struct Chunk { int rc; Obj o[64]; };

// Object table: index -> Obj, chunks shared between states
class ObjTable {
public:
    std::vector<Chunk*> ch; uint32_t n=0;
    ObjTable() {}
    ObjTable(const ObjTable& x): ch(x.ch), n(x.n) { for (auto c: ch) c->rc++; }
    ObjTable& operator=(const ObjTable&)=delete;
    ~ObjTable() { for (auto c: ch) if (--c->rc==0) { for (auto& o: c->o) ObjData::unref(o.d); delete c; } }
    Obj& wr(uint32_t i) {
        Chunk*& c=ch[i>>6];
        if (c->rc>1) { Chunk* nc=new Chunk; nc->rc=1; for (int k=0;k<64;k++) { nc->o[k]=c->o[k]; if (nc->o[k].d) nc->o[k].d->rc++; } c->rc--; c=nc; }
        return c->o[i&63];
    }
    const Obj& rd(uint32_t i) const { return ch[i>>6]->o[i&63]; }
    ObjData* wdata(uint32_t i) {
        Obj& o=wr(i);
        if (o.d->rc>1) { ObjData* nd=o.d->clone(); o.d->rc--; o.d=nd; }
        return o.d;
    }
    uint32_t add() { uint32_t i=n++; if ((i>>6)>=ch.size()) { Chunk* c=new Chunk; c->rc=1; ch.push_back(c); } return i; }
};
