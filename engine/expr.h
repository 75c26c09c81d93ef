// Hash-consed bit-vector expressions (width 1..64) with simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>

enum Op : uint8_t { CONST, VAR, EXTRACT, CONCAT, ZEXT, SEXT, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM,
    AND, OR, XOR, SHL, LSHR, ASHR, EQ, ULT, ULE, SLT, SLE, ITE };

typedef std::vector<uint32_t> VarVec;

struct Expr {
    Op op; uint8_t w; uint32_t id; uint64_t val; // CONST: value, VAR: var id, EXTRACT: low bit
    Expr* k[3];
    const VarVec* vars; // sorted unique
    bool isConst() const { return op == CONST; }
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}

struct ExprKey { Op op; uint8_t w; uint64_t val; Expr* a; Expr* b; Expr* c;
    bool operator==(const ExprKey& o) const { return op==o.op&&w==o.w&&val==o.val&&a==o.a&&b==o.b&&c==o.c; } };
struct ExprKeyHash { size_t operator()(const ExprKey& k) const {
    uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix(k.val); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.c); return h; } };

struct VarInfo { std::string name; uint8_t w; bool uninit; };

class ExprCtx {
public:
    std::vector<Expr*> all;
    std::vector<VarInfo> varinfo;
    std::vector<Expr*> varexpr;
    std::unordered_map<ExprKey, Expr*, ExprKeyHash> tab;
    VarVec emptyVars;

    Expr* raw(Op op, unsigned w, uint64_t val, Expr* a=nullptr, Expr* b=nullptr, Expr* c=nullptr) {
        ExprKey key{op,(uint8_t)w,val,a,b,c};
        auto it = tab.find(key);
        if (it != tab.end()) return it->second;
        Expr* e = new Expr;
        e->op=op; e->w=w; e->val=val; e->k[0]=a; e->k[1]=b; e->k[2]=c; e->id=all.size();
        if (op==CONST) e->vars=&emptyVars;
        else if (op==VAR) e->vars=new VarVec(1,(uint32_t)val);
        else {
            const VarVec* best=&emptyVars;
            for (auto x : e->k) if (x && x->vars->size()>best->size()) best=x->vars;
            bool sub=true;
            for (auto x : e->k) if (x && x->vars!=best) if (!std::includes(best->begin(),best->end(),x->vars->begin(),x->vars->end())) { sub=false; break; }
            if (sub) e->vars=best;
            else {
                VarVec* v=new VarVec(*best);
                for (auto x : e->k) if (x && x->vars!=best) v->insert(v->end(),x->vars->begin(),x->vars->end());
                std::sort(v->begin(),v->end()); v->erase(std::unique(v->begin(),v->end()),v->end());
                e->vars=v;
            }
        }
        all.push_back(e); tab.emplace(key,e);
        return e;
    }
    Expr* c(uint64_t v, unsigned w) { return raw(CONST,w,v&maskw(w)); }
    Expr* var(const std::string& name, unsigned w, bool uninit=false) {
        uint32_t id=varinfo.size(); varinfo.push_back({name,(uint8_t)w,uninit});
        Expr* e=raw(VAR,w,id); varexpr.push_back(e); return e;
    }
    Expr* tru() { return c(1,1); }
    Expr* fls() { return c(0,1); }

    static uint64_t fold(Op op, unsigned w, uint64_t a, uint64_t b, bool& ok) {
        ok=true; uint64_t m=maskw(w);
        switch(op) {
        case ADD: return (a+b)&m; case SUB: return (a-b)&m; case MUL: return (a*b)&m;
        case UDIV: if(!b) return m; return a/b; case UREM: if(!b) return a; return a%b;
        case SDIV: { int64_t x=sext64(a,w),y=sext64(b,w); if(!y) return x<0?1:m; if(y==-1) return (-(uint64_t)x)&m; return (uint64_t)(x/y)&m; }
        case SREM: { int64_t x=sext64(a,w),y=sext64(b,w); if(!y) return a; if(y==-1) return 0; return (uint64_t)(x%y)&m; }
        case AND: return a&b; case OR: return a|b; case XOR: return a^b;
        case SHL: return b>=w?0:(a<<b)&m; case LSHR: return b>=w?0:a>>b;
        case ASHR: { int64_t x=sext64(a,w); return (uint64_t)(b>=w?(x<0?-1:0):(x>>b))&m; }
        case EQ: return a==b; case ULT: return a<b; case ULE: return a<=b;
        case SLT: return sext64(a,w)<sext64(b,w); case SLE: return sext64(a,w)<=sext64(b,w);
        default: ok=false; return 0; }
    }
    Expr* zext(Expr* e, unsigned w) {
        if (e->w==w) return e;
        if (e->isConst()) return c(e->val,w);
        if (e->op==ZEXT) return zext(e->k[0],w);
        return raw(ZEXT,w,0,e);
    }
    Expr* sext(Expr* e, unsigned w) {
        if (e->w==w) return e;
        if (e->isConst()) return c((uint64_t)sext64(e->val,e->w),w);
        if (e->op==SEXT) return sext(e->k[0],w);
        if (e->op==ZEXT) return zext(e->k[0],w);
        return raw(SEXT,w,0,e);
    }
    Expr* extract(Expr* e, unsigned lo, unsigned w) {
        if (lo==0 && w==e->w) return e;
        if (e->isConst()) return c(e->val>>lo,w);
        switch(e->op) {
        case EXTRACT: return extract(e->k[0],lo+e->val,w);
        case CONCAT: { unsigned lw=e->k[1]->w;
            if (lo>=lw) return extract(e->k[0],lo-lw,w);
            if (lo+w<=lw) return extract(e->k[1],lo,w);
            return concat(extract(e->k[0],0,lo+w-lw),extract(e->k[1],lo,lw-lo)); }
        case ZEXT: { unsigned kw=e->k[0]->w;
            if (lo>=kw) return c(0,w);
            if (lo+w<=kw) return extract(e->k[0],lo,w);
            return zext(extract(e->k[0],lo,kw-lo),w); }
        case SEXT: { unsigned kw=e->k[0]->w;
            if (lo+w<=kw) return extract(e->k[0],lo,w);
            if (lo==0) return sext(e->k[0],w);
            break; }
        case AND: case OR: case XOR:
            return bin(e->op,extract(e->k[0],lo,w),extract(e->k[1],lo,w));
        case ADD: case SUB: case MUL:
            if (lo==0) return bin(e->op,extract(e->k[0],0,w),extract(e->k[1],0,w));
            break;
        case ITE:
            if (e->k[1]->isConst()||e->k[2]->isConst())
                return ite(e->k[0],extract(e->k[1],lo,w),extract(e->k[2],lo,w));
            break;
        default: break; }
        return raw(EXTRACT,w,lo,e);
    }
    Expr* concat(Expr* hi, Expr* lo) {
        unsigned w=hi->w+lo->w;
        if (w>64) { fprintf(stderr,"concat too wide\n"); abort(); }
        if (hi->isConst()&&lo->isConst()) return c((hi->val<<lo->w)|lo->val,w);
        if (hi->isConst()&&hi->val==0) return zext(lo,w);
        if (hi->op==EXTRACT&&lo->op==EXTRACT&&hi->k[0]==lo->k[0]&&hi->val==lo->val+lo->w)
            return extract(hi->k[0],lo->val,w);
        // extract(x,lo.w,..) ++ trunc form: lo may be the low part itself of hi's source
        if (hi->op==EXTRACT&&hi->k[0]==lo&&false) return nullptr;
        if (hi->op==CONCAT) { // right-assoc normal form
            Expr* in=concat(hi->k[1],lo);
            return concat2(hi->k[0],in,w);
        }
        if (lo->op==CONCAT && hi->op==EXTRACT && lo->k[0]->op==EXTRACT && hi->k[0]==lo->k[0]->k[0] && hi->val==lo->k[0]->val+lo->k[0]->w)
            return concat(extract(hi->k[0],lo->k[0]->val,hi->w+lo->k[0]->w),lo->k[1]);
        return raw(CONCAT,w,0,hi,lo);
    }
    Expr* concat2(Expr* hi, Expr* lo, unsigned w) {
        if (hi->isConst()&&hi->val==0) return zext(lo,w);
        if (hi->isConst()&&lo->isConst()) return c((hi->val<<lo->w)|lo->val,w);
        if (hi->op==EXTRACT&&lo->op==EXTRACT&&hi->k[0]==lo->k[0]&&hi->val==lo->val+lo->w)
            return extract(hi->k[0],lo->val,w);
        if (lo->op==CONCAT && hi->op==EXTRACT && lo->k[0]->op==EXTRACT && hi->k[0]==lo->k[0]->k[0] && hi->val==lo->k[0]->val+lo->k[0]->w)
            return concat(extract(hi->k[0],lo->k[0]->val,hi->w+lo->k[0]->w),lo->k[1]);
        return raw(CONCAT,w,0,hi,lo);
    }
    Expr* notb(Expr* e) { return bin(XOR,e,c(1,1)); }
    Expr* ite(Expr* cnd, Expr* a, Expr* b) {
        if (cnd->isConst()) return cnd->val?a:b;
        if (a==b) return a;
        if (cnd->op==XOR&&cnd->k[1]->isConst()) return ite(cnd->k[0],b,a); // not
        if (a->w==1) {
            if (a->isConst()&&b->isConst()) return a->val?cnd:notb(cnd);
            if (a->isConst()) return a->val?bin(OR,cnd,b):bin(AND,notb(cnd),b);
            if (b->isConst()) return b->val?bin(OR,notb(cnd),a):bin(AND,cnd,a);
        }
        return raw(ITE,a->w,0,cnd,a,b);
    }
    Expr* eq(Expr* a, Expr* b) { return bin(EQ,a,b); }
    static bool isNot(Expr* e) { return e->w==1&&e->op==XOR&&e->k[1]->isConst()&&e->k[1]->val==1; }
    Expr* bin(Op op, Expr* a, Expr* b) {
        unsigned w=a->w; bool cmp = op>=EQ&&op<=SLE;
        if (a->w!=b->w) { fprintf(stderr,"width mismatch op %d: %d %d\n",op,a->w,b->w); abort(); }
        if (a->isConst()&&b->isConst()) { bool ok; uint64_t r=fold(op,w,a->val,b->val,ok); return c(r,cmp?1:w); }
        // canonical: constant on the right for commutative ops
        if ((op==ADD||op==MUL||op==AND||op==OR||op==XOR||op==EQ) && (a->isConst()||(!b->isConst()&&a->id>b->id))) std::swap(a,b);
        bool bc=b->isConst(); uint64_t bv=bc?b->val:0, m=maskw(w);
        switch(op) {
        case ADD:
            if (bc&&bv==0) return a;
            if (bc&&a->op==ADD&&a->k[1]->isConst()) return bin(ADD,a->k[0],c(bv+a->k[1]->val,w));
            if (bc&&w>1&&a->op==XOR&&a->k[1]->isConst()&&a->k[1]->val==m) return bin(SUB,c(bv-1,w),a->k[0]); // ~x + k
            break;
        case SUB:
            if (bc) return bin(ADD,a,c(-bv,w));
            if (a==b) return c(0,w);
            if (a->isConst()&&a->val==0&&b->op==SUB&&b->k[0]->isConst()&&b->k[0]->val==0) return b->k[1];
            // (x+k)-x
            if (a->op==ADD&&a->k[0]==b) return a->k[1];
            if (a->op==ADD&&a->k[1]==b) return a->k[0];
            if (a->op==ADD&&a->k[1]->isConst()&&b->op==ADD&&b->k[1]->isConst()&&a->k[0]==b->k[0]) return c(a->k[1]->val-b->k[1]->val,w);
            break;
        case MUL:
            if (bc&&bv==0) return b;
            if (bc&&bv==1) return a;
            if (bc&&(bv&(bv-1))==0) return bin(SHL,a,c(__builtin_ctzll(bv),w));
            break;
        case UDIV:
            if (bc&&bv==1) return a;
            if (bc&&bv&&(bv&(bv-1))==0) return bin(LSHR,a,c(__builtin_ctzll(bv),w));
            if (a->op==ZEXT&&bc&&bv&&bv<=maskw(a->k[0]->w)) return zext(bin(UDIV,a->k[0],c(bv,a->k[0]->w)),w);
            break;
        case UREM:
            if (bc&&bv&&(bv&(bv-1))==0) return bin(AND,a,c(bv-1,w));
            if (a->op==ZEXT&&bc&&bv&&bv<=maskw(a->k[0]->w)) return zext(bin(UREM,a->k[0],c(bv,a->k[0]->w)),w);
            break;
        case SDIV: case SREM: break;
        case AND:
            if (a==b) return a;
            if (bc) {
                if (bv==0) return b;
                if (bv==m) return a;
                if ((bv&(bv+1))==0) { unsigned n=64-__builtin_clzll(bv); return zext(extract(a,0,n),w); }
                if (a->op==AND&&a->k[1]->isConst()) return bin(AND,a->k[0],c(bv&a->k[1]->val,w));
                if (a->op==ZEXT) { Expr* x=a->k[0]; return zext(bin(AND,x,c(bv,x->w)),w); }
                if (a->op==CONCAT) return concat(bin(AND,a->k[0],c(bv>>a->k[1]->w,a->k[0]->w)),bin(AND,a->k[1],c(bv,a->k[1]->w)));
            } else if (w==1) {
                if (isNot(a)&&a->k[0]==b) return c(0,1);
                if (isNot(b)&&b->k[0]==a) return c(0,1);
            }
            break;
        case OR:
            if (a==b) return a;
            if (bc&&bv==0) return a;
            if (bc&&bv==m) return b;
            if (bc&&a->op==CONCAT) return concat(bin(OR,a->k[0],c(bv>>a->k[1]->w,a->k[0]->w)),bin(OR,a->k[1],c(bv,a->k[1]->w)));
            if (bc&&a->op==ZEXT) { unsigned xw=a->k[0]->w; return concat(c(bv>>xw,w-xw),bin(OR,a->k[0],c(bv,xw))); }
            if (w==1&&!bc) { if ((isNot(a)&&a->k[0]==b)||(isNot(b)&&b->k[0]==a)) return c(1,1); }
            // disjoint zext / shifted concat (little-endian assembly by shifts)
            if (!bc) {
                Expr *x=a,*y=b;
                for (int t=0;t<2;t++,std::swap(x,y))
                    if (x->op==ZEXT&&y->op==CONCAT&&y->k[1]->isConst()&&y->k[1]->val==0&&x->k[0]->w<=y->k[1]->w)
                        return concat(y->k[0],zext(x->k[0],y->k[1]->w));
                    else if (x->op==ZEXT&&y->op==ZEXT&&y->k[0]->op==CONCAT&&y->k[0]->k[1]->isConst()&&y->k[0]->k[1]->val==0&&x->k[0]->w<=y->k[0]->k[1]->w)
                        return zext(concat(y->k[0]->k[0],zext(x->k[0],y->k[0]->k[1]->w)),w);
            }
            break;
        case XOR:
            if (a==b) return c(0,w);
            if (bc&&bv==0) return a;
            if (bc&&a->op==XOR&&a->k[1]->isConst()) return bin(XOR,a->k[0],c(bv^a->k[1]->val,w));
            if (bc&&w>1&&a->op==CONCAT) return concat(bin(XOR,a->k[0],c(bv>>a->k[1]->w,a->k[0]->w)),bin(XOR,a->k[1],c(bv,a->k[1]->w)));
            if (bc&&w>1&&a->op==ZEXT&&a->k[0]->w>1) { unsigned xw=a->k[0]->w; return concat(c(bv>>xw,w-xw),bin(XOR,a->k[0],c(bv,xw))); }
            if (w==1&&bc) { // not
                if (a->op==ULT) return bin(ULE,a->k[1],a->k[0]);
                if (a->op==ULE) return bin(ULT,a->k[1],a->k[0]);
                if (a->op==SLT) return bin(SLE,a->k[1],a->k[0]);
                if (a->op==SLE) return bin(SLT,a->k[1],a->k[0]);
            }
            break;
        case SHL:
            if (bc) { if (bv==0) return a; if (bv>=w) return c(0,w); return concat(extract(a,0,w-bv),c(0,bv)); }
            break;
        case LSHR:
            if (bc) { if (bv==0) return a; if (bv>=w) return c(0,w); return zext(extract(a,bv,w-bv),w); }
            break;
        case ASHR:
            if (bc) { if (bv==0) return a; if (bv>=w) bv=w-1; return sext(extract(a,bv,w-bv),w); }
            break;
        case EQ:
            if (a==b) return c(1,1);
            if (w==1&&bc) return bv?a:notb(a);
            if (bc) {
                if (a->op==ZEXT) { if (bv>maskw(a->k[0]->w)) return c(0,1); return bin(EQ,a->k[0],c(bv,a->k[0]->w)); }
                if (a->op==SEXT) { uint64_t t=bv&maskw(a->k[0]->w); if (((uint64_t)sext64(t,a->k[0]->w)&m)!=bv) return c(0,1); return bin(EQ,a->k[0],c(t,a->k[0]->w)); }
                if (a->op==CONCAT) return bin(AND,bin(EQ,a->k[0],c(bv>>a->k[1]->w,a->k[0]->w)),bin(EQ,a->k[1],c(bv,a->k[1]->w)));
                if (a->op==ADD&&a->k[1]->isConst()) return bin(EQ,a->k[0],c(bv-a->k[1]->val,w));
                if (a->op==XOR&&a->k[1]->isConst()) return bin(EQ,a->k[0],c(bv^a->k[1]->val,w));
                if (a->op==ITE&&(a->k[1]->isConst()||a->k[2]->isConst()))
                    return ite(a->k[0],bin(EQ,a->k[1],b),bin(EQ,a->k[2],b));
            } else {
                if (a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return bin(EQ,a->k[0],b->k[0]);
                if (a->op==SEXT&&b->op==SEXT&&a->k[0]->w==b->k[0]->w) return bin(EQ,a->k[0],b->k[0]);
                if (a->op==CONCAT&&b->op==CONCAT&&a->k[0]->w==b->k[0]->w) return bin(AND,bin(EQ,a->k[0],b->k[0]),bin(EQ,a->k[1],b->k[1]));
            }
            break;
        case ULT:
            if (a==b) return c(0,1);
            if (bc&&bv==0) return c(0,1);
            if (bc&&bv==1) return bin(EQ,a,c(0,w));
            if (a->isConst()&&a->val==m) return c(0,1);
            if (a->isConst()&&a->val==0) return notb(bin(EQ,b,c(0,w)));
            if (a->op==ZEXT&&bc) { if (bv>maskw(a->k[0]->w)) return c(1,1); return bin(ULT,a->k[0],c(bv,a->k[0]->w)); }
            if (b->op==ZEXT&&a->isConst()) { if (a->val>=maskw(b->k[0]->w)) return c(0,1); return bin(ULT,c(a->val,b->k[0]->w),b->k[0]); }
            if (a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return bin(ULT,a->k[0],b->k[0]);
            break;
        case ULE:
            if (a==b) return c(1,1);
            if (bc&&bv==m) return c(1,1);
            if (bc) return bin(ULT,a,c(bv+1,w));
            if (a->isConst()&&a->val==0) return c(1,1);
            if (a->isConst()) return bin(ULT,c(a->val-1,w),b);
            if (a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return bin(ULE,a->k[0],b->k[0]);
            break;
        case SLT: case SLE:
            if (a==b) return c(op==SLE,1);
            // both non-negative (zext): unsigned compare
            { auto nn=[&](Expr* e){ return (e->isConst()&&!(e->val>>(w-1)))||e->op==ZEXT; };
              if (nn(a)&&nn(b)) return bin(op==SLT?ULT:ULE,a,b);
              auto neg=[&](Expr* e){ return e->isConst()&&(e->val>>(w-1)); };
              if (nn(a)&&neg(b)) return c(0,1);
              if (neg(a)&&nn(b)) return c(1,1); }
            if (a->op==SEXT&&b->op==SEXT&&a->k[0]->w==b->k[0]->w) return bin(op,a->k[0],b->k[0]);
            break;
        default: break; }
        return raw(op,cmp?1:w,0,a,b);
    }
    // rebuild with children
    Expr* rebuild(Expr* e, Expr* a, Expr* b, Expr* cc) {
        switch(e->op) {
        case CONST: case VAR: return e;
        case EXTRACT: return extract(a,e->val,e->w);
        case CONCAT: return concat(a,b);
        case ZEXT: return zext(a,e->w);
        case SEXT: return sext(a,e->w);
        case ITE: return ite(a,b,cc);
        default: return bin(e->op,a,b); }
    }
    // concrete evaluation under assignment
    template<class M> uint64_t eval(Expr* e, const M& val, std::unordered_map<Expr*,uint64_t>& memo) {
        if (e->op==CONST) return e->val;
        if (e->op==VAR) return val(e->val)&maskw(e->w);
        auto it=memo.find(e); if (it!=memo.end()) return it->second;
        uint64_t r;
        if (e->op==ITE) r=eval(e->k[0],val,memo)?eval(e->k[1],val,memo):eval(e->k[2],val,memo);
        else {
            uint64_t a=eval(e->k[0],val,memo), b=e->k[1]?eval(e->k[1],val,memo):0;
            switch(e->op) {
            case EXTRACT: r=(a>>e->val)&maskw(e->w); break;
            case CONCAT: r=(a<<e->k[1]->w)|b; break;
            case ZEXT: r=a; break;
            case SEXT: r=(uint64_t)sext64(a,e->k[0]->w)&maskw(e->w); break;
            default: { bool ok; r=fold(e->op,e->k[0]->w,a,b,ok); } }
        }
        memo[e]=r; return r;
    }
    std::string str(Expr* e, int depth=6) {
        static const char* names[]={"const","var","extract","concat","zext","sext","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite"};
        if (e->op==CONST) return std::to_string(e->val);
        if (e->op==VAR) return varinfo[e->val].name+"#"+std::to_string(e->val);
        if (!depth) return "...";
        std::string r=std::string("(")+names[e->op];
        if (e->op==EXTRACT) r+="@"+std::to_string(e->val);
        r+=":"+std::to_string(e->w);
        for (auto x : e->k) if (x) r+=" "+str(x,depth-1);
        return r+")";
    }
};
