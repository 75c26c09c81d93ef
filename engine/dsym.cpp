// dsym: symbolic executor for LLVM IR, deciding path feasibility and assertions with Z3.
#include <thread>
#include <atomic>
#include <unistd.h>
#include "mem.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <functional>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <chrono>
#include <random>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <memory>
using namespace llvm;

static ExprCtx X;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options
struct Options {
    std::string bc, entry="harness", out, smtDir; double maxTime=60; uint64_t maxInstr=3000000; uint64_t seed=1; int samples=12;
    int maxErrors=12; unsigned solverTimeout=20000; int dumpEvery=0; std::string repo="/repo"; bool verbose=false; bool randSearch=false;
    uint64_t maxPaths=0; std::map<std::string,int64_t> params;
} opt;

// ------------------------------------------------------------------ solver
typedef std::vector<uint64_t> Model; // var id -> value (missing: 0)
enum Res { R_SAT, R_UNSAT, R_UNK };
struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h=v.size(); for (auto x: v) { h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; } return h; } };

void report(bool exhausted);
struct Solver {
    Z3_context c; Z3_solver s, s2; std::vector<Z3_ast> bv, bl;
    uint64_t queries=0, sat=0, unsat=0, unk=0, cacheHits=0, modelHits=0; double time=0, maxq=0;
    struct Entry { Res r; std::vector<std::pair<uint32_t,uint64_t>> m; };
    std::unordered_map<std::vector<uint32_t>,Entry,VecHash> cache;
    uint64_t dumped=0;
    // a query that takes too long anywhere (also while terms are simplified, which no time-out of the solver covers) is interrupted and counts as undecided
    std::atomic<double> guardFrom{0}; std::atomic<bool> interrupted{false};
    // and if Z3 does not react within 20 s more, what was found until then is reported and the run ends as not exhausted
    void guard() { std::thread([this]{ for (;;) { usleep(100000); double g=guardFrom, late=g?now()-g-(opt.solverTimeout+5000)/1000.0:0; if (late>20) { unk++; report(false); } if (late>0) { interrupted=true; Z3_interrupt(c); } } }).detach(); }
    void init() {
        Z3_config cfg=Z3_mk_config(); c=Z3_mk_context_rc(cfg); Z3_del_config(cfg);
        Z3_set_error_handler(c,[](Z3_context cc, Z3_error_code e){ fprintf(stderr,"z3 error %s\n",Z3_get_error_msg(cc,e)); });
        s=Z3_mk_simple_solver(c); Z3_solver_inc_ref(c,s);
        Z3_params p=Z3_mk_params(c); Z3_params_inc_ref(c,p);
        Z3_params_set_uint(c,p,Z3_mk_string_symbol(c,"timeout"),3000);
        Z3_solver_set_params(c,s,p);
        Z3_tactic t=Z3_mk_tactic(c,"qfbv"); Z3_tactic_inc_ref(c,t);
        s2=Z3_mk_solver_from_tactic(c,t); Z3_solver_inc_ref(c,s2);
        Z3_params q=Z3_mk_params(c); Z3_params_inc_ref(c,q);
        Z3_params_set_uint(c,q,Z3_mk_string_symbol(c,"timeout"),opt.solverTimeout);
        Z3_solver_set_params(c,s2,q); guard();
    }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(c,a); return a; }
    Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(c,w); }
    Z3_ast B(Expr* e) { // as bit vector
        if (bv.size()<=e->id) bv.resize(X.all.size()+64,nullptr);
        if (bv[e->id]) return bv[e->id];
        Z3_ast r;
        switch(e->op) {
        case CONST: r=Z3_mk_unsigned_int64(c,e->val,bvs(e->w)); break;
        case VAR: r=Z3_mk_const(c,Z3_mk_string_symbol(c,("v"+std::to_string(e->val)).c_str()),bvs(e->w)); break;
        case EXTRACT: r=Z3_mk_extract(c,e->val+e->w-1,e->val,B(e->k[0])); break;
        case CONCAT: r=Z3_mk_concat(c,B(e->k[0]),B(e->k[1])); break;
        case ZEXT: r=Z3_mk_zero_ext(c,e->w-e->k[0]->w,B(e->k[0])); break;
        case SEXT: r=Z3_mk_sign_ext(c,e->w-e->k[0]->w,B(e->k[0])); break;
        case ADD: r=Z3_mk_bvadd(c,B(e->k[0]),B(e->k[1])); break;
        case SUB: r=Z3_mk_bvsub(c,B(e->k[0]),B(e->k[1])); break;
        case MUL: r=Z3_mk_bvmul(c,B(e->k[0]),B(e->k[1])); break;
        case UDIV: r=Z3_mk_bvudiv(c,B(e->k[0]),B(e->k[1])); break;
        case SDIV: r=Z3_mk_bvsdiv(c,B(e->k[0]),B(e->k[1])); break;
        case UREM: r=Z3_mk_bvurem(c,B(e->k[0]),B(e->k[1])); break;
        case SREM: r=Z3_mk_bvsrem(c,B(e->k[0]),B(e->k[1])); break;
        case SHL: r=Z3_mk_bvshl(c,B(e->k[0]),B(e->k[1])); break;
        case LSHR: r=Z3_mk_bvlshr(c,B(e->k[0]),B(e->k[1])); break;
        case ASHR: r=Z3_mk_bvashr(c,B(e->k[0]),B(e->k[1])); break;
        case AND: case OR: case XOR:
            if (e->w>1) { r=e->op==AND?Z3_mk_bvand(c,B(e->k[0]),B(e->k[1])):e->op==OR?Z3_mk_bvor(c,B(e->k[0]),B(e->k[1])):Z3_mk_bvxor(c,B(e->k[0]),B(e->k[1])); break; }
            r=b2v(L(e)); break;
        case ITE: if (e->w>1) { r=Z3_mk_ite(c,L(e->k[0]),B(e->k[1]),B(e->k[2])); break; } r=b2v(L(e)); break;
        default: r=b2v(L(e)); }
        if (bv.size()<=e->id) bv.resize(X.all.size()+64,nullptr);
        return bv[e->id]=keep(r);
    }
    Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(c,b,Z3_mk_unsigned_int64(c,1,bvs(1)),Z3_mk_unsigned_int64(c,0,bvs(1))); }
    Z3_ast L(Expr* e) { // width 1 as boolean
        if (bl.size()<=e->id) bl.resize(X.all.size()+64,nullptr);
        if (bl[e->id]) return bl[e->id];
        Z3_ast r, a[2];
        switch(e->op) {
        case CONST: r=e->val?Z3_mk_true(c):Z3_mk_false(c); break;
        case EQ: if (e->k[0]->w==1) r=Z3_mk_iff(c,L(e->k[0]),L(e->k[1])); else r=Z3_mk_eq(c,B(e->k[0]),B(e->k[1])); break;
        case ULT: r=Z3_mk_bvult(c,B(e->k[0]),B(e->k[1])); break;
        case ULE: r=Z3_mk_bvule(c,B(e->k[0]),B(e->k[1])); break;
        case SLT: r=Z3_mk_bvslt(c,B(e->k[0]),B(e->k[1])); break;
        case SLE: r=Z3_mk_bvsle(c,B(e->k[0]),B(e->k[1])); break;
        case AND: a[0]=L(e->k[0]); a[1]=L(e->k[1]); r=Z3_mk_and(c,2,a); break;
        case OR: a[0]=L(e->k[0]); a[1]=L(e->k[1]); r=Z3_mk_or(c,2,a); break;
        case XOR: if (e->k[1]->isConst()&&e->k[1]->val==1) r=Z3_mk_not(c,L(e->k[0])); else r=Z3_mk_xor(c,L(e->k[0]),L(e->k[1])); break;
        case ITE: r=Z3_mk_ite(c,L(e->k[0]),L(e->k[1]),L(e->k[2])); break;
        default: r=Z3_mk_eq(c,B(e),Z3_mk_unsigned_int64(c,1,bvs(1))); }
        if (bl.size()<=e->id) bl.resize(X.all.size()+64,nullptr);
        return bl[e->id]=keep(r);
    }
    // conjunction of cs; on sat fills m
    Res check(std::vector<Expr*>& cs, std::vector<std::pair<uint32_t,uint64_t>>& m) {
        std::vector<uint32_t> key; for (auto e: cs) key.push_back(e->id);
        std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
        auto it=cache.find(key);
        if (it!=cache.end()) { cacheHits++; m=it->second.m; return it->second.r; }
        double t0=now(); queries++; guardFrom=t0;
        Z3_solver cur=s; Z3_solver_push(c,s);
        for (auto e: cs) Z3_solver_assert(c,s,L(e));
        Z3_lbool r=Z3_solver_check(c,s);
        if (r==Z3_L_UNDEF&&!interrupted) {
            Z3_solver_reset(c,s2); for (auto e: cs) Z3_solver_assert(c,s2,L(e));
            r=Z3_solver_check(c,s2); cur=s2;
        }
        guardFrom=0; if (interrupted) { interrupted=false; r=Z3_L_UNDEF; }
        Res res=r==Z3_L_TRUE?R_SAT:r==Z3_L_FALSE?R_UNSAT:R_UNK;
        if (res==R_SAT) {
            sat++;
            Z3_model mo=Z3_solver_get_model(c,cur); Z3_model_inc_ref(c,mo);
            std::vector<uint32_t> vs; for (auto e: cs) vs.insert(vs.end(),e->vars->begin(),e->vars->end());
            std::sort(vs.begin(),vs.end()); vs.erase(std::unique(vs.begin(),vs.end()),vs.end());
            for (auto v: vs) { Z3_ast o; uint64_t u=0;
                if (Z3_model_eval(c,mo,B(X.varexpr[v]),true,&o)) { Z3_inc_ref(c,o); Z3_get_numeral_uint64(c,o,&u); Z3_dec_ref(c,o); }
                m.push_back({v,u}); }
            Z3_model_dec_ref(c,mo);
        } else if (res==R_UNSAT) unsat++; else unk++;
        if (opt.dumpEvery && !opt.smtDir.empty() && queries%opt.dumpEvery==0 && dumped<200 && res!=R_UNK) {
            std::ofstream f(opt.smtDir+"/q"+std::to_string(queries)+".smt2");
            f<<"; expected "<<(res==R_SAT?"sat":"unsat")<<"\n(set-logic QF_BV)\n"<<Z3_solver_to_string(c,s)<<"(check-sat)\n"; dumped++;
        }
        Z3_solver_pop(c,s,1);
        double dt=now()-t0; time+=dt; if (dt>maxq) maxq=dt;
        cache[key]={res,m};
        return res;
    }
} SV;

// ------------------------------------------------------------------ lowered code
struct Opd { int32_t slot=-1; uint64_t c=0; }; // slot -1 const, -2 undef
enum COp : uint8_t { C_BIN, C_ICMP, C_SEXT, C_ZEXT, C_TRUNC, C_MOVE, C_GEP, C_LOAD, C_STORE, C_ALLOCA, C_BR, C_CONDBR, C_SWITCH,
    C_RET, C_CALL, C_SELECT, C_COPY, C_UNREACH, C_RMW, C_CMPXCHG, C_FP, C_FCMP, C_FCAST, C_RESUME, C_LPAD, C_BAD };
struct Leaf { uint64_t off; unsigned w; };
struct Move { int32_t dst; Opd src; uint8_t w; };
struct Edge { uint32_t target; std::vector<Move> mv; };
struct CFunc;
struct Intr;
struct Extra {
    std::vector<Leaf> leaves; std::vector<Opd> ops; std::vector<uint64_t> scale; std::vector<uint8_t> ws; std::vector<Move> copies;
    std::vector<std::pair<uint64_t,uint32_t>> cases; Function* callee=nullptr; int nret=0; std::vector<uint64_t> byval; std::string name; uint64_t cst=0; std::string msg;
    int intr=-1; CFunc* target=nullptr; bool resolved=false; std::vector<uint8_t> retw;
};
struct CInst { COp op; uint8_t sub=0, w=0, w2=0; int32_t dst=-1; Opd a,b,c; uint32_t e0=0,e1=0; Extra* x=nullptr; const DILocation* loc=nullptr; uint32_t blk=0; };
struct CFunc { Function* F; std::string name, nice; int nslots=0; std::vector<uint8_t> argw; std::vector<CInst> code; std::vector<Edge> edges; bool inRepo=false; uint64_t hits=0; std::vector<uint8_t> retw; std::vector<char> cov; };

static Module* M; static const DataLayout* DL;
static std::unordered_map<const GlobalValue*,uint64_t> gaddr;
static std::vector<Function*> fnTable; // function addresses
static std::unordered_map<Function*,std::unique_ptr<CFunc>> lowered;
static const uint64_t FN_BASE=0x100000;
static inline uint64_t objBase(uint32_t i) { return ((uint64_t)(i+1)<<33)+0x10000; }
static inline int64_t addrObj(uint64_t a) { return (int64_t)(a>>33)-1; }

static void flatten(Type* T, uint64_t off, std::vector<Leaf>& out) {
    if (T->isIntegerTy()) { unsigned w=T->getIntegerBitWidth(); if (w<=64) out.push_back({off,w}); else for (unsigned i=0;i<w;i+=64) out.push_back({off+i/8,64}); }
    else if (T->isPointerTy()) out.push_back({off,64});
    else if (T->isDoubleTy()) out.push_back({off,64});
    else if (T->isFloatTy()) out.push_back({off,32});
    else if (auto* S=dyn_cast<StructType>(T)) { auto* L=DL->getStructLayout(S); for (unsigned i=0;i<S->getNumElements();i++) flatten(S->getElementType(i),off+L->getElementOffset(i),out); }
    else if (auto* A=dyn_cast<ArrayType>(T)) { uint64_t s=DL->getTypeAllocSize(A->getElementType()); for (uint64_t i=0;i<A->getNumElements();i++) flatten(A->getElementType(),off+i*s,out); }
    else if (auto* Vt=dyn_cast<FixedVectorType>(T)) { uint64_t s=DL->getTypeAllocSize(Vt->getElementType()); for (uint64_t i=0;i<Vt->getNumElements();i++) flatten(Vt->getElementType(),off+i*s,out); }
    else if (T->isVoidTy()||T->isMetadataTy()||T->isLabelTy()||T->isTokenTy()) {}
    else out.push_back({off,64}); // x86_fp80 etc.: unsupported, caught on use
}
static unsigned leafCount(Type* T) { std::vector<Leaf> l; flatten(T,0,l); return l.size(); }
static unsigned widthOf(Type* T) { if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; return 0; }

static uint64_t constVal(const Constant* C) {
    if (auto* I=dyn_cast<ConstantInt>(C)) return I->getValue().getLimitedValue()&maskw(std::min(64u,I->getBitWidth()));
    if (isa<ConstantPointerNull>(C)||isa<UndefValue>(C)) return 0;
    if (auto* F=dyn_cast<ConstantFP>(C)) return F->getValueAPF().bitcastToAPInt().getLimitedValue();
    if (auto* GA=dyn_cast<GlobalAlias>(C)) return constVal(GA->getAliasee());
    if (auto* G=dyn_cast<GlobalValue>(C)) { auto it=gaddr.find(G); return it==gaddr.end()?0:it->second; }
    if (auto* CE=dyn_cast<ConstantExpr>(C)) {
        switch(CE->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64,0); cast<GEPOperator>(CE)->accumulateConstantOffset(*DL,off); return constVal(CE->getOperand(0))+off.getZExtValue(); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt: return constVal(CE->getOperand(0));
        case Instruction::Trunc: return constVal(CE->getOperand(0))&maskw(CE->getType()->getIntegerBitWidth());
        case Instruction::Sub: return constVal(CE->getOperand(0))-constVal(CE->getOperand(1));
        case Instruction::Add: return constVal(CE->getOperand(0))+constVal(CE->getOperand(1));
        default: fprintf(stderr,"constexpr %s\n",CE->getOpcodeName()); return 0; }
    }
    return 0;
}
static void constLeaves(const Constant* C, std::vector<Opd>& out) {
    Type* T=C->getType();
    if (T->isAggregateType()||T->isVectorTy()) {
        if (isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)) { unsigned n=leafCount(T); for (unsigned i=0;i<n;i++) out.push_back({-1,0}); return; }
        unsigned n=T->isStructTy()?T->getStructNumElements():T->isArrayTy()?T->getArrayNumElements():cast<FixedVectorType>(T)->getNumElements();
        for (unsigned i=0;i<n;i++) constLeaves(C->getAggregateElement(i),out);
        return;
    }
    if (isa<UndefValue>(C)) { out.push_back({-2,0}); return; }
    if (T->isIntegerTy()&&T->getIntegerBitWidth()>64) {
        auto* CI=dyn_cast<ConstantInt>(C); for (unsigned i=0;i<T->getIntegerBitWidth();i+=64) out.push_back({-1,CI?CI->getValue().extractBitsAsZExtValue(std::min(64u,T->getIntegerBitWidth()-i),i):0}); return; }
    out.push_back({-1,constVal(C)});
}

static CFunc* lower(Function* F) {
    auto& up=lowered[F]; if (up) return up.get();
    up=std::make_unique<CFunc>(); CFunc* cf=up.get();
    cf->F=F; cf->name=F->getName().str(); cf->nice=demangle(cf->name);
    if (auto* sp=F->getSubprogram()) { std::string d=sp->getFile()?(sp->getFilename().startswith("/")?sp->getFilename().str():sp->getDirectory().str()+"/"+sp->getFilename().str()):""; cf->inRepo=d.compare(0,opt.repo.size()+1,opt.repo+"/")==0; }
    std::unordered_map<const Value*,int> slot; int n=0;
    auto alloc=[&](const Value* v) { unsigned k=leafCount(v->getType()); slot[v]=n; n+=k; };
    for (auto& a: F->args()) { std::vector<Leaf> l; flatten(a.getType(),0,l); for (auto& x: l) cf->argw.push_back(x.w); alloc(&a); }
    { std::vector<Leaf> l; flatten(F->getReturnType(),0,l); for (auto& x: l) cf->retw.push_back(x.w); }
    for (auto& bb: *F) for (auto& i: bb) if (!i.getType()->isVoidTy()) alloc(&i);
    cf->nslots=n;
    auto ops=[&](const Value* v, std::vector<Opd>& out) {
        if (auto* C=dyn_cast<Constant>(v)) { constLeaves(C,out); return; }
        auto it=slot.find(v); unsigned k=leafCount(v->getType());
        if (it==slot.end()) { for (unsigned i=0;i<k;i++) out.push_back({-1,0}); return; }
        for (unsigned i=0;i<k;i++) out.push_back({(int32_t)(it->second+i),0});
    };
    auto op1=[&](const Value* v) { std::vector<Opd> o; ops(v,o); return o.empty()?Opd{-1,0}:o[0]; };
    std::unordered_map<const BasicBlock*,uint32_t> start;
    std::vector<std::pair<uint32_t,const BasicBlock*>> fix;
    auto edge=[&](const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.target=0;
        for (auto& phi: to->phis()) { std::vector<Opd> o; ops(phi.getIncomingValueForBlock(from),o); std::vector<Leaf> l; flatten(phi.getType(),0,l);
            for (unsigned i=0;i<o.size();i++) e.mv.push_back({slot[&phi]+(int)i,o[i],(uint8_t)l[i].w}); }
        cf->edges.push_back(e); fix.push_back({(uint32_t)cf->edges.size()-1,to});
        return (uint32_t)cf->edges.size()-1;
    };
    uint32_t bi=0;
    for (auto& bb: *F) {
        start[&bb]=cf->code.size(); bi++;
        for (auto& i: bb) {
            if (isa<PHINode>(i)) continue;
            CInst c; c.op=C_BAD; c.loc=i.getDebugLoc().get(); c.blk=bi; c.w=widthOf(i.getType());
            if (slot.count(&i)) c.dst=slot[&i];
            auto bad=[&](const char* m) { c.op=C_BAD; c.x=new Extra; c.x->msg=std::string(m)+" "+i.getOpcodeName(); };
            if (auto* b=dyn_cast<BinaryOperator>(&i)) {
                c.a=op1(b->getOperand(0)); c.b=op1(b->getOperand(1)); c.op=C_BIN;
                switch(b->getOpcode()) {
                case Instruction::Add: c.sub=ADD; break; case Instruction::Sub: c.sub=SUB; break; case Instruction::Mul: c.sub=MUL; break;
                case Instruction::UDiv: c.sub=UDIV; break; case Instruction::SDiv: c.sub=SDIV; break; case Instruction::URem: c.sub=UREM; break; case Instruction::SRem: c.sub=SREM; break;
                case Instruction::And: c.sub=AND; break; case Instruction::Or: c.sub=OR; break; case Instruction::Xor: c.sub=XOR; break;
                case Instruction::Shl: c.sub=SHL; break; case Instruction::LShr: c.sub=LSHR; break; case Instruction::AShr: c.sub=ASHR; break;
                default: c.op=C_FP; c.sub=b->getOpcode(); }
                if (b->getType()->isVectorTy()||c.w>64||c.w==0) bad("wide");
            } else if (auto* p=dyn_cast<ICmpInst>(&i)) {
                c.op=C_ICMP; c.sub=p->getPredicate(); c.w=widthOf(p->getOperand(0)->getType()); c.a=op1(p->getOperand(0)); c.b=op1(p->getOperand(1));
                if (c.w==0||widthOf(p->getOperand(0)->getType())>64) bad("wide");
            } else if (auto* z=dyn_cast<CastInst>(&i)) {
                c.a=op1(z->getOperand(0)); c.w2=widthOf(z->getSrcTy());
                switch(z->getOpcode()) {
                case Instruction::ZExt: c.op=C_ZEXT; break; case Instruction::SExt: c.op=C_SEXT; break; case Instruction::Trunc: c.op=C_TRUNC; break;
                case Instruction::PtrToInt: c.op=c.w<64?C_TRUNC:C_MOVE; break; case Instruction::IntToPtr: c.op=c.w2<64?C_ZEXT:C_MOVE; break;
                case Instruction::BitCast: case Instruction::AddrSpaceCast: c.op=C_MOVE; break;
                default: c.op=C_FCAST; c.sub=z->getOpcode(); }
                if (widthOf(z->getSrcTy())>64||widthOf(z->getDestTy())>64||!c.w||!c.w2) {
                    if (z->getOpcode()==Instruction::ZExt&&widthOf(z->getDestTy())<=128) { c.op=C_COPY; c.x=new Extra; c.x->copies.push_back({c.dst,c.a,64}); c.x->copies.push_back({c.dst+1,{-1,0},64}); }
                    else if (z->getOpcode()==Instruction::Trunc) { c.op=C_TRUNC; c.w2=64; }
                    else bad("wide"); }
            } else if (auto* g=dyn_cast<GetElementPtrInst>(&i)) {
                c.op=C_GEP; c.a=op1(g->getPointerOperand()); c.x=new Extra;
                for (auto it=gep_type_begin(g), e=gep_type_end(g); it!=e; ++it) {
                    if (auto* st=it.getStructTypeOrNull()) c.x->cst+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
                    else { uint64_t sz=DL->getTypeAllocSize(it.getIndexedType());
                        if (auto* ci=dyn_cast<ConstantInt>(it.getOperand())) c.x->cst+=sz*(uint64_t)ci->getSExtValue();
                        else { c.x->ops.push_back(op1(it.getOperand())); c.x->scale.push_back(sz); c.x->ws.push_back(it.getOperand()->getType()->getIntegerBitWidth()); } }
                }
            } else if (auto* l=dyn_cast<LoadInst>(&i)) {
                c.op=C_LOAD; c.a=op1(l->getPointerOperand()); c.x=new Extra; flatten(l->getType(),0,c.x->leaves); c.x->cst=DL->getTypeStoreSize(l->getType());
            } else if (auto* s=dyn_cast<StoreInst>(&i)) {
                c.op=C_STORE; c.a=op1(s->getPointerOperand()); c.x=new Extra; flatten(s->getValueOperand()->getType(),0,c.x->leaves); ops(s->getValueOperand(),c.x->ops); c.x->cst=DL->getTypeStoreSize(s->getValueOperand()->getType());
            } else if (auto* al=dyn_cast<AllocaInst>(&i)) {
                c.op=C_ALLOCA; c.a=op1(al->getArraySize()); c.w2=widthOf(al->getArraySize()->getType()); c.x=new Extra; c.x->cst=DL->getTypeAllocSize(al->getAllocatedType()); c.x->name=al->getName().str();
            } else if (auto* br=dyn_cast<BranchInst>(&i)) {
                if (br->isUnconditional()) { c.op=C_BR; c.e0=edge(&bb,br->getSuccessor(0)); }
                else { c.op=C_CONDBR; c.a=op1(br->getCondition()); c.e0=edge(&bb,br->getSuccessor(0)); c.e1=edge(&bb,br->getSuccessor(1)); }
            } else if (auto* sw=dyn_cast<SwitchInst>(&i)) {
                c.op=C_SWITCH; c.a=op1(sw->getCondition()); c.w=widthOf(sw->getCondition()->getType()); c.e0=edge(&bb,sw->getDefaultDest()); c.x=new Extra;
                for (auto& k: sw->cases()) c.x->cases.push_back({k.getCaseValue()->getZExtValue(),edge(&bb,k.getCaseSuccessor())});
            } else if (auto* r=dyn_cast<ReturnInst>(&i)) {
                c.op=C_RET; c.x=new Extra; if (r->getReturnValue()) ops(r->getReturnValue(),c.x->ops);
            } else if (isa<UnreachableInst>(&i)) c.op=C_UNREACH;
            else if (auto* se=dyn_cast<SelectInst>(&i)) {
                c.op=C_SELECT; c.a=op1(se->getCondition()); c.x=new Extra; std::vector<Opd> t,f; ops(se->getTrueValue(),t); ops(se->getFalseValue(),f); flatten(se->getType(),0,c.x->leaves);
                for (unsigned k=0;k<t.size();k++) { c.x->ops.push_back(t[k]); c.x->ops.push_back(f[k]); }
            } else if (auto* ev=dyn_cast<ExtractValueInst>(&i)) {
                std::vector<Opd> o; ops(ev->getAggregateOperand(),o); Type* T=ev->getAggregateOperand()->getType(); unsigned skip=0;
                for (unsigned ix: ev->indices()) { if (T->isStructTy()) { for (unsigned k=0;k<ix;k++) skip+=leafCount(T->getStructElementType(k)); T=T->getStructElementType(ix); } else { skip+=ix*leafCount(T->getArrayElementType()); T=T->getArrayElementType(); } }
                c.op=C_COPY; c.x=new Extra; std::vector<Leaf> lv; flatten(T,0,lv); for (unsigned k=0;k<lv.size();k++) c.x->copies.push_back({c.dst+(int)k,o[skip+k],(uint8_t)lv[k].w});
            } else if (auto* iv=dyn_cast<InsertValueInst>(&i)) {
                std::vector<Opd> o,v; ops(iv->getAggregateOperand(),o); ops(iv->getInsertedValueOperand(),v); Type* T=iv->getType(); unsigned skip=0;
                for (unsigned ix: iv->indices()) { if (T->isStructTy()) { for (unsigned k=0;k<ix;k++) skip+=leafCount(T->getStructElementType(k)); T=T->getStructElementType(ix); } else { skip+=ix*leafCount(T->getArrayElementType()); T=T->getArrayElementType(); } }
                c.op=C_COPY; c.x=new Extra; std::vector<Leaf> lv; flatten(iv->getType(),0,lv);
                for (unsigned k=0;k<lv.size();k++) { Opd s=(k>=skip&&k<skip+v.size())?v[k-skip]:o[k]; c.x->copies.push_back({c.dst+(int)k,s,(uint8_t)lv[k].w}); }
            } else if (auto* fr=dyn_cast<FreezeInst>(&i)) { c.op=C_MOVE; c.a=op1(fr->getOperand(0)); }
            else if (auto* rm=dyn_cast<AtomicRMWInst>(&i)) { c.op=C_RMW; c.sub=rm->getOperation(); c.a=op1(rm->getPointerOperand()); c.b=op1(rm->getValOperand()); }
            else if (auto* cx=dyn_cast<AtomicCmpXchgInst>(&i)) { c.op=C_CMPXCHG; c.w=widthOf(cx->getCompareOperand()->getType()); c.a=op1(cx->getPointerOperand()); c.b=op1(cx->getCompareOperand()); c.c=op1(cx->getNewValOperand()); }
            else if (isa<FenceInst>(&i)) continue;
            else if (auto* fc=dyn_cast<FCmpInst>(&i)) { c.op=C_FCMP; c.sub=fc->getPredicate(); c.w=widthOf(fc->getOperand(0)->getType()); c.a=op1(fc->getOperand(0)); c.b=op1(fc->getOperand(1)); }
            else if (i.getOpcode()==Instruction::FNeg) { c.op=C_FP; c.sub=Instruction::FNeg; c.a=op1(i.getOperand(0)); }
            else if (isa<LandingPadInst>(&i)) c.op=C_LPAD;
            else if (isa<ResumeInst>(&i)) c.op=C_RESUME;
            else if (auto* cb=dyn_cast<CallBase>(&i)) {
                if (isa<DbgInfoIntrinsic>(&i)) continue;
                c.op=C_CALL; c.x=new Extra; Extra* x=c.x;
                if (auto* ia=dyn_cast<InlineAsm>(cb->getCalledOperand())) { if (ia->getAsmString().empty()&&i.getType()->isVoidTy()) continue; bad("inline asm"); }
                Value* cv=cb->getCalledOperand()->stripPointerCasts(); if (auto* ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliaseeObject();
                x->callee=dyn_cast<Function>(cv); if (!x->callee) c.a=op1(cb->getCalledOperand()); else x->name=x->callee->getName().str();
                for (unsigned k=0;k<cb->arg_size();k++) { Value* av=cb->getArgOperand(k); if (av->getType()->isMetadataTy()) { continue; } size_t o=x->ops.size(); ops(av,x->ops); std::vector<Leaf> lv; flatten(av->getType(),0,lv); for (auto& q: lv) x->ws.push_back(q.w);
                    x->byval.resize(x->ops.size(),0); if (cb->isByValArgument(k)) x->byval[o]=DL->getTypeAllocSize(cb->getParamByValType(k)); }
                std::vector<Leaf> lv; flatten(i.getType(),0,lv); x->nret=lv.size(); for (auto& q: lv) x->retw.push_back(q.w);
                cf->code.push_back(c);
                if (auto* iv=dyn_cast<InvokeInst>(cb)) { CInst b; b.op=C_BR; b.blk=bi; b.loc=c.loc; b.e0=edge(&bb,iv->getNormalDest()); cf->code.push_back(b); }
                continue;
            } else bad("unsupported");
            cf->code.push_back(c);
        }
    }
    for (auto& f: fix) cf->edges[f.first].target=start[f.second];
    cf->cov.assign(cf->code.size(),0);
    return cf;
}

// ------------------------------------------------------------------ state
struct V { uint64_t c=0; Expr* e=nullptr; };
struct Frame { CFunc* f; uint32_t pc; uint32_t base; int32_t ret; uint16_t nret; const CInst* site; std::vector<uint32_t> allocas; };
struct Ctx { std::vector<Frame> fr; std::vector<V> regs; bool done=false; };
struct InputEv { std::string name; unsigned n; std::vector<Expr*> bytes; bool scalar; };
struct Obs { V v; uint8_t w; };
struct State {
    ObjTable mem; std::vector<Ctx> ctx; int cur=0; std::vector<Expr*> cons; std::unordered_map<Expr*,char> known; Model model;
    std::unordered_map<uint32_t,uint64_t> subst; std::vector<InputEv> in; std::vector<Obs> obs; std::vector<std::string> reach;
    std::map<std::string,int> names; uint64_t liveBytes=0, instr=0, allocLimit=0; std::set<Expr*> ask; int forks=0, immortal=0; bool inconclusive=false; uint64_t id=0;
};
struct PathEnd { int why; }; // 0 completed 1 infeasible 2 error 3 limit
struct Switched {};

struct ErrRec { std::string kind,msg,loc,fn; std::vector<std::string> stack; std::string inputs; uint64_t count=1; std::string obs; };

static std::vector<State*> work;
static State* S; // current
static std::map<std::string,ErrRec> errors; static std::vector<std::string> errOrder;
static uint64_t nPaths=0,nInfeasible=0,nErrPaths=0,nLimit=0,nForks=0,nInstr=0,nStates=0,nAsserts=0,nAssertQ=0,nBounds=0;
static std::map<std::string,uint64_t> reachCount; static std::map<std::string,uint64_t> warns;
static uint64_t nFeas=0; static std::vector<std::string> samples; static std::mt19937_64 rng; static bool timeUp=false;
static double deadline;

static uint64_t mval(uint64_t id) { return id<S->model.size()?S->model[id]:0; }
static uint64_t evalE(Expr* e, State* st=nullptr) { if (!st) st=S; std::unordered_map<Expr*,uint64_t> memo; return X.eval(e,[&](uint64_t id){ return id<st->model.size()?st->model[id]:0; },memo); }
static inline Expr* E(V v, unsigned w) { return v.e?v.e:X.c(v.c,w); }
static inline V mk(Expr* e) { if (e->isConst()) return {e->val,nullptr}; return {0,e}; }

static Expr* rewrite(Expr* e) {
    if (S->subst.empty()||e->isConst()) return e;
    bool hit=false; for (auto v: *e->vars) if (S->subst.count(v)) { hit=true; break; }
    if (!hit) return e;
    std::unordered_map<Expr*,Expr*> memo;
    std::function<Expr*(Expr*)> go=[&](Expr* x)->Expr* {
        if (x->op==CONST) return x;
        if (x->op==VAR) { auto it=S->subst.find(x->val); return it==S->subst.end()?x:X.c(it->second,x->w); }
        auto it=memo.find(x); if (it!=memo.end()) return it->second;
        Expr* r=X.rebuild(x,go(x->k[0]),x->k[1]?go(x->k[1]):nullptr,x->k[2]?go(x->k[2]):nullptr);
        memo[x]=r; return r; };
    return go(e);
}
static void addCons(State* st, Expr* c) {
    if (c->isConst()) return;
    if (c->op==AND&&c->w==1) { addCons(st,c->k[0]); addCons(st,c->k[1]); return; }
    if (st->known.count(c)&&st->known[c]) return;
    st->cons.push_back(c); st->known[c]=1; Expr* nc=X.notb(c); st->known[nc]=0;
    if (c->op==EQ&&c->k[1]->isConst()&&c->k[0]->op==VAR) st->subst[c->k[0]->val]=c->k[1]->val;
    if (c->op==VAR) st->subst[c->val]=1;
    if (ExprCtx::isNot(c)&&c->k[0]->op==VAR) st->subst[c->k[0]->val]=0;
}
static void setModel(State* st, const std::vector<std::pair<uint32_t,uint64_t>>& m) { for (auto& p: m) { if (st->model.size()<=p.first) st->model.resize(p.first+1,0); st->model[p.first]=p.second; } }

// is cond satisfiable together with the path condition?
static Res maySat(Expr* cond, std::vector<std::pair<uint32_t,uint64_t>>& m) {
    static std::vector<char> mark; if (mark.size()<X.varinfo.size()) mark.resize(X.varinfo.size()+256,0);
    std::vector<uint32_t> touched; auto add=[&](Expr* e){ for (auto v: *e->vars) if (!mark[v]) { mark[v]=1; touched.push_back(v); } };
    add(cond); std::vector<Expr*> cs{cond}; std::vector<char> used(S->cons.size(),0); bool ch=true;
    while (ch) { ch=false; for (size_t i=S->cons.size();i-->0;) if (!used[i]) { bool h=false; for (auto v: *S->cons[i]->vars) if (mark[v]) { h=true; break; } if (h) { used[i]=1; cs.push_back(S->cons[i]); add(S->cons[i]); ch=true; } } }
    for (auto v: touched) mark[v]=0;
    if (deadline&&now()>deadline) throw PathEnd{3};
    Res r=SV.check(cs,m); if (r==R_UNK) S->inconclusive=true;
    return r;
}
static State* forkState() { State* n=new State(*S); nForks++; S->forks++; n->id=++nStates; return n; }

// decide a condition, forking when both outcomes are possible. The other state re-executes the current instruction.
static bool decide(Expr* c) {
    if (c->isConst()) return c->val;
    auto k=S->known.find(c); if (k!=S->known.end()) return k->second;
    Expr* r=rewrite(c); if (r->isConst()) return r->val;
    k=S->known.find(r); if (k!=S->known.end()) return k->second;
    bool b=evalE(r); SV.modelHits++;
    Expr* pos=b?r:X.notb(r); Expr* neg=b?X.notb(r):r;
    std::vector<std::pair<uint32_t,uint64_t>> m; Res q=maySat(neg,m);
    if (q==R_SAT) {
        State* n=forkState(); setModel(n,m); addCons(n,neg); n->known[c]=!b; n->known[r]=!b; work.push_back(n);
        addCons(S,pos);
    }
    S->known[c]=b; S->known[r]=b;
    return b;
}
static uint64_t concretize(V v, unsigned w) {
    if (!v.e) return v.c;
    Expr* e=rewrite(v.e); if (e->isConst()) return e->val;
    uint64_t x=evalE(e); Expr* eq=X.eq(e,X.c(x,w));
    if (decide(eq)) return x;
    abort();
}
static std::string hexOf(const std::vector<Expr*>& bytes, State* st) { std::string r; char b[4]; for (auto e: bytes) { snprintf(b,sizeof b,"%02x",(unsigned)evalE(e,st)); r+=b; } return r; }
static std::string inputsOf(State* st) { std::string r="["; bool f=true; for (auto& i: st->in) { if (!f) r+=","; f=false; r+="[\""+i.name+"\","+std::to_string(i.n)+",\""+hexOf(i.bytes,st)+"\"]"; } return r+"]"; }
static std::string obsOf(State* st) { std::string r="["; bool f=true; for (auto& o: st->obs) { if (!f) r+=","; f=false; r+="\""+std::to_string(o.v.e?evalE(o.v.e,st):o.v.c)+"\""; } return r+"]"; }
static std::string locStr(const DILocation* l) { if (!l) return "?"; std::string f=l->getFilename().str(); auto p=f.rfind(opt.repo+"/",0); if (p==0) f=f.substr(opt.repo.size()+1); return f+":"+std::to_string(l->getLine()); }
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c: s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if (c=='\n') r+="\\n"; else if (c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }

static void report(const std::string& kind, const std::string& msg, State* st) {
    ErrRec e; e.kind=kind; e.msg=msg;
    Ctx& cx=st->ctx[st->cur]; std::string firstRepo;
    for (size_t i=cx.fr.size();i-->0;) { Frame& f=cx.fr[i]; std::string s=f.f->nice+" "+locStr(f.f->code[std::min<size_t>(f.pc,f.f->code.size()-1)].loc); e.stack.push_back(s);
        if (firstRepo.empty()&&f.f->inRepo) { firstRepo=locStr(f.f->code[f.pc].loc); e.fn=f.f->nice; } }
    e.loc=firstRepo;
    std::string key=kind+"|"+msg+"|"+(firstRepo.empty()?(e.stack.empty()?"":e.stack[0]):firstRepo);
    auto it=errors.find(key); if (it!=errors.end()) { it->second.count++; return; }
    e.inputs=inputsOf(st); e.obs=obsOf(st);
    errors[key]=e; errOrder.push_back(key);
    if (opt.verbose) { fprintf(stderr,"ERROR %s: %s at %s\n",kind.c_str(),msg.c_str(),e.loc.c_str()); for (auto& s: e.stack) fprintf(stderr,"   %s\n",s.c_str()); fprintf(stderr,"   %s\n",e.inputs.c_str()); }
    if ((int)errors.size()>=opt.maxErrors) timeUp=true;
}
[[noreturn]] static void fail(const std::string& kind, const std::string& msg) { report(kind,msg,S); throw PathEnd{2}; }
// the condition ok must hold: report a violation if it can be false, continue where it is true
static void require(Expr* ok, const std::string& kind, const std::string& msg) {
    if (ok->isConst()) { if (!ok->val) fail(kind,msg); return; }
    auto k=S->known.find(ok); if (k!=S->known.end()) { if (!k->second) fail(kind,msg); return; }
    Expr* r=rewrite(ok); if (r->isConst()) { if (!r->val) fail(kind,msg); return; }
    std::vector<std::pair<uint32_t,uint64_t>> m; Res q; bool b=evalE(r); Expr* neg=X.notb(r);
    nAssertQ++;
    if (!b) { // current model already violates
        report(kind,msg,S); q=maySat(r,m); if (q!=R_SAT) throw PathEnd{2}; nErrPaths++; setModel(S,m); addCons(S,r); S->known[ok]=1; return; }
    q=maySat(neg,m);
    if (q==R_SAT) { State* n=forkState(); setModel(n,m); addCons(n,neg); report(kind,msg,n); nErrPaths++; delete n; addCons(S,r); }
    S->known[ok]=1;
}

// ------------------------------------------------------------------ memory operations
static uint32_t newObj(uint64_t size, ObjKind k, uint8_t tag, const void* site, const char* name) {
    uint32_t i=S->mem.add(); Obj& o=S->mem.wr(i); o.d=ObjData::make((uint32_t)size,tag); o.size=size; o.kind=k; o.site=site; o.name=name; return i;
}
static const char* kindName(ObjKind k) { switch(k) { case OK_GLOBAL: return "global"; case OK_CONST: return "constant"; case OK_STACK: return "stack"; case OK_MALLOC: return "malloc"; case OK_NEW: return "new"; default: return "new[]"; } }
static void badAccess(uint64_t a, uint64_t n, bool wr) {
    std::string what=wr?"write":"read"; int64_t oi=addrObj(a);
    if (a<0x100000) fail("null-deref",what+" through a null pointer");
    if (oi<0||oi>=(int64_t)S->mem.n) fail("wild-pointer",what+" through an invalid pointer");
    const Obj& o=S->mem.rd(oi);
    if (!o.d) fail(o.freed?"use-after-free":"use-after-scope",what+" of "+kindName(o.kind)+" memory after it was released");
    fail("out-of-bounds",what+" outside a "+kindName(o.kind)+" object");
}
struct Loc { uint32_t idx; uint64_t off; Expr* offE; };
// resolve an access of n bytes
static Loc resolve(V a, uint64_t n, bool wr) {
    if (a.e) {
        Expr* e=rewrite(a.e);
        if (!e->isConst()) {
            uint64_t cur=evalE(e); int64_t oi=addrObj(cur);
            // which object? ask for another region
            if (oi>=0&&oi<(int64_t)S->mem.n&&S->mem.rd(oi).d) {
                Expr* reg=X.eq(X.extract(e,33,31),X.c((uint64_t)(oi+1),31));
                nBounds++;
                const Obj& o=S->mem.rd(oi); uint64_t lim=o.ssize?0:(o.size>=n?o.size-n:0);
                Expr* off=X.bin(SUB,e,X.c(objBase(oi),64));
                Expr* inb;
                if (o.ssize) inb=X.bin(AND,X.bin(ULE,X.c(n,64),o.ssize),X.bin(ULE,off,X.bin(SUB,o.ssize,X.c(n,64))));
                else inb=o.size>=n?X.bin(ULE,off,X.c(lim,64)):X.fls();
                require(X.bin(OR,X.notb(reg),inb),"out-of-bounds",std::string(wr?"write":"read")+" outside a "+kindName(o.kind)+" object");
                if (!decide(reg)) { cur=evalE(e); // other objects: re-resolve under the new constraint
                    return resolve(a,n,wr); }
                off=rewrite(off);
                if (off->isConst()) return {(uint32_t)oi,off->val,nullptr};
                return {(uint32_t)oi,0,off};
            }
            // current model hits no live object: error for this value; others go on
            Expr* eq=X.eq(e,X.c(cur,64));
            if (decide(eq)) badAccess(cur,n,wr);
            abort();
        }
        a={e->val,nullptr};
    }
    int64_t oi=addrObj(a.c);
    if (oi<0||oi>=(int64_t)S->mem.n) badAccess(a.c,n,wr);
    const Obj& o=S->mem.rd(oi); uint64_t off=a.c-objBase(oi);
    if (!o.d) badAccess(a.c,n,wr);
    if (o.ssize) {
        nBounds++;
        if (off>(1ull<<32)) badAccess(a.c,n,wr);
        require(X.bin(ULE,X.c(off+n,64),o.ssize),"out-of-bounds",std::string(wr?"write":"read")+" outside a "+kindName(o.kind)+" object");
        if (off+n>(1<<20)) throw PathEnd{3};
        if (off+n>o.d->cap) { ObjData* d=S->mem.wdata(oi); uint64_t nc=std::max<uint64_t>(off+n,d->cap*2); d->grow(nc); }
    } else if (off>o.size||n>o.size-off) badAccess(a.c,n,wr);
    if (wr&&o.kind==OK_CONST) fail("write-to-const","write to constant memory");
    return {(uint32_t)oi,off,nullptr};
}
static Expr* byteAt(ObjData* d, uint64_t i) {
    if (i>=d->cap) return X.c(0,8);
    if (d->t[i]==0) return X.c(d->b[i],8);
    if (d->t[i]==1) { int k=S->names["uninit"]++; Expr* v; static std::vector<Expr*> pool; while ((int)pool.size()<=k) pool.push_back(X.var("uninit"+std::to_string(pool.size()),8,true)); v=pool[k];
        // make it stable: the same byte read twice has one value
        return v; }
    return d->s[i];
}
static V loadW(const Loc& L, uint64_t off, unsigned w) {
    unsigned n=(w+7)/8;
    if (!L.offE) {
        ObjData* d=S->mem.rd(L.idx).d; uint64_t o=L.off+off;
        bool conc=true; for (unsigned i=0;i<n;i++) if (d->t[o+i]) { conc=false; break; }
        if (conc) { uint64_t v=0; memcpy(&v,d->b+o,n); return {v&maskw(w),nullptr}; }
        for (unsigned i=0;i<n;i++) if (d->t[o+i]==1) { Expr* u=byteAt(d,o+i); d=S->mem.wdata(L.idx); d->setSym(o+i,u); }
        Expr* r=byteAt(d,o); for (unsigned i=1;i<n;i++) r=X.concat(byteAt(d,o+i),r);
        if (w<r->w) r=X.extract(r,0,w);
        return mk(r);
    }
    // symbolic offset: chain over the object
    const Obj& ob=S->mem.rd(L.idx);
    if (ob.ssize||ob.size>512) { uint64_t o=concretize({0,L.offE},64); Loc l{L.idx,o,nullptr}; if (ob.ssize&&o+off+n>S->mem.rd(L.idx).d->cap) { if (o+off+n>(1<<20)) throw PathEnd{3}; S->mem.wdata(L.idx)->grow(o+off+n); } return loadW(l,off,w); }
    ObjData* d=ob.d;
    for (uint64_t i=0;i<ob.size;i++) if (d->t[i]==1) { Expr* u=byteAt(d,i); d=S->mem.wdata(L.idx); d->setSym(i,u); }
    Expr* r=nullptr;
    for (uint64_t o=0;o+off+n<=ob.size;o++) {
        Expr* v=byteAt(d,o+off); for (unsigned i=1;i<n;i++) v=X.concat(byteAt(d,o+off+i),v);
        if (w<v->w) v=X.extract(v,0,w);
        r=r?X.ite(X.eq(L.offE,X.c(o,64)),v,r):v;
    }
    return mk(r?r:X.c(0,w));
}
static void storeW(const Loc& L, uint64_t off, unsigned w, V v) {
    unsigned n=(w+7)/8; uint64_t o=L.off+off; ObjData* d=S->mem.wdata(L.idx);
    if (!v.e) { memcpy(d->b+o,&v.c,n); memset(d->t+o,0,n); return; }
    Expr* e=v.e; if (w%8) e=X.zext(e,n*8);
    for (unsigned i=0;i<n;i++) d->setSym(o+i,X.extract(e,i*8,8));
}
static Loc resolveConc(V a, uint64_t n, bool wr) { Loc L=resolve(a,n,wr); if (L.offE) { uint64_t o=concretize({0,L.offE},64); L.off=o; L.offE=nullptr; const Obj& ob=S->mem.rd(L.idx); if (ob.ssize&&o+n>ob.d->cap) { if (o+n>(1<<20)) throw PathEnd{3}; S->mem.wdata(L.idx)->grow(o+n); } } return L; }

static uint64_t doAlloc(V sz, ObjKind k, const CInst* I, bool zero=false) {
    Expr* s=sz.e?rewrite(sz.e):X.c(sz.c,64);
    if (S->allocLimit) require(X.bin(ULE,s,X.c(S->allocLimit,64)),"excessive-allocation","memory request out of proportion to the input (limit "+std::to_string(S->allocLimit)+" bytes)");
    s=rewrite(s);
    require(X.bin(ULE,s,X.c(0xFFFFFFFFull+64,64)),"excessive-allocation","memory request above 4 GiB");
    s=rewrite(s);
    uint32_t i;
    if (s->isConst()) { if (s->val>(64u<<20)) { i=newObj(64,k,zero?0:1,I,nullptr); Obj& o=S->mem.wr(i); o.size=s->val; o.ssize=X.c(s->val,64); } else i=newObj(s->val,k,zero?0:1,I,nullptr); }
    else { i=newObj(64,k,zero?0:1,I,nullptr); Obj& o=S->mem.wr(i); o.ssize=s; o.size=0; if (zero) warns["calloc with symbolic size"]++; }
    if (S->immortal>0) S->mem.wr(i).immortal=true; else S->liveBytes+=S->mem.rd(i).size+(1ull<<32); // what the initialisation of a static local allocates is no leak
    return objBase(i);
}
static void doFree(V p, int how) { // how: 0 free 1 delete 2 delete[]
    uint64_t a=concretize(p,64); if (!a) return;
    int64_t oi=addrObj(a);
    if (oi<0||oi>=(int64_t)S->mem.n) fail("bad-free","release of an invalid pointer");
    const Obj& o=S->mem.rd(oi);
    if (o.kind<OK_MALLOC) fail("bad-free",std::string("release of ")+kindName(o.kind)+" memory");
    if (!o.d) fail("double-free",std::string("release of ")+kindName(o.kind)+" memory that was already released");
    if (a!=objBase(oi)) fail("bad-free","release of a pointer into the middle of a block");
    ObjKind want=how==0?OK_MALLOC:how==1?OK_NEW:OK_NEWARR;
    if (o.kind!=want) fail("alloc-dealloc-mismatch",std::string("memory from ")+kindName(o.kind)+" released with "+(how==0?"free":how==1?"delete":"delete[]"));
    Obj& w=S->mem.wr(oi); if (!w.immortal) S->liveBytes-=w.size+(1ull<<32); ObjData::unref(w.d); w.d=nullptr; w.freed=true; w.ssize=nullptr;
}
static void doCopy(V dst, V src, V len, bool overlapOk) {
    if (len.e) { Expr* l=rewrite(len.e); len=mk(l); }
    if (len.e) {
        // check bounds for the symbolic length first, then fork on its values
        for (int k=0;k<2;k++) { V p=k?src:dst; uint64_t a=p.e?evalE(rewrite(p.e)):p.c; int64_t oi=addrObj(a);
            if (oi>=0&&oi<(int64_t)S->mem.n&&S->mem.rd(oi).d) { const Obj& o=S->mem.rd(oi); Expr* size=o.ssize?o.ssize:X.c(o.size,64); Expr* off=X.bin(SUB,E(p,64),X.c(objBase(oi),64));
                Expr* reg=p.e?X.eq(X.extract(p.e,33,31),X.c(oi+1,31)):X.tru(); nBounds++;
                Expr* inb=X.bin(AND,X.bin(ULE,off,size),X.bin(ULE,len.e,X.bin(SUB,size,off)));
                require(X.bin(OR,X.bin(OR,X.eq(len.e,X.c(0,64)),X.notb(reg)),inb),"out-of-bounds",std::string(k?"read":"write")+" outside a "+kindName(o.kind)+" object"); }
        }
        len={concretize(len,64),nullptr};
    }
    uint64_t n=len.c; if (!n) return;
    if (n>(1ull<<32)) { V p=dst; badAccess(p.e?evalE(p.e):p.c,n,true); }
    Loc s=resolveConc(src,n,false); Loc d=resolveConc(dst,n,true);
    if (!overlapOk&&s.idx==d.idx&&s.off!=d.off&&(s.off<d.off?d.off-s.off<n:s.off-d.off<n)) fail("memcpy-overlap","memcpy between overlapping regions");
    if (s.idx==d.idx&&s.off==d.off) return;
    ObjData* dd=S->mem.wdata(d.idx); ObjData* sd=S->mem.rd(s.idx).d;
    if (s.idx!=d.idx||true) {
        std::vector<uint8_t> tb(sd->b+s.off,sd->b+s.off+n), tt(sd->t+s.off,sd->t+s.off+n); std::vector<Expr*> ts; 
        bool anySym=false; for (auto t: tt) if (t==2) { anySym=true; break; }
        if (anySym) { ts.assign(sd->s+s.off,sd->s+s.off+n); if (!dd->s) dd->s=(Expr**)malloc(sizeof(Expr*)*dd->cap); }
        memcpy(dd->b+d.off,tb.data(),n); memcpy(dd->t+d.off,tt.data(),n);
        if (anySym) for (uint64_t i=0;i<n;i++) if (tt[i]==2) dd->s[d.off+i]=ts[i];
    }
}
static void doSet(V dst, V val, V len) {
    uint64_t n;
    if (len.e) {
        uint64_t a=dst.e?evalE(rewrite(dst.e)):dst.c; int64_t oi=addrObj(a);
        if (oi>=0&&oi<(int64_t)S->mem.n&&S->mem.rd(oi).d&&!dst.e) { const Obj& o=S->mem.rd(oi); Expr* size=o.ssize?o.ssize:X.c(o.size,64); uint64_t off=a-objBase(oi); nBounds++;
            require(X.bin(AND,X.bin(ULE,X.c(off,64),size),X.bin(ULE,len.e,X.bin(SUB,size,X.c(off,64)))),"out-of-bounds",std::string("write outside a ")+kindName(o.kind)+" object"); }
        n=concretize(len,64);
    } else n=len.c;
    if (!n) return;
    Loc d=resolveConc(dst,n,true); ObjData* dd=S->mem.wdata(d.idx);
    for (uint64_t i=0;i<n;i++) { if (val.e) dd->setSym(d.off+i,X.extract(val.e,0,8)); else { dd->b[d.off+i]=(uint8_t)val.c; dd->t[d.off+i]=0; } }
}
static std::string cstr(V p) { std::string r; uint64_t a=concretize(p,64); for (;;) { Loc L=resolveConc({a,nullptr},1,false); V v=loadW(L,0,8); uint64_t c=concretize(v,8); if (!c) break; r+=(char)c; a++; if (r.size()>4096) break; } return r; }

// ------------------------------------------------------------------ intrinsics
enum { I_NONE, I_MALLOC, I_CALLOC, I_REALLOC, I_NEW, I_NEWARR, I_FREE, I_DELETE, I_DELETEARR, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_MEMCMP, I_NOP, I_THROW, I_ABORT,
  I_MAKESYM, I_ASSUME, I_ASSERT, I_FAIL, I_RANGE, I_CONC, I_CTXCREATE, I_CTXSWITCH, I_CTXSELF, I_CTXEXIT, I_REACH, I_OBSERVE, I_PARAM, I_LIVE, I_ALLOCLIMIT, I_ENDPATH, I_ISSYM, I_INENGINE, I_NEWNOTHROW, I_NEWARRNOTHROW, I_RET0, I_PUTS,
  I_OVERFLOW, I_MINMAX, I_ABS, I_BSWAP, I_CTPOP, I_CTZ, I_CLZ, I_FSH, I_ISCONST, I_EXPECT, I_OBJSIZE, I_USUBSAT, I_UADDSAT, I_TLADDR, I_EHTYPEID, I_STACKSAVE, I_TRAP, I_LASSUME, I_LOADREL, I_ISFREED, I_SHRINK, I_POINTS, I_IMMORTAL };
static int intrinsicId(const std::string& n, Function* F) {
    static const std::map<std::string,int> T={{"malloc",I_MALLOC},{"calloc",I_CALLOC},{"realloc",I_REALLOC},{"free",I_FREE},{"cfree",I_FREE},{"_Znwm",I_NEW},{"_Znam",I_NEWARR},{"_ZnwmRKSt9nothrow_t",I_NEWNOTHROW},{"_ZnamRKSt9nothrow_t",I_NEWARRNOTHROW},
        {"_ZnwmSt11align_val_t",I_NEW},{"_ZnamSt11align_val_t",I_NEWARR},{"memcpy",I_MEMCPY},{"memmove",I_MEMMOVE},{"memset",I_MEMSET},{"memcmp",I_MEMCMP},{"bcmp",I_MEMCMP},{"abort",I_ABORT},{"_ZSt9terminatev",I_ABORT},{"__cxa_pure_virtual",I_ABORT},{"exit",I_ABORT},{"_exit",I_ABORT},
        {"__cxa_throw",I_THROW},{"__cxa_rethrow",I_THROW},{"__cxa_allocate_exception",I_MALLOC},{"__cxa_begin_catch",I_RET0},{"__cxa_end_catch",I_NOP},{"_ZSt21__glibcxx_assert_failPKciS0_S0_",I_ABORT},{"__assert_fail",I_ABORT},{"__cxa_atexit",I_RET0},{"_ZNSt8ios_base4InitC1Ev",I_NOP},{"_ZNSt8ios_base4InitD1Ev",I_NOP},{"_ZSt21ios_base_library_initv",I_NOP},
        {"_ZNSaIcEC1Ev",I_NOP},{"_ZNSaIcED1Ev",I_NOP},{"_ZNSaIcEC2Ev",I_NOP},{"_ZNSaIcED2Ev",I_NOP},{"_ZNSaIcEC1ERKS_",I_NOP},{"_ZNSaIcEC2ERKS_",I_NOP},{"puts",I_PUTS},{"printf",I_PUTS},{"fprintf",I_PUTS},{"putchar",I_PUTS},{"fputs",I_PUTS},{"fputc",I_PUTS},{"fwrite",I_PUTS},{"fflush",I_PUTS},
        {"dsym_make_symbolic",I_MAKESYM},{"dsym_assume",I_ASSUME},{"dsym_assert",I_ASSERT},{"dsym_fail",I_FAIL},{"dsym_range",I_RANGE},{"dsym_concretize",I_CONC},{"dsym_ctx_create",I_CTXCREATE},{"dsym_ctx_switch",I_CTXSWITCH},{"dsym_ctx_self",I_CTXSELF},{"dsym_ctx_exit",I_CTXEXIT},
        {"dsym_reach",I_REACH},{"dsym_observe",I_OBSERVE},{"dsym_param",I_PARAM},{"dsym_live_bytes",I_LIVE},{"dsym_alloc_limit",I_ALLOCLIMIT},{"dsym_end_path",I_ENDPATH},{"dsym_is_symbolic",I_ISSYM},{"dsym_in_engine",I_INENGINE},{"dsym_is_freed",I_ISFREED},{"dsym_points_to",I_POINTS},{"dsym_immortal",I_IMMORTAL}};
    auto it=T.find(n); if (it!=T.end()) return it->second;
    auto sw=[&](const char* p) { return n.compare(0,strlen(p),p)==0; };
    if (sw("_ZdlPv")) return I_DELETE; if (sw("_ZdaPv")) return I_DELETEARR;
    if (sw("_ZSt")&&n.find("__throw_")!=std::string::npos) return I_THROW;
    if (sw("llvm.")) {
        if (sw("llvm.memcpy")) return I_MEMCPY; if (sw("llvm.memmove")) return I_MEMMOVE; if (sw("llvm.memset")) return I_MEMSET;
        if (n.find(".with.overflow")!=std::string::npos) return I_OVERFLOW;
        if (sw("llvm.umin")||sw("llvm.umax")||sw("llvm.smin")||sw("llvm.smax")) return I_MINMAX;
        if (sw("llvm.abs")) return I_ABS; if (sw("llvm.bswap")) return I_BSWAP; if (sw("llvm.ctpop")) return I_CTPOP; if (sw("llvm.cttz")) return I_CTZ; if (sw("llvm.ctlz")) return I_CLZ;
        if (sw("llvm.fsh")) return I_FSH; if (sw("llvm.is.constant")) return I_ISCONST; if (sw("llvm.expect")) return I_EXPECT; if (sw("llvm.objectsize")) return I_OBJSIZE;
        if (sw("llvm.usub.sat")) return I_USUBSAT; if (sw("llvm.uadd.sat")) return I_UADDSAT; if (sw("llvm.threadlocal.address")) return I_TLADDR; if (sw("llvm.eh.typeid")) return I_EHTYPEID;
        if (sw("llvm.stacksave")) return I_STACKSAVE; if (sw("llvm.trap")||sw("llvm.ubsantrap")) return I_TRAP; if (sw("llvm.assume")) return I_LASSUME;
        return I_NOP;
    }
    return I_NONE;
}

static CFunc* entryOf(uint64_t a) { if (a<FN_BASE) return nullptr; uint64_t i=(a-FN_BASE)/16; if ((a-FN_BASE)%16||i>=fnTable.size()) return nullptr; return lower(fnTable[i]); }
static void pushFrame(Ctx& cx, CFunc* f, const std::vector<V>& args, int ret, int nret, const CInst* site) {
    if (cx.fr.size()>20000) fail("stack-overflow","call depth above 20000");
    Frame fr; fr.f=f; fr.pc=0; fr.base=cx.fr.empty()?0:cx.fr.back().base+cx.fr.back().f->nslots; fr.ret=ret; fr.nret=nret; fr.site=site;
    cx.regs.resize(fr.base+f->nslots); for (size_t i=0;i<(size_t)f->nslots;i++) cx.regs[fr.base+i]=i<args.size()&&i<f->argw.size()?args[i]:V();
    f->hits++; cx.fr.push_back(std::move(fr));
}
static Expr* binE(uint8_t op, Expr* a, Expr* b) { return X.bin((Op)op,a,b); }

// returns normally when the path switched frames/contexts; throws PathEnd at the end
static void run() {
  reload:
    Ctx* cx=&S->ctx[S->cur]; Frame* fr=&cx->fr.back(); CFunc* f=fr->f; const CInst* code=f->code.data(); uint32_t pc=fr->pc; V* R=cx->regs.data()+fr->base;
    auto G=[&](const Opd& o, unsigned w) -> V { if (o.slot>=0) return R[o.slot]; if (o.slot==-2) { int k=S->names["undef"+std::to_string(w)]++; static std::map<unsigned,std::vector<Expr*>> pool; auto& p=pool[w]; while ((int)p.size()<=k) p.push_back(X.var("undef",w,true)); return {0,p[k]}; } return {o.c,nullptr}; };
    auto take=[&](const Edge& e) {
        size_t n=e.mv.size();
        if (n==1) R[e.mv[0].dst]=G(e.mv[0].src,e.mv[0].w);
        else if (n) { V tmp[64]; std::vector<V> big; V* t=tmp; if (n>64) { big.resize(n); t=big.data(); } for (size_t i=0;i<n;i++) t[i]=G(e.mv[i].src,e.mv[i].w); for (size_t i=0;i<n;i++) R[e.mv[i].dst]=t[i]; }
        pc=e.target; };
    for (;;) {
        const CInst& I=code[pc]; fr->pc=pc; f->cov[pc]=1;
        if (++S->instr>opt.maxInstr) { report("hang","no progress within the instruction budget",S); throw PathEnd{3}; }
        if (((++nInstr)&0xffff)==0&&(timeUp||now()>deadline)) throw PathEnd{3};
        switch(I.op) {
        case C_BIN: {
            V a=G(I.a,I.w), b=G(I.b,I.w);
            if (I.sub>=UDIV&&I.sub<=SREM) { if (b.e) { Expr* z=X.notb(X.eq(b.e,X.c(0,I.w))); require(z,"division-by-zero","division by zero"); } else if (!b.c) fail("division-by-zero","division by zero"); }
            if (!a.e&&!b.e) { bool ok; R[I.dst]={ExprCtx::fold((Op)I.sub,I.w,a.c,b.c,ok),nullptr}; }
            else R[I.dst]=mk(binE(I.sub,E(a,I.w),E(b,I.w)));
            pc++; break; }
        case C_ICMP: {
            V a=G(I.a,I.w), b=G(I.b,I.w); Op o; bool sw=false, ng=false;
            switch(I.sub) { case CmpInst::ICMP_EQ: o=EQ; break; case CmpInst::ICMP_NE: o=EQ; ng=true; break; case CmpInst::ICMP_ULT: o=ULT; break; case CmpInst::ICMP_ULE: o=ULE; break; case CmpInst::ICMP_UGT: o=ULT; sw=true; break; case CmpInst::ICMP_UGE: o=ULE; sw=true; break;
                case CmpInst::ICMP_SLT: o=SLT; break; case CmpInst::ICMP_SLE: o=SLE; break; case CmpInst::ICMP_SGT: o=SLT; sw=true; break; default: o=SLE; sw=true; }
            if (sw) std::swap(a,b);
            if (!a.e&&!b.e) { bool ok; R[I.dst]={ExprCtx::fold(o,I.w,a.c,b.c,ok)^(ng?1u:0u),nullptr}; }
            else { Expr* r=X.bin(o,E(a,I.w),E(b,I.w)); if (ng) r=X.notb(r); R[I.dst]=mk(r); }
            pc++; break; }
        case C_SEXT: { V a=G(I.a,I.w2); R[I.dst]=a.e?mk(X.sext(a.e,I.w)):V{(uint64_t)sext64(a.c,I.w2)&maskw(I.w),nullptr}; pc++; break; }
        case C_ZEXT: { V a=G(I.a,I.w2); R[I.dst]=a.e?mk(X.zext(a.e,I.w)):a; pc++; break; }
        case C_TRUNC: { V a=G(I.a,I.w2); R[I.dst]=a.e?mk(X.extract(a.e,0,I.w)):V{a.c&maskw(I.w),nullptr}; pc++; break; }
        case C_MOVE: R[I.dst]=G(I.a,I.w); pc++; break;
        case C_GEP: {
            V a=G(I.a,64); uint64_t cst=I.x->cst; Expr* sum=a.e; if (!a.e) cst+=a.c;
            for (size_t i=0;i<I.x->ops.size();i++) { V x=G(I.x->ops[i],I.x->ws[i]); 
                if (!x.e) cst+=(uint64_t)sext64(x.c,I.x->ws[i])*I.x->scale[i];
                else { Expr* t=X.bin(MUL,X.sext(x.e,64),X.c(I.x->scale[i],64)); sum=sum?X.bin(ADD,sum,t):t; } }
            R[I.dst]=sum?mk(X.bin(ADD,sum,X.c(cst,64))):V{cst,nullptr}; pc++; break; }
        case C_LOAD: {
            Loc L=resolve(G(I.a,64),I.x->cst,false); size_t n=I.x->leaves.size();
            for (size_t i=0;i<n;i++) R[I.dst+i]=loadW(L,I.x->leaves[i].off,I.x->leaves[i].w);
            pc++; break; }
        case C_STORE: {
            Loc L=resolve(G(I.a,64),I.x->cst,true);
            if (L.offE) { L.off=concretize({0,L.offE},64); L.offE=nullptr; const Obj& ob=S->mem.rd(L.idx); if (ob.ssize&&L.off+I.x->cst>ob.d->cap) { if (L.off+I.x->cst>(1<<20)) throw PathEnd{3}; S->mem.wdata(L.idx)->grow(L.off+I.x->cst); } }
            if (S->mem.rd(L.idx).kind==OK_CONST) fail("write-to-const","write to constant memory");
            for (size_t i=0;i<I.x->leaves.size();i++) storeW(L,I.x->leaves[i].off,I.x->leaves[i].w,G(I.x->ops[i],I.x->leaves[i].w));
            pc++; break; }
        case C_ALLOCA: { uint64_t n=concretize(G(I.a,I.w2),I.w2); uint32_t o=newObj(n*I.x->cst,OK_STACK,1,&I,I.x->name.c_str()); fr->allocas.push_back(o); R[I.dst]={objBase(o),nullptr}; pc++; break; }
        case C_BR: take(f->edges[I.e0]); break;
        case C_CONDBR: { V a=G(I.a,1); bool b=a.e?decide(a.e):a.c; take(f->edges[b?I.e0:I.e1]); break; }
        case C_SWITCH: {
            V a=G(I.a,I.w); uint32_t e=I.e0;
            if (!a.e) { for (auto& k: I.x->cases) if (k.first==a.c) { e=k.second; break; } }
            else for (auto& k: I.x->cases) if (decide(X.eq(a.e,X.c(k.first,I.w)))) { e=k.second; break; }
            take(f->edges[e]); break; }
        case C_RET: {
            std::vector<V> rv; size_t n=I.x->ops.size(); V small[4]; V* r=small; if (n>4) { rv.resize(n); r=rv.data(); }
            for (size_t i=0;i<n;i++) r[i]=G(I.x->ops[i],f->retw[i]);
            for (auto o: fr->allocas) { Obj& ob=S->mem.wr(o); ObjData::unref(ob.d); ob.d=nullptr; }
            int ret=fr->ret, nret=fr->nret; cx->fr.pop_back();
            if (cx->fr.empty()) { if (S->cur==0) throw PathEnd{0}; fail("engine","context function returned"); }
            Frame& c=cx->fr.back(); for (int i=0;i<nret&&i<(int)n;i++) cx->regs[c.base+ret+i]=r[i];
            c.pc++; goto reload; }
        case C_SELECT: {
            V cnd=G(I.a,1);
            if (cnd.e) { // one-sided under the path condition?
                auto k=S->known.find(cnd.e); Expr* q=rewrite(cnd.e); auto k2=S->known.find(q);
                if (k!=S->known.end()) cnd={(uint64_t)k->second,nullptr}; else if (q->isConst()) cnd={q->val,nullptr}; else if (k2!=S->known.end()) cnd={(uint64_t)k2->second,nullptr};
                else if (S->ask.insert(cnd.e).second) { bool b=evalE(q); std::vector<std::pair<uint32_t,uint64_t>> m; Expr* neg=b?X.notb(q):q; if (maySat(neg,m)==R_UNSAT) { S->known[cnd.e]=b; S->known[q]=b; cnd={(uint64_t)b,nullptr}; } }
            }
            for (size_t i=0;i<I.x->leaves.size();i++) { unsigned w=I.x->leaves[i].w; 
                if (!cnd.e) R[I.dst+i]=G(I.x->ops[2*i+(cnd.c?0:1)],w);
                else { V t=G(I.x->ops[2*i],w), e=G(I.x->ops[2*i+1],w); R[I.dst+i]=mk(X.ite(cnd.e,E(t,w),E(e,w))); } }
            pc++; break; }
        case C_COPY: { if (I.x->copies.size()==1) { auto& m=I.x->copies[0]; R[m.dst]=m.src.slot==-2?V():G(m.src,m.w); } else { std::vector<V> t; for (auto& m: I.x->copies) t.push_back(m.src.slot==-2?V():G(m.src,m.w)); for (size_t i=0;i<t.size();i++) R[I.x->copies[i].dst]=t[i]; } pc++; break; }
        case C_UNREACH: fail("unreachable","execution reached code marked unreachable (missing return or undefined behaviour)");
        case C_RMW: {
            Loc L=resolveConc(G(I.a,64),I.w/8,true); V old=loadW(L,0,I.w), v=G(I.b,I.w); V nv; 
            auto bo=[&](Op o) { if (!old.e&&!v.e) { bool ok; return V{ExprCtx::fold(o,I.w,old.c,v.c,ok),nullptr}; } return mk(X.bin(o,E(old,I.w),E(v,I.w))); };
            switch(I.sub) { case AtomicRMWInst::Xchg: nv=v; break; case AtomicRMWInst::Add: nv=bo(ADD); break; case AtomicRMWInst::Sub: nv=bo(SUB); break; case AtomicRMWInst::And: nv=bo(AND); break; case AtomicRMWInst::Or: nv=bo(OR); break; case AtomicRMWInst::Xor: nv=bo(XOR); break; default: fail("engine","atomicrmw kind"); }
            storeW(L,0,I.w,nv); R[I.dst]=old; pc++; break; }
        case C_CMPXCHG: {
            Loc L=resolveConc(G(I.a,64),I.w/8,true); V old=loadW(L,0,I.w), cmp=G(I.b,I.w), nv=G(I.c,I.w);
            bool eq=decide(X.eq(E(old,I.w),E(cmp,I.w))); if (eq) storeW(L,0,I.w,nv); R[I.dst]=old; R[I.dst+1]={eq,nullptr}; pc++; break; }
        case C_FP: {
            uint64_t a=concretize(G(I.a,I.w),I.w), b=I.sub==Instruction::FNeg?0:concretize(G(I.b,I.w),I.w); 
            auto go=[&](auto x, auto y) { decltype(x) r; switch(I.sub) { case Instruction::FAdd: r=x+y; break; case Instruction::FSub: r=x-y; break; case Instruction::FMul: r=x*y; break; case Instruction::FDiv: r=x/y; break; case Instruction::FNeg: r=-x; break; default: r=0; } return r; };
            if (I.w==64) { double x,y; memcpy(&x,&a,8); memcpy(&y,&b,8); double r=go(x,y); uint64_t u; memcpy(&u,&r,8); R[I.dst]={u,nullptr}; }
            else { float x,y; memcpy(&x,&a,4); memcpy(&y,&b,4); float r=go(x,y); uint32_t u; memcpy(&u,&r,4); R[I.dst]={u,nullptr}; }
            pc++; break; }
        case C_FCMP: {
            uint64_t a=concretize(G(I.a,I.w),I.w), b=concretize(G(I.b,I.w),I.w); double x,y; if (I.w==64) { memcpy(&x,&a,8); memcpy(&y,&b,8); } else { float p,q; memcpy(&p,&a,4); memcpy(&q,&b,4); x=p; y=q; }
            bool r; switch(I.sub) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r=x==y; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r=x!=y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r=x>y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r=x>=y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r=x<y; break; default: r=x<=y; }
            R[I.dst]={r,nullptr}; pc++; break; }
        case C_FCAST: {
            uint64_t a=concretize(G(I.a,I.w2),I.w2); double d=0; auto rd=[&](unsigned w) { if (w==64) memcpy(&d,&a,8); else { float q; memcpy(&q,&a,4); d=q; } }; auto wr=[&](double v) { uint64_t u=0; if (I.w==64) memcpy(&u,&v,8); else { float q=v; memcpy(&u,&q,4); } R[I.dst]={u,nullptr}; };
            switch(I.sub) { case Instruction::UIToFP: wr((double)a); break; case Instruction::SIToFP: wr((double)sext64(a,I.w2)); break; case Instruction::FPToUI: rd(I.w2); R[I.dst]={(uint64_t)d&maskw(I.w),nullptr}; break; case Instruction::FPToSI: rd(I.w2); R[I.dst]={(uint64_t)(int64_t)d&maskw(I.w),nullptr}; break; case Instruction::FPExt: case Instruction::FPTrunc: rd(I.w2); wr(d); break; default: fail("engine","float cast"); }
            pc++; break; }
        case C_LPAD: case C_RESUME: fail("engine","exception path executed");
        case C_BAD: fail("engine",I.x?I.x->msg:"bad instruction");
        case C_CALL: {
            Extra* x=I.x; CFunc* target=nullptr; int id=I_NONE; std::string nm=x->name;
            if (x->callee) {
                if (!x->resolved) {
                    Function* F=x->callee; int k=intrinsicId(x->name,F);
                    if (k!=I_NONE&&(F->isDeclaration()||x->name.compare(0,5,"dsym_")==0)) x->intr=k;
                    else { Function* Wf=M->getFunction("__wrap_"+x->name); if (Wf&&!Wf->isDeclaration()) F=Wf; if (!F->isDeclaration()) x->target=lower(F); }
                    x->resolved=true; }
                target=x->target; if (x->intr>=0) id=x->intr;
            } else {
                V fp=G(I.a,64); if (fp.e) { Expr* r=rewrite(fp.e); if (!r->isConst()) { bool onlyUninit=true; for (auto v: *r->vars) if (!X.varinfo[v].uninit) onlyUninit=false; if (onlyUninit) fail("uninitialized-call","call through an uninitialised function pointer"); fp={concretize(fp,64),nullptr}; } else fp={r->val,nullptr}; }
                if (fp.c<0x10000) fail("null-call","call through a null function pointer");
                if (fp.c<FN_BASE||(fp.c-FN_BASE)/16>=fnTable.size()||(fp.c-FN_BASE)%16) fail("wild-call","call through an invalid function pointer");
                Function* F=fnTable[(fp.c-FN_BASE)/16]; nm=F->getName().str();
                if (!F->isDeclaration()) target=lower(F);
                else { id=intrinsicId(nm,F); if (id==I_NONE) { Function* Wf=M->getFunction("__wrap_"+nm); if (Wf&&!Wf->isDeclaration()) target=lower(Wf); } }
            }
            auto A=[&](size_t i) -> V { return i<x->ops.size()?G(x->ops[i],x->ws[i]):V(); };
            auto AW=[&](size_t i, unsigned w) -> V { V v=A(i); if (i>=x->ops.size()) return v; unsigned ow=x->ws[i]; if (v.e) { if (ow<w) v.e=X.zext(v.e,w); else if (ow>w) v=mk(X.extract(v.e,0,w)); } else v.c&=maskw(w); return v; };
            if (target) {
                std::vector<V> args; size_t na=target->argw.size();
                for (size_t i=0;i<na;i++) { V v=AW(i,target->argw[i]); args.push_back(v); }
                for (size_t i=0;i<na&&i<x->byval.size();i++) if (x->byval[i]) { uint32_t o=newObj(x->byval[i],OK_STACK,1,&I,"byval"); fr->allocas.push_back(o); V d{objBase(o),nullptr}; doCopy(d,args[i],{x->byval[i],nullptr},true); args[i]=d; }
                pushFrame(*cx,target,args,I.dst,I.dst>=0?x->nret:0,&I);
                goto reload;
            }
            if (id==I_NONE&&(nm=="snprintf"||nm=="sprintf")) { // formatted by the runtime, which gets the variable arguments as an array
                Function* Ff=M->getFunction("dsym_format"); bool bounded=nm=="snprintf"; size_t nf=bounded?3:2;
                if (Ff&&!Ff->isDeclaration()&&x->ops.size()>=nf) {
                    CFunc* T=lower(Ff); size_t nv=x->ops.size()-nf; uint32_t o=newObj(8*nv+8,OK_STACK,8,&I,"varargs"); fr->allocas.push_back(o); V arr{objBase(o),nullptr};
                    for (size_t i=0;i<nv;i++) { Loc L=resolveConc({objBase(o)+8*i,nullptr},8,true); storeW(L,0,64,AW(nf+i,64)); }
                    std::vector<V> args{A(0),bounded?AW(1,64):V{~0ull>>2,nullptr},A(nf-1),arr}; pushFrame(*cx,T,args,I.dst,I.dst>=0?x->nret:0,&I); goto reload; } }
            auto ret=[&](V v) { if (I.dst>=0) R[I.dst]=v; pc++; };
            switch(id) {
            case I_NONE: {
                warns["havoc of unmodelled external function "+nm]++;
                for (int i=0;i<x->nret;i++) { Expr* v=nullptr; int k=S->names["ext"]++; static std::map<std::pair<int,int>,Expr*> pool; auto& p=pool[{k,x->retw[i]}]; if (!p) p=X.var("ext"+nm,x->retw[i],true); v=p; R[I.dst+i]={0,v}; }
                pc++; break; }
            case I_MALLOC: ret({doAlloc(AW(0,64),OK_MALLOC,&I),nullptr}); break;
            case I_NEW: case I_NEWNOTHROW: ret({doAlloc(AW(0,64),OK_NEW,&I),nullptr}); break;
            case I_NEWARR: case I_NEWARRNOTHROW: ret({doAlloc(AW(0,64),OK_NEWARR,&I),nullptr}); break;
            case I_CALLOC: { uint64_t n=concretize(AW(0,64),64), m=concretize(AW(1,64),64); ret({doAlloc({n*m,nullptr},OK_MALLOC,&I,true),nullptr}); break; }
            case I_REALLOC: { V p=A(0); uint64_t old=concretize(p,64), n=concretize(AW(1,64),64); uint64_t q=doAlloc({n,nullptr},OK_MALLOC,&I);
                if (old) { int64_t oi=addrObj(old); if (oi<0||oi>=(int64_t)S->mem.n||!S->mem.rd(oi).d) fail("use-after-free","realloc of released memory"); uint64_t os=S->mem.rd(oi).size; doCopy({q,nullptr},p,{std::min(os,n),nullptr},true); doFree(p,0); }
                ret({q,nullptr}); break; }
            case I_FREE: doFree(A(0),0); ret({}); break;
            case I_DELETE: doFree(A(0),1); ret({}); break;
            case I_DELETEARR: doFree(A(0),2); ret({}); break;
            case I_MEMCPY: doCopy(A(0),A(1),AW(2,64),false); ret(A(0)); break;
            case I_MEMMOVE: doCopy(A(0),A(1),AW(2,64),true); ret(A(0)); break;
            case I_MEMSET: doSet(A(0),A(1),AW(2,64)); ret(A(0)); break;
            case I_MEMCMP: {
                uint64_t n=concretize(AW(2,64),64); if (!n) { ret({0,nullptr}); break; }
                Loc p=resolveConc(A(0),n,false), q=resolveConc(A(1),n,false); Expr* all=X.tru(); Expr* lt=X.fls();
                for (uint64_t i=n;i-->0;) { Expr* a=E(loadW(p,i,8),8); Expr* b=E(loadW(q,i,8),8); Expr* eq=X.eq(a,b); all=X.bin(AND,eq,all); lt=X.ite(eq,lt,X.bin(ULT,a,b)); }
                ret(mk(X.ite(all,X.c(0,32),X.ite(lt,X.c(0xffffffff,32),X.c(1,32))))); break; }
            case I_NOP: if (I.dst>=0) for (int i=0;i<x->nret;i++) R[I.dst+i]=V(); pc++; break;
            case I_RET0: ret({0,nullptr}); break;
            case I_PUTS: ret({0,nullptr}); break;
            case I_THROW: { std::string what=demangle(nm); if (nm=="__cxa_throw"||nm=="__cxa_rethrow") what="throw"; fail("uncaught-exception","exception thrown: "+what); }
            case I_ABORT: { std::string m=nm; if (nm.find("glibcxx_assert")!=std::string::npos) m="libstdc++ precondition violated: "+cstr(A(3)); else if (nm=="__assert_fail") m="assert failed: "+cstr(A(0)); fail("abort",m); }
            case I_TRAP: fail("abort","trap");
            case I_MAKESYM: {
                uint64_t p=concretize(A(0),64), n=concretize(AW(1,64),64); std::string name=cstr(A(2)); int k=S->names["@"+name]++;
                static std::map<std::pair<std::string,int>,std::vector<Expr*>> pool; auto& vs=pool[{name,k}]; while (vs.size()<n) vs.push_back(X.var(name+(k?"."+std::to_string(k):"")+"["+std::to_string(vs.size())+"]",8));
                if (n) { Loc L=resolveConc({p,nullptr},n,true); InputEv ev; ev.name=name; ev.n=n; ev.scalar=false; for (uint64_t i=0;i<n;i++) { storeW(L,i,8,{0,vs[i]}); ev.bytes.push_back(vs[i]); } S->in.push_back(ev); }
                else { InputEv ev; ev.name=name; ev.n=0; S->in.push_back(ev); }
                ret({}); break; }
            case I_ASSUME: {
                V v=AW(0,32); if (!v.e) { if (!v.c) throw PathEnd{1}; ret({}); break; }
                Expr* c=rewrite(X.notb(X.eq(v.e,X.c(0,32)))); if (c->isConst()) { if (!c->val) throw PathEnd{1}; ret({}); break; }
                if (!evalE(c)) { std::vector<std::pair<uint32_t,uint64_t>> m; Res q=maySat(c,m); if (q!=R_SAT) throw PathEnd{q==R_UNK?3:1}; setModel(S,m); }
                addCons(S,c); ret({}); break; }
            case I_ASSERT: { V v=AW(0,32); nAsserts++; if (!v.e&&v.c) { ret({}); break; } std::string msg=cstr(A(1)); if (!v.e) fail("assert",msg); require(X.notb(X.eq(v.e,X.c(0,32))),"assert",msg); ret({}); break; }
            case I_FAIL: fail("assert",cstr(A(0)));
            case I_RANGE: {
                std::string name=cstr(A(0)); int32_t lo=(int32_t)concretize(AW(1,32),32), hi=(int32_t)concretize(AW(2,32),32); int k=S->names["@"+name]++;
                static std::map<std::pair<std::string,int>,Expr*> pool; auto& v=pool[{name,k}]; if (!v) v=X.var(name+(k?"."+std::to_string(k):""),32);
                if (hi<lo) throw PathEnd{1};
                InputEv ev; ev.name=name; ev.n=4; ev.scalar=true; for (int i=0;i<4;i++) ev.bytes.push_back(X.extract(v,i*8,8)); S->in.push_back(ev);
                auto pick=[&](State* st, int32_t val) { if (st->model.size()<=v->val) st->model.resize(v->val+1,0); st->model[v->val]=(uint32_t)val; addCons(st,X.eq(v,X.c((uint32_t)val,32))); if (I.dst>=0) st->ctx[st->cur].regs[fr->base+I.dst]={(uint32_t)val,nullptr}; st->ctx[st->cur].fr.back().pc=pc+1; };
                // the solver decides which values are possible and that no other one is
                { std::vector<Expr*> dom{X.notb(X.bin(SLT,v,X.c((uint32_t)lo,32))),X.notb(X.bin(SLT,X.c((uint32_t)hi,32),v))}; static std::set<std::tuple<Expr*,int32_t,int32_t>> seen; std::vector<std::pair<uint32_t,uint64_t>> m;
                  if (seen.insert({v,lo,hi}).second) { std::vector<Expr*> cs=dom; for (int32_t z=lo;;z++) { auto one=dom; Expr* q=X.eq(v,X.c((uint32_t)z,32)); one.push_back(q); if (SV.check(one,m)==R_UNSAT) fail("engine","a choice in its range is infeasible"); cs.push_back(X.notb(q)); if (z==hi) break; } if (SV.check(cs,m)==R_SAT) fail("engine","choices of a range missed"); } }
                for (int32_t z=hi;z>lo;z--) { State* n=forkState(); pick(n,z); work.push_back(n); }
                pick(S,lo); pc++; break; }
            case I_CONC: { uint64_t v=concretize(AW(0,64),64); ret({v,nullptr}); break; }
            case I_ISSYM: { V v=AW(0,64); ret({v.e&&!rewrite(v.e)->isConst(),nullptr}); break; }
            case I_INENGINE: ret({1,nullptr}); break;
            case I_CTXCREATE: {
                uint64_t fp=concretize(A(0),64); CFunc* t=entryOf(fp); if (!t) fail("engine","ctx_create of a bad function"); V arg=A(1);
                S->ctx.emplace_back(); pushFrame(S->ctx.back(),t,{arg},-1,0,&I); uint64_t id2=S->ctx.size()-1;
                cx=&S->ctx[S->cur]; fr=&cx->fr.back(); R=cx->regs.data()+fr->base; if (I.dst>=0) R[I.dst]={id2,nullptr}; fr->pc=pc+1; goto reload; }
            case I_CTXSWITCH: { uint64_t id2=concretize(AW(0,32),32); if (id2>=S->ctx.size()||S->ctx[id2].done) fail("engine","ctx_switch target"); fr->pc=pc+1; S->cur=id2; goto reload; }
            case I_CTXSELF: ret({(uint64_t)S->cur,nullptr}); break;
            case I_CTXEXIT: { uint64_t id2=concretize(AW(0,32),32); if (id2>=S->ctx.size()) fail("engine","ctx_exit target"); cx->done=true; for (auto& q: cx->fr) for (auto o: q.allocas) { Obj& ob=S->mem.wr(o); if (ob.d) { ObjData::unref(ob.d); ob.d=nullptr; } } cx->fr.clear(); cx->regs.clear(); S->cur=id2; goto reload; }
            case I_REACH: S->reach.push_back(cstr(A(0))); ret({}); break;
            case I_OBSERVE: { V v=AW(0,64); S->obs.push_back({v,64}); ret({}); break; }
            case I_PARAM: { std::string n=cstr(A(0)); auto it=opt.params.find(n); V d=AW(1,64); if (it!=opt.params.end()) d={(uint64_t)it->second,nullptr}; ret(d); break; }
            case I_IMMORTAL: S->immortal+=(int)AW(0,32).c; ret({}); break;
            case I_LIVE: ret({S->liveBytes,nullptr}); break;
            case I_ALLOCLIMIT: S->allocLimit=concretize(AW(0,64),64); ret({}); break;
            case I_ENDPATH: throw PathEnd{0};
            case I_POINTS: { // does [from, from+n) hold a pointer into the heap object that contains p?
                uint64_t from=concretize(A(0),64), n=concretize(A(1),64), r=0; V pv=A(2); if (pv.e) { ret({0,nullptr}); break; } int64_t oi=addrObj(pv.c), fi=addrObj(from);
                if (oi>=0&&oi<(int64_t)S->mem.n&&fi>=0&&fi<(int64_t)S->mem.n&&oi!=fi) { const Obj& o=S->mem.rd(oi); const Obj& q=S->mem.rd(fi);
                    if (o.d&&q.d&&o.kind>=OK_MALLOC) { uint64_t off=from-objBase(fi); for (uint64_t i=off;!r&&i+8<=off+n&&i+8<=q.d->cap;i+=8) { uint64_t t,v; memcpy(&t,q.d->t+i,8); if (t) continue; memcpy(&v,q.d->b+i,8); if (v&&addrObj(v)==oi&&v-objBase(oi)<o.size) r=1; } } }
                ret({r,nullptr}); break; }
            case I_ISFREED: { uint64_t p=concretize(A(0),64); int64_t oi=addrObj(p); ret({(uint64_t)(oi<0||oi>=(int64_t)S->mem.n||!S->mem.rd(oi).d),nullptr}); break; }
            case I_OVERFLOW: {
                unsigned w=x->ws[0]; Expr* a=E(A(0),w); Expr* b=E(A(1),w); Expr* r; Expr* o; bool sg=nm[5]=='s'; char k=nm[6];
                // wide arithmetic through comparisons
                if (k=='a') { r=X.bin(ADD,a,b); if (!sg) o=X.bin(ULT,r,a); else { Expr* z=X.c(0,w); Expr* an=X.bin(SLT,a,z); Expr* bn=X.bin(SLT,b,z); Expr* rn=X.bin(SLT,r,z); o=X.bin(AND,X.eq(an,bn),X.notb(X.eq(an,rn))); } }
                else if (k=='s'||(k=='u'&&nm[7]=='b')) { r=X.bin(SUB,a,b); if (!sg) o=X.bin(ULT,a,b); else { Expr* z=X.c(0,w); Expr* an=X.bin(SLT,a,z); Expr* bn=X.bin(SLT,b,z); Expr* rn=X.bin(SLT,r,z); o=X.bin(AND,X.notb(X.eq(an,bn)),X.notb(X.eq(an,rn))); } }
                else { r=X.bin(MUL,a,b); Expr* z=X.c(0,w);
                    if (!sg) { Expr* bz=X.eq(b,z); Expr* one=X.ite(bz,X.c(1,w),b); o=X.bin(AND,X.notb(bz),X.bin(ULT,X.bin(UDIV,X.c(~0ull,w),one),a)); }
                    else { Expr* bz=X.eq(b,z); Expr* one=X.ite(bz,X.c(1,w),b); Expr* az=X.eq(a,z); o=X.bin(AND,X.notb(X.bin(OR,bz,az)),X.bin(OR,X.notb(X.eq(X.bin(SDIV,r,one),a)),X.bin(AND,X.eq(b,X.c(~0ull,w)),X.eq(a,X.c(1ull<<(w-1),w))))); } }
                R[I.dst]=mk(r); R[I.dst+1]=mk(o); pc++; break; }
            case I_MINMAX: { unsigned w=x->ws[0]; Expr* a=E(A(0),w); Expr* b=E(A(1),w); bool sg=nm[5]=='s', mx=nm[7]=='a'; Expr* lt=X.bin(sg?SLT:ULT,a,b); ret(mk(mx?X.ite(lt,b,a):X.ite(lt,a,b))); break; }
            case I_ABS: { unsigned w=x->ws[0]; Expr* a=E(A(0),w); ret(mk(X.ite(X.bin(SLT,a,X.c(0,w)),X.bin(SUB,X.c(0,w),a),a))); break; }
            case I_BSWAP: { unsigned w=x->ws[0]; Expr* a=E(A(0),w); Expr* r=X.extract(a,0,8); for (unsigned i=1;i<w/8;i++) r=X.concat(r,X.extract(a,i*8,8)); ret(mk(r)); break; }
            case I_CTPOP: { uint64_t v=concretize(A(0),x->ws[0]); ret({(uint64_t)__builtin_popcountll(v),nullptr}); break; }
            case I_CTZ: { uint64_t v=concretize(A(0),x->ws[0]); ret({v?(uint64_t)__builtin_ctzll(v):x->ws[0],nullptr}); break; }
            case I_CLZ: { unsigned w=x->ws[0]; V a=A(0); if (!a.e) { ret({a.c?(uint64_t)__builtin_clzll(a.c)-(64-w):w,nullptr}); break; }
                Expr* r=X.c(w,w); for (unsigned i=0;i<w;i++) r=X.ite(X.eq(X.extract(a.e,i,1),X.c(1,1)),X.c(w-1-i,w),r); ret(mk(r)); break; }
            case I_FSH: { unsigned w=x->ws[0]; uint64_t sh=concretize(A(2),w)%w; Expr* a=E(A(0),w); Expr* b=E(A(1),w); bool left=nm[8]=='l'; 
                if (!sh) { ret(mk(left?a:b)); break; }
                Expr* r=left?X.bin(OR,X.bin(SHL,a,X.c(sh,w)),X.bin(LSHR,b,X.c(w-sh,w))):X.bin(OR,X.bin(SHL,a,X.c(w-sh,w)),X.bin(LSHR,b,X.c(sh,w))); ret(mk(r)); break; }
            case I_ISCONST: ret({0,nullptr}); break;
            case I_EXPECT: ret(A(0)); break;
            case I_OBJSIZE: ret({~0ull,nullptr}); break;
            case I_USUBSAT: { unsigned w=x->ws[0]; Expr* a=E(A(0),w); Expr* b=E(A(1),w); ret(mk(X.ite(X.bin(ULT,a,b),X.c(0,w),X.bin(SUB,a,b)))); break; }
            case I_UADDSAT: { unsigned w=x->ws[0]; Expr* a=E(A(0),w); Expr* b=E(A(1),w); Expr* r=X.bin(ADD,a,b); ret(mk(X.ite(X.bin(ULT,r,a),X.c(~0ull,w),r))); break; }
            case I_TLADDR: ret(A(0)); break;
            case I_EHTYPEID: case I_STACKSAVE: ret({0,nullptr}); break;
            case I_LASSUME: pc++; break;
            default: fail("engine","intrinsic "+nm); }
            break; }
        default: fail("engine","opcode"); }
    }
}

static void writeConst(ObjData* d, uint64_t off, const Constant* C) {
    Type* T=C->getType();
    if (isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)||isa<ConstantPointerNull>(C)) return;
    if (auto* CD=dyn_cast<ConstantDataSequential>(C)) { uint64_t es=CD->getElementByteSize(); for (unsigned i=0;i<CD->getNumElements();i++) { uint64_t v=constVal(CD->getElementAsConstant(i)); memcpy(d->b+off+i*es,&v,es); } return; }
    if (T->isStructTy()) { auto* L=DL->getStructLayout(cast<StructType>(T)); for (unsigned i=0;i<T->getStructNumElements();i++) writeConst(d,off+L->getElementOffset(i),C->getAggregateElement(i)); return; }
    if (T->isArrayTy()) { uint64_t s=DL->getTypeAllocSize(T->getArrayElementType()); for (unsigned i=0;i<T->getArrayNumElements();i++) writeConst(d,off+i*s,C->getAggregateElement(i)); return; }
    uint64_t n=DL->getTypeStoreSize(T), v=constVal(C); memcpy(d->b+off,&v,std::min<uint64_t>(n,8));
}

static void runPath(State* s) {
    S=s; int why;
    try { run(); why=0; } catch (PathEnd& p) { why=p.why; }
    if (why==0) { nPaths++; std::set<std::string> once(s->reach.begin(),s->reach.end()); for (auto& r: once) reachCount[r]++; if (s->inconclusive) nLimit++;
        // the solver confirms that the path's condition as a whole can hold (no claim rests on an impossible path); all of the first paths, later every 64th
        if ((nPaths<=64||nPaths%64==0)&&s->cons.size()<=4000&&!s->inconclusive) { std::vector<Expr*> cs; for (auto e: s->cons) if (!e->isConst()) cs.push_back(e); std::vector<std::pair<uint32_t,uint64_t>> m; if (!cs.empty()) { nFeas++; if (SV.check(cs,m)==R_UNSAT) warns["engine: a completed path is infeasible"]++; } }
        // reservoir sampling of completed paths for replay
        std::string rec; bool want=false; size_t at=0;
        if ((int)samples.size()<opt.samples) { want=true; at=samples.size(); samples.emplace_back(); } else if (opt.samples) { uint64_t r=rng()%nPaths; if (r<(uint64_t)opt.samples) { want=true; at=r; } }
        if (want) { rec="{\"inputs\":"+inputsOf(s)+",\"obs\":"+obsOf(s)+",\"instr\":"+std::to_string(s->instr)+",\"constraints\":"+std::to_string(s->cons.size())+"}"; samples[at]=rec; }
    } else if (why==1) nInfeasible++; else if (why==2) nErrPaths++; else nLimit++;
    delete s;
}

static double startT;
void report(bool exhausted) {
    if (!errors.empty()&&(int)errors.size()>=opt.maxErrors) exhausted=false;
    size_t left=work.size();
    std::ostringstream o; o<<"{\n";
    o<<"\"entry\":\""<<opt.entry<<"\",\"exhausted\":"<<(exhausted&&!nLimit&&!SV.unk?"true":"false")<<",\"paths\":"<<nPaths<<",\"infeasible\":"<<nInfeasible<<",\"error_paths\":"<<nErrPaths<<",\"limit_paths\":"<<nLimit<<",\"pending\":"<<left<<",\"forks\":"<<nForks<<",\"instructions\":"<<nInstr<<",\"states\":"<<nStates;
    o<<",\"asserts\":"<<nAsserts<<",\"feasibility_checks\":"<<nFeas<<",\"assert_queries\":"<<nAssertQ<<",\"bounds_checks\":"<<nBounds<<",\"queries\":"<<SV.queries<<",\"sat\":"<<SV.sat<<",\"unsat\":"<<SV.unsat<<",\"unknown\":"<<SV.unk<<",\"cache_hits\":"<<SV.cacheHits<<",\"solver_s\":"<<SV.time<<",\"max_query_s\":"<<SV.maxq<<",\"wall_s\":"<<now()-startT;
    o<<",\n\"reach\":{"; { bool f=true; for (auto& r: reachCount) { if (!f) o<<","; f=false; o<<"\""<<jesc(r.first)<<"\":"<<r.second; } } o<<"}";
    o<<",\n\"warnings\":["; { bool f=true; for (auto& w: warns) { if (!f) o<<","; f=false; o<<"\""<<jesc(w.first)<<"\""; } } o<<"]";
    o<<",\n\"functions\":["; { bool f=true; for (auto& l: lowered) if (l.second&&l.second->hits&&l.second->inRepo) { size_t c=0; for (char z: l.second->cov) c+=z; if (!f) o<<","; f=false; o<<"[\""<<jesc(l.second->nice)<<"\","<<c<<","<<l.second->code.size()<<"]"; } } o<<"]";
    o<<",\n\"errors\":["; { bool f=true; for (auto& k: errOrder) { auto& e=errors[k]; if (!f) o<<",\n"; f=false; o<<"{\"kind\":\""<<jesc(e.kind)<<"\",\"msg\":\""<<jesc(e.msg)<<"\",\"loc\":\""<<jesc(e.loc)<<"\",\"fn\":\""<<jesc(e.fn)<<"\",\"count\":"<<e.count<<",\"inputs\":"<<e.inputs<<",\"stack\":["; bool g=true; for (auto& s: e.stack) { if (!g) o<<","; g=false; o<<"\""<<jesc(s)<<"\""; } o<<"]}"; } } o<<"]";
    o<<",\n\"samples\":["; for (size_t i=0;i<samples.size();i++) o<<(i?",\n":"")<<samples[i]; o<<"]\n}\n";
    if (opt.out.empty()) fputs(o.str().c_str(),stdout); else { std::ofstream fo(opt.out); fo<<o.str(); }
    fflush(stdout); _Exit(0);
}

int main(int argc, char** argv) {
    for (int i=1;i<argc;i++) { std::string a=argv[i]; auto nx=[&]() { return std::string(argv[++i]); };
        if (a=="--entry") opt.entry=nx(); else if (a=="--out") opt.out=nx(); else if (a=="--max-time") opt.maxTime=std::stod(nx()); else if (a=="--max-instr") opt.maxInstr=std::stoull(nx()); else if (a=="--seed") opt.seed=std::stoull(nx());
        else if (a=="--samples") opt.samples=std::stoi(nx()); else if (a=="--param") { auto p=nx(); auto e=p.find('='); opt.params[p.substr(0,e)]=std::stoll(p.substr(e+1)); } else if (a=="--dump-smt") { opt.smtDir=nx(); } else if (a=="--dump-every") opt.dumpEvery=std::stoi(nx());
        else if (a=="--repo") opt.repo=nx(); else if (a=="-v") opt.verbose=true; else if (a=="--max-errors") opt.maxErrors=std::stoi(nx()); else if (a=="--rand") opt.randSearch=true; else if (a=="--max-paths") opt.maxPaths=std::stoull(nx()); else opt.bc=a; }
    startT=now(); double t0=startT; LLVMContext ctx; SMDiagnostic err; auto mod=parseIRFile(opt.bc,err,ctx);
    if (!mod) { err.print("dsym",errs()); return 2; }
    M=mod.get(); DL=&M->getDataLayout(); SV.init(); rng.seed(opt.seed);
    S=new State; S->id=0;
    for (auto& F: *M) { gaddr[&F]=FN_BASE+fnTable.size()*16; fnTable.push_back(&F); }
    std::vector<std::pair<GlobalVariable*,uint32_t>> gs;
    for (auto& g: M->globals()) { if (g.getName().startswith("llvm.")) continue; uint64_t sz=DL->getTypeAllocSize(g.getValueType()); if (g.isDeclaration()) sz=std::max<uint64_t>(sz,128); uint32_t o=newObj(sz,g.isConstant()?OK_CONST:OK_GLOBAL,0,nullptr,nullptr); gaddr[&g]=objBase(o); gs.push_back({&g,o}); }
    for (auto& p: gs) if (p.first->hasInitializer()) writeConst(S->mem.wdata(p.second),0,p.first->getInitializer());
    Function* E0=M->getFunction(opt.entry); if (!E0||E0->isDeclaration()) { fprintf(stderr,"no entry %s\n",opt.entry.c_str()); return 2; }
    // run constructors first, then the entry: chain through a list executed in context 0
    std::vector<Function*> ctors;
    if (auto* gc=M->getGlobalVariable("llvm.global_ctors")) if (auto* ca=dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<uint64_t,Function*>> v; for (auto& u: ca->operands()) { auto* cs=cast<ConstantStruct>(u); if (auto* f=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),f}); } std::stable_sort(v.begin(),v.end(),[](auto& a, auto& b){ return a.first<b.first; }); for (auto& p: v) ctors.push_back(p.second); }
    for (auto* c: ctors) { S->ctx.clear(); S->ctx.emplace_back(); S->cur=0; pushFrame(S->ctx[0],lower(c),{},-1,0,nullptr); try { run(); } catch (PathEnd& p) { if (p.why) { fprintf(stderr,"constructor failed\n"); } } }
    S->instr=0; S->ctx.clear(); S->ctx.emplace_back(); S->cur=0; S->liveBytes=0;
    pushFrame(S->ctx[0],lower(E0),{},-1,0,nullptr);
    work.push_back(S); nStates=1;
    bool exhausted=true; uint64_t nstart=0;
    deadline=t0+opt.maxTime;
    while (!work.empty()) {
        if (now()>deadline||timeUp||(opt.maxPaths&&nPaths>=opt.maxPaths)) { exhausted=false; break; }
        State* s;
        if (opt.randSearch&&work.size()<30000&&(nstart&1)) { size_t i=rng()%work.size(); s=work[i]; work[i]=work.back(); work.pop_back(); }
        else { s=work.back(); work.pop_back(); }
        nstart++; runPath(s);
    }
    report(exhausted);
}
