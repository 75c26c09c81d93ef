// Inserts a scheduling point (dsym_mem_point) before every access of shared memory in the given module and makes its inline functions
// private to it, so that the symbolic engine and the native replays switch threads at exactly the same places.
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
static bool shared(const Value* p) {
    for (;;) { p = p->stripPointerCasts(); if (auto* g = dyn_cast<GEPOperator>(p)) p = g->getPointerOperand(); else break; }
    return !isa<AllocaInst>(p) && !isa<GlobalValue>(p);
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    LLVMContext cx; SMDiagnostic e; auto m = parseIRFile(argv[1], e, cx); if (!m) { e.print(argv[0], errs()); return 1; }
    auto* ptr = PointerType::get(cx, 0); auto* i32 = Type::getInt32Ty(cx);
    FunctionCallee fn = m->getOrInsertFunction("dsym_mem_point", FunctionType::get(Type::getVoidTy(cx), {ptr, i32}, false));
    unsigned n = 0;
    for (Function& f : *m) {
        if (f.isDeclaration()) continue;
        std::vector<std::pair<Instruction*, Value*>> at;
        for (Instruction& i : instructions(f)) {
            if (auto* l = dyn_cast<LoadInst>(&i)) { if (shared(l->getPointerOperand())) at.push_back({&i, l->getPointerOperand()}); }
            else if (auto* s = dyn_cast<StoreInst>(&i)) { if (shared(s->getPointerOperand())) at.push_back({&i, s->getPointerOperand()}); }
            else if (auto* r = dyn_cast<AtomicRMWInst>(&i)) at.push_back({&i, r->getPointerOperand()});
            else if (auto* c = dyn_cast<AtomicCmpXchgInst>(&i)) at.push_back({&i, c->getPointerOperand()});
            else if (auto* mi = dyn_cast<MemIntrinsic>(&i)) { if (shared(mi->getRawDest())) at.push_back({&i, mi->getRawDest()}); }
        }
        for (auto& a : at) { CallInst* c = CallInst::Create(fn, {a.second, ConstantInt::get(i32, a.first->mayWriteToMemory())}, "", a.first); if (auto d = a.first->getDebugLoc()) c->setDebugLoc(d); else if (auto* sp = f.getSubprogram()) c->setDebugLoc(DILocation::get(cx, sp->getLine(), 0, sp)); n++; }
        if (f.hasLinkOnceLinkage() || f.hasWeakODRLinkage()) { f.setComdat(nullptr); f.setLinkage(GlobalValue::InternalLinkage); }
    }
    std::error_code ec; raw_fd_ostream os(argv[2], ec); if (ec) return 1; WriteBitcodeToFile(*m, os); outs() << n << " points\n"; return 0;
}
