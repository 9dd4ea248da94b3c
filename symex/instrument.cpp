// Inserts schedule points before memory accesses and redirects OS primitives for native replay.
#include "engine.h"
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
using namespace llvm;
int instrumentModule(Module& M) {
  auto& C = M.getContext(); auto* P = PointerType::get(C, 0); auto* I32 = Type::getInt32Ty(C); auto* I64 = Type::getInt64Ty(C);
  FunctionCallee pt = M.getOrInsertFunction("__symrt_point", Type::getVoidTy(C), P, I64, I32);
  std::vector<Instruction*> ins; 
  for (auto& F : M) { if (F.isDeclaration()) continue; F.addFnAttr(Attribute::SanitizeAddress); F.removeFnAttr(Attribute::OptimizeNone);
    for (auto& I : instructions(F)) if (isa<LoadInst>(I) || isa<StoreInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) ins.push_back(&I); }
  auto& DL = M.getDataLayout();
  for (auto* I : ins) { IRBuilder<> B(I); Value* p; uint64_t n; int k;
    if (auto* l = dyn_cast<LoadInst>(I)) { p = l->getPointerOperand(); if (isa<AllocaInst>(p->stripInBoundsOffsets()) && !l->isAtomic()) continue; n = DL.getTypeStoreSize(l->getType()); k = l->isAtomic() ? 4 : 0; }
    else if (auto* s = dyn_cast<StoreInst>(I)) { p = s->getPointerOperand(); if (isa<AllocaInst>(p->stripInBoundsOffsets()) && !s->isAtomic()) continue; n = DL.getTypeStoreSize(s->getValueOperand()->getType()); k = (s->isAtomic() ? 4 : 0) | 1; }
    else if (auto* r = dyn_cast<AtomicRMWInst>(I)) { p = r->getPointerOperand(); n = DL.getTypeStoreSize(r->getType()); k = 5; }
    else { auto* x = cast<AtomicCmpXchgInst>(I); p = x->getPointerOperand(); n = DL.getTypeStoreSize(x->getCompareOperand()->getType()); k = 5; }
    B.CreateCall(pt, {p, B.getInt64(n), B.getInt32(k)}); }
  std::vector<IntrinsicInst*> tls; for (auto& F : M) for (auto& I : instructions(F)) if (auto* ii = dyn_cast<IntrinsicInst>(&I)) if (ii->getIntrinsicID() == Intrinsic::threadlocal_address) tls.push_back(ii);
  FunctionCallee tf = M.getOrInsertFunction("__symrt_tls", P, P, I64, P); std::map<GlobalVariable*, GlobalVariable*> inits;
  for (auto* ii : tls) { auto* g = dyn_cast<GlobalVariable>(ii->getArgOperand(0)); if (!g || !g->hasInitializer()) continue; auto*& in = inits[g]; if (!in) in = new GlobalVariable(M, g->getValueType(), true, GlobalValue::PrivateLinkage, g->getInitializer(), "tls.init");
    IRBuilder<> B(ii->getNextNode()); auto* own = B.CreateCall(tf, {ii, B.getInt64(DL.getTypeAllocSize(g->getValueType())), in}); ii->replaceUsesWithIf(own, [&](Use& u) { return u.getUser() != own; }); }
  static const char* ren[] = {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_wrlock", "pthread_rwlock_trywrlock", "pthread_rwlock_rdlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_unlock", "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv", "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv", "abort", "_ZSt9terminatev", "exit", "_exit", "_Exit", "quick_exit", "pthread_self", "nanosleep", "clock_nanosleep", "usleep", "sched_yield", "getpid"};
  for (auto* n : ren) if (auto* F = M.getFunction(n)) if (F->isDeclaration()) { std::string nn = std::string("__symrt_") + n; if (std::string(n) == "_ZSt9terminatev") nn = "__symrt_abort"; if (auto* G = M.getFunction(nn)) { F->replaceAllUsesWith(G); } else F->setName(nn); }
  return 0;
}
