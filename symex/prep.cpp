// Translation of LLVM IR functions into the compact internal form, constants, globals.
#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
using namespace llvm;
uint32_t Engine::bitsOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  std::string s; raw_string_ostream os(s); t->print(os); fatal("unsupported type " + os.str());
}
uint32_t Engine::leavesOf(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { uint32_t n = 0; for (auto* e : st->elements()) n += leavesOf(e); return n; }
  if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * leavesOf(at->getElementType());
  if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements() * leavesOf(vt->getElementType());
  if (t->isVoidTy()) return 0;
  return 1;
}
void Engine::layout(Type* t, uint64_t off, std::vector<std::pair<uint64_t, uint32_t>>& out) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) layout(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) layout(at->getElementType(), off + i * es, out); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) layout(vt->getElementType(), off + i * es, out); return; }
  out.emplace_back(off, bitsOf(t));
}
static V fpBits(const APFloat& f, uint32_t w) { APInt a = f.bitcastToAPInt(); if (w > 64) return V(0, 64); return V(a.getZExtValue(), w); }
void Engine::constLeaves(const Constant* c, std::vector<V>& out) {
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<PoisonValue>(c)) {
    std::vector<std::pair<uint64_t, uint32_t>> l; layout(c->getType(), 0, l); for (auto& p : l) out.push_back(p.second <= 64 ? V(0, p.second) : V(mkConst(0, p.second))); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (auto& op : ca->operands()) constLeaves(cast<Constant>(op), out); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constLeaves(cd->getElementAsConstant(i), out); return; }
  out.push_back(constVal(c));
}
V Engine::constVal(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); if (w <= 64) return V(ci->getZExtValue(), w); if (w > 128) fatal("int too wide"); u128 v = 0; const uint64_t* d = ci->getValue().getRawData(); v = ((u128)d[1] << 64) | d[0]; return V(mkConst(v, w)); }
  if (isa<ConstantPointerNull>(c)) return V(0, 64);
  if (isa<UndefValue>(c)) { unsigned w = bitsOf(c->getType()); return w <= 64 ? V(0, w) : V(mkConst(0, w)); }
  if (auto* f = dyn_cast<ConstantFP>(c)) return fpBits(f->getValueAPF(), bitsOf(c->getType()));
  if (auto* F = dyn_cast<Function>(c)) return V(funcOf(F)->addr, 64);
  if (auto* g = dyn_cast<GlobalVariable>(c)) return V(globalAddr(g), 64);
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { auto* gep = cast<GEPOperator>(ce); V b = constVal(cast<Constant>(gep->getPointerOperand())); APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) fatal("const gep"); return V(b.c + off.getZExtValue(), 64); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: { V v = constVal(ce->getOperand(0)); uint32_t w = bitsOf(ce->getType()); return V(v.c, w); }
      case Instruction::Add: { V a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return V(a.c + b.c, a.w); }
      case Instruction::Sub: { V a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return V(a.c - b.c, a.w); }
      case Instruction::Xor: { V a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return V(a.c ^ b.c, a.w); }
      case Instruction::ICmp: { V a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return V(a.c == b.c, 1); case CmpInst::ICMP_NE: return V(a.c != b.c, 1); case CmpInst::ICMP_ULT: return V(a.c < b.c, 1); default: break; } break; }
      case Instruction::Select: { V a = constVal(ce->getOperand(0)); return constVal(ce->getOperand(a.c ? 1 : 2)); }
      default: break;
    }
    fatal(std::string("unsupported constant expression ") + ce->getOpcodeName());
  }
  std::string s; raw_string_ostream os(s); c->print(os); fatal("unsupported constant " + os.str());
}
PFunc* Engine::funcOf(const Function* F) {
  auto it = funcs.find(F); if (it != funcs.end()) return it->second;
  PFunc* p = new PFunc(); p->F = F; p->name = F->getName().str(); p->addr = FUNC_BASE + 16 * (funcList.size()); funcList.push_back(p); funcs[F] = p; return p;
}
uint64_t Engine::globalAddr(const GlobalVariable* g) {
  auto it = globals.find(g); if (it != globals.end()) return it->second;
  uint64_t sz = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()) : 8; if (g->isDeclaration() && sz < 256) sz = 256;
  if (sz == 0) sz = 1;
  uint64_t a = allocObj(*init, sz, 2, 0, 0); globals[g] = a; if (g->hasInitializer()) pendingInit.push_back(g);
  return a;
}
void Engine::initGlobals() {
  for (auto& g : M->globals()) if (!g.getName().starts_with("llvm.")) (void)globalAddr(&g);
  while (!pendingInit.empty()) { auto* g = pendingInit.back(); pendingInit.pop_back();
    const Constant* c = g->getInitializer(); uint64_t a = globals[g];
    if (!isa<UndefValue>(c) && !c->isNullValue()) {
      std::vector<V> lv; constLeaves(c, lv); std::vector<std::pair<uint64_t, uint32_t>> l; layout(c->getType(), 0, l);
      for (size_t i = 0; i < lv.size(); i++) memWriteC(*init, a + l[i].first, lv[i], (l[i].second + 7) / 8);
    }
    if (g->isThreadLocal()) tlsInit[a] = IP<MObj>(new MObj(*init->objs.get(init->win.get(a >> WIN).obj - 1).p));
    if (g->isConstant()) { uint32_t ow = init->win.get(a >> WIN).obj; roObjs.push_back(ow - 1); }
  }
  for (uint32_t i : roObjs) { IP<MObj>& o = init->objs.mut(i); o->ro = true; }
  roObjs.clear();
}
Opnd Engine::operand(const Value* v, DenseMap<const Value*, int>& slot) {
  Opnd o;
  if (auto* c = dyn_cast<Constant>(v)) { if (leavesOf(c->getType()) == 1 && !c->getType()->isAggregateType() && !c->getType()->isVectorTy()) o.k = constVal(c); else { o.agg = new std::vector<V>(); constLeaves(c, *o.agg); if (o.agg->size() == 1) o.k = (*o.agg)[0]; } return o; }
  auto it = slot.find(v); if (it == slot.end()) { if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v)) return o; fatal("operand without slot"); }
  o.slot = it->second; return o;
}
void Engine::prepare(PFunc* p) {
  if (p->prepared) return; p->prepared = true;
  const Function& F = *p->F;
  DenseMap<const Value*, int> slot; DenseMap<const BasicBlock*, uint32_t> bid; uint32_t ns = 0;
  for (auto& a : F.args()) { uint32_t n = leavesOf(a.getType()); slot[&a] = ns; p->argSlot.push_back(ns); p->argN.push_back(n); ns += n; }
  uint32_t nb = 0; for (auto& B : F) { bid[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += leavesOf(I.getType()); } }
  p->nslots = ns; p->blk.resize(nb);
  for (auto& B : F) {
    PBlock& pb = p->blk[bid[&B]]; pb.start = p->code.size();
    for (auto& I : B) {
      if (auto* ph = dyn_cast<PHINode>(&I)) { PhiMove m; m.dst = slot[ph]; m.n = leavesOf(ph->getType()); for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) m.in.emplace_back(bid[ph->getIncomingBlock(i)], operand(ph->getIncomingValue(i), slot)); pb.phis.push_back(std::move(m)); continue; }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      PInst q; q.I = &I; q.op = I.getOpcode();
      if (!I.getType()->isVoidTy()) { q.dst = slot[&I]; q.n = leavesOf(I.getType()); if (q.n == 1 && !I.getType()->isAggregateType() && !I.getType()->isVectorTy()) q.w = bitsOf(I.getType()); }
      else q.n = 0;
      auto add = [&](const Value* v) { q.o.push_back(operand(v, slot)); };
      switch (I.getOpcode()) {
        case Instruction::Br: { auto* b = cast<BranchInst>(&I); if (b->isConditional()) { add(b->getCondition()); q.b0 = bid[b->getSuccessor(0)]; q.b1 = bid[b->getSuccessor(1)]; } else q.b0 = bid[b->getSuccessor(0)]; break; }
        case Instruction::Switch: { auto* s = cast<SwitchInst>(&I); add(s->getCondition()); q.b0 = bid[s->getDefaultDest()]; for (auto& c : s->cases()) q.cases.emplace_back(constVal(c.getCaseValue()), bid[c.getCaseSuccessor()]); break; }
        case Instruction::Ret: if (I.getNumOperands()) { add(I.getOperand(0)); q.n = leavesOf(I.getOperand(0)->getType()); } break;
        case Instruction::Alloca: { auto* a = cast<AllocaInst>(&I); q.imm = DL->getTypeAllocSize(a->getAllocatedType()); add(a->getArraySize()); q.w2 = 64; break; }
        case Instruction::Load: add(I.getOperand(0)); layout(I.getType(), 0, q.lay); q.sub = cast<LoadInst>(&I)->isAtomic(); break;
        case Instruction::Store: add(I.getOperand(1)); add(I.getOperand(0)); layout(I.getOperand(0)->getType(), 0, q.lay); q.sub = cast<StoreInst>(&I)->isAtomic(); break;
        case Instruction::AtomicRMW: { auto* a = cast<AtomicRMWInst>(&I); add(a->getPointerOperand()); add(a->getValOperand()); q.sub = a->getOperation(); q.w = bitsOf(I.getType()); break; }
        case Instruction::AtomicCmpXchg: { auto* a = cast<AtomicCmpXchgInst>(&I); add(a->getPointerOperand()); add(a->getCompareOperand()); add(a->getNewValOperand()); q.w = bitsOf(a->getCompareOperand()->getType()); q.sub = a->isWeak(); break; }
        case Instruction::GetElementPtr: { auto* g = cast<GetElementPtrInst>(&I); add(g->getPointerOperand()); uint64_t off = 0;
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value* ix = it.getOperand();
            if (auto* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(ix)) { off += es * ci->getSExtValue(); continue; }
            add(ix); q.scale.push_back(es); }
          q.imm = off; break; }
        case Instruction::ICmp: case Instruction::FCmp: q.sub = cast<CmpInst>(&I)->getPredicate(); add(I.getOperand(0)); add(I.getOperand(1)); q.w2 = I.getOperand(0)->getType()->isVectorTy() ? 0 : bitsOf(I.getOperand(0)->getType()); break;
        case Instruction::Select: for (int i = 0; i < 3; i++) add(I.getOperand(i)); break;
        case Instruction::ExtractValue: case Instruction::InsertValue: {
          bool ins = I.getOpcode() == Instruction::InsertValue; Type* t = I.getOperand(0)->getType(); ArrayRef<unsigned> idx = ins ? cast<InsertValueInst>(&I)->getIndices() : cast<ExtractValueInst>(&I)->getIndices(); uint64_t off = 0;
          for (unsigned i : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) off += leavesOf(st->getElementType(j)); t = st->getElementType(i); } else { auto* at = cast<ArrayType>(t); off += i * leavesOf(at->getElementType()); t = at->getElementType(); } }
          add(I.getOperand(0)); if (ins) add(I.getOperand(1)); q.imm = off; q.b0 = leavesOf(t); break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto* c = cast<CallBase>(&I); for (auto& a : c->args()) { add(a); q.scale.push_back(isa<MetadataAsValue>(a) ? 0 : leavesOf(a->getType())); }
          for (unsigned i = 0; i < c->arg_size(); i++) if (c->isByValArgument(i)) q.cases.emplace_back(V(i, 32), (uint32_t)DL->getTypeAllocSize(c->getParamByValType(i)));
          const Value* cv = c->getCalledOperand()->stripPointerCastsAndAliases();
          if (auto* cf = dyn_cast<Function>(cv)) { if (cf->isIntrinsic()) { q.ext = 1000000 + cf->getIntrinsicID(); } else q.callee = funcOf(cf); } else add(cv);
          if (auto* iv = dyn_cast<InvokeInst>(&I)) q.b0 = bid[iv->getNormalDest()];
          if (I.getType()->isVoidTy()) q.n = 0;
          break; }
        case Instruction::Unreachable: case Instruction::Fence: case Instruction::LandingPad: case Instruction::Resume: break;
        default: for (auto& op : I.operands()) add(op);
          if (I.getNumOperands() && !I.getOperand(0)->getType()->isAggregateType() && !I.getOperand(0)->getType()->isVectorTy() && !isa<BasicBlock>(I.getOperand(0))) q.w2 = bitsOf(I.getOperand(0)->getType());
      }
      p->code.push_back(std::move(q));
    }
  }
  // globals first referenced here are initialised lazily in the initial state only; initGlobals() visited them all before execution
}
