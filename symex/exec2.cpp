#include <cmath>
#include "engine.h"
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
using namespace llvm;
static Kind kindOf(unsigned op) {
  switch (op) { case Instruction::Add: return K_ADD; case Instruction::Sub: return K_SUB; case Instruction::Mul: return K_MUL; case Instruction::UDiv: return K_UDIV; case Instruction::SDiv: return K_SDIV; case Instruction::URem: return K_UREM; case Instruction::SRem: return K_SREM;
    case Instruction::And: return K_AND; case Instruction::Or: return K_OR; case Instruction::Xor: return K_XOR; case Instruction::Shl: return K_SHL; case Instruction::LShr: return K_LSHR; case Instruction::AShr: return K_ASHR; }
  return K_CONST;
}
static V ite(V c, V a, V b) { if (c.conc()) return c.c ? a : b; if (a.conc() && b.conc() && a.c == b.c) return a; return V(mkIte(c.e, a.ex(), b.ex())); }
void Engine::step() {
  if (S->pendingSched) { doSched(); return; }
  Thread& th = S->th[S->cur]; Frame& f = th.st.back(); PInst& q = f.f->code[f.pc];
  S->instrs++; instrs++;
  switch (q.op) {
    case Instruction::Br:
      if (q.o.empty()) { jump(q.b0); return; }
      else { V c = get(q.o[0]); int d = c.conc() ? (int)c.c : decide(c.e); jump(d ? q.b0 : q.b1); return; }
    case Instruction::Switch: {
      V c = get(q.o[0]);
      if (c.conc()) { for (auto& p : q.cases) if (p.first.c == c.c) { jump(p.second); return; } jump(q.b0); return; }
      evalNewEpoch(); uint64_t v = (uint64_t)evalE(c.e, *S->model); uint32_t tgt = q.b0; for (auto& p : q.cases) if (p.first.c == v) tgt = p.second;
      E cond = mkConst(0, 1), any = mkConst(0, 1); for (auto& p : q.cases) { E e = mkEq(c.e, p.first.ex()); any = mk2(K_OR, any, e); if (p.second == tgt) cond = mk2(K_OR, cond, e); }
      if (tgt == q.b0) cond = mk2(K_OR, cond, mkNot(any));
      decide(cond); jump(tgt); return; }
    case Instruction::Ret: { static std::vector<V> v; v.clear(); if (!q.o.empty()) getN(q.o[0], q.n, v); doRet(v.data(), v.size()); return; }
    case Instruction::Unreachable: recordViolation("reached unreachable code", mkConst(1, 1)); throw PathEnd{"violation"};
    case Instruction::Alloca: {
      uint64_t n = q.imm * concretize(get(q.o[0]), "alloca"); if (!n) n = 1;
      uint64_t w = th.stackNext++; if (w >= STACK_W0 + (S->cur + 1) * STACK_PER_THREAD) pathError("stack windows exhausted");
      set(q.dst, V(allocObj(*S, n, 1, w, 0xCD), 64)); break; }
    case Instruction::Load: {
      uint64_t n = q.lay.back().first + (q.lay.back().second + 7) / 8; uint64_t a = addrOf(get(q.o[0]), n);
      if (schedPoint(a, n, q.sub, false)) return;
      uint32_t i = 0; for (auto& l : q.lay) { V v = memRead(*S, a + l.first, l.second); S->th[S->cur].st.back().r[q.dst + i++] = v; } break; }
    case Instruction::Store: {
      if (q.lay.empty()) break;
      uint64_t n = q.lay.back().first + (q.lay.back().second + 7) / 8; uint64_t a = addrOf(get(q.o[0]), n);
      if (schedPoint(a, n, q.sub, true)) return;
      static std::vector<V> v; v.clear(); getN(q.o[1], q.lay.size(), v); uint32_t i = 0; for (auto& l : q.lay) memWriteC(*S, a + l.first, v[i++], (l.second + 7) / 8); break; }
    case Instruction::AtomicRMW: {
      uint64_t a = addrOf(get(q.o[0]), q.w / 8); if (schedPoint(a, q.w / 8, true, true)) return;
      V old = memRead(*S, a, q.w), b = get(q.o[1]), nv;
      switch (q.sub) { case AtomicRMWInst::Xchg: nv = b; break; case AtomicRMWInst::Add: nv = bin(K_ADD, old, b); break; case AtomicRMWInst::Sub: nv = bin(K_SUB, old, b); break; case AtomicRMWInst::And: nv = bin(K_AND, old, b); break; case AtomicRMWInst::Or: nv = bin(K_OR, old, b); break; case AtomicRMWInst::Xor: nv = bin(K_XOR, old, b); break;
        case AtomicRMWInst::Max: nv = ite(bin(K_SLT, old, b), b, old); break; case AtomicRMWInst::Min: nv = ite(bin(K_SLT, b, old), b, old); break; case AtomicRMWInst::UMax: nv = ite(bin(K_ULT, old, b), b, old); break; case AtomicRMWInst::UMin: nv = ite(bin(K_ULT, b, old), b, old); break; default: pathError("atomicrmw"); }
      memWriteC(*S, a, nv, (q.w + 7) / 8); set(q.dst, old); break; }
    case Instruction::AtomicCmpXchg: {
      uint64_t a = addrOf(get(q.o[0]), q.w / 8); if (schedPoint(a, q.w / 8, true, true)) return;
      V old = memRead(*S, a, q.w), cmpv = get(q.o[1]), nv = get(q.o[2]); V eq = bin(K_EQ, old, cmpv);
      int ok = eq.conc() ? (int)eq.c : -1;
      if (ok < 0) { // the decision may re-execute this instruction: mark the point as passed for the clone
        bool sv = th.passed; th.passed = S->par && visible(a, q.w / 8, true, true); ok = decide(eq.e); S->th[S->cur].passed = sv; }
      if (ok) memWriteC(*S, a, nv, (q.w + 7) / 8);
      set(q.dst, old); set(q.dst + 1, V(ok, 1)); break; }
    case Instruction::Fence: break;
    case Instruction::GetElementPtr: {
      V b = get(q.o[0]); if (q.imm) b = bin(K_ADD, b, V(q.imm, 64));
      for (size_t i = 0; i < q.scale.size(); i++) { V x = get(q.o[i + 1]); if (x.w != 64) x = castTo(x.w < 64 ? Instruction::SExt : Instruction::Trunc, x, 64); if (q.scale[i] != 1) x = bin(K_MUL, x, V(q.scale[i], 64)); b = bin(K_ADD, b, x); }
      set(q.dst, b); break; }
    case Instruction::ICmp: set(q.dst, cmp(q.sub, get(q.o[0]), get(q.o[1]))); break;
    case Instruction::FCmp: { auto D = [](V v) { double d; if (v.w == 32) { uint32_t u = v.c; float f; memcpy(&f, &u, 4); return (double)f; } uint64_t u = v.c; memcpy(&d, &u, 8); return d; }; V x = get(q.o[0]), y = get(q.o[1]); if (!x.conc() || !y.conc()) pathError("symbolic fp"); double a = D(x), b = D(y); bool r = false;
      switch (q.sub) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = a == b; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = a != b; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = a < b; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = a <= b; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = a > b; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = a >= b; break; default: pathError("fcmp"); }
      set(q.dst, V(r, 1)); break; }
    case Instruction::Select: {
      V c = get(q.o[0]); static std::vector<V> a, b; a.clear(); b.clear(); getN(q.o[1], q.n, a); getN(q.o[2], q.n, b);
      for (uint32_t i = 0; i < q.n; i++) set(q.dst + i, ite(c, a[i], b[i])); break; }
    case Instruction::ExtractValue: { static std::vector<V> a; a.clear(); uint32_t tot = q.o[0].slot >= 0 ? (uint32_t)(q.imm + q.b0) : 0; getN(q.o[0], tot, a); for (uint32_t i = 0; i < q.b0; i++) set(q.dst + i, a[q.imm + i]); break; }
    case Instruction::InsertValue: { static std::vector<V> a, b; a.clear(); b.clear(); getN(q.o[0], q.n, a); getN(q.o[1], q.b0, b); for (uint32_t i = 0; i < q.n; i++) set(q.dst + i, a[i]); for (uint32_t i = 0; i < q.b0; i++) set(q.dst + q.imm + i, b[i]); break; }
    case Instruction::Freeze: { static std::vector<V> a; a.clear(); getN(q.o[0], q.n, a); for (uint32_t i = 0; i < q.n; i++) set(q.dst + i, a[i]); break; }
    case Instruction::Call: case Instruction::Invoke: call(q); return;
    case Instruction::LandingPad: case Instruction::Resume: pathError("exception handling");
    case Instruction::FNeg: { V a = get(q.o[0]); set(q.dst, bin(K_XOR, a, V(1ull << (a.w - 1), a.w))); break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { V a = get(q.o[0]), b = get(q.o[1]); if (!a.conc() || !b.conc()) pathError("symbolic fp"); set(q.dst, fpBin(q.op, a, b, q.w)); break; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      V a = get(q.o[0]), b = get(q.o[1]);
      if (b.conc()) { if (!b.c) { recordViolation("division by zero", mkConst(1, 1)); throw PathEnd{"violation"}; } }
      else { E z = mkEq(b.e, mkConst(0, b.w)); if (decide(z)) { recordViolation("division by zero", mkConst(1, 1)); throw PathEnd{"violation"}; } }
      set(q.dst, bin(kindOf(q.op), a, b)); break; }
    default: {
      Kind k = kindOf(q.op);
      if (k != K_CONST) { set(q.dst, bin(k, get(q.o[0]), get(q.o[1]))); break; }
      if (Instruction::isCast(q.op)) { set(q.dst, castTo(q.op, get(q.o[0]), q.w)); break; }
      pathError(std::string("unsupported instruction ") + q.I->getOpcodeName());
    }
  }
  S->th[S->cur].st.back().pc++;
}
void Engine::call(PInst& q) {
  static std::vector<V> a; a.clear(); std::vector<V> args;
  size_t na = q.scale.size(); for (size_t i = 0; i < na; i++) if (q.scale[i]) getN(q.o[i], q.scale[i], args);
  Frame& f = S->th[S->cur].st.back();
  auto next = [&]() { Frame& fr = S->th[S->cur].st.back(); if (q.op == Instruction::Invoke) jump(q.b0); else fr.pc++; };
  (void)f;
  if (q.ext >= 1000000) { intrinsic(q, q.ext - 1000000, args); next(); return; }
  PFunc* cf = q.callee;
  if (!cf) { uint64_t a = addrOf(get(q.o.back()), 1); if (a < FUNC_BASE || (a - FUNC_BASE) % 16 || (a - FUNC_BASE) / 16 >= funcList.size()) memError("call through invalid function pointer"); cf = funcList[(a - FUNC_BASE) / 16]; }
  if (cf->F->isDeclaration() || cf->F->getName().starts_with("sym_")) { doExternal(q, cf, args); return; }
  for (auto& bv : q.cases) { // byval: private copy in the callee's frame
    uint32_t ai = bv.first.c; size_t k = 0; for (uint32_t i = 0; i < ai; i++) k += q.scale[i]; uint64_t src = addrOf(args[k], bv.second); uint64_t w = S->th[S->cur].stackNext++; uint64_t d = allocObj(*S, bv.second, 1, w, 0); memCopy(*S, d, src, bv.second); args[k] = V(d, 64); }
  leave(S->th[S->cur].st.back(), q); enter(cf, args, q.dst, q.n);
}
void Engine::intrinsic(PInst& q, unsigned id, std::vector<V>& a) {
  auto ov = [&](Kind k, bool sgn) { uint32_t w = a[0].w; unsigned ww = w + (k == K_MUL ? w : 1); V r = bin(k, a[0], a[1]); V o;
    if (a[0].conc() && a[1].conc() && w <= 64) { s128 x = sgn ? sextw(a[0].c, w) : (s128)a[0].c, y = sgn ? sextw(a[1].c, w) : (s128)a[1].c; bool of;
      if (k == K_MUL && !sgn && w == 64) { u128 p = (u128)a[0].c * a[1].c; of = p >> 64; } else { s128 z = k == K_ADD ? x + y : k == K_SUB ? x - y : x * y; of = sgn ? z != sextw(r.c, w) : (z < 0 || (u128)z != r.c); } o = V(of, 1); }
    else if (k == K_ADD && !sgn) o = bin(K_ULT, r, a[0]);
    else if (k == K_SUB && !sgn) o = bin(K_ULT, a[0], a[1]);
    else { auto ex = [&](V v) { return sgn ? mkSExt(v.ex(), ww) : mkZExt(v.ex(), ww); }; E full = mk2(k, ex(a[0]), ex(a[1])); o = V(mkNot(mkEq(full, ex(r)))); }
    set(q.dst, r); set(q.dst + 1, o); };
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::var_annotation: 
      if (id == Intrinsic::invariant_start) set(q.dst, V(0, 64)); return;
    case Intrinsic::stacksave: set(q.dst, V(0, 64)); return;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(a[2], "memcpy"); if (!n) return; uint64_t d = addrOf(a[0], n), s = addrOf(a[1], n); memCopy(*S, d, s, n); return; }
    case Intrinsic::memset: { uint64_t n = concretize(a[2], "memset"); if (!n) return; uint64_t d = addrOf(a[0], n); uint64_t off; uint32_t idx; MObj* o = objAt(*S, d, n, off, idx, true); for (uint64_t i = 0; i < n; i++) writeByte(o, off + i, a[1]); return; }
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: recordViolation("trap", mkConst(1, 1)); throw PathEnd{"violation"};
    case Intrinsic::threadlocal_address: { auto it = tlsInit.find(a[0].conc() ? (uint64_t)a[0].c : 0); if (S->cur == 0 || it == tlsInit.end()) { set(q.dst, a[0]); return; }
      uint64_t& own = S->tls[{(uint64_t)a[0].c, S->cur}]; if (!own) { own = allocObj(*S, it->second->size, 2, 0, 0); S->objs.mut(S->win.get(own >> WIN).obj - 1) = IP<MObj>(new MObj(*it->second.p)); } set(q.dst, V(own, 64)); return; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: set(q.dst, a[0]); return;
    case Intrinsic::is_constant: set(q.dst, V(0, 1)); return;
    case Intrinsic::objectsize: set(q.dst, V(~0ull, q.w)); return;
    case Intrinsic::eh_typeid_for: set(q.dst, V(0, 32)); return;
    case Intrinsic::uadd_with_overflow: ov(K_ADD, false); return; case Intrinsic::sadd_with_overflow: ov(K_ADD, true); return;
    case Intrinsic::usub_with_overflow: ov(K_SUB, false); return; case Intrinsic::ssub_with_overflow: ov(K_SUB, true); return;
    case Intrinsic::umul_with_overflow: ov(K_MUL, false); return; case Intrinsic::smul_with_overflow: ov(K_MUL, true); return;
    case Intrinsic::umax: set(q.dst, ite(bin(K_ULT, a[0], a[1]), a[1], a[0])); return; case Intrinsic::umin: set(q.dst, ite(bin(K_ULT, a[0], a[1]), a[0], a[1])); return;
    case Intrinsic::smax: set(q.dst, ite(bin(K_SLT, a[0], a[1]), a[1], a[0])); return; case Intrinsic::smin: set(q.dst, ite(bin(K_SLT, a[0], a[1]), a[0], a[1])); return;
    case Intrinsic::abs: set(q.dst, ite(bin(K_SLT, a[0], V(0, a[0].w)), bin(K_SUB, V(0, a[0].w), a[0]), a[0])); return;
    case Intrinsic::usub_sat: set(q.dst, ite(bin(K_ULT, a[0], a[1]), V(0, a[0].w), bin(K_SUB, a[0], a[1]))); return;
    case Intrinsic::uadd_sat: { V s = bin(K_ADD, a[0], a[1]); set(q.dst, ite(bin(K_ULT, s, a[0]), V(~0ull, a[0].w), s)); return; }
    case Intrinsic::ctpop: { V r(0, q.w); for (uint32_t i = 0; i < q.w; i++) r = bin(K_ADD, r, bin(K_AND, bin(K_LSHR, a[0], V(i, q.w)), V(1, q.w))); set(q.dst, r); return; }
    case Intrinsic::ctlz: { V r(q.w, q.w); for (uint32_t i = 0; i < q.w; i++) r = ite(cmp(CmpInst::ICMP_NE, bin(K_AND, a[0], V(1ull << i, q.w)), V(0, q.w)), V(q.w - 1 - i, q.w), r); set(q.dst, r); return; }
    case Intrinsic::cttz: { V r(q.w, q.w); for (int i = q.w - 1; i >= 0; i--) r = ite(cmp(CmpInst::ICMP_NE, bin(K_AND, a[0], V(1ull << i, q.w)), V(0, q.w)), V(i, q.w), r); set(q.dst, r); return; }
    case Intrinsic::bswap: { E r = nullptr; for (uint32_t i = 0; i < q.w / 8; i++) { E b = mkExtract(a[0].ex(), i * 8, 8); r = r ? mkConcat(r, b) : b; } set(q.dst, V(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { V s = bin(K_UREM, a[2], V(q.w, q.w)); V inv = bin(K_SUB, V(q.w, q.w), s); V z = bin(K_EQ, s, V(0, q.w)); V r; if (id == Intrinsic::fshl) r = ite(z, a[0], bin(K_OR, bin(K_SHL, a[0], s), bin(K_LSHR, a[1], inv))); else r = ite(z, a[1], bin(K_OR, bin(K_SHL, a[0], inv), bin(K_LSHR, a[1], s))); set(q.dst, r); return; }
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::fabs: { if (!a[0].conc() || q.w != 64) pathError("symbolic floating point"); double d; uint64_t u = a[0].c; memcpy(&d, &u, 8); d = id == Intrinsic::ceil ? ceil(d) : id == Intrinsic::floor ? floor(d) : fabs(d); memcpy(&u, &d, 8); set(q.dst, V(u, 64)); return; }
    case Intrinsic::ptrmask: set(q.dst, bin(K_AND, a[0], a[1])); return;
    default: pathError("unsupported intrinsic " + Intrinsic::getBaseName(id).str());
  }
}
void Engine::finishPath(const std::string& kind) {
  paths++; if (S->instrs > maxPathInstr) maxPathInstr = S->instrs;
  if (kind == "abort") abortPaths++;
  // keep up to nSamples witness paths (spread) for replay against the native build
  bool keep = (int)samples.size() < nSamples || (paths & (paths - 1)) == 0;
  if (keep) { Sample s; s.inputs = S->inputs; s.model = *S->model; evalNewEpoch(); for (auto& v : S->observed) s.obs.push_back(v.conc() ? v.c : (uint64_t)evalE(v.e, *S->model)); s.end = kind; if ((int)samples.size() < nSamples) samples.push_back(s); else samples[paths % nSamples] = s; }
}
bool Engine::loop(size_t stopAt) { // stopAt: breadth-first until that many states are pending
  while (!work.empty()) {
    if (stopAt) { if (work.size() - head >= stopAt) { work.erase(work.begin(), work.begin() + head); head = 0; return true; } if (head == work.size()) { work.clear(); head = 0; break; } S = work[head++]; }
    else { S = work.back(); work.pop_back(); }
    std::string end;
    try {
      uint64_t k = 0;
      for (;;) {
        step();
        if ((++k & 0xFF) == 0) {
          double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
          if (el > budget) { if (S->instrs > 100000 && S->instrs > 50 * maxPathInstr) recordViolation("no termination within the time budget (suspected hang)", mkConst(1, 1)); incomplete = true; incompleteWhy = "time budget"; throw PathEnd{"budget"}; }
          if (S->instrs > maxInstrPath) { recordViolation("no termination within " + std::to_string(maxInstrPath) + " instructions (hang)", mkConst(1, 1)); throw PathEnd{"violation"}; }
        }
      }
    } catch (PathEnd& p) { end = p.kind; }
    if (end == "done" || end == "abort") finishPath(end);
    else if (end == "infeasible") infeasible++;
    else if (end.rfind("error:", 0) == 0) { if (errors.size() < 20) errors.push_back(end.substr(6)); if (verbose && errors.size() < 20) { fprintf(stderr, "ERR %s\n", end.c_str()); for (auto& l : stackTrace()) fprintf(stderr, "   %s\n", l.c_str()); } incomplete = true; incompleteWhy = "errors"; if (errors.size() >= 20) { delete S; break; } }
    else if (end == "violation") {}
    else if (end == "stop") { delete S; S = nullptr; break; }
    else if (end == "budget") { delete S; S = nullptr; break; }
    delete S; S = nullptr;
    if (paths >= maxPaths) { incomplete = true; incompleteWhy = "path limit"; break; }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget && !work.empty()) { incomplete = true; incompleteWhy = "time budget"; break; }
  }
  return false;
}
