#include "engine.h"
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <algorithm>
using namespace llvm;
void Engine::fatal(const std::string& m) { fprintf(stderr, "symex: fatal: %s\n", m.c_str()); throw PathEnd{"error:" + m}; }
void Engine::pathError(const std::string& m) { throw PathEnd{"error:" + m + " at " + where()}; }
std::string Engine::where() {
  if (!S || S->th.empty() || S->th[S->cur].st.empty()) return "?";
  for (int i = (int)S->th[S->cur].st.size() - 1; i >= 0; i--) { Frame& f = S->th[S->cur].st[i]; uint32_t pc = f.pc; if (i != (int)S->th[S->cur].st.size() - 1 && pc) pc--; if (pc >= f.f->code.size()) continue; auto* I = f.f->code[pc].I;
    if (auto& dl = I->getDebugLoc()) { auto* sc = cast<DIScope>(dl.getScope()); return demangle(f.f->name) + " " + sc->getFilename().str() + ":" + std::to_string(dl.getLine()); } }
  return demangle(S->th[S->cur].st.back().f->name);
}
std::vector<std::string> Engine::stackTrace() {
  std::vector<std::string> r; auto& st = S->th[S->cur].st;
  for (int i = (int)st.size() - 1; i >= 0 && r.size() < 25; i--) { Frame& f = st[i]; uint32_t pc = f.pc; if (i != (int)st.size() - 1 && pc) pc--; std::string l = demangle(f.f->name).substr(0, 200); if (pc < f.f->code.size()) if (auto& dl = f.f->code[pc].I->getDebugLoc()) l += " (" + cast<DIScope>(dl.getScope())->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")"; r.push_back(l); }
  return r;
}
// ---------------------------------------------------------------- memory
uint64_t Engine::allocObj(State& s, uint64_t size, int kind, uint64_t win, uint8_t fill) {
  if (size >= (1ull << WIN) - 4096) throw PathEnd{"error:object too large (" + std::to_string(size) + ")"};
  MObj* o = new MObj(size, fill); o->kind = kind;
  if (!win) win = s.nextHeap++;
  uint32_t idx = s.nextObj++;
  s.objs.mut(idx) = IP<MObj>(o); s.win.mut(win).obj = idx + 1;
  return win << WIN;
}
void Engine::freeObj(State& s, uint64_t addr) { uint64_t w = addr >> WIN; Win& x = s.win.mut(w); if (x.obj) { s.objs.mut(x.obj - 1) = IP<MObj>(); x.obj = 0; } }
void Engine::memError(const std::string& m) { recordViolation("memory error: " + m, mkConst(1, 1)); throw PathEnd{"violation"}; }
MObj* Engine::objAt(State& s, uint64_t addr, uint64_t n, uint64_t& off, uint32_t& idx, bool wr) {
  const Win* w = s.win.ptr(addr >> WIN); off = addr & ((1ull << WIN) - 1);
  if (!w || !w->obj) { char b[64]; snprintf(b, sizeof b, "access to unmapped/freed address 0x%llx size %llu", (unsigned long long)addr, (unsigned long long)n); memError(b); }
  idx = w->obj - 1; const IP<MObj>* p = s.objs.ptr(idx); MObj* o = p->p;
  if (!o) memError("use after free");
  if (off + n > o->size) { char b[96]; snprintf(b, sizeof b, "out of bounds access offset %llu size %llu object size %llu", (unsigned long long)off, (unsigned long long)n, (unsigned long long)o->size); memError(b); }
  if (wr) { if (o->ro) memError("write to constant"); IP<MObj>& m = s.objs.mut(idx); if (m->rc > 1) m = IP<MObj>(new MObj(*m.p)); o = m.p; }
  return o;
}
V Engine::readByte(MObj* o, uint64_t off) { Page* p = o->pg[off / PG].p; if (!p) return V(o->fill, 8); if (p->s && p->s[off % PG]) return V(p->s[off % PG]); return V(p->b[off % PG], 8); }
void Engine::writeByte(MObj* o, uint64_t off, V v) { Page* p = o->wpage(off / PG); if (v.conc()) { p->b[off % PG] = v.c; if (p->s) p->s[off % PG] = nullptr; } else { if (!p->s) { p->s = new E[PG]; memset(p->s, 0, sizeof(E) * PG); } p->s[off % PG] = v.e; } }
V Engine::memRead(State& s, uint64_t addr, uint32_t w) {
  uint64_t off; uint32_t idx; uint32_t n = (w + 7) / 8; MObj* o = objAt(s, addr, n, off, idx, false);
  if (n <= 8 && off / PG == (off + n - 1) / PG) { Page* p = o->pg[off / PG].p; if (!p) { uint64_t v = 0; memset(&v, o->fill, n); return V(v, w); } if (!p->s) { uint64_t v = 0; memcpy(&v, p->b + off % PG, n); return V(v, w); } }
  bool allc = true; uint64_t cv = 0; for (uint32_t i = 0; i < n; i++) { V b = readByte(o, off + i); if (!b.conc()) { allc = false; break; } if (i < 8) cv |= b.c << (8 * i); }
  if (allc && n <= 8) return V(cv, w);
  E r = nullptr; for (uint32_t i = 0; i < n; i++) { E b = readByte(o, off + i).ex(); r = r ? mkConcat(b, r) : b; }
  if (r->w > w) r = mkExtract(r, 0, w);
  return V(r);
}
void Engine::memWriteC(State& s, uint64_t addr, V v, uint32_t n) {
  uint64_t off; uint32_t idx; MObj* o = objAt(s, addr, n, off, idx, true);
  if (v.conc()) { for (uint32_t i = 0; i < n; i++) { Page* p = o->wpage((off + i) / PG); uint32_t k = (off + i) % PG; p->b[k] = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0; if (p->s) p->s[k] = nullptr; } return; }
  E e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
  for (uint32_t i = 0; i < n; i++) writeByte(o, off + i, V(mkExtract(e, i * 8, 8)));
}
void Engine::memCopy(State& s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return; std::vector<V> t(n); uint64_t off; uint32_t idx; MObj* o = objAt(s, src, n, off, idx, false); for (uint64_t i = 0; i < n; i++) t[i] = readByte(o, off + i);
  o = objAt(s, d, n, off, idx, true); for (uint64_t i = 0; i < n; i++) writeByte(o, off + i, t[i]);
}
std::string Engine::cstr(uint64_t a) { std::string r; for (;;) { V v = memRead(*S, a++, 8); if (!v.conc()) { r += '?'; continue; } if (!v.c || r.size() > 4000) break; r += (char)v.c; } return r; }
// ---------------------------------------------------------------- constraints
bool Engine::evalModel(State& s, E c) { evalNewEpoch(); return evalE(c, *s.model) != 0; }
static bool intersects(const std::vector<uint32_t>& a, const std::unordered_set<uint32_t>& s) { for (uint32_t x : a) if (s.count(x)) return true; return false; }
SatRes Engine::query(State& s, E extra, Assignment* out) {
  std::vector<E> cs; cs.push_back(extra); std::unordered_set<uint32_t> sy(symsOf(extra).begin(), symsOf(extra).end());
  std::vector<char> used(s.cons.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.cons.size(); i++) if (!used[i]) { auto& q = symsOf(s.cons[i]); if (intersects(q, sy)) { used[i] = 1; cs.push_back(s.cons[i]); for (uint32_t x : q) if (sy.insert(x).second) ch = true; } } }
  return solveConj(cs, out);
}
bool Engine::implied(State& s, E c, bool& val) {
  if (c->isConst()) { val = c->cv; return true; }
  if (s.consSet.count(c)) { val = true; return true; }
  if (c->k == K_AND && c->w == 1) { bool x, y; bool ix = implied(s, c->a, x), iy = implied(s, c->b, y); if ((ix && !x) || (iy && !y)) { val = false; return true; } if (ix && iy) { val = true; return true; } }
  if (s.consSet.count(mkNot(c))) { val = false; return true; }
  return false;
}
bool Engine::addCons(State& s, E c) {  // caller guarantees feasibility under s.model or sets the model
  if (c->isConst()) return c->cv != 0;
  if (c->k == K_AND) { bool a = addCons(s, c->a), b = addCons(s, c->b); return a && b; }
  if (s.consSet.insert(c).second) s.cons.push_back(c);
  if (c->k == K_EQ && c->b->isConst() && c->b->w <= 64) s.known[c->a] = (uint64_t)c->b->cv;
  if (c->k == K_SYM && c->w == 1) s.known[c] = 1;
  if (c->k == K_XOR && c->w == 1 && c->a->k == K_SYM) s.known[c->a] = 0;
  return true;
}
bool Engine::mayBe(State& s, E c, std::shared_ptr<Assignment>* m) {
  if (c->isConst()) { if (m) *m = s.model; return c->cv; }
  if (evalModel(s, c)) { gSolver.modelHits++; if (m) *m = s.model; return true; }
  auto a = std::make_shared<Assignment>(*s.model);
  SatRes r = query(s, c, a.get());
  if (r == SatRes::UNKNOWN) throw PathEnd{"error:solver timeout"};
  if (r == SatRes::SAT && m) *m = a;
  return r == SatRes::SAT;
}
State* Engine::clone() { static const char* prof = getenv("SYMEX_FORKS"); if (prof) { if (FILE* f = fopen(prof, "a")) { fprintf(f, "%s\n", where().c_str()); fclose(f); } } State* n = new State(*S); n->id = nextStateId++; forks++; n->forks++; S->forks++; return n; }
// decide a boolean: when both values are feasible the clone re-executes the current instruction under the opposite constraint
int Engine::decide(E c) {
  bool v; if (implied(*S, c, v)) return v;
  bool mv = evalModel(*S, c); E taken = mv ? c : mkNot(c), other = mv ? mkNot(c) : c;
  std::shared_ptr<Assignment> om;
  if (mayBe(*S, other, &om)) { State* n = clone(); n->model = om; addCons(*n, other); work.push_back(n); }
  addCons(*S, taken); return mv;
}
uint64_t Engine::concretize(V v, const char* why) {
  if (v.conc()) return v.c;
  auto it = S->known.find(v.e); if (it != S->known.end()) return it->second;
  if (v.w > 64) pathError("concretize wide");
  // solver-driven enumeration of all feasible values
  int guard = 0;
  evalNewEpoch(); uint64_t val = (uint64_t)evalE(v.e, *S->model);
  E eq = mkEq(v.e, mkConst(val, v.w)); (void)guard;
  std::shared_ptr<Assignment> om;
  if (mayBe(*S, mkNot(eq), &om)) { if (S->forks > 100000) pathError(std::string("too many values concretizing ") + why); State* n = clone(); n->model = om; addCons(*n, mkNot(eq)); work.push_back(n); }
  addCons(*S, eq); S->known[v.e] = val;
  return val;
}
uint64_t Engine::addrOf(V v, uint64_t n) { return v.conc() ? v.c : concretize(v, "address"); }
// ---------------------------------------------------------------- inputs
void Engine::newSym(const std::string& name, uint32_t w, V& out) {
  uint32_t k = S->symCount[name]++; std::string nm = name + "#" + std::to_string(k); uint32_t id = 0; E e = mkSym(nm, w, &id);
  S->inputs.push_back(InputRec{true, e->aux, 0, name, w}); out = V(e);
  if (S->model.use_count() > 1) S->model = std::make_shared<Assignment>(*S->model);
  S->model->set(e->aux, 0);
}
void Engine::recordViolation(const std::string& msg, E cond) {
  std::shared_ptr<Assignment> m; if (!mayBe(*S, cond, &m)) return;
  std::string w = where(); std::string key = msg;
  if (!violMsgs.insert(key).second) return;
  Violation v; v.msg = msg; v.where = w; v.inputs = S->inputs; v.model = *m; v.stack = stackTrace(); viols.push_back(v);
  if (verbose) { fprintf(stderr, "VIOL %s at %s\n", msg.c_str(), w.c_str()); for (auto& l : v.stack) fprintf(stderr, "   %s\n", l.c_str()); for (auto& n : S->notes) fprintf(stderr, "   note %s\n", n.c_str()); }
  if ((int)viols.size() >= maxViol) throw PathEnd{"stop"};
}
// ---------------------------------------------------------------- operators
V Engine::bin(Kind k, V a, V b) {
  if (a.conc() && b.conc()) {
    uint32_t w = a.w; uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1;
    switch (k) { case K_ADD: return V(a.c + b.c, w); case K_SUB: return V(a.c - b.c, w); case K_MUL: return V(a.c * b.c, w); case K_AND: return V(a.c & b.c, w); case K_OR: return V(a.c | b.c, w); case K_XOR: return V(a.c ^ b.c, w);
      case K_SHL: return V(b.c >= w ? 0 : a.c << b.c, w); case K_LSHR: return V(b.c >= w ? 0 : (a.c & m) >> b.c, w);
      case K_EQ: return V(a.c == b.c, 1); case K_ULT: return V(a.c < b.c, 1); case K_ULE: return V(a.c <= b.c, 1);
      default: return V((uint64_t)foldOp(k, a.c, b.c, w, nullptr), (k >= K_EQ && k <= K_SLE) ? 1 : w); }
  }
  return V(mk2(k, a.ex(), b.ex()));
}
V Engine::cmp(unsigned p, V a, V b) {
  auto nt = [&](V x) { return x.conc() ? V(!x.c, 1) : V(mkNot(x.e)); };
  switch (p) { case CmpInst::ICMP_EQ: return bin(K_EQ, a, b); case CmpInst::ICMP_NE: return nt(bin(K_EQ, a, b)); case CmpInst::ICMP_ULT: return bin(K_ULT, a, b); case CmpInst::ICMP_ULE: return bin(K_ULE, a, b); case CmpInst::ICMP_UGT: return bin(K_ULT, b, a); case CmpInst::ICMP_UGE: return bin(K_ULE, b, a);
    case CmpInst::ICMP_SLT: return bin(K_SLT, a, b); case CmpInst::ICMP_SLE: return bin(K_SLE, a, b); case CmpInst::ICMP_SGT: return bin(K_SLT, b, a); case CmpInst::ICMP_SGE: return bin(K_SLE, b, a); }
  pathError("icmp");
}
static double asD(V v) { if (v.w == 32) { uint32_t u = v.c; float f; memcpy(&f, &u, 4); return f; } double d; uint64_t u = v.c; memcpy(&d, &u, 8); return d; }
static V mkD(double d, uint32_t w) { if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return V(u, 32); } uint64_t u; memcpy(&u, &d, 8); return V(u, 64); }
V Engine::castTo(unsigned op, V a, uint32_t w) {
  switch (op) {
    case Instruction::Trunc: if (a.conc()) return V(a.c, w); return V(mkExtract(a.e, 0, w));
    case Instruction::ZExt: if (a.conc() && w <= 64) return V(a.c, w); return V(mkZExt(a.ex(), w));
    case Instruction::SExt: if (a.conc() && w <= 64) return V((uint64_t)sextw(a.c, a.w), w); return V(mkSExt(a.ex(), w));
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (a.w == w) return a; return castTo(a.w > w ? Instruction::Trunc : Instruction::ZExt, a, w);
    case Instruction::UIToFP: a = V(concretize(a, "fp"), a.w); return mkD((double)a.c, w);
    case Instruction::SIToFP: a = V(concretize(a, "fp"), a.w); return mkD((double)(int64_t)sextw(a.c, a.w), w);
    case Instruction::FPToUI: return V((uint64_t)asD(a), w);
    case Instruction::FPToSI: return V((uint64_t)(int64_t)asD(a), w);
    case Instruction::FPExt: case Instruction::FPTrunc: return mkD(asD(a), w);
  } pathError("cast");
}
V Engine::fpBin(unsigned op, V a, V b, uint32_t w) { double x = asD(a), y = asD(b), r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; } return mkD(r, w); }
void Engine::getN(const Opnd& o, uint32_t n, std::vector<V>& out) {
  if (o.slot >= 0) { auto& r = S->th[S->cur].st.back().r; out.insert(out.end(), r.begin() + o.slot, r.begin() + o.slot + n); }
  else if (o.agg) out.insert(out.end(), o.agg->begin(), o.agg->end()); else if (n) out.push_back(o.k);
}
// ---------------------------------------------------------------- control
void Engine::leave(Frame& f, PInst& q) { f.pc++; if (q.op == llvm::Instruction::Invoke) f.pend = q.b0; }
void Engine::jump(uint32_t b) {
  Frame& f = S->th[S->cur].st.back(); PBlock& pb = f.f->blk[b];
  if (!pb.phis.empty()) {
    // current block index: derive from pc
    uint32_t from = f.prev; static std::vector<V> tmp; tmp.clear();
    for (auto& m : pb.phis) { bool ok = false; for (auto& in : m.in) if (in.first == from) { getN(in.second, m.n, tmp); ok = true; break; } if (!ok) pathError("phi"); }
    size_t k = 0; for (auto& m : pb.phis) for (uint32_t i = 0; i < m.n; i++) f.r[m.dst + i] = tmp[k++];
  }
  f.prev = b; f.pc = pb.start;
}
void Engine::enter(PFunc* f, const std::vector<V>& args, int32_t retDst, uint32_t retN) {
  prepare(f); f->used = true; f->calls++;
  Thread& t = S->th[S->cur]; if (t.st.size() > 4000) { recordViolation("stack overflow (call depth 4000)", mkConst(1, 1)); throw PathEnd{"violation"}; }
  t.st.emplace_back(); Frame& fr = t.st.back(); fr.f = f; fr.r.resize(f->nslots); fr.retDst = retDst; fr.retN = retN; fr.stackMark = t.stackNext; fr.pc = f->blk[0].start; fr.prev = 0;
  size_t k = 0; for (size_t i = 0; i < f->argSlot.size(); i++) for (uint32_t j = 0; j < f->argN[i]; j++) { if (k >= args.size()) pathError("too few args calling " + f->name); fr.r[f->argSlot[i] + j] = args[k++]; }
}
void Engine::doRet(const V* vals, uint32_t n) {
  Thread& t = S->th[S->cur]; Frame fr = std::move(t.st.back());
  for (uint64_t w = fr.stackMark; w < t.stackNext; w++) freeObj(*S, w << WIN);
  t.stackNext = fr.stackMark; t.st.pop_back();
  while (!t.scopes.empty() && t.scopes.back().depth > t.st.size()) t.scopes.pop_back();
  if (t.st.empty()) { threadDone(false); return; }
  Frame& c = t.st.back();
  if (fr.scope) { if (fr.retDst >= 0) c.r[fr.retDst] = V(0, 32); resume(c); return; }
  if (fr.retDst >= 0) for (uint32_t i = 0; i < n && i < fr.retN; i++) c.r[fr.retDst + i] = vals[i];
  resume(c);
}
void Engine::abortPath(const std::string& why) {
  Thread& t = S->th[S->cur];
  if (!t.scopes.empty()) { // unwind to the innermost abort scope: the call returns 1 (process died)
    Scope sc = t.scopes.back(); t.scopes.pop_back(); int32_t rd = -1;
    while (t.st.size() >= sc.depth) { Frame& f = t.st.back(); rd = f.retDst; for (uint64_t w = f.stackMark; w < t.stackNext; w++) freeObj(*S, w << WIN); t.stackNext = f.stackMark; t.st.pop_back(); }
    if (rd >= 0) t.st.back().r[rd] = V(1, 32); resume(t.st.back());
    abortPaths++; return;
  }
  if (S->abortMode == 0) { recordViolation("unexpected termination: " + why, mkConst(1, 1)); throw PathEnd{"violation"}; }
  throw PathEnd{"abort"};
}
void Engine::threadDone(bool crashed) {
  Thread& t = S->th[S->cur]; t.done = true; t.crashed = crashed; if (crashed) crashes++;
  if (S->cur == 0) throw PathEnd{"done"};
  if (!crashed) for (auto& l : S->locks) if (l.second.first == S->cur + 1) pathError("thread ended holding a lock");
  schedForced();
}

int Engine::choose(const char* name, int n) { // explicit scheduler choice variable: fork on all n values
  if (n <= 1) return 0;
  int v = 0;
  if (S->forced >= 0) { v = S->forced; S->forced = -1; }
  else for (int i = n - 1; i >= 1; i--) { State* c = clone(); c->forced = i; work.push_back(c); }
  S->inputs.push_back(InputRec{false, 0, (u128)v, name, 32}); return v;
}
bool Engine::visible(uint64_t addr, uint64_t n, bool atomic, bool write) {
  if (S->shared.empty()) return atomic;
  const Win* w = S->win.ptr(addr >> WIN); if (!w || !w->obj) return false; uint64_t off = addr & ((1ull << WIN) - 1);
  for (auto& s : S->shared) if (s.obj == w->obj && off < s.hi && off + n > s.lo) { if (atomic) return true; if (s.mode >= 3) return true; if (s.mode == 2 && write) return true; }
  return false;
}
void Engine::switchTo(int t) { S->cur = t; S->th[t].passed = true; }
// returns true when the current instruction must not be executed now
bool Engine::schedPoint(uint64_t addr, uint64_t n, bool atomic, bool write, bool sync) {
  if (!S->par || S->cur == 0) return false;
  if (!sync && !visible(addr, n, atomic, write)) return false;
  Thread& t = S->th[S->cur];
  if (t.passed) { t.passed = false; t.points++; points++; return false; }
  std::vector<int> opt; opt.push_back(S->cur);
  if (S->preempt > 0) for (int i = 1; i < (int)S->th.size(); i++) if (i != S->cur && !S->th[i].done && !S->th[i].blocked) opt.push_back(i);
  bool cr = S->cur < 32 && (S->crashMask >> (S->cur - 1) & 1) && S->maxCrash > 0;
  int nopt = opt.size() + (cr ? 1 : 0);
  int c = choose("sched", nopt);
  if (c == 0) { t.points++; points++; return false; }
  if (c == (int)opt.size()) { S->maxCrash--; threadDone(true); return true; }
  S->preempt--; switchTo(opt[c]); return true;
}
void Engine::schedForced() { S->pendingSched = true; }
void Engine::doSched() {
  std::vector<std::pair<int, bool>> opt; bool anyBlocked = false; 
  for (int i = 1; i < (int)S->th.size(); i++) { Thread& t = S->th[i]; if (t.done) continue; if (t.blocked) { anyBlocked = true; continue; } opt.emplace_back(i, false); }
  if (S->maxCrash > 0) for (int i = 1; i < (int)S->th.size(); i++) { Thread& t = S->th[i]; if (!t.done && t.points && (S->crashMask >> (i - 1) & 1)) opt.emplace_back(i, true); }
  if (opt.empty()) {
    if (anyBlocked) { S->pendingSched = false; recordViolation("deadlock", mkConst(1, 1)); throw PathEnd{"violation"}; }
    uint32_t mask = 0; for (int i = 1; i < (int)S->th.size(); i++) if (S->th[i].crashed) mask |= 1u << (i - 1);
    S->th.resize(1); S->cur = 0; S->par = false; S->pendingSched = false; 
    if (S->parDst >= 0) S->th[0].st.back().r[S->parDst] = V(mask, 32);
    resume(S->th[0].st.back());
    return;
  }
  int c = choose("sched", opt.size());
  S->pendingSched = false;
  if (opt[c].second) { S->maxCrash--; S->cur = opt[c].first; Thread& t = S->th[S->cur]; t.done = t.crashed = true; crashes++; S->pendingSched = true; return; }
  switchTo(opt[c].first);
}
