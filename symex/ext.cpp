// External functions: harness primitives (sym_*), C library, C++ runtime, pthread.
#include "engine.h"
#include <llvm/IR/InstrTypes.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
using namespace llvm;
typedef std::vector<V> Args;
struct Ctx { Engine& E; PInst& q; PFunc* f; Args& a; bool advance = true; V ret; bool hasRet = false; void r(V v) { ret = v; hasRet = true; } void r64(uint64_t v) { r(V(v, 64)); } void r32(uint32_t v) { r(V(v, 32)); } State& S() { return *E.S; } };
typedef std::function<void(Ctx&)> H;
static std::unordered_map<std::string, H> T;
void Engine::blockOn(uint64_t a) { Thread& t = S->th[S->cur]; t.blocked = true; t.waitOn = a; t.passed = false; S->pendingSched = true; if (!S->par || S->cur == 0) { recordViolation("deadlock (single thread)", mkConst(1, 1)); throw PathEnd{"violation"}; } }
void Engine::wake(uint64_t a) { for (auto& t : S->th) if (t.blocked && t.waitOn == a) t.blocked = false; }
static void lockOp(Ctx& c, bool excl, bool tryOnly) {
  uint64_t a = c.E.addrOf(c.a[0], 8); State& s = c.S();
  if (c.E.schedPoint(a, 1, true, true, true)) { c.advance = false; return; }
  auto& l = s.locks[a]; bool free = excl ? (l.first == 0 && l.second == 0) : l.first == 0;
  if (!free) { if (tryOnly) { c.r32(16); return; } if (l.first == s.cur + 1) { if (excl) { V k = c.E.memRead(s, a + 16, 32); if (k.conc() && k.c == 1) { l.second++; c.r32(0); return; } } c.E.recordViolation("self deadlock: relock of non-recursive mutex", mkConst(1, 1)); throw PathEnd{"violation"}; } c.E.blockOn(a); c.advance = false; return; }
  if (excl) l.first = s.cur + 1; else l.second++; c.r32(0);
}
static void unlockOp(Ctx& c) { uint64_t a = c.E.addrOf(c.a[0], 8); State& s = c.S(); if (c.E.schedPoint(a, 1, true, true)) { c.advance = false; return; } auto& l = s.locks[a]; if (l.first == s.cur + 1 && l.second == 0) l.first = 0; else if (l.second > 0) l.second--; else { c.E.recordViolation("unlock of a mutex not held", mkConst(1, 1)); throw PathEnd{"violation"}; } if (!l.first && !l.second) s.locks.erase(a); c.E.wake(a); c.r32(0); }
static V memcmpV(Engine& E, uint64_t a, uint64_t b, uint64_t n) {
  V r(0, 32); for (uint64_t i = n; i-- > 0;) { V x = E.memRead(*E.S, a + i, 8), y = E.memRead(*E.S, b + i, 8); V eq = E.bin(K_EQ, x, y), lt = E.bin(K_ULT, x, y);
    auto ite = [](V c, V p, V q) { if (c.conc()) return c.c ? p : q; return V(mkIte(c.e, p.ex(), q.ex())); }; r = ite(eq, r, ite(lt, V(0xFFFFFFFFu, 32), V(1, 32))); } return r; }
// RTTI walk for dynamic_cast
static bool rttiFind(Engine& E, uint64_t ti, uint64_t obj, uint64_t target, uint64_t& out, const std::string& si, const std::string& vmi, uint64_t aSi, uint64_t aVmi) {
  if (ti == target) { out = obj; return true; }
  uint64_t vt = E.memRead(*E.S, ti, 64).c;
  if (vt == aSi) return rttiFind(E, E.memRead(*E.S, ti + 16, 64).c, obj, target, out, si, vmi, aSi, aVmi);
  if (vt == aVmi) { uint32_t n = E.memRead(*E.S, ti + 20, 32).c; for (uint32_t i = 0; i < n; i++) { uint64_t b = E.memRead(*E.S, ti + 24 + 16 * i, 64).c; int64_t fl = (int64_t)E.memRead(*E.S, ti + 32 + 16 * i, 64).c; int64_t off = fl >> 8; if (fl & 1) { uint64_t vp = E.memRead(*E.S, obj, 64).c; off = (int64_t)E.memRead(*E.S, vp + off, 64).c; } if (rttiFind(E, b, obj + off, target, out, si, vmi, aSi, aVmi)) return true; } }
  return false;
}
static void initTable() {
  if (!T.empty()) return;
  auto symN = [](uint32_t w) { return [w](Ctx& c) { V v; std::string n = c.E.cstr(c.a[0].c); c.E.newSym(n, w == 1 ? 8 : w, v); if (w == 1) { c.E.addCons(c.S(), mk2(K_ULE, v.e, mkConst(1, 8))); v = V(mkExtract(v.e, 0, 1)); } c.r(v); }; };
  T["sym_u8"] = symN(8); T["sym_u16"] = symN(16); T["sym_u32"] = symN(32); T["sym_u64"] = symN(64); T["sym_bool"] = symN(1);
  T["sym_make"] = [](Ctx& c) { uint64_t p = c.a[0].c, n = c.a[1].c; std::string nm = c.E.cstr(c.a[2].c); for (uint64_t i = 0; i < n; i++) { V v; c.E.newSym(nm, 8, v); c.E.memWriteC(c.S(), p + i, v, 1); } };
  // sym_range(lo, hi, name): symbolic value lo <= v <= hi
  T["sym_range"] = [](Ctx& c) { uint64_t lo = c.a[0].c, hi = c.a[1].c; if (lo > hi) throw PathEnd{"infeasible"}; V v; c.E.newSym(c.E.cstr(c.a[2].c), 64, v); c.S().model->set(v.e->aux, lo); c.E.addCons(c.S(), mk2(K_ULE, mkConst(lo, 64), v.e)); c.E.addCons(c.S(), mk2(K_ULE, v.e, mkConst(hi, 64))); c.r(v); };
  // sym_choose(n, name): solver-enumerated symbolic choice, concrete on each path
  T["sym_choose"] = [](Ctx& c) { uint64_t n = c.a[0].c; State& s = c.S(); int v = c.E.choose(("choose:" + c.E.cstr(c.a[1].c)).c_str(), (int)n); if (n <= 1) s.inputs.push_back(InputRec{false, 0, 0, "choose:" + c.E.cstr(c.a[1].c), 32}); c.r64(v); };
  T["sym_concretize"] = [](Ctx& c) { c.r64(c.E.concretize(c.a[0], "sym_concretize")); };
  T["sym_assume"] = [](Ctx& c) { V v = c.a[0]; if (v.conc()) { if (!v.c) throw PathEnd{"infeasible"}; return; } E k = v.w == 1 ? v.e : mkNot(mkEq(v.e, mkConst(0, v.w))); bool iv; if (c.E.implied(c.S(), k, iv)) { if (!iv) throw PathEnd{"infeasible"}; return; } std::shared_ptr<Assignment> m; if (!c.E.mayBe(c.S(), k, &m)) throw PathEnd{"infeasible"}; c.S().model = m; c.E.addCons(c.S(), k); };
  T["sym_assert"] = [](Ctx& c) { V v = c.a[0]; std::string msg = c.E.cstr(c.a[1].c); c.E.asserts++; c.E.assertCount[msg]++; if (v.conc()) { if (!v.c) { c.E.recordViolation(msg, mkConst(1, 1)); throw PathEnd{"violation"}; } return; } c.E.assertQueries++;
    E k = v.w == 1 ? v.e : mkNot(mkEq(v.e, mkConst(0, v.w))); bool iv; if (c.E.implied(c.S(), k, iv) && iv) return; c.E.recordViolation(msg, mkNot(k)); std::shared_ptr<Assignment> m; if (!c.E.mayBe(c.S(), k, &m)) throw PathEnd{"violation"}; c.S().model = m; c.E.addCons(c.S(), k); };
  T["sym_reach"] = [](Ctx& c) { c.E.reached[c.E.cstr(c.a[0].c)]++; };
  T["sym_observe"] = [](Ctx& c) { c.S().observed.push_back(c.a[0]); };
  T["sym_note"] = [](Ctx& c) { c.S().notes.push_back(c.E.cstr(c.a[0].c)); };
  T["sym_print"] = [](Ctx& c) { if (c.E.verbose) { std::string v = c.a[1].conc() ? std::to_string(c.a[1].c) : exprStr(c.a[1].e, 12); fprintf(stderr, "[print] %s %s\n", c.E.cstr(c.a[0].c).c_str(), v.c_str()); } };
  T["sym_is_symbolic_run"] = [](Ctx& c) { c.r32(1); };
  T["sym_abort_ok"] = [](Ctx& c) { c.S().abortMode = (int)c.a[0].c; };
  T["sym_shared"] = [](Ctx& c) { uint64_t a = c.a[0].c, n = c.a[1].c; const Win* w = c.S().win.ptr(a >> WIN); if (!w || !w->obj) c.E.memError("sym_shared on unmapped"); uint64_t off = a & ((1ull << WIN) - 1); c.S().shared.push_back(Shared{w->obj, off, off + n, (int)c.a[2].c}); };
  T["sym_alias"] = [](Ctx& c) { uint64_t a = c.a[0].c; const Win* w = c.S().win.ptr(a >> WIN); if (!w || !w->obj) c.E.memError("sym_alias"); uint32_t o = w->obj; uint64_t nw = c.S().nextHeap++; c.S().win.mut(nw).obj = o; c.r64((nw << WIN) | (a & ((1ull << WIN) - 1))); };
  T["sym_shm"] = [](Ctx& c) { c.r64(c.E.allocObj(c.S(), c.a[0].c, 0, 0, 0)); };
  T["sym_try"] = [](Ctx& c) { // int sym_try(void(*fn)(void*), void* arg): 1 if fn terminated the process
    uint64_t a = c.a[0].c; PFunc* cf = c.E.funcList[(a - FUNC_BASE) / 16]; Args ar{c.a[1]}; int32_t dst = c.q.dst; c.advance = false; State& s = c.S(); c.E.leave(s.th[s.cur].st.back(), c.q);
    c.E.enter(cf, ar, dst, 1); Thread& t = s.th[s.cur]; t.st.back().scope = 1; t.scopes.push_back(Scope{(uint32_t)t.st.size(), 1}); };
  // unsigned sym_parallel(n, fns, args, preemptions, crash_mask, max_crashes): run threads under all schedules within the bound; returns the mask of crashed threads
  T["sym_parallel"] = [](Ctx& c) { State& s = c.S(); uint64_t n = c.a[0].c, fp = c.a[1].c, ap = c.a[2].c; s.preempt = (int)c.a[3].c; s.crashMask = (uint32_t)c.a[4].c; s.maxCrash = (int)c.a[5].c; s.parDst = c.q.dst; if (s.cur != 0) c.E.pathError("nested parallel");
    c.E.leave(s.th[0].st.back(), c.q); c.advance = false;
    s.th.resize(1 + n); for (uint64_t i = 0; i < n; i++) { s.th[i + 1] = Thread(); s.th[i + 1].stackNext = STACK_W0 + (i + 1) * STACK_PER_THREAD; uint64_t f = c.E.memRead(s, fp + 8 * i, 64).c; V arg = c.E.memRead(s, ap + 8 * i, 64); s.cur = i + 1; c.E.enter(c.E.funcList[(f - FUNC_BASE) / 16], Args{arg}, -1, 0); }
    s.cur = 0; s.par = true; s.pendingSched = true; s.tls.clear(); };
  T["sym_thread_id"] = [](Ctx& c) { c.r32(c.S().cur); };
  T["sym_clock_fixed"] = [](Ctx& c) { c.S().clock = c.a[0]; c.S().clockFixed = true; };
  T["sym_yield"] = [](Ctx& c) { State& s = c.S(); if (!s.par || !s.cur) return; Thread& t = s.th[s.cur]; if (t.passed) { t.passed = false; return; } std::vector<int> opt{s.cur}; for (int i = 1; i < (int)s.th.size(); i++) if (i != s.cur && !s.th[i].done && !s.th[i].blocked) opt.push_back(i); bool cr = (s.crashMask >> (s.cur - 1) & 1) && s.maxCrash > 0; int k = c.E.choose("sched", opt.size() + cr); if (k == 0) return; c.advance = false; if (k == (int)opt.size()) { s.maxCrash--; c.E.threadDone(true); return; } c.E.switchTo(opt[k]); };
  // block the calling thread until another thread calls sym_wake(addr)
  T["sym_live_allocs"] = [](Ctx& c) { c.r64(c.S().liveAllocs); };
  // ---- allocation
  auto mal = [](Ctx& c) { uint64_t n = c.E.concretize(c.a[0], "malloc size"); if (n == 0) n = 1; uint64_t p = c.E.allocObj(c.S(), n, 0, 0, 0xCD); c.S().liveAllocs++; c.r64(p); };
  T["malloc"] = mal; T["_Znwm"] = mal; T["_Znam"] = mal; T["_ZnwmRKSt9nothrow_t"] = mal; T["_ZnamRKSt9nothrow_t"] = mal; T["_ZnwmSt11align_val_t"] = mal; T["_ZnamSt11align_val_t"] = mal; T["_ZnwmSt11align_val_tRKSt9nothrow_t"] = mal;
  T["aligned_alloc"] = [](Ctx& c) { uint64_t n = c.E.concretize(c.a[1], "malloc size"); c.S().liveAllocs++; c.r64(c.E.allocObj(c.S(), n ? n : 1, 0, 0, 0xCD)); };
  T["calloc"] = [](Ctx& c) { uint64_t n = c.E.concretize(c.a[0], "n") * c.E.concretize(c.a[1], "n"); c.S().liveAllocs++; c.r64(c.E.allocObj(c.S(), n ? n : 1, 0, 0, 0)); };
  auto fre = [](Ctx& c) { uint64_t p = c.E.addrOf(c.a[0], 1); if (!p) return; const Win* w = c.S().win.ptr(p >> WIN); if ((p & ((1ull << WIN) - 1)) || !w || !w->obj) c.E.memError("invalid or double free"); const IP<MObj>* o = c.S().objs.ptr(w->obj - 1); if ((*o)->kind != 0) c.E.memError("free of non-heap memory"); c.S().liveAllocs--; c.E.freeObj(c.S(), p); };
  for (const char* n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "_ZdlPvSt11align_val_tRKSt9nothrow_t"}) T[n] = fre;
  // ---- termination
  auto ab = [](Ctx& c) { c.advance = false; std::string n = demangle(c.f->name); c.E.abortPath(n); };
  for (const char* n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "_Exit", "_exit", "exit", "quick_exit", "__cxa_throw", "__cxa_rethrow", "__assert_fail", "__clang_call_terminate", "_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_system_errori", "_ZSt25__throw_bad_function_callv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt19__throw_regex_errorNSt15regex_constants10error_typeEPKc", "_ZSt26__throw_bad_variant_accessPKc", "_ZSt16__throw_bad_castv", "_ZSt21__throw_runtime_errorPKc", "_ZSt20__throw_future_errori", "_ZSt22__throw_overflow_errorPKc", "_ZSt18__throw_bad_typeidv", "_ZSt27__throw_bad_optional_accessv", "__stack_chk_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}) T[n] = ab;
  T["__cxa_allocate_exception"] = [](Ctx& c) { c.r64(c.E.allocObj(c.S(), c.a[0].c + 64, 0, 0, 0)); };
  T["__cxa_free_exception"] = [](Ctx&) {};
  T["__cxa_atexit"] = T["atexit"] = T["__cxa_thread_atexit"] = [](Ctx& c) { c.r32(0); };
  T["__cxa_guard_acquire"] = [](Ctx& c) { c.r32(c.E.memRead(c.S(), c.a[0].c, 8).c == 0); };
  T["__cxa_guard_release"] = [](Ctx& c) { c.E.memWriteC(c.S(), c.a[0].c, V(1, 8), 1); };
  T["__cxa_guard_abort"] = [](Ctx&) {};
  T["__dynamic_cast"] = [](Ctx& c) { uint64_t o = c.a[0].c, dst = c.a[2].c; uint64_t vt = c.E.memRead(c.S(), o, 64).c; int64_t top = (int64_t)c.E.memRead(c.S(), vt - 16, 64).c; uint64_t ti = c.E.memRead(c.S(), vt - 8, 64).c; uint64_t aSi = 0, aVmi = 0;
    if (auto* g = c.E.M->getGlobalVariable("_ZTVN10__cxxabiv120__si_class_type_infoE", true)) aSi = c.E.globals[g] + 16; if (auto* g = c.E.M->getGlobalVariable("_ZTVN10__cxxabiv121__vmi_class_type_infoE", true)) aVmi = c.E.globals[g] + 16; uint64_t out = 0; if (!rttiFind(c.E, ti, o + top, dst, out, "", "", aSi, aVmi)) out = 0; c.r64(out); };
  // ---- memory / string
  auto mcpy = [](Ctx& c) { uint64_t n = c.E.concretize(c.a[2], "memcpy"); if (n) { uint64_t d = c.E.addrOf(c.a[0], n), s = c.E.addrOf(c.a[1], n); c.E.memCopy(c.S(), d, s, n); } c.r(c.a[0]); };
  T["memcpy"] = T["memmove"] = mcpy;
  T["memset"] = [](Ctx& c) { uint64_t n = c.E.concretize(c.a[2], "memset"); if (n) { uint64_t d = c.E.addrOf(c.a[0], n), off; uint32_t idx; MObj* o = c.E.objAt(c.S(), d, n, off, idx, true); V b = c.E.castTo(Instruction::Trunc, c.a[1], 8); for (uint64_t i = 0; i < n; i++) c.E.writeByte(o, off + i, b); } c.r(c.a[0]); };
  T["memcmp"] = T["bcmp"] = [](Ctx& c) { uint64_t n = c.E.concretize(c.a[2], "memcmp"); if (!n) { c.r32(0); return; } uint64_t x = c.E.addrOf(c.a[0], n), y = c.E.addrOf(c.a[1], n); c.r(memcmpV(c.E, x, y, n)); };
  T["strlen"] = [](Ctx& c) { uint64_t p = c.E.addrOf(c.a[0], 1), n = 0; for (;; n++) { V b = c.E.memRead(c.S(), p + n, 8); if (b.conc()) { if (!b.c) break; } else if (c.E.decide(mkEq(b.e, mkConst(0, 8)))) break; } c.r64(n); };
  T["strnlen"] = [](Ctx& c) { uint64_t p = c.E.addrOf(c.a[0], 1), n = 0, mx = c.E.concretize(c.a[1], "strnlen"); for (; n < mx; n++) { V b = c.E.memRead(c.S(), p + n, 8); if (b.conc()) { if (!b.c) break; } else if (c.E.decide(mkEq(b.e, mkConst(0, 8)))) break; } c.r64(n); };
  T["strcmp"] = [](Ctx& c) { uint64_t x = c.a[0].c, y = c.a[1].c; for (uint64_t i = 0;; i++) { V a = c.E.memRead(c.S(), x + i, 8), b = c.E.memRead(c.S(), y + i, 8); if (!a.conc() || !b.conc()) { V eq = c.E.bin(K_EQ, a, b); if (!eq.conc() && !c.E.decide(eq.e)) { V lt = c.E.bin(K_ULT, a, b); int l = lt.conc() ? lt.c : c.E.decide(lt.e); c.r32(l ? -1 : 1); return; } V z = c.E.bin(K_EQ, a, V(0, 8)); if (z.conc() ? z.c : c.E.decide(z.e)) { c.r32(0); return; } continue; } if (a.c != b.c) { c.r32(a.c < b.c ? -1 : 1); return; } if (!a.c) { c.r32(0); return; } } };
  T["memchr"] = [](Ctx& c) { uint64_t n = c.E.concretize(c.a[2], "memchr"); uint64_t p = c.E.addrOf(c.a[0], n); V ch = c.E.castTo(Instruction::Trunc, c.a[1], 8); for (uint64_t i = 0; i < n; i++) { V b = c.E.memRead(c.S(), p + i, 8); V eq = c.E.bin(K_EQ, b, ch); int d = eq.conc() ? eq.c : c.E.decide(eq.e); if (d) { c.r64(p + i); return; } } c.r64(0); };
  // ---- threads / locks
  T["pthread_mutex_lock"] = [](Ctx& c) { lockOp(c, true, false); }; T["pthread_mutex_trylock"] = [](Ctx& c) { lockOp(c, true, true); }; T["pthread_mutex_unlock"] = unlockOp;
  T["pthread_rwlock_wrlock"] = T["pthread_mutex_lock"]; T["pthread_rwlock_trywrlock"] = T["pthread_mutex_trylock"]; T["pthread_rwlock_rdlock"] = [](Ctx& c) { lockOp(c, false, false); }; T["pthread_rwlock_tryrdlock"] = [](Ctx& c) { lockOp(c, false, true); }; T["pthread_rwlock_unlock"] = unlockOp;
  for (const char* n : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_setname_np", "sched_setaffinity"}) T[n] = [](Ctx& c) { c.r32(0); };
  // sleeping or yielding gives the processor to some other runnable thread
  for (const char* n : {"nanosleep", "clock_nanosleep", "usleep", "sched_yield"}) T[n] = [](Ctx& c) { c.r32(0); State& s = c.S(); if (!s.par || !s.cur) return; Thread& t = s.th[s.cur]; if (t.passed) { t.passed = false; return; } std::vector<int> opt; for (int i = 1; i < (int)s.th.size(); i++) if (i != s.cur && !s.th[i].done && !s.th[i].blocked) opt.push_back(i); if (opt.empty()) return; int k = c.E.choose("sched", opt.size()); c.advance = false; c.E.switchTo(opt[k]); };
  for (const char* n : {"_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variableC2Ev", "_ZNSt18condition_variableD2Ev"}) T[n] = [](Ctx&) {};
  // condition variables: wait(cv, unique_lock&): {mutex*, bool}
  T["_ZNSt18condition_variable10notify_allEv"] = [](Ctx& c) { if (c.E.schedPoint(c.a[0].c, 1, true, true, true)) { c.advance = false; return; } c.E.wake(c.a[0].c); };
  T["_ZNSt18condition_variable10notify_oneEv"] = [](Ctx& c) { State& s = c.S(); Thread& t = s.th[s.cur]; uint64_t cv = c.a[0].c; // any one of the waiting threads
    if (t.waitKind != 2) { if (c.E.schedPoint(cv, 1, true, true, true)) { c.advance = false; return; } t.waitKind = 2; c.advance = false; return; }
    std::vector<int> w; for (int i = 1; i < (int)s.th.size(); i++) if (s.th[i].blocked && s.th[i].waitOn == cv) w.push_back(i);
    if (!w.empty()) { int k = c.E.choose("sched", w.size()); c.S().th[w[k]].blocked = false; } c.S().th[c.S().cur].waitKind = 0; };
  T["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = [](Ctx& c) { State& s = c.S(); uint64_t cv = c.a[0].c; uint64_t mx = c.E.memRead(s, c.a[1].c, 64).c; Thread& t = s.th[s.cur];
    if (t.waitKind == 0) { if (c.E.schedPoint(cv, 1, true, true, true)) { c.advance = false; return; } auto& l = s.locks[mx]; l.first = 0; if (!l.second) s.locks.erase(mx); c.E.wake(mx); t.waitKind = 1; c.E.blockOn(cv); c.advance = false; return; }
    auto& l = s.locks[mx]; if (l.first) { c.E.blockOn(mx); c.advance = false; return; } l.first = s.cur + 1; t.waitKind = 0; t.passed = false; };
  T["pthread_self"] = [](Ctx& c) { c.r64(c.S().cur + 1); };
  T["__errno_location"] = [](Ctx& c) { static uint64_t dummy = 0; (void)dummy; auto* g = c.E.M->getGlobalVariable("__symrt_errno", true); if (!g) c.E.pathError("errno model missing"); c.r64(c.E.globals[g]); };
  T["getpid"] = [](Ctx& c) { c.r32(4711); };
  T["__libc_current_sigrtmin"] = [](Ctx& c) { c.r32(34); };
  // ---- clock: arbitrary non-decreasing instants
  auto clk = [](Ctx& c) { State& s = c.S(); if (s.clockFixed) { c.r(s.clock); return; } V v; c.E.newSym("clock", 64, v); V lo = s.clock.w ? s.clock : V(0, 64); E k = mk2(K_AND, mk2(K_ULE, lo.ex(), v.e), mk2(K_ULE, v.e, mkConst(1ull << 61, 64))); std::shared_ptr<Assignment> m; if (!c.E.mayBe(s, k, &m)) throw PathEnd{"infeasible"}; s.model = m; c.E.addCons(s, k); s.clock = v; c.r(v); };
  T["_ZNSt6chrono3_V212steady_clock3nowEv"] = clk; T["_ZNSt6chrono3_V212system_clock3nowEv"] = clk;
  for (const char* n : {"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}) T[n] = [](Ctx&) {};
}
void Engine::doExternal(PInst& q, PFunc* f, std::vector<V>& a) {
  initTable();
  auto it = T.find(f->name);
  if (it == T.end()) pathError("unsupported external function " + demangle(f->name) + " [" + f->name + "]");
  Ctx c{*this, q, f, a}; it->second(c);
  if (!c.advance) return;
  if (c.hasRet && q.dst >= 0) { V v = c.ret; if (v.w != q.w && q.w) v = castTo(v.w < q.w ? Instruction::ZExt : Instruction::Trunc, v, q.w); set(q.dst, v); }
  else if (q.dst >= 0) for (uint32_t i = 0; i < q.n; i++) set(q.dst + i, V(0, q.w ? q.w : 64));
  if (q.op == Instruction::Invoke) jump(q.b0); else S->th[S->cur].st.back().pc++;
}
