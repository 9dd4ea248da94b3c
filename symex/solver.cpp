#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <unordered_map>
#include <cstdio>
#include <cstdlib>
SolverStats gSolver; unsigned gSolverTimeoutMs = 60000;
static Z3_context ctx; static Z3_solver solver; static uint64_t sinceReset = 0;
static bool timer = false; // no timer threads before the worker processes are forked: a resource limit instead
static void setLimits() {
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  if (timer) { Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gSolverTimeoutMs); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 0); }
  else Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 30000000);
  Z3_solver_set_params(ctx, solver, p);
}
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, solver);
  setLimits();
}
void solverTimer() { timer = true; if (ctx) setLimits(); }
static Z3_ast toZ(E e);
static Z3_ast bv(E e) { Z3_ast z = toZ(e); if (e->w == 1) { Z3_sort s = Z3_mk_bv_sort(ctx, 1); return Z3_mk_ite(ctx, z, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s)); } return z; }
static Z3_ast toZ(E e) {
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r = nullptr;
  switch (e->k) {
    case K_CONST: if (e->w == 1) r = e->cv ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
      else if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (uint64_t)e->cv, Z3_mk_bv_sort(ctx, e->w));
      else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)(e->cv >> 64), Z3_mk_bv_sort(ctx, e->w - 64)), Z3_mk_unsigned_int64(ctx, (uint64_t)e->cv, Z3_mk_bv_sort(ctx, 64)));
      break;
    case K_SYM: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->aux), e->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w)); break;
    case K_ADD: r = Z3_mk_bvadd(ctx, toZ(e->a), toZ(e->b)); break;
    case K_SUB: r = Z3_mk_bvsub(ctx, toZ(e->a), toZ(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(ctx, toZ(e->a), toZ(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
    case K_AND: if (e->w == 1) { Z3_ast a[2] = {toZ(e->a), toZ(e->b)}; r = Z3_mk_and(ctx, 2, a); } else r = Z3_mk_bvand(ctx, toZ(e->a), toZ(e->b)); break;
    case K_OR: if (e->w == 1) { Z3_ast a[2] = {toZ(e->a), toZ(e->b)}; r = Z3_mk_or(ctx, 2, a); } else r = Z3_mk_bvor(ctx, toZ(e->a), toZ(e->b)); break;
    case K_XOR: if (e->w == 1) { if (e->b->isConst()) r = e->b->cv ? Z3_mk_not(ctx, toZ(e->a)) : toZ(e->a); else r = Z3_mk_xor(ctx, toZ(e->a), toZ(e->b)); } else r = Z3_mk_bvxor(ctx, toZ(e->a), toZ(e->b)); break;
    case K_EQ: r = Z3_mk_eq(ctx, toZ(e->a), toZ(e->b)); break;
    case K_ULT: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
    case K_ULE: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
    case K_SLE: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
    case K_CONCAT: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
    case K_EXTRACT: { Z3_ast x = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, bv(e->a));
      if (e->w == 1) x = Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); r = x; break; }
    case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case K_ITE: r = Z3_mk_ite(ctx, toZ(e->a), toZ(e->b), toZ(e->c)); break;
  }
  if (e->w == 1 && (e->k == K_UDIV || e->k == K_SDIV || e->k == K_UREM || e->k == K_SREM || e->k == K_SHL || e->k == K_LSHR || e->k == K_ASHR))
    r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
  e->z = r; return r;
}
struct CacheEnt { SatRes r; std::vector<std::pair<uint32_t, u128>> model; };
static std::unordered_map<std::string, CacheEnt> cache;
SatRes solveConj(const std::vector<E>& cs0, Assignment* out) {
  init();
  std::vector<E> cs;
  for (E c : cs0) { if (c->isConst()) { if (!c->cv) return SatRes::UNSAT; continue; } cs.push_back(c); }
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  if (cs.empty()) return SatRes::SAT;
  std::string key((const char*)cs.data(), cs.size() * sizeof(E));
  auto it = cache.find(key);
  if (it != cache.end() && it->second.r != SatRes::UNKNOWN) { gSolver.cacheHits++; if (out) for (auto& p : it->second.model) out->set(p.first, p.second); return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  gSolver.queries++;
  Z3_solver_push(ctx, solver);
  std::vector<uint32_t> syms;
  for (E c : cs) { Z3_solver_assert(ctx, solver, toZ(c)); auto& s = symsOf(c); syms.insert(syms.end(), s.begin(), s.end()); }
  std::sort(syms.begin(), syms.end()); syms.erase(std::unique(syms.begin(), syms.end()), syms.end());
  Z3_lbool r = Z3_solver_check(ctx, solver);
  CacheEnt ent; ent.r = r == Z3_L_TRUE ? SatRes::SAT : r == Z3_L_FALSE ? SatRes::UNSAT : SatRes::UNKNOWN;
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(ctx, solver); Z3_model_inc_ref(ctx, m);
    for (uint32_t s : syms) {
      unsigned w = symWidth(s);
      auto ev = [&](Z3_ast x) -> uint64_t { Z3_ast o; uint64_t val = 0; if (Z3_model_eval(ctx, m, x, true, &o)) { Z3_get_numeral_uint64(ctx, o, &val); } return val; };
      u128 val = 0;
      if (w == 1) { Z3_ast o; Z3_ast x = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)s), Z3_mk_bool_sort(ctx)); if (Z3_model_eval(ctx, m, x, true, &o)) val = Z3_get_bool_value(ctx, o) == Z3_L_TRUE; }
      else { Z3_ast x = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)s), Z3_mk_bv_sort(ctx, w));
        if (w <= 64) val = ev(x); else val = ((u128)ev(Z3_mk_extract(ctx, w - 1, 64, x)) << 64) | ev(Z3_mk_extract(ctx, 63, 0, x)); }
      ent.model.emplace_back(s, val);
    }
    Z3_model_dec_ref(ctx, m);
    gSolver.sat++;
  } else if (r == Z3_L_FALSE) gSolver.unsat++; else { gSolver.unknown++; fprintf(stderr, "solver unknown: %s\n", Z3_solver_get_reason_unknown(ctx, solver)); }
  Z3_solver_pop(ctx, solver, 1);
  gSolver.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (out) for (auto& p : ent.model) out->set(p.first, p.second);
  SatRes res = ent.r; cache[key] = std::move(ent);
  return res;
}
