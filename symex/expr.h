// Bit-vector expression DAG with hash-consing and simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <memory>
#include <string>
#include <vector>
typedef unsigned __int128 u128;
typedef __int128 s128;
enum Kind : uint8_t { K_CONST, K_SYM, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE };
struct Expr {
  Kind k; uint16_t w; uint32_t aux; uint32_t id;
  const Expr *a, *b, *c;
  u128 cv;
  mutable void* z;
  mutable const std::vector<uint32_t>* syms;
  mutable uint32_t epoch; mutable u128 ev;
  bool isConst() const { return k == K_CONST; }
};
typedef const Expr* E;
inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sextw(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); return (s128)((v ^ m) - m); }
E mkConst(u128 v, unsigned w);
E mkSym(const std::string& name, unsigned w, uint32_t* idOut = nullptr);
E mk2(Kind k, E a, E b);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkNot(E a);  // w==1
E mkEq(E a, E b);
u128 foldOp(Kind k, u128 a, u128 b, unsigned w, bool* undef);
const std::vector<uint32_t>& symsOf(E e);
const std::string& symName(uint32_t id);
unsigned symWidth(uint32_t id);
struct Assignment { std::vector<u128> v; u128 get(uint32_t id) const { return id < v.size() ? v[id] : 0; } void set(uint32_t id, u128 x) { if (id >= v.size()) v.resize(id + 1, 0); v[id] = x; } };
void evalNewEpoch();
u128 evalE(E e, const Assignment& m);  // call evalNewEpoch() when the assignment changes
std::string exprStr(E e, int depth = 6);
extern size_t gNumExprs;
