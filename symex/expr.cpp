#include "expr.h"
#include <algorithm>
#include <cstring>
#include <unordered_map>
#include <unordered_set>
#include <cassert>
#include <cstdio>
size_t gNumExprs = 0;
namespace {
struct KeyHash { size_t operator()(E e) const {
  uint64_t h = (uint64_t)e->k * 0x9E3779B97F4A7C15ull ^ ((uint64_t)e->w << 40) ^ ((uint64_t)e->aux * 0xC2B2AE3D27D4EB4Full);
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix((uint64_t)e->a); mix((uint64_t)e->b); mix((uint64_t)e->c); mix((uint64_t)e->cv); mix((uint64_t)(e->cv >> 64));
  return h; } };
struct KeyEq { bool operator()(E x, E y) const { return x->k == y->k && x->w == y->w && x->aux == y->aux && x->a == y->a && x->b == y->b && x->c == y->c && x->cv == y->cv; } };
std::unordered_set<E, KeyHash, KeyEq> table;
std::vector<std::string> names; std::vector<unsigned> widths;
std::unordered_map<std::string, E> symTab;
char* pool = nullptr; size_t poolLeft = 0;
E intern(Kind k, unsigned w, uint32_t aux, E a, E b, E c, u128 cv) {
  Expr t; memset((void*)&t, 0, sizeof t);
  t.k = k; t.w = w; t.aux = aux; t.a = a; t.b = b; t.c = c; t.cv = cv;
  auto it = table.find(&t); if (it != table.end()) return *it;
  if (poolLeft < sizeof(Expr)) { pool = (char*)aligned_alloc(16, sizeof(Expr) * 8192); poolLeft = sizeof(Expr) * 8192; }
  Expr* n = new (pool) Expr(t); pool += sizeof(Expr); poolLeft -= sizeof(Expr);
  n->id = ++gNumExprs; n->epoch = 0; n->z = nullptr; n->syms = nullptr;
  table.insert(n); return n;
}
bool isAllOnes(E e) { return e->isConst() && e->cv == maskw(e->w); }
bool isZero(E e) { return e->isConst() && e->cv == 0; }
unsigned ctz(u128 v) { unsigned n = 0; while (n < 128 && !((v >> n) & 1)) n++; return n; }
bool isCommut(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ; }
// number of known-zero high bits
unsigned zeroHi(E e) { if (e->k == K_ZEXT) return e->w - e->a->w + zeroHi(e->a); if (e->isConst()) { unsigned n = 0; while (n < e->w && !((e->cv >> (e->w - 1 - n)) & 1)) n++; return n; }
  if (e->k == K_CONCAT) { unsigned z = zeroHi(e->a); return z == e->a->w ? z + zeroHi(e->b) : z; } return 0; }
unsigned zeroLo(E e) { if (e->k == K_CONCAT) { unsigned z = zeroLo(e->b); return z == e->b->w ? z + zeroLo(e->a) : z; } if (e->isConst()) return e->cv == 0 ? e->w : ctz(e->cv); if (e->k == K_ZEXT) { unsigned z = zeroLo(e->a); return z == e->a->w ? e->w : z; } return 0; }
bool iteConstArms(E e) { return e->k == K_ITE && (e->b->isConst() || e->c->isConst()); }
}
E mkConst(u128 v, unsigned w) { return intern(K_CONST, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
E mkSym(const std::string& name, unsigned w, uint32_t* idOut) {
  std::string key = name + "/" + std::to_string(w);
  auto it = symTab.find(key);
  if (it != symTab.end()) { if (idOut) *idOut = it->second->aux; return it->second; }
  uint32_t id = names.size(); names.push_back(name); widths.push_back(w);
  E e = intern(K_SYM, w, id, nullptr, nullptr, nullptr, 0); symTab[key] = e; if (idOut) *idOut = id; return e;
}
const std::string& symName(uint32_t id) { return names[id]; }
unsigned symWidth(uint32_t id) { return widths[id]; }
u128 foldOp(Kind k, u128 a, u128 b, unsigned w, bool* undef) {
  u128 m = maskw(w); if (undef) *undef = false;
  switch (k) {
    case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
    case K_UDIV: return b == 0 ? m : a / b; case K_UREM: return b == 0 ? a : a % b;
    case K_SDIV: { s128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case K_SREM: { s128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m; case K_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case K_ASHR: { s128 x = sextw(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
    case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
    case K_SLT: return sextw(a, w) < sextw(b, w); case K_SLE: return sextw(a, w) <= sextw(b, w);
    default: assert(0);
  } return 0;
}
E mkNot(E a) { return mk2(K_XOR, a, mkConst(1, 1)); }
E mkEq(E a, E b) { return mk2(K_EQ, a, b); }
E mkExtract(E a, unsigned off, unsigned w) {
  assert(off + w <= a->w);
  if (w == a->w) return a;
  switch (a->k) {
    case K_CONST: return mkConst(a->cv >> off, w);
    case K_EXTRACT: return mkExtract(a->a, a->aux + off, w);
    case K_CONCAT: { unsigned lw = a->b->w;
      if (off >= lw) return mkExtract(a->a, off - lw, w);
      if (off + w <= lw) return mkExtract(a->b, off, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off)); }
    case K_ZEXT: if (off >= a->a->w) return mkConst(0, w); if (off + w <= a->a->w) return mkExtract(a->a, off, w);
      return mkZExt(mkExtract(a->a, off, a->a->w - off), w);
    case K_SEXT: if (off + w <= a->a->w) return mkExtract(a->a, off, w); if (off == 0) return mkSExt(a->a, w); break;
    case K_AND: case K_OR: case K_XOR: return mk2(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case K_ADD: case K_SUB: case K_MUL: if (off == 0) return mk2(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case K_ITE: return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
    default: break;
  }
  return intern(K_EXTRACT, w, off, a, nullptr, nullptr, 0);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->cv << lo->w) | lo->cv, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(lo->a, lo->aux, w);
  if (hi->k == K_EXTRACT && lo->k == K_CONCAT && lo->a->k == K_EXTRACT && lo->a->a == hi->a && hi->aux == lo->a->aux + lo->a->w)
    return mkConcat(mkExtract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
  if (isZero(hi)) return mkZExt(lo, w);
  if (hi->k == K_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  if (hi->k == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->isConst() && lo->k == K_CONCAT && lo->a->isConst()) return mkConcat(mkConcat(hi, lo->a), lo->b);
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (hi->k == K_ITE && lo->isConst() && hi->b->isConst() && hi->c->isConst()) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
  return intern(K_CONCAT, w, 0, hi, lo, nullptr, 0);
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst(a->cv, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->k == K_ITE && (a->b->isConst() && a->c->isConst())) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return intern(K_ZEXT, w, 0, a, nullptr, nullptr, 0);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst((u128)sextw(a->cv, a->w), w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->k == K_SEXT) return mkSExt(a->a, w);
  if (a->k == K_ITE && (a->b->isConst() && a->c->isConst())) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(K_SEXT, w, 0, a, nullptr, nullptr, 0);
}
E mkIte(E c, E a, E b) {
  assert(c->w == 1 && a->w == b->w);
  if (c->isConst()) return c->cv ? a : b;
  if (a == b) return a;
  if (c->k == K_XOR && isAllOnes(c->b)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->cv ? c : mkNot(c);
    if (a->isConst()) return a->cv ? mk2(K_OR, c, b) : mk2(K_AND, mkNot(c), b);
    if (b->isConst()) return b->cv ? mk2(K_OR, mkNot(c), a) : mk2(K_AND, c, a);
  }
  if (a->k == K_ITE && a->a == c) a = a->b;
  if (b->k == K_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return intern(K_ITE, a->w, 0, c, a, b, 0);
}
E mk2(Kind k, E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  unsigned rw = (k >= K_EQ && k <= K_SLE) ? 1 : w;
  if (a->isConst() && b->isConst()) return mkConst(foldOp(k, a->cv, b->cv, w, nullptr), rw);
  if (isCommut(k)) { if (a->isConst()) std::swap(a, b); else if (!b->isConst() && a->id > b->id) std::swap(a, b); }
  switch (k) {
    case K_ADD:
      if (w == 1) return mk2(K_XOR, a, b);
      if (isZero(b)) return a;
      if (b->isConst() && a->k == K_ADD && a->b->isConst()) return mk2(K_ADD, a->a, mkConst(a->b->cv + b->cv, w));
      if (b->k == K_ADD && b->b->isConst()) return mk2(K_ADD, mk2(K_ADD, a, b->a), b->b);
      if (!b->isConst() && a->k == K_ADD && a->b->isConst()) return mk2(K_ADD, mk2(K_ADD, a->a, b), a->b);
      if (a->k == K_SUB && a->b == b) return a->a;
      if (b->k == K_SUB && b->b == a) return b->a;
      break;
    case K_SUB:
      if (w == 1) return mk2(K_XOR, a, b);
      if (isZero(b)) return a;
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mk2(K_ADD, a, mkConst((u128)0 - b->cv, w));
      if (a->k == K_ADD && a->a == b) return a->b;
      if (a->k == K_ADD && a->b == b) return a->a;
      if (a->k == K_ADD && b->k == K_ADD && a->b->isConst() && b->b->isConst()) return mk2(K_ADD, mk2(K_SUB, a->a, b->a), mkConst(a->b->cv - b->b->cv, w));
      if (b->k == K_ADD && b->a == a) return mk2(K_SUB, mkConst(0, w), b->b);
      break;
    case K_MUL:
      if (w == 1) return mk2(K_AND, a, b);
      if (isZero(b)) return b;
      if (b->isConst() && b->cv == 1) return a;
      if (b->isConst() && (b->cv & (b->cv - 1)) == 0) return mk2(K_SHL, a, mkConst(ctz(b->cv), w));
      break;
    case K_UDIV: if (b->isConst() && b->cv == 1) return a; if (b->isConst() && b->cv && (b->cv & (b->cv - 1)) == 0) return mk2(K_LSHR, a, mkConst(ctz(b->cv), w)); break;
    case K_UREM: if (b->isConst() && b->cv == 1) return mkConst(0, w); if (b->isConst() && b->cv && (b->cv & (b->cv - 1)) == 0) return mk2(K_AND, a, mkConst(b->cv - 1, w)); break;
    case K_SDIV: if (b->isConst() && b->cv == 1) return a; break;
    case K_AND:
      if (a == b) return a;
      if (isZero(b)) return b;
      if (isAllOnes(b)) return a;
      if (b->isConst()) {
        if (a->k == K_AND && a->b->isConst()) return mk2(K_AND, a->a, mkConst(a->b->cv & b->cv, w));
        u128 c = b->cv; unsigned tz = ctz(c); u128 sh = c >> tz;
        if ((sh & (sh + 1)) == 0) { unsigned n = 0; while (n + tz < w && ((c >> (n + tz)) & 1)) n++;
          E mid = mkExtract(a, tz, n); E r = tz ? mkConcat(mid, mkConst(0, tz)) : mid; return mkZExt(r, w); }
        if (a->k == K_ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mk2(k, a->b, b), mk2(k, a->c, b));
      }
      if (w == 1) { if (a->k == K_XOR && isAllOnes(a->b) && a->a == b) return mkConst(0, 1); if (b->k == K_XOR && isAllOnes(b->b) && b->a == a) return mkConst(0, 1); 
        if (a->k == K_AND && (a->a == b || a->b == b)) return a; if (b->k == K_AND && (b->a == a || b->b == a)) return b; }
      break;
    case K_OR: {
      if (a == b) return a;
      if (isZero(b)) return a;
      if (isAllOnes(b)) return b;
      for (int i = 0; i < 2; i++) { E x = i ? b : a, y = i ? a : b; unsigned zl = zeroLo(x), zh = zeroHi(y);
        if (w > 1 && zl && zh && zl + zh >= w && zl < w) { return mkConcat(mkExtract(x, zl, w - zl), mkExtract(y, 0, zl)); } }
      if (a->k == K_ITE && b->isConst() && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mk2(k, a->b, b), mk2(k, a->c, b));
      if (w == 1) { if (a->k == K_XOR && isAllOnes(a->b) && a->a == b) return mkConst(1, 1); if (b->k == K_XOR && isAllOnes(b->b) && b->a == a) return mkConst(1, 1); }
      if (b->isConst() && a->k == K_OR && a->b->isConst()) return mk2(K_OR, a->a, mkConst(a->b->cv | b->cv, w));
      break; }
    case K_XOR:
      if (a == b) return mkConst(0, w);
      if (isZero(b)) return a;
      if (b->isConst() && a->k == K_XOR && a->b->isConst()) return mk2(K_XOR, a->a, mkConst(a->b->cv ^ b->cv, w));
      if (w == 1 && isAllOnes(b)) {
        if (a->k == K_ULT) return mk2(K_ULE, a->b, a->a);
        if (a->k == K_ULE) return mk2(K_ULT, a->b, a->a);
        if (a->k == K_SLT) return mk2(K_SLE, a->b, a->a);
        if (a->k == K_SLE) return mk2(K_SLT, a->b, a->a);
      }
      break;
    case K_SHL: if (isZero(b) || isZero(a)) return a; if (b->isConst()) { if (b->cv >= w) return mkConst(0, w); unsigned s = (unsigned)b->cv; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); } break;
    case K_LSHR: if (isZero(b) || isZero(a)) return a; if (b->isConst()) { if (b->cv >= w) return mkConst(0, w); unsigned s = (unsigned)b->cv; return mkZExt(mkExtract(a, s, w - s), w); } break;
    case K_ASHR: if (isZero(b)) return a; if (b->isConst()) { unsigned s = b->cv >= w ? w - 1 : (unsigned)b->cv; return mkSExt(mkExtract(a, s, w - s), w); } break;
    case K_EQ:
      if (a == b) return mkConst(1, 1);
      if (w == 1 && b->isConst()) return b->cv ? a : mkNot(a);
      if (b->isConst()) {
        if (a->k == K_ZEXT) { if (b->cv >> a->a->w) return mkConst(0, 1); return mkEq(a->a, mkConst(b->cv, a->a->w)); }
        if (a->k == K_SEXT) { u128 t = b->cv & maskw(a->a->w); if (((u128)sextw(t, a->a->w) & maskw(w)) != b->cv) return mkConst(0, 1); return mkEq(a->a, mkConst(t, a->a->w)); }
        if (a->k == K_CONCAT) { unsigned lw = a->b->w; return mk2(K_AND, mkEq(a->a, mkConst(b->cv >> lw, a->a->w)), mkEq(a->b, mkConst(b->cv, lw))); }
        if (a->k == K_ADD && a->b->isConst()) return mkEq(a->a, mkConst(b->cv - a->b->cv, w));
        if (a->k == K_XOR && a->b->isConst()) return mkEq(a->a, mkConst(b->cv ^ a->b->cv, w));
        if (a->k == K_SUB && isZero(b)) return mkEq(a->a, a->b);
        if (a->k == K_ITE && (a->b->isConst() || a->c->isConst())) {
          E x = mkEq(a->b, b), y = mkEq(a->c, b);
          return mkIte(a->a, x, y);
        }
      } else {
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mk2(K_AND, mkEq(a->a, b->a), mkEq(a->b, b->b));
        if (a->k == K_ADD && b->k == K_ADD && a->b == b->b) return mkEq(a->a, b->a);
        if (a->k == K_ADD && a->b->isConst() && a->a == b) return mkConst(a->b->cv == 0, 1);
        if (b->k == K_ADD && b->b->isConst() && b->a == a) return mkConst(b->b->cv == 0, 1);
      }
      break;
    case K_ULT:
      if (a == b) return mkConst(0, 1);
      if (isZero(b)) return mkConst(0, 1);
      if (isZero(a)) return mkNot(mkEq(b, a));
      if (isAllOnes(a)) return mkConst(0, 1);
      if (b->isConst() && b->cv == 1) return mkEq(a, mkConst(0, w));
      if (isAllOnes(b)) return mkNot(mkEq(a, b));
      goto cmpz;
    case K_ULE:
      if (a == b) return mkConst(1, 1);
      if (isZero(a)) return mkConst(1, 1);
      if (isAllOnes(b)) return mkConst(1, 1);
      if (isZero(b)) return mkEq(a, b);
      if (isAllOnes(a)) return mkEq(a, b);
    cmpz:
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mk2(k, a->a, b->a);
      if (a->k == K_ZEXT && b->isConst()) { if (b->cv > maskw(a->a->w)) return mkConst(1, 1); return mk2(k, a->a, mkConst(b->cv, a->a->w)); }
      if (b->k == K_ZEXT && a->isConst()) { if (a->cv > maskw(b->a->w)) return mkConst(0, 1); return mk2(k, mkConst(a->cv, b->a->w), b->a); }
      if (a->k == K_ITE && a->b->isConst() && a->c->isConst() && b->isConst()) return mkIte(a->a, mk2(k, a->b, b), mk2(k, a->c, b));
      if (b->k == K_ITE && b->b->isConst() && b->c->isConst() && a->isConst()) return mkIte(b->a, mk2(k, a, b->b), mk2(k, a, b->c));
      break;
    case K_SLT: case K_SLE:
      if (a == b) return mkConst(k == K_SLE, 1);
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mk2(k == K_SLT ? K_ULT : K_ULE, a->a, b->a);
      if (a->k == K_ZEXT && b->isConst()) { if (sextw(b->cv, w) < 0) return mkConst(0, 1); return mk2(k == K_SLT ? K_ULT : K_ULE, a, b); }
      if (b->k == K_ZEXT && a->isConst()) { if (sextw(a->cv, w) < 0) return mkConst(1, 1); return mk2(k == K_SLT ? K_ULT : K_ULE, a, b); }
      if (a->k == K_ITE && a->b->isConst() && a->c->isConst() && b->isConst()) return mkIte(a->a, mk2(k, a->b, b), mk2(k, a->c, b));
      break;
    default: break;
  }
  return intern(k, rw, 0, a, b, nullptr, 0);
}
static const std::vector<uint32_t> emptySyms;
const std::vector<uint32_t>& symsOf(E e) {
  if (e->syms) return *e->syms;
  if (e->k == K_CONST) { e->syms = &emptySyms; return emptySyms; }
  auto* v = new std::vector<uint32_t>();
  if (e->k == K_SYM) v->push_back(e->aux);
  else {
    const std::vector<uint32_t>* only = nullptr; int cnt = 0;
    for (E c : {e->a, e->b, e->c}) if (c) { auto& s = symsOf(c); if (!s.empty()) { cnt++; only = &s; } }
    if (cnt == 1) { delete v; e->syms = only; return *only; }
    for (E c : {e->a, e->b, e->c}) if (c) { auto& s = symsOf(c); v->insert(v->end(), s.begin(), s.end()); }
    std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end());
  }
  e->syms = v; return *v;
}
static uint32_t curEpoch = 1;
void evalNewEpoch() { curEpoch++; }
u128 evalE(E e, const Assignment& m) {
  if (e->k == K_CONST) return e->cv;
  if (e->epoch == curEpoch) return e->ev;
  u128 r = 0;
  switch (e->k) {
    case K_SYM: r = m.get(e->aux) & maskw(e->w); break;
    case K_CONCAT: r = (evalE(e->a, m) << e->b->w) | evalE(e->b, m); break;
    case K_EXTRACT: r = (evalE(e->a, m) >> e->aux) & maskw(e->w); break;
    case K_ZEXT: r = evalE(e->a, m); break;
    case K_SEXT: r = (u128)sextw(evalE(e->a, m), e->a->w) & maskw(e->w); break;
    case K_ITE: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
    default: r = foldOp(e->k, evalE(e->a, m), evalE(e->b, m), e->a->w, nullptr);
  }
  e->ev = r; e->epoch = curEpoch; return r;
}
std::string exprStr(E e, int d) {
  static const char* nm[] = {"c","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite"};
  if (e->k == K_CONST) { char b[64]; if (e->w <= 64) snprintf(b, sizeof b, "%llu:%d", (unsigned long long)e->cv, e->w); else snprintf(b, sizeof b, "%llx_%016llx:%d", (unsigned long long)(e->cv >> 64), (unsigned long long)e->cv, e->w); return b; }
  if (e->k == K_SYM) return symName(e->aux);
  if (d <= 0) return "...";
  std::string s = "("; s += nm[e->k]; if (e->k == K_EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  for (E c : {e->a, e->b, e->c}) if (c) s += " " + exprStr(c, d - 1);
  return s + ")";
}
