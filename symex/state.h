#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <atomic>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <cstring>
// ---- values
struct V { E e = nullptr; uint64_t c = 0; uint32_t w = 0;
  V() {} V(uint64_t cc, uint32_t ww) : c(ww >= 64 ? cc : cc & ((1ull << ww) - 1)), w(ww) {}
  explicit V(E x) : w(x->w) { if (x->isConst() && x->w <= 64) c = (uint64_t)x->cv; else e = x; }
  bool conc() const { return !e; }
  E ex() const { return e ? e : mkConst(c, w); } };
// ---- intrusive pointer
template <class T> struct IP { T* p = nullptr; IP() {} IP(T* x) : p(x) { if (p) p->rc++; } IP(const IP& o) : p(o.p) { if (p) p->rc++; } IP(IP&& o) : p(o.p) { o.p = nullptr; }
  ~IP() { if (p && --p->rc == 0) delete p; } IP& operator=(IP o) { std::swap(p, o.p); return *this; } T* operator->() const { return p; } explicit operator bool() const { return p; } };
// ---- memory objects (paged copy-on-write)
constexpr unsigned PG = 256;
struct Page { uint32_t rc = 0; uint8_t b[PG]; E* s = nullptr; // s: symbolic byte overlay (null entries = concrete)
  Page() { memset(b, 0, PG); }
  Page(const Page& o) { memcpy(b, o.b, PG); if (o.s) { s = new E[PG]; memcpy(s, o.s, sizeof(E) * PG); } }
  ~Page() { delete[] s; } };
struct MObj { uint32_t rc = 0; uint64_t size; bool ro = false; uint8_t kind = 0; /*0 heap 1 stack 2 global*/ std::vector<IP<Page>> pg; uint8_t fill = 0;
  MObj(uint64_t n, uint8_t f) : size(n), fill(f) { pg.resize((n + PG - 1) / PG); }
  MObj(const MObj& o) : size(o.size), ro(o.ro), kind(o.kind), pg(o.pg), fill(o.fill) {} 
  Page* wpage(size_t i) { if (!pg[i]) { Page* p = new Page(); memset(p->b, fill, PG); pg[i] = IP<Page>(p); } else if (pg[i]->rc > 1) pg[i] = IP<Page>(new Page(*pg[i].p)); return pg[i].p; } };
constexpr unsigned CH = 64;
template <class T> struct Chunk { uint32_t rc = 0; T v[CH]; Chunk() {} Chunk(const Chunk& o) { for (unsigned i = 0; i < CH; i++) v[i] = o.v[i]; } };
template <class T> struct CowVec { std::vector<IP<Chunk<T>>> ch; 
  T get(size_t i) const { size_t c = i / CH; if (c >= ch.size() || !ch[c]) return T(); return ch[c]->v[i % CH]; }
  const T* ptr(size_t i) const { size_t c = i / CH; if (c >= ch.size() || !ch[c]) return nullptr; return &ch[c]->v[i % CH]; }
  T& mut(size_t i) { size_t c = i / CH; if (c >= ch.size()) ch.resize(c + 1); if (!ch[c]) ch[c] = IP<Chunk<T>>(new Chunk<T>()); else if (ch[c]->rc > 1) ch[c] = IP<Chunk<T>>(new Chunk<T>(*ch[c].p)); return ch[c]->v[i % CH]; } };
constexpr unsigned WIN = 24; // each object lives in its own 16 MiB address window
constexpr uint64_t HEAP_W0 = 1u << 16, STACK_W0 = 1u << 22, STACK_PER_THREAD = 1u << 18;
constexpr uint64_t FUNC_BASE = 0x100000; // function addresses below the first window
struct Win { uint32_t obj = 0; /* index+1; 0 = unmapped */ };
// ---- prepared code
struct Opnd { int32_t slot = -1; V k; std::vector<V>* agg = nullptr; };
struct PFunc;
struct PInst { uint16_t op = 0; uint16_t sub = 0; uint32_t w = 0, w2 = 0; int32_t dst = -1; uint32_t n = 1; uint32_t b0 = 0, b1 = 0; uint64_t imm = 0;
  std::vector<Opnd> o; std::vector<std::pair<uint64_t, uint32_t>> lay; // leaf layout (offset,width)
  std::vector<std::pair<V, uint32_t>> cases; std::vector<uint64_t> scale; const llvm::Instruction* I = nullptr; PFunc* callee = nullptr; int ext = -1; };
struct PhiMove { int32_t dst; uint32_t n; std::vector<std::pair<uint32_t, Opnd>> in; };
struct PBlock { uint32_t start = 0; std::vector<PhiMove> phis; };
struct PFunc { const llvm::Function* F = nullptr; std::string name; bool prepared = false; uint32_t nslots = 0; std::vector<uint32_t> argSlot, argN; std::vector<PInst> code; std::vector<PBlock> blk; uint64_t addr = 0; int ext = -1; bool used = false; uint64_t calls = 0; };
struct Frame { PFunc* f; uint32_t pc = 0, prev = 0; int32_t retDst = -1; uint32_t retN = 0; std::vector<V> r; uint64_t stackMark = 0; int scope = 0; /*1: abort scope*/ int64_t pend = -1; /* invoke: block to enter when the callee returns */ };
struct Scope { uint32_t depth; uint8_t kind; };
struct Thread { std::vector<Frame> st; uint64_t stackNext = 0; bool done = false, crashed = false, passed = false, blocked = false; uint64_t waitOn = 0; int waitKind = 0; std::vector<Scope> scopes; uint64_t points = 0; };
struct InputRec { bool isSym; uint32_t sym; u128 val; std::string name; uint32_t w; };
struct Shared { uint32_t obj; uint64_t lo, hi; int mode; };
struct State {
  CowVec<Win> win; CowVec<IP<MObj>> objs; uint64_t nextHeap = HEAP_W0; uint32_t nextObj = 0; std::vector<uint32_t> freeObjs;
  std::vector<Thread> th; int cur = 0; bool par = false; int preempt = 0; uint32_t crashMask = 0; int maxCrash = 0;
  std::vector<E> cons; std::unordered_set<E> consSet; std::shared_ptr<Assignment> model; std::unordered_map<E, uint64_t> known;
  std::map<std::string, uint32_t> symCount; std::vector<InputRec> inputs; std::vector<V> observed; std::vector<Shared> shared;
  std::map<std::pair<uint64_t, int>, uint64_t> tls; /* a thread's own copy of a thread-local variable */ int abortMode = 0; uint64_t instrs = 0; std::map<uint64_t, std::pair<int,int>> locks; // addr -> (writer tid+1, readers)
  uint64_t id = 0; uint32_t forks = 0; int forced = -1; bool pendingSched = false, clockFixed = false; int32_t parDst = -1; V clock; std::vector<std::string> notes; std::map<uint64_t, uint64_t> allocSizes; uint64_t liveAllocs = 0; uint64_t expectAllocFail = 0;
};
