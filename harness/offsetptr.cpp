// SOURCES: @mem
// ENTRY: h_optr_ops property=C14 reach=assign,copy,add,null,swap,inc,mapped quick=150 thorough=900 defs=K=1 tdefs=K=2
// ENTRY: h_optr_relations property=C14 reach=null,both quick=60 thorough=300
// ENTRY: h_optr_convert property=C14 reach=converted,null quick=60 thorough=300
// ENTRY: h_optr_check property=C15 reach=shm_pass,shm_reject,loc_pass,loc_reject quick=60 thorough=300
// ENTRY: h_optr_forged property=C15 reach=pass,reject quick=150 thorough=900
// ENTRY: h_optr_valid property=C15 reach=valid,null quick=100 thorough=300
// BOUND: every operation (every pair) from an arbitrary state of 2 pointers in shared memory (seen through two mappings) and 2 outside, pointing anywhere into an array of 6 elements; bounds checks for every 64-bit address, offset, size and region
#include "sym.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include "score/memory/shared/offset_ptr.h"
using namespace score::memory::shared;
#ifndef K
#define K 1
#endif
class Region : public ManagedMemoryResource {
 public:
  Region(void* b, std::size_t n, std::uint64_t id) : b_{static_cast<char*>(b)}, n_{n}, id_{id} { sym_assert(MemoryResourceRegistry::getInstance().insert_resource({id, this}), "region not registered"); }
  ~Region() { MemoryResourceRegistry::getInstance().remove_resource(id_); }
  void* getBaseAddress() const noexcept override { return b_; }
  void* getUsableBaseAddress() const noexcept override { return b_; }
  std::size_t GetUserAllocatedBytes() const noexcept override { return 0; }
  bool IsOffsetPtrBoundsCheckBypassingEnabled() const noexcept override { return false; }
 private:
  const void* getEndAddress() const noexcept override { return b_ + n_; }
  const MemoryResourceProxy* getMemoryResourceProxy() noexcept override { return nullptr; }
  void* do_allocate(std::size_t, std::size_t) override { std::abort(); }
  void do_deallocate(void*, std::size_t, std::size_t) override {}
  bool do_is_equal(const score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; }
  char* b_; std::size_t n_; std::uint64_t id_;
};
constexpr int D = 6;
struct Arena { int before[4]; int data[D]; int after[4]; OffsetPtr<int> p[2]; int tail[16]; };
static std::uint8_t below(std::uint8_t n, const char* w) { std::uint8_t v = sym_u8(w); sym_assume(v < n); return v; }
extern "C" void h_optr_ops() {
  auto* a = new (sym_shm(sizeof(Arena))) Arena; auto* b = static_cast<Arena*>(sym_alias(a)); for (int i = 0; i < D; i++) a->data[i] = 100 + i;
  bool registered = sym_choose(2, "registered"); std::optional<Region> ra, rb; if (registered) { ra.emplace(a, sizeof(Arena), 1); rb.emplace(b, sizeof(Arena), 2); }
  OffsetPtr<int> local[2]; OffsetPtr<int>* ptr[4] = {&a->p[0], &a->p[1], &local[0], &local[1]}; int at[4] = {-1, -1, -1, -1}; bool null[4] = {true, true, true, true};
  // arbitrary initial state: null, set directly, or copied out of shared memory
  for (int k = 0; k < 4; k++) { int st = k == 1 ? 1 : k == 3 ? 2 : (registered ? sym_choose(2, "initially") : 1) * (1 + k / 2); if (!st) continue; at[k] = below(D, "index"); null[k] = false; if (st == 1) *ptr[k] = &a->data[at[k]]; else { a->p[0] = &a->data[at[k]]; *ptr[k] = a->p[0]; if (null[0]) a->p[0] = nullptr; else a->p[0] = &a->data[at[0]]; } }
  for (int i = 0; i < K; i++) {
    int op = sym_choose(6, "op"), x = sym_choose(4, "pointer");
    switch (op) {
      case 0: { at[x] = below(D, "index"); null[x] = false; *ptr[x] = &a->data[at[x]]; sym_reach("assign"); break; }
      case 1: { int y = sym_choose(4, "from"); if (y == x) { auto* q = ptr[y]; *ptr[x] = *q; } else if (sym_choose(2, "construct")) { OffsetPtr<int> t{*ptr[y]}; *ptr[x] = t; } else *ptr[x] = *ptr[y]; at[x] = at[y]; null[x] = null[y]; sym_reach("copy"); break; }
      case 2: { if (null[x]) return; int d = static_cast<int>(below(2 * D, "delta")) - D; sym_assume(at[x] + d >= 0 && at[x] + d < D);
        switch (sym_choose(4, "how")) { case 0: *ptr[x] += d; break; case 1: *ptr[x] -= -d; break; case 2: *ptr[x] = *ptr[x] + d; break; default: *ptr[x] = *ptr[x] - (-d); } at[x] += d; sym_reach("add"); break; }
      case 3: *ptr[x] = nullptr; null[x] = true; sym_reach("null"); break;
      case 4: { int y = sym_choose(4, "with"); swap(*ptr[x], *ptr[y]); std::swap(at[x], at[y]); std::swap(null[x], null[y]); sym_reach("swap"); break; }
      default: { if (null[x]) return; int before = at[x]; bool up = sym_choose(2, "up"), post = sym_choose(2, "post"); sym_assume(up ? before + 1 < D : before > 0); at[x] += up ? 1 : -1;
        OffsetPtr<int> r = up ? (post ? (*ptr[x])++ : ++*ptr[x]) : (post ? (*ptr[x])-- : --*ptr[x]); sym_assert(r.get() == &a->data[post ? before : at[x]], "value of increment or decrement"); sym_reach("inc"); }
    }
    for (int k = 0; k < 4; k++) {
      if (k != x) { sym_assert(ptr[k]->get() == (null[k] ? nullptr : &a->data[at[k]]), "another pointer changed"); continue; }
      sym_assert(static_cast<bool>(*ptr[k]) == !null[k] && !*ptr[k] == null[k] && (*ptr[k] == nullptr) == null[k] && (nullptr != *ptr[k]) == !null[k], "null state");
      if (null[k]) sym_assert(ptr[k]->get() == nullptr, "null pointer");
      else { sym_assert(ptr[k]->get() == &a->data[at[k]] && static_cast<int*>(*ptr[k]) == &a->data[at[k]] && &**ptr[k] == &a->data[at[k]] && ptr[k]->operator->() == &a->data[at[k]], "points to the object it was made to point to");
        sym_assert(&(*ptr[k])[-at[k]] == &a->data[0], "indexing"); }
    }
    for (int k = 0; k < 2; k++) { if (k != x && registered) continue; OffsetPtr<int>& m = b->p[k]; OffsetPtr<int> c{m}; if (null[k]) sym_assert(m.get() == nullptr && c.get() == nullptr, "null through another mapping"); else { sym_assert(m.get() == &b->data[at[k]] && c.get() == &b->data[at[k]], "points to the same object through another mapping"); if (k == x) sym_assert(*m == 100 + at[k], "value through another mapping"); sym_reach("mapped"); } }
  }
}
extern "C" void h_optr_relations() {
  auto* a = new (sym_shm(sizeof(Arena))) Arena; bool registered = sym_choose(2, "registered"); std::optional<Region> ra; if (registered) ra.emplace(a, sizeof(Arena), 1); OffsetPtr<int> local[2]; OffsetPtr<int>* all[4] = {&a->p[0], &a->p[1], &local[0], &local[1]};
  auto& x = *all[sym_choose(4, "first")]; auto& y = *all[sym_choose(4, "second")]; int* rx = nullptr; int* ry = nullptr; bool same = &x == &y;
  if (sym_choose(2, "null first") == 0) rx = &a->data[below(D, "index")]; if (same) ry = rx; else if (sym_choose(2, "null second") == 0) ry = &a->data[below(D, "index")];
  x = rx; y = ry; auto ux = reinterpret_cast<std::uintptr_t>(rx), uy = reinterpret_cast<std::uintptr_t>(ry);
  sym_assert((x == y) == (ux == uy) && (x == ry) == (ux == uy) && (rx == y) == (ux == uy), "equal"); sym_assert((x != y) == (ux != uy) && (x != ry) == (ux != uy) && (rx != y) == (ux != uy), "not equal");
  sym_assert((x < y) == (ux < uy) && (x < ry) == (ux < uy) && (rx < y) == (ux < uy), "less"); sym_assert((x <= y) == (ux <= uy) && (x <= ry) == (ux <= uy) && (rx <= y) == (ux <= uy), "less or equal");
  sym_assert((x > y) == (ux > uy) && (x > ry) == (ux > uy) && (rx > y) == (ux > uy), "greater"); sym_assert((x >= y) == (ux >= uy) && (x >= ry) == (ux >= uy) && (rx >= y) == (ux >= uy), "greater or equal");
  if (rx && ry) { std::ptrdiff_t d = rx - ry; sym_assert(x - y == d && x - ry == d && rx - y == d, "difference"); sym_reach("both"); } else sym_reach("null");
}
struct A { int a; }; struct B { int b; }; struct Dd : A, B { int d; };
struct Arena2 { Dd obj[3]; OffsetPtr<Dd> d; OffsetPtr<B> b; OffsetPtr<const B> cb; OffsetPtr<void> v; OffsetPtr<const void> cv; int tail[16]; };
extern "C" void h_optr_convert() {
  auto* m = new (sym_shm(sizeof(Arena2))) Arena2; bool registered = sym_choose(2, "registered"); std::optional<Region> r; if (registered) r.emplace(m, sizeof(Arena2), 1); Arena2 local; Arena2& s = sym_choose(2, "from local") ? local : *m; Arena2& t = sym_choose(2, "to local") ? local : *m;
  Dd* o = sym_choose(2, "null") ? nullptr : &m->obj[below(3, "index")]; s.d = o; B* ob = o; bool construct = sym_choose(2, "construct");
  if (construct) { OffsetPtr<B> q{s.d}; t.b = q; OffsetPtr<const B> cq{q}; t.cb = cq; OffsetPtr<void> vq{s.d}; t.v = vq; OffsetPtr<const void> cvq{vq}; t.cv = cvq; } else { t.b = s.d; t.cb = t.b; t.v = s.d; t.cv = t.v; }
  sym_assert(t.b.get() == ob && t.cb.get() == ob && s.d.get() == o, "conversion to a base"); sym_assert(t.v.get<Dd>() == o && t.v.get(sizeof(Dd)) == o && t.cv.get(sizeof(Dd)) == o, "conversion to void");
  sym_assert(static_cast<bool>(t.b) == (o != nullptr) && static_cast<bool>(t.v) == (o != nullptr), "null state");
  if (o) { auto p = OffsetPtr<Dd>::pointer_to(*o); sym_assert(p.get() == o && OffsetPtr<void>::pointer_to(o).get<Dd>() == o && OffsetPtr<const void>::pointer_to(o).get(sizeof(Dd)) == o, "pointer_to"); sym_reach("converted"); } else sym_reach("null");
}
using I = __int128;
extern "C" void h_optr_check() {
  std::uint64_t s = sym_u64("start"), e = sym_u64("end"), addr = sym_u64("address"), off = sym_u64("offset"), n = sym_u64("size"), pn = sym_u64("pointer size"); sym_assume(s != 0 && s <= e);
  bool shm = sym_choose(2, "in shared memory"), ok = false; auto so = static_cast<std::int64_t>(off); I first = I{addr} + so, last = first + n, own = I{addr} + pn; bool inside = (first >= s) & (first <= e) & (last <= e);
  auto p = reinterpret_cast<const void*>(addr);
  if (shm) {
    sym_assume(addr >= s && addr <= e); bool dead = sym_try_f([&] { ok = DoesOffsetPtrInSharedMemoryPassBoundsChecks(p, so, MemoryRegionBounds{s, e}, n, pn); }); inside = inside & (own <= e);
    if (!dead && ok) { sym_assert(inside, "access outside the shared memory region passes the check"); sym_reach("shm_pass"); } else { sym_assert(!inside, "access inside the shared memory region is rejected"); sym_reach("shm_reject"); }
  } else {
    std::uint64_t rs = sym_u64("region start"), re = sym_u64("region end"); sym_assume(rs != 0 && rs < re); char* base = reinterpret_cast<char*>(rs); Region r{base, re - rs, 1};
    sym_assume(addr < rs || addr > re); bool has = sym_choose(2, "bounds known"); bool overlaps = (own >= rs) & (own <= re);
    bool dead = sym_try_f([&] { ok = DoesOffsetPtrNotInSharedMemoryPassBoundsChecks(p, so, has ? MemoryRegionBounds{s, e} : MemoryRegionBounds{}, n, pn); });
    if (!dead && ok) { sym_assert(!overlaps & (own <= I{0xFFFFFFFFFFFFFFFFull}) & (!has | inside), "access outside the region the pointer was copied from passes the check"); sym_reach("loc_pass"); } else { sym_assert(overlaps | (own > I{0xFFFFFFFFFFFFFFFFull}) | (has & !inside), "valid access is rejected"); sym_reach("loc_reject"); }
  }
}
struct Big { char c[40]; };
template <class T> static void forged() {
  constexpr std::size_t kArena = 192, kSlot = sizeof(OffsetPtr<T>); char* m = static_cast<char*>(sym_shm(kArena)); Region r{m, kArena, 1}; static const std::size_t kAt[] = {0, 64, kArena - kSlot};
  auto* p = new (m + kAt[sym_choose(3, "slot")]) OffsetPtr<T>; std::uint64_t raw[kSlot / 8]; for (auto& v : raw) v = sym_u64("forged"); std::memcpy(static_cast<void*>(p), raw, kSlot);   // another process may write anything here
  const T* got = nullptr; OffsetPtr<T> q, q2; int how = sym_choose(8, "use"); std::int64_t k = 0; if (how == 1 || how == 4) k = static_cast<std::int64_t>(sym_u64("index"));
  bool dead = sym_try_f([&] {
    switch (how) {
      case 0: got = p->get(); break;
      case 1: got = &(*p)[k]; break;
      case 2: got = &**p; break;
      case 3: q = *p; got = q.get(); break;
      case 4: q = *p; q += k; got = q.get(); break;
      case 5: { OffsetPtr<T> c{*p}; q = c; OffsetPtr<void> v{q}; got = v.template get<T>(); break; }
      case 6: { q = *p; swap(q, q2); got = q2.get(); break; }
      default: { q = *p; swap(q2, q); got = q2.get(); }
    } });
  if (dead) sym_reach("reject"); else if (got) { auto u = reinterpret_cast<std::uintptr_t>(got), b = reinterpret_cast<std::uintptr_t>(m); sym_assert((u >= b) & (u <= b + kArena - sizeof(T)), "a pointer read from shared memory leads outside the shared memory"); sym_reach("pass"); }
}
extern "C" void h_optr_forged() { if (sym_choose(2, "type")) forged<Big>(); else forged<char>(); }
extern "C" void h_optr_valid() {
  constexpr std::size_t kArena = 256, kSlot = sizeof(OffsetPtr<Big>); char* m = static_cast<char*>(sym_shm(kArena)); auto* other = new Big[3]; Region r{m, kArena, 1}; static const std::size_t kAt[] = {0, 104, kArena - kSlot};
  auto* p = new (m + kAt[sym_choose(3, "slot")]) OffsetPtr<Big>; int target = sym_choose(3, "target"); Big* o = nullptr; OffsetPtr<Big> q, q2;
  if (target == 0) { std::uint8_t at = sym_u8("at"); sym_assume(at <= kArena - sizeof(Big)); sym_assume(at != 1 + (reinterpret_cast<char*>(p) - m)); o = reinterpret_cast<Big*>(m + at); }
  if (target == 1) { OffsetPtr<Big> l{&other[1]}; sym_assert(l.get() == &other[1] && &*l == &other[1], "pointer outside shared memory"); OffsetPtr<Big> l2{l}; sym_assert(l2.get() == &other[1], "copy outside shared memory"); swap(l, q2); sym_assert(q2.get() == &other[1] && !l, "swap outside shared memory"); return; }
  *p = o; sym_assert(p->get() == o, "valid pointer in shared memory"); q = *p; sym_assert(q.get() == o, "valid pointer copied out"); OffsetPtr<Big> c{q}; sym_assert(c.get() == o, "valid pointer copied again"); swap(q, q2); sym_assert(q2.get() == o && !q, "swap"); OffsetPtr<Big> d; d = c; *p = nullptr; *p = d; sym_assert(p->get() == o, "valid pointer copied back");
  if (o) sym_reach("valid"); else sym_reach("null");
}
