// SOURCES: @mem score/memory/shared/shared_memory_error.cpp
// ENTRY: h_reg_map property=C22 reach=found,gap,refused,removed quick=120 thorough=900 defs=OPS=3 tdefs=OPS=4
// ENTRY: h_reg_reuse property=C22 reach=done quick=60 thorough=300
// ENTRY: h_reg_conc property=C22 reach=hit,miss quick=120 thorough=900 defs=PRE=2 tdefs=PRE=3
// ENTRY: h_reg_registry property=C22 reach=found,none,refused,bypass quick=120 thorough=900 defs=OPS=3 tdefs=OPS=4
// ENTRY: h_reg_proxy property=C22 reach=allocated,rejected quick=60 thorough=300
// ASSUME: regions are not empty and do not start at address 0; one writer at a time (the registry's lock); regions registered under one start address only once
// BOUND: 3 (4) registrations or removals with arbitrary addresses, then one arbitrary address; 24 updates for the reuse of versions; one or two readers against a writer making up to 12 updates, 2 (3) preemptions
#include <array>
#include <atomic>
#include <functional>
#include <map>
#include <optional>
#include "hx.h"
#include "score/memory/shared/memory_region_map.h"
#include "score/memory/shared/memory_resource_proxy.h"
#include "score/memory/shared/memory_resource_registry.h"
using namespace score::memory::shared;
#ifndef OPS
#define OPS 3
#endif
#ifndef PRE
#define PRE 2
#endif
using U = std::uint64_t;
struct Ref { U s[8], e[8]; bool on[8]{}; unsigned n{0}; };
static bool overlaps(U s, U e, U s2, U e2) { return (s < e2) & (s2 < e); }
extern "C" void h_reg_map() {
  auto* m = new MemoryRegionMap; Ref r;
  for (unsigned i = 0; i < OPS; i++) switch (sym_choose(i == 0 ? 1 : 3, "op")) {
    case 0: { U s = sym_u64("start"), e = sym_u64("end"); sym_assume((s != 0) & (s < e)); bool any = false; for (unsigned k = 0; k < r.n; k++) { sym_assume(!(r.on[k] & (r.s[k] == s))); any |= r.on[k] & overlaps(s, e, r.s[k], r.e[k]); }
      bool ok = m->UpdateKnownRegion(s, e); sym_assert(ok == !any, "a region is accepted exactly if it overlaps none that is known"); if (ok) { r.s[r.n] = s; r.e[r.n] = e; r.on[r.n++] = true; } else sym_reach("refused"); break; }
    case 1: { if (r.n == 0) break; U k = sym_choose(r.n, "which"); if (!r.on[k]) break; m->RemoveKnownRegion(r.s[k]); r.on[k] = false; sym_reach("removed"); break; }
    default: m->ClearKnownRegions(); for (auto& o : r.on) o = false; }
  unsigned cnt = 0; for (unsigned k = 0; k < r.n; k++) cnt += r.on[k]; sym_assert(m->GetSize() == cnt, "number of known regions");
  U p = sym_u64("address"); bool inside = false, touch = false; for (unsigned k = 0; k < r.n; k++) { inside |= r.on[k] & (p >= r.s[k]) & (p < r.e[k]); touch |= r.on[k] & (p == r.e[k]); }
  auto b = m->GetBoundsFromAddress(p);
  if (b.has_value()) { sym_reach("found"); U s = b->GetStartAddress(), e = b->GetEndAddress(); bool known = false; for (unsigned k = 0; k < r.n; k++) known |= r.on[k] & (s == r.s[k]) & (e == r.e[k]); sym_assert(known, "bounds of a region that is not registered"); sym_assert((s <= p) & (p <= e), "bounds of a region the address is not in"); sym_assert(!inside | (p < e), "the address lies in one region, the bounds of another are returned"); }
  else { sym_reach("gap"); sym_assert(!inside, "an address inside a registered region is not found"); sym_assert(!touch, "the end of a registered region is not found"); }
}
extern "C" void h_reg_reuse() { // versions are recycled: accepted, refused and read many times over
  auto* m = new MemoryRegionMap; U base = sym_range(0x1000, 0x7000000000000000ull, "base"); sym_assert(m->UpdateKnownRegion(base, base + 0x100), "accepted"); U d = sym_range(1, 0xFF, "overlap");
  for (unsigned i = 0; i < 24; i++) {
    auto b = m->GetBoundsFromAddress(base + d); sym_assert(b.has_value(), "lost"); sym_assert((b->GetStartAddress() == base) & (b->GetEndAddress() == base + 0x100), "bounds");
    switch (i % 3) { case 0: sym_assert(!m->UpdateKnownRegion(base + d, base + 0x400), "overlap accepted"); break; case 1: sym_assert(m->UpdateKnownRegion(base + 0x100, base + 0x200), "neighbour refused"); break; default: m->RemoveKnownRegion(base + 0x100); }
    auto nb = m->GetBoundsFromAddress(base + 0x180); sym_assert(nb.has_value() == (i % 3 == 1), "neighbour"); }
  sym_reach("done");
}
extern "C" void h_reg_conc() { // lookups never miss a region that is registered throughout, whatever is registered and removed meanwhile
  auto* m = new MemoryRegionMap; sym_assert(m->UpdateKnownRegion(0x5000, 0x6000), "accepted"); unsigned n = static_cast<unsigned>(sym_choose(2, "updates")) == 0 ? 2 : 11; bool in = false, out = true; int changing = 0;
  sym_shared(m, sizeof *m, 3);
  sym_par(PRE, 0, 0,
    [&] { for (unsigned i = 0; i < n; i++) { changing = i % 2 ? -1 : 1; if (i % 2 == 0) { out = false; sym_assert(m->UpdateKnownRegion(0x1000, 0x2000), "accepted"); in = true; } else { in = false; m->RemoveKnownRegion(0x1000); out = true; } } },
    [&] { auto b = m->GetBoundsFromAddress(0x5800); sym_assert(b.has_value(), "a lookup misses a region while another one is registered or removed"); sym_assert((b->GetStartAddress() == 0x5000) & (b->GetEndAddress() == 0x6000), "wrong bounds");
      auto c = m->GetBoundsFromAddress(0x1800); if (c.has_value()) { sym_reach("hit"); sym_assert((c->GetStartAddress() == 0x1000) & (c->GetEndAddress() == 0x2000), "wrong bounds"); } else sym_reach("miss"); });
  sym_assert(m->GetBoundsFromAddress(0x1800).has_value() == in, "final state"); sym_assert(in != out, "harness"); sym_assert(m->GetSize() == (in ? 2u : 1u), "final size");
  for (unsigned i = 0; i < 20; i++) sym_assert(!m->UpdateKnownRegion(0x5001, 0x7000), "overlap"); // no version was lost
}
// ---- registry
struct Res : ManagedMemoryResource { U s, e; bool bypass; unsigned allocs{0}, frees{0}; Res(U a, U b, bool y) : s{a}, e{b}, bypass{y} {}
  void* getBaseAddress() const noexcept override { return reinterpret_cast<void*>(s); }
  void* getUsableBaseAddress() const noexcept override { return reinterpret_cast<void*>(s); }
  std::size_t GetUserAllocatedBytes() const noexcept override { return 0; }
  bool IsOffsetPtrBoundsCheckBypassingEnabled() const noexcept override { return bypass; }
  const void* getEndAddress() const noexcept override { return reinterpret_cast<const void*>(e); }
  const MemoryResourceProxy* getMemoryResourceProxy() noexcept override { return nullptr; }
  void* do_allocate(std::size_t n, std::size_t) override { allocs++; return reinterpret_cast<void*>(s + n); }
  void do_deallocate(void*, std::size_t, std::size_t) override { frees++; }
  bool do_is_equal(const score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; } };
extern "C" void h_reg_registry() {
  auto& reg = MemoryResourceRegistry::getInstance(); Res* res[OPS]{}; U id[OPS]{}; bool on[OPS]{}; unsigned n = 0;
  for (unsigned i = 0; i < OPS; i++) if (i == 0 || sym_choose(2, "op") == 0) {
      U s = sym_u64("start"), e = sym_u64("end"), x = 1 + sym_choose(2, "id"); bool y = i == 1 && sym_choose(2, "bypass") == 1; sym_assume((s != 0) & (s < e)); bool any = false, dup = false; for (unsigned k = 0; k < n; k++) { sym_assume(!(on[k] & (res[k]->s == s))); dup |= on[k] & (id[k] == x); if (!res[k]->bypass && !y) any |= on[k] & overlaps(s, e, res[k]->s, res[k]->e); }
      auto* r = new Res{s, e, y}; bool ok = reg.insert_resource({x, r}); sym_assert(ok == !(any | dup), "a resource is registered exactly if its id is free and its memory overlaps no other resource's"); res[n] = r; id[n] = x; on[n++] = ok; if (ok) { if (y) sym_reach("bypass"); } else sym_reach("refused"); }
    else { U x = 1 + sym_choose(3, "id"); reg.remove_resource(x); for (unsigned k = 0; k < n; k++) on[k] = on[k] & (id[k] != x); }
  U x = 1 + sym_choose(3, "id"); ManagedMemoryResource* want = nullptr; for (unsigned k = 0; k < n; k++) if (on[k] & (id[k] == x)) want = res[k];
  sym_assert(reg.at(x) == want, "the resource registered under an id"); auto bi = reg.GetBoundsFromIdentifier(x); sym_assert(bi.has_value() == (want != nullptr), "bounds by id"); if (want) { sym_reach("found"); sym_assert((bi.value().GetStartAddress() == static_cast<Res*>(want)->s) & (bi.value().GetEndAddress() == static_cast<Res*>(want)->e), "bounds by id"); } else sym_reach("none");
  U p = sym_u64("address"); bool inside = false; for (unsigned k = 0; k < n; k++) inside |= on[k] & !res[k]->bypass & (p >= res[k]->s) & (p < res[k]->e);
  auto b = sym_choose(2, "how") ? reg.GetBoundsFromAddressAsInteger(p) : reg.GetBoundsFromAddress(reinterpret_cast<const void*>(p)); if (b.has_value()) { bool known = false; for (unsigned k = 0; k < n; k++) known |= on[k] & !res[k]->bypass & (b->GetStartAddress() == res[k]->s) & (b->GetEndAddress() == res[k]->e); sym_assert(known, "bounds of a resource that is not registered"); } else sym_assert(!inside, "an address in a registered resource is not found");
}
extern "C" void h_reg_proxy() { // a proxy that was tampered with, or lies outside the memory it claims to belong to, is not used
  auto& reg = MemoryResourceRegistry::getInstance(); U own = sym_range(1, 2, "own_id"), stored = sym_u64("stored_id"); alignas(16) static char mem[64]; MemoryResourceProxy* px = new (mem + 8) MemoryResourceProxy{stored}; U at = reinterpret_cast<U>(px);
  U s = sym_u64("start"), e = sym_u64("end"); sym_assume((s != 0) & (s < e)); U n = sym_range(0, 8, "bytes"); Res r{s, e, true}; sym_assume(s <= ~0ull - 64); sym_assert(reg.insert_resource({own, &r}), "registered"); void* got = nullptr; bool ok = !sym_try_f([&] { got = px->allocate(n); });
  bool right = (stored == own) & (at >= s) & (at <= e); sym_assert(!ok | right, "a proxy outside of the memory of its resource allocates from it"); sym_assert(ok | !right, "a proxy inside its memory is rejected"); if (ok) { sym_reach("allocated"); sym_assert((r.allocs == 1) & (reinterpret_cast<U>(got) == s + n), "allocates from its resource"); px->deallocate(got, n); sym_assert(r.frees == 1, "gives back to its resource"); reg.remove_resource(own); px->deallocate(got, n); sym_assert(r.frees == 1, "a resource that is gone is not used"); } else { sym_reach("rejected"); sym_assert(r.allocs == 0, "rejected after allocating"); }
}
