// Shared pieces of the harnesses.
#pragma once
#include "sym.h"
#include "score/memory/shared/managed_memory_resource.h"
#include "score/mw/com/impl/bindings/lola/event_data_control.h"
#include "score/mw/com/impl/bindings/lola/event_slot_status.h"
#include <cstdlib>
#include <new>
namespace hx {
// plain heap resource: containers placed "in shared memory" live in ordinary allocations
class HeapResource : public score::memory::shared::ManagedMemoryResource {
 public:
  void* getBaseAddress() const noexcept override { return nullptr; }
  void* getUsableBaseAddress() const noexcept override { return nullptr; }
  std::size_t GetUserAllocatedBytes() const noexcept override { return 0; }
 private:
  const void* getEndAddress() const noexcept override { return nullptr; }
  const score::memory::shared::MemoryResourceProxy* getMemoryResourceProxy() noexcept override { return nullptr; }
  void* do_allocate(std::size_t n, std::size_t) override { return std::malloc(n); }
  void do_deallocate(void* p, std::size_t, std::size_t) override { std::free(p); }
  bool do_is_equal(const score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
namespace lola = score::mw::com::impl::lola;
constexpr std::uint64_t kInWriting = 0x00000000FFFFFFFFull, kInvalid = 0;
inline std::uint64_t slot(std::uint32_t ts, std::uint32_t rc) { return (static_cast<std::uint64_t>(ts) << 32) | rc; }
inline std::uint32_t ts(std::uint64_t v) { return static_cast<std::uint32_t>(v >> 32); }
inline std::uint32_t rc(std::uint64_t v) { return static_cast<std::uint32_t>(v); }
inline bool ready(std::uint64_t v) { return ts(v) != 0; }
// an arbitrary slot word a run of the system can produce: free, being written, or ready with some number of references
inline std::uint64_t sym_slot(const char* n, std::uint32_t max_ref = 1000) {
  std::uint64_t v = sym_u64(n);
  sym_assume((v == kInvalid) | (v == kInWriting) | ((ts(v) != 0) & (rc(v) <= max_ref)));
  return v;
}
// declare the shared-memory parts of a transaction log set (found through the public interface) as schedule and crash points
template <class Set, class View, class Control> void share_logs(Set& set, unsigned n, unsigned slots, Control& ctl, int mode = 2) {
  View* v[8]; decltype(set.RegisterProxyElement(1, *v[0])) *g[8]; using Node = typename Set::TransactionLogNode;
  for (unsigned i = 0; i < n; i++) { v[i] = new View{ctl}; g[i] = new decltype(set.RegisterProxyElement(1, *v[0]))(set.RegisterProxyElement(1, *v[i])); sym_assert(g[i]->has_value(), "fewer transaction logs than configured"); }
  for (unsigned i = 0; i < n; i++) { auto& l = set.GetTransactionLog(g[i]->value().GetTransactionLogIndex()); sym_shared(reinterpret_cast<char*>(&l) + sizeof(l) - sizeof(Node), sizeof(Node), mode); sym_shared(l.reference_count_slots_.data(), sizeof(l.reference_count_slots_[0]) * slots, mode); }
  for (unsigned i = 0; i < n; i++) { delete g[i]; delete v[i]; }
}
}
