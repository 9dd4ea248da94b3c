// A world of marker files with locks and of shared-memory objects, shared by several "processes" of one harness.
#pragma once
#include "sym.h"
#include "score/memory/shared/i_shared_memory_resource.h"
#include "score/memory/shared/memory_resource_proxy.h"
#include "score/memory/shared/memory_resource_registry.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/os/fcntl.h"
#include "score/os/stat.h"
#include "score/os/unistd.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace fw {
using score::os::Error; using score::os::Fcntl; using score::os::Stat; using score::os::Unistd; namespace ms = score::memory::shared;
inline auto err(int e) { return score::cpp::make_unexpected(Error::createFromErrno(e)); }
struct Inode { std::string path; bool linked; };
struct Fd { int inode; int lock; int owner; bool open; };          // lock: 0 none, 1 shared, 2 exclusive
class Res final : public ms::ISharedMemoryResource {               // the mapping of one object; bump allocation as in the real resource
 public:
  std::string path; char* mem; std::size_t size, used = 0; std::uint64_t id; ms::MemoryResourceProxy* px; bool linked = true, initialised = false; ms::permission::UserPermissions perm; int opens = 0; bool last_rw = false; bool had_providers = false; std::vector<uid_t> providers; int owner = 0; int maps[8] = {}; /* mappings per process */
  Res(std::string p, std::size_t n, std::uint64_t i) : path{std::move(p)}, mem{static_cast<char*>(std::aligned_alloc(64, (n + 191) / 64 * 64)) + 64}, size{n}, id{i} { sym_assert(ms::MemoryResourceRegistry::getInstance().insert_resource({id, this}), "harness: resource id"); static_assert(sizeof(ms::MemoryResourceProxy) <= 64); px = new (mem - 64) ms::MemoryResourceProxy{id}; }
  void* getBaseAddress() const noexcept override { return mem - 64; }
  void* getUsableBaseAddress() const noexcept override { return mem; }
  std::size_t GetUserAllocatedBytes() const noexcept override { return used; }
  const std::string* getPath() const noexcept override { return &path; }
  void UnlinkFilesystemEntry() const noexcept override {}
  FileDescriptor GetFileDescriptor() const noexcept override { return 77; }
  bool IsShmInTypedMemory() const noexcept override { return false; }
  std::string_view GetIdentifier() const noexcept override { return path; }
 private:
  const void* getEndAddress() const noexcept override { return mem + size; }
  const ms::MemoryResourceProxy* getMemoryResourceProxy() noexcept override { return px; }
  void* do_allocate(std::size_t n, std::size_t a) override { std::size_t at = (used + a - 1) / a * a; sym_assert(at + n <= size, "the shared memory is too small for what is placed in it"); used = at + n; return mem + at; }
  void do_deallocate(void*, std::size_t, std::size_t) override {}
  bool do_is_equal(const score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
struct World {
  std::vector<Inode> inodes; std::vector<Fd> fds; std::vector<Res*> objs; int proc = 0; bool yields = false; int fail_open = 0, fail_chmod = 0, fail_create = 0, created = 0; uid_t uid = 0;
  void step() { if (yields) sym_yield(); }
  int linked(const std::string& p) { for (std::size_t i = 0; i < inodes.size(); i++) if (inodes[i].linked && inodes[i].path == p) return static_cast<int>(i); return -1; }
  Res* object(const std::string& p) { for (auto* o : objs) if (o->linked && o->path == p) return o; return nullptr; }
  Fd& get(int f) { sym_assert(f >= 100 && f < 100 + static_cast<int>(fds.size()), "a file descriptor that was never opened"); Fd& r = fds[static_cast<std::size_t>(f - 100)]; sym_assert(r.open, "a closed file descriptor is used"); return r; }
  int nfds(int owner) { int n = 0; for (auto& f : fds) n += f.open && f.owner == owner; return n; }
  int nobjs() { int n = 0; for (auto* o : objs) n += o->linked; return n; }
  int nfiles() { int n = 0; for (auto& i : inodes) n += i.linked; return n; }
  int lockers(const std::string& p, int kind) { int i = linked(p), n = 0; for (auto& f : fds) n += f.open && f.inode == i && f.lock == kind; return n; }
  std::shared_ptr<ms::ISharedMemoryResource> map(Res* o) { const int p = proc; o->maps[p]++; return std::shared_ptr<ms::ISharedMemoryResource>{o, [o, p](ms::ISharedMemoryResource*) { o->maps[p]--; }}; }
  void die(int owner) { for (auto* o : objs) o->maps[owner] = 0; for (auto& f : fds) if (f.owner == owner) f.open = false; }
};
inline World* g_w = nullptr;
struct FakeFcntl final : Fcntl {
  score::cpp::expected<std::int32_t, Error> open(const char* p, const Open fl) const noexcept override { return open(p, fl, Stat::Mode::kNone); }
  score::cpp::expected<std::int32_t, Error> open(const char* p, const Open fl, const Stat::Mode) const noexcept override { g_w->step(); if (g_w->fail_open > 0 && --g_w->fail_open == 0) return err(EACCES); const bool create = (fl & Open::kCreate) == Open::kCreate; int i = g_w->linked(p); if (i >= 0 && create && (fl & Open::kExclusive) == Open::kExclusive) return err(EEXIST); if (i < 0) { if (!create) return err(ENOENT); i = static_cast<int>(g_w->inodes.size()); g_w->inodes.push_back({p, true}); } g_w->fds.push_back({i, 0, g_w->proc, true}); return 99 + static_cast<std::int32_t>(g_w->fds.size()); }
  score::cpp::expected_blank<Error> flock(const std::int32_t f, const Operation op) const noexcept override { g_w->step(); Fd& d = g_w->get(f); const auto o = static_cast<unsigned>(op); if (o & 8u) { d.lock = 0; return {}; } const int want = (o & 2u) ? 2 : 1; for (auto& x : g_w->fds) if (&x != &d && x.open && x.inode == d.inode && x.lock != 0 && (x.lock == 2 || want == 2)) { sym_assert((o & 4u) != 0, "a lock that may be held for ever is waited for"); return score::cpp::make_unexpected(Error::createFromErrnoFlockSpecific(EWOULDBLOCK)); } d.lock = want; return {}; }
};
struct FakeUnistd final : Unistd {
  score::cpp::expected_blank<Error> close(const std::int32_t f) const noexcept override { g_w->step(); Fd& d = g_w->get(f); d.open = false; d.lock = 0; return {}; }
  score::cpp::expected_blank<Error> unlink(const char* p) const noexcept override { g_w->step(); int i = g_w->linked(p); if (i < 0) return err(ENOENT); g_w->inodes[static_cast<std::size_t>(i)].linked = false; return {}; }
  uid_t getuid() const noexcept override { return g_w->uid; }
};
struct FakeStat final : Stat {
  score::cpp::expected_blank<Error> stat(const char* p, score::os::StatBuffer&, const bool) const noexcept override { if (g_w->linked(p) < 0) return err(ENOENT); return {}; }
  score::cpp::expected_blank<Error> fstat(const std::int32_t f, score::os::StatBuffer&) const noexcept override { (void)g_w->get(f); return {}; }
  score::cpp::expected_blank<Error> mkdir(const char*, const Mode) const noexcept override { return {}; }
  score::cpp::expected_blank<Error> chmod(const char* p, const Mode) const noexcept override { if (g_w->fail_chmod > 0 && --g_w->fail_chmod == 0) return err(EPERM); if (g_w->linked(p) < 0) return err(ENOENT); return {}; }
  score::cpp::expected_blank<Error> fchmod(const std::int32_t, const Mode) const noexcept override { return {}; }
};
inline void install(World* w) { g_w = w; Fcntl::set_testing_instance(*new FakeFcntl); Unistd::set_testing_instance(*new FakeUnistd); Stat::set_testing_instance(*new FakeStat); }
}
// stand-in for the shared-memory factory (checked by itself elsewhere): named objects that live until removed and unmapped
namespace score::memory::shared {
std::shared_ptr<ISharedMemoryResource> SharedMemoryFactory::Open(const std::string& path, const bool rw, const std::optional<score::cpp::span<const uid_t>>& providers) noexcept { fw::g_w->step(); auto* o = fw::g_w->object(path); if (o == nullptr || !o->initialised) return nullptr; o->opens++; o->last_rw = rw; o->had_providers = providers.has_value(); o->providers.clear(); if (providers.has_value()) for (auto u : *providers) o->providers.push_back(u); return fw::g_w->map(o); }
std::shared_ptr<ISharedMemoryResource> SharedMemoryFactory::Create(std::string path, InitializeCallback cb, const std::size_t n, const UserPermissions& perm, const bool) noexcept { auto* w = fw::g_w; w->step(); if (w->fail_create > 0 && --w->fail_create == 0) return nullptr; if (w->object(path) != nullptr) return nullptr; auto* o = new fw::Res{path, n, 1000u + static_cast<std::uint64_t>(w->objs.size())}; o->perm = perm; o->owner = w->proc; w->objs.push_back(o); w->created++; auto p = w->map(o); cb(p); w->step(); o->initialised = true; return p; }
void SharedMemoryFactory::Remove(const std::string& path) noexcept { fw::g_w->step(); if (auto* o = fw::g_w->object(path)) o->linked = false; }
void SharedMemoryFactory::RemoveStaleArtefacts(const std::string& path) noexcept { fw::g_w->step(); if (auto* o = fw::g_w->object(path)) o->linked = false; }
}
