// SOURCES: @mem score/memory/shared/shared_memory_error.cpp score/memory/shared/shared_memory_resource.cpp score/memory/shared/shared_memory_factory_impl.cpp score/memory/shared/lock_file.cpp score/memory/shared/i_shared_memory_resource.cpp score/memory/shared/i_shared_memory_factory.cpp score/memory/shared/typedshm/typedshm_wrapper/typed_memory.cpp
// ENTRY: h_shm_fit property=C23 reach=fits,full quick=60 thorough=300
// ENTRY: h_shm_alloc property=C23 reach=allocated,exhausted quick=120 thorough=900 defs=ALLOCS=2 tdefs=ALLOCS=3
// ENTRY: h_shm_alloc_conc property=C23 reach=done quick=60 thorough=900 defs=PRE=4 tdefs=PRE=8
// ENTRY: h_shm_alloc_corrupt property=C23 reach=inside,rejected quick=60 thorough=300
// ENTRY: h_shm_create property=C24 reach=created,busy,exists,refused,typed,readable,writable,users quick=120 thorough=900
// ENTRY: h_shm_open property=C24 reach=opened,missing,wrong_owner,locked,waited quick=120 thorough=900
// ENTRY: h_shm_create_or_open property=C24 reach=created,opened,raced,wrong_owner quick=120 thorough=900
// ENTRY: h_shm_life property=C24 reach=shared,again,removed,failed,stale quick=120 thorough=900 defs=STEPS=4 tdefs=STEPS=6
// ENTRY: h_shm_anon property=C24 reach=sealed,plain quick=60 thorough=300
// ASSUME: mmap returns page-aligned memory; file operations behave as POSIX says; a lock file held by another process goes away after some time or never; hashes of the paths used differ; user ids are below 2^31
// BOUND: one or two paths, objects up to 2 KiB with arbitrary requested sizes, every permission setting, owner, umask and fault; histories of 4 (6) operations; 2 (3) allocations of arbitrary size and power-of-two alignment up to 4096; 2 threads with 4 (8) preemptions
#include "fake_os.h"
#include "score/memory/shared/lock_file.h"
#include "score/memory/shared/memory_resource_proxy.h"
#include "score/memory/shared/memory_resource_registry.h"
#include "score/memory/shared/sealedshm/sealedshm_wrapper/sealed_shm.h"
#include "score/memory/shared/shared_memory_factory_impl.h"
#include "score/memory/shared/shared_memory_resource.h"
#include "score/memory/shared/typedshm/typedshm_wrapper/typed_memory.h"
using namespace score::memory::shared;
#ifndef ALLOCS
#define ALLOCS 2
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef PRE
#define PRE 2
#endif
using U = std::uint64_t; using fos::g_os; using score::os::Error;
namespace score::memory::shared {
std::optional<uid_t> AcquireTypedMemoryDaemonUid() noexcept { return std::nullopt; }
ISealedShm* SealedShm::mock_{nullptr}; void SealedShm::InjectMock(ISealedShm* m) noexcept { mock_ = m; } ISealedShm& SealedShm::instance() noexcept { return *mock_; }
}
struct FakeSeal : ISealedShm { unsigned opens{0}, seals{0};
  score::cpp::expected<std::int32_t, Error> OpenAnonymous(const mode_t m) noexcept override { opens++; fos::Obj& o = g_os->o[2]; o.exists = true; o.size = 0; o.uid = g_os->uid; o.mode = m; return g_os->new_fd(1, 2, true); }
  score::cpp::expected_blank<Error> Seal(int f, std::uint64_t n) noexcept override { seals++; if (!g_os->seal_ok) return fos::err(EPERM); g_os->o[g_os->get(f).obj].size = n; return {}; } };
struct FakeTyped : TypedMemory { mutable unsigned allocs{0}, unlinks{0}; bool works{true}; mutable std::size_t perm_kind{9};
  score::cpp::expected_blank<Error> AllocateNamedTypedMemory(const std::size_t n, const std::string p, const permission::UserPermissions& u) const noexcept override { int i = g_os->of(p.c_str()); g_os->locked(i, "typed memory is allocated without the lock"); allocs++; perm_kind = u.index(); if (!works) return fos::err(ENOMEM); fos::Obj& o = g_os->o[i]; o.exists = true; o.size = n; o.uid = g_os->uid; o.mode = 0; return {}; }
  score::cpp::expected<int, Error> AllocateAndOpenAnonymousTypedMemory(const std::uint64_t n) const noexcept override { allocs++; if (!works) return fos::err(ENOMEM); fos::Obj& o = g_os->o[2]; o.exists = true; o.size = n; o.uid = g_os->uid; return g_os->new_fd(1, 2, true); }
  score::cpp::expected_blank<Error> Unlink(std::string_view p) const noexcept override { unlinks++; g_os->o[g_os->of(std::string{p}.c_str())].exists = false; return {}; }
  score::cpp::expected<uid_t, Error> GetCreatorUid(std::string_view) const noexcept override { return fos::err(EIO); } };
constexpr U kMem = 4096;
static char* page() { static char pool[4 * kMem + kMem]; static unsigned n = 0; U b = (reinterpret_cast<U>(pool) + kMem - 1) & ~(kMem - 1); return reinterpret_cast<char*>(b) + kMem * n++; }
static fos::Os* world() { auto* os = new fos::Os; os->o[0].path = "/a"; os->o[1].path = "/intervm-shared-shmem/b"; for (auto& o : os->o) o.mem = page(); fos::install(os); return os; }
using F = SharedMemoryFactoryImpl; using R = std::shared_ptr<ISharedMemoryResource>;
static U mgmt(const R& r) { return reinterpret_cast<U>(r->getUsableBaseAddress()) - reinterpret_cast<U>(r->getBaseAddress()); }
// ---- allocation
extern "C" void h_shm_fit() {
  U s = sym_u64("start"), e = sym_u64("end"), n = sym_u64("bytes"), a = 1ull << sym_choose(13, "alignment"); sym_assume((s != 0) & (e != 0)); void* got = nullptr; bool ok = !sym_try_f([&] { got = detail::do_allocation_algorithm(reinterpret_cast<void*>(s), reinterpret_cast<void*>(e), n, a); });
  unsigned __int128 al = (static_cast<unsigned __int128>(s) + a - 1) & ~(static_cast<unsigned __int128>(a) - 1); bool fits = al + n <= e; U g = reinterpret_cast<U>(got);
  if (!ok) { sym_assert((s > e ? s - e : e - s) > 0x7FFFFFFFFFFFFFFFull, "terminates"); return; }
  if (got) { sym_reach("fits"); sym_assert(fits, "memory is handed out that does not lie between start and end"); sym_assert(g == static_cast<U>(al), "not the lowest aligned address"); } else { sym_reach("full"); sym_assert(!fits, "memory that is there is not handed out"); }
}
static R make(F& f, U user, bool* called = nullptr) { return f.Create("/a", [called](R) { if (called) *called = true; }, user, SharedMemoryResource::UserPermissionsMap{}, false); }
extern "C" void h_shm_alloc() {
  auto* os = world(); F f; U user = sym_range(0, 1024, "user_size"); R r = make(f, user); sym_assert(r != nullptr, "created"); U base = reinterpret_cast<U>(os->o[0].mem), lo = reinterpret_cast<U>(r->getUsableBaseAddress()), hi = base + os->o[0].size; sym_assert((lo > base) & (hi - lo >= user), "the requested space is not reserved"); sym_assert((lo & (alignof(std::max_align_t) - 1)) == 0, "usable memory is not aligned"); sym_assert(r->GetUserAllocatedBytes() == 0, "nothing is allocated yet");
  U at[ALLOCS], sz[ALLOCS], end = lo;
  for (unsigned i = 0; i < ALLOCS; i++) { U n = sym_u64("bytes"), a = 1ull << (i == 0 ? sym_choose(5, "alignment") : 3 * sym_choose(5, "alignment")); U al = (end + a - 1) & ~(a - 1); bool fits = (al <= hi) & (n <= hi - al); void* p = nullptr; bool ok = !sym_try_f([&] { p = r->allocate(n, a); });
    sym_assert(ok == fits, "memory is handed out exactly if there is enough left"); if (!ok) { sym_reach("exhausted"); return; } at[i] = reinterpret_cast<U>(p); sz[i] = n; sym_assert((at[i] & (a - 1)) == 0, "allocated memory is not aligned"); sym_assert((at[i] >= lo) & (at[i] <= hi) & (n <= hi - at[i]), "allocated memory lies outside of the shared memory"); for (unsigned k = 0; k < i; k++) sym_assert((at[k] + sz[k] <= at[i]) | (at[i] + n <= at[k]), "two allocations overlap"); end = at[i] + n; sym_assert(r->GetUserAllocatedBytes() == end - lo, "number of allocated bytes"); r->deallocate(p, n, a); sym_assert(r->GetUserAllocatedBytes() == end - lo, "memory is handed out again after it was given back"); }
  sym_reach("allocated");
}
extern "C" void h_shm_alloc_conc() {
  auto* os = world(); F f; R r = make(f, 512); U n0 = sym_range(1, 64, "bytes0"), n1 = sym_range(1, 64, "bytes1"), p0 = 0, p1 = 0, p2 = 0; U base = reinterpret_cast<U>(os->o[0].mem); sym_shared(os->o[0].mem, mgmt(r), 3);
  sym_par(PRE, 0, 0, [&] { p0 = reinterpret_cast<U>(r->allocate(n0, 8)); p2 = reinterpret_cast<U>(r->allocate(16, 16)); }, [&] { p1 = reinterpret_cast<U>(r->allocate(n1, 32)); });
  U lo = base + mgmt(r), hi = base + os->o[0].size; auto in = [&](U p, U n, U a) { sym_assert((p >= lo) & (p <= hi) & (n <= hi - p) & ((p & (a - 1)) == 0), "concurrently allocated memory lies outside of the shared memory or is not aligned"); }; in(p0, n0, 8); in(p1, n1, 32); in(p2, 16, 16);
  auto dis = [&](U a, U n, U b, U m) { sym_assert((a + n <= b) | (b + m <= a), "two concurrent allocations overlap"); }; dis(p0, n0, p1, n1); dis(p0, n0, p2, 16); dis(p1, n1, p2, 16); sym_assert(r->GetUserAllocatedBytes() >= n0 + n1 + 16, "an allocation is not accounted for"); sym_reach("done");
}
extern "C" void h_shm_alloc_corrupt() { // the management data is in shared memory: whatever is in there, no memory outside of the region is handed out
  auto* os = world(); F f; R r = make(f, 256); U base = reinterpret_cast<U>(os->o[0].mem), m = mgmt(r), n = sym_u64("bytes"), a = 1ull << sym_choose(7, "alignment"); for (U i = 0; i < m; i += 8) *reinterpret_cast<U*>(base + i) = sym_u64("management_data"); void* p = nullptr;
  bool ok = !sym_try_f([&] { p = r->allocate(n, a); }); if (!ok) { sym_reach("rejected"); return; } U g = reinterpret_cast<U>(p); sym_assert((g >= base) & (g <= base + os->o[0].size) & (n <= base + os->o[0].size - g), "memory outside of the region is handed out"); sym_reach("inside");
}
// ---- creation and opening
static SharedMemoryResource::UserPermissions perms(unsigned k, uid_t a, uid_t b, uid_t c) { using namespace score::memory::shared::permission; if (k == 1) return WorldReadable{}; if (k == 2) return WorldWritable{}; UserPermissionsMap m; if (k == 3) { m[score::os::Acl::Permission::kRead] = {a, b}; m[score::os::Acl::Permission::kWrite] = {c}; } return m; }
static void check_perms(fos::Os* os, fos::Obj& o, unsigned k, uid_t a, uid_t b, uid_t c) {
  switch (k) {
    case 1: sym_assert(o.mode == (0644u & ~os->umask), "world readable memory: readable by all, writable by the owner only"); sym_assert(o.acl_n == 0, "no individual rights"); sym_reach("readable"); break;
    case 2: sym_assert(o.mode == (os->fchmod_fails ? (0666u & ~os->umask) : 0666u), "world writable memory is readable and writable by all, whatever the umask"); sym_assert(o.acl_n == 0, "no individual rights"); sym_reach("writable"); break;
    default: sym_assert(o.mode == (0600u & ~os->umask), "memory for particular users is accessible to others"); if (k == 0) { sym_assert(o.acl_n == 0, "nobody else gets access"); break; }
      sym_assert(o.acl_n == 3, "every user gets its right"); bool ra = false, rb = false, wc = false; for (unsigned i = 0; i < 3; i++) { bool rd = o.acl_perm[i] == static_cast<int>(score::os::Acl::Permission::kRead), wr = o.acl_perm[i] == static_cast<int>(score::os::Acl::Permission::kWrite); ra |= rd & (o.acl_user[i] == a); rb |= rd & (o.acl_user[i] == b); wc |= wr & (o.acl_user[i] == c); sym_assert((rd & ((o.acl_user[i] == a) | (o.acl_user[i] == b))) | (wr & (o.acl_user[i] == c)), "a user gets a right it was not given"); } sym_assert(ra & rb & wc, "a user does not get its right"); sym_reach("users"); } }
static void no_leak(fos::Os* os) { sym_assert(os->open_fds() == 0, "a file descriptor is left open"); for (auto& o : os->o) sym_assert((o.maps == 0) & !(o.lock & o.lock_ours), "a mapping or the lock is left behind"); }
static bool known(fos::Obj& o) { auto b = MemoryResourceRegistry::getInstance().GetBoundsFromAddress(o.mem + 8); return b.has_value() && b->GetStartAddress() == reinterpret_cast<U>(o.mem) && b->GetEndAddress() == reinterpret_cast<U>(o.mem) + o.size; }
extern "C" void h_shm_create() {
  auto* os = world(); F f; unsigned i = static_cast<unsigned>(sym_choose(2, "path")), k = static_cast<unsigned>(sym_choose(4, "permissions")); auto& o = os->o[i]; os->umask = sym_range(0, 0777, "umask"); os->uid = static_cast<std::uint32_t>(sym_range(0, 0x7FFFFFFF, "uid")); bool foreign = false, exists = false; uid_t a = sym_u32("user_a"), b = sym_u32("user_b"), c = sym_u32("user_c");
  switch (sym_choose(6, "situation")) { case 1: o.lock = true; o.foreign = 255; foreign = true; break; case 2: o.exists = exists = true; o.uid = 7; break; case 3: os->chmod_fails = true; break; case 4: os->fchmod_fails = true; break; case 5: os->shm_errno = sym_choose(2, "errno") ? EACCES : ENOSPC; break; default:; }
  U user = sym_range(0, 1024, "size"); unsigned calls = 0; R r; unsigned want = i == 1 ? 1 : static_cast<unsigned>(sym_choose(2, "typed")), prov = want ? static_cast<unsigned>(sym_choose(3, "provider")) : 0; bool typed = i == 0 && want; auto tm = std::make_shared<FakeTyped>(); if (i == 0) f.SetTypedMemoryProvider(nullptr); if (prov) { tm->works = prov == 1; if (i == 0) f.SetTypedMemoryProvider(tm); else f.SetInterVMMemoryProvider(tm); } if (prov == 1) sym_assume(!exists);
  bool ok = !sym_try_f([&] { r = f.Create(o.path, [&](R x) { calls++; sym_assert(o.lock & o.lock_ours, "initialised without the lock"); sym_assert(x->getBaseAddress() == o.mem, "initialised with other memory"); sym_assert(known(o), "initialised before the memory is known"); if (user >= 16) { U p = reinterpret_cast<U>(x->allocate(16, 8)); sym_assert((p > reinterpret_cast<U>(o.mem)) & (p + 16 <= reinterpret_cast<U>(o.mem) + o.size), "space"); } }, user, perms(k, a, b, c), typed); });
  bool can = !foreign & !exists & !os->chmod_fails & (os->shm_errno == 0) & (!want | (prov != 0)); sym_assert((ok && r != nullptr) == can, "the memory is created exactly if it does not exist and nothing fails");
  sym_assert(ok | (os->shm_errno != 0), "creating something that is there or being created terminates the process");
  if (!ok) return; sym_assert(calls == (can ? 1u : 0u), "memory is initialised exactly once by its creator"); if (foreign) { sym_reach("busy"); sym_assert(o.lock, "the lock of another process is removed"); } else sym_assert(!o.lock, "the lock is left behind"); if (exists) { sym_reach("exists"); sym_assert(o.exists & (o.uid == 7) & (o.size == 0), "the memory of another process is touched"); }
  if (!r) { if (want && !prov) { sym_reach("refused"); sym_assert(os->opens == 0, "memory that cannot be provided is created"); } no_leak(os); return; }
  sym_reach("created"); sym_assert(o.exists & (o.size >= user) & (o.maps == 1), "created and mapped once, large enough"); if (prov == 1) { sym_reach("typed"); sym_assert((tm->allocs == 1) & (tm->perm_kind == perms(k, a, b, c).index()) & r->IsShmInTypedMemory(), "memory of the provider"); } else { check_perms(os, o, k, a, b, c); sym_assert(!r->IsShmInTypedMemory(), "ordinary memory"); } sym_assert(*r->getPath() == o.path, "path"); sym_assert(known(o), "the memory is not known to the bounds check"); sym_assert(r->getBaseAddress() == o.mem, "base"); bool rm = sym_choose(2, "remove"); if (rm) f.Remove(o.path); sym_assert(o.exists == !rm, "removed exactly on request"); sym_assert((tm->unlinks == 1) == (rm & (prov == 1)), "memory is removed where it was created"); r.reset(); sym_assert(!known(o), "memory that is gone is still known"); no_leak(os); sym_assert(o.exists == !rm, "memory is removed although nobody asked for it");
}
static void foreign_object(fos::Os* os, fos::Obj& o, U size, std::uint32_t uid) { o.exists = true; o.uid = uid; o.size = size; *reinterpret_cast<U*>(o.mem) = 16; *reinterpret_cast<U*>(o.mem + 8) = 99; (void)os; }
extern "C" void h_shm_open() {
  auto* os = world(); F f; auto& o = os->o[0]; os->uid = static_cast<std::uint32_t>(sym_range(0, 0x7FFFFFFF, "own_uid")); std::uint32_t owner = static_cast<std::uint32_t>(sym_range(0, 0x7FFFFFFF, "owner")); uid_t allowed[2] = {static_cast<std::uint32_t>(sym_range(0, 0x7FFFFFFF, "allowed_a")), static_cast<std::uint32_t>(sym_range(0, 0x7FFFFFFF, "allowed_b"))}; bool rw = sym_choose(2, "rw"), missing = false, never = false;
  U size = sym_range(32, 2048, "size"); switch (sym_choose(7, "situation")) { case 0: missing = true; break; case 1: foreign_object(os, o, size, owner); o.lock = true; o.foreign = 255; never = true; break; case 2: foreign_object(os, o, size, owner); o.lock = true; o.foreign = 2; sym_reach("waited"); break; case 3: foreign_object(os, o, size, owner); os->shm_errno = EACCES; break; case 4: foreign_object(os, o, size, owner); os->lock_errno = EEXIST; break; default: foreign_object(os, o, size, owner); }
  std::optional<score::cpp::span<const uid_t>> al; unsigned na = static_cast<unsigned>(sym_choose(4, "allowed")); if (na) al.emplace(score::cpp::span<const uid_t>(allowed, na - 1)); bool in = owner == os->uid; for (unsigned k = 0; k + 1 < na; k++) in |= owner == allowed[k]; bool may = (na == 0) | in; R r;
  bool ok = !sym_try_f([&] { r = f.Open(o.path, rw, al); }); bool can = !missing & !never & (os->shm_errno == 0);
  sym_assert(ok | never, "opening terminates the process"); if (!ok) { sym_reach("locked"); return; } sym_assert(!never, "memory is opened although another process is still creating it"); sym_assert((r != nullptr) == (can & may), "memory is opened exactly if it is there and its owner is allowed"); sym_assert(!o.lock, "the lock is left behind"); if (missing) sym_reach("missing");
  if (!r) { if (can) sym_reach("wrong_owner"); no_leak(os); sym_assert(!known(o), "memory that was not opened is known"); return; }
  sym_reach("opened"); sym_assert((r->getBaseAddress() == o.mem) & (o.maps == 1), "mapped once"); sym_assert(known(o), "the memory is not known to the bounds check"); sym_assert(mgmt(r) == 16 || mgmt(r) > 0, "usable"); R r2 = f.Open(o.path, rw, al); sym_assert(r2 == r, "opened a second time: the same memory"); sym_assert(o.maps == 1, "mapped once"); r.reset(); sym_assert(known(o) & (o.maps == 1), "memory still in use is unmapped"); r2.reset(); no_leak(os); sym_assert(!known(o), "unmapped memory is still known"); sym_assert(o.exists, "memory of another process is removed");
}
extern "C" void h_shm_create_or_open() {
  auto* os = world(); F f; auto& o = os->o[0]; os->uid = static_cast<std::uint32_t>(sym_range(0, 0x7FFFFFFF, "own_uid")); std::uint32_t owner = static_cast<std::uint32_t>(sym_range(0, 0x7FFFFFFF, "owner")); uid_t allowed[1] = {static_cast<std::uint32_t>(sym_range(0, 0x7FFFFFFF, "allowed"))}; bool there = false, race = false; U size = 512; switch (sym_choose(3, "situation")) { case 0: break; case 1: there = true; foreign_object(os, o, size, owner); break; default: race = true; foreign_object(os, o, size, owner); o.exists = false; os->appear_on_create = true; }
  unsigned k = static_cast<unsigned>(sym_choose(3, "permissions")), na = static_cast<unsigned>(sym_choose(3, "allowed")); std::optional<score::cpp::span<const uid_t>> al; if (na) al.emplace(score::cpp::span<const uid_t>(allowed, na - 1)); unsigned calls = 0; auto p = perms(k, 1, 2, 3); SharedMemoryResource::AccessControl ac{p, al}; R r;
  bool ok = !sym_try_f([&] { r = f.CreateOrOpen(o.path, [&](R) { calls++; sym_assert(o.lock & o.lock_ours, "initialised without the lock"); }, 100, ac, false); }); sym_assert(ok, "terminates"); bool mine = !there & !race; std::uint32_t ow = mine ? os->uid : owner; bool may = (na == 0) | (ow == os->uid) | ((na == 2) & (ow == allowed[0]));
  sym_assert(calls == (mine ? 1u : 0u), "initialised exactly by the process that creates it"); sym_assert(!o.lock, "the lock is left behind"); sym_assert((r != nullptr) == may, "returned exactly if the owner is allowed"); sym_assert(o.exists & (o.uid == ow), "the memory of another process is replaced"); if (mine) check_perms(os, o, k, 1, 2, 3);
  if (!r) { sym_reach("wrong_owner"); no_leak(os); return; } sym_reach(mine ? "created" : race ? "raced" : "opened"); sym_assert(mine ? o.size >= 100 : o.size == size, "size"); sym_assert(o.maps == 1, "mapped once"); sym_assert(known(o), "not known"); { U pt = reinterpret_cast<U>(r->allocate(8, 8)); sym_assert((pt >= reinterpret_cast<U>(r->getUsableBaseAddress())), "writable"); } r.reset(); no_leak(os);
}
extern "C" void h_shm_life() { // histories of creating, opening, removing and dropping the same memory
  auto* os = world(); F f; auto& o = os->o[0]; R h[STEPS + 1]; unsigned n = 0; unsigned live_gen = 0; std::weak_ptr<ISharedMemoryResource> cur; bool stale_lock = false;
  auto shared_now = [&] { return cur.lock(); }; auto any_live = [&] { for (auto& x : h) if (x) return true; return false; };
  auto check = [&] { unsigned live = 0; for (unsigned i = 0; i < n; i++) if (h[i]) live++; (void)live; sym_assert(known(o) == any_live(), "memory is known to the bounds check exactly as long as it is used"); sym_assert((o.maps != 0) == any_live(), "memory is mapped exactly as long as it is used"); sym_assert(!o.lock | stale_lock, "the lock is left behind"); };
  for (unsigned i = 0; i < STEPS; i++) { switch (sym_choose(6, "op")) {
    case 0: { bool exists = o.exists, live = any_live(), sh = shared_now() != nullptr; if (live && !sh && !exists) break; /* same name as memory still in use: not supported */ R r = f.Create("/a", [](R) {}, 64, SharedMemoryResource::UserPermissionsMap{}, false); sym_assert((r != nullptr) == (!exists & !sh & !stale_lock), "created exactly if it is not there"); if (r) { cur = r; h[n++] = r; live_gen++; sym_reach("again"); } else sym_reach("failed"); break; }
    case 1: { bool exists = o.exists; R s = shared_now(); if (stale_lock && !s) break; if (any_live() && !s && exists) break; R r = f.Open("/a", sym_choose(2, "rw"), {}); sym_assert((r != nullptr) == (exists | (s != nullptr)), "opened exactly if it is there"); if (s) { sym_assert(r == s, "the same memory is shared within the process"); sym_reach("shared"); } if (r) { cur = r; h[n++] = r; } else sym_reach("failed"); break; }
    case 2: if (n && h[n - 1]) h[n - 1].reset(); else if (n > 1) h[0].reset(); break;
    case 3: { bool sh = shared_now() != nullptr, exists = o.exists; f.Remove("/a"); sym_assert(o.exists == (exists & !sh), "removing removes exactly what this process uses"); if (sh) { sym_reach("removed"); cur.reset(); } break; }
    case 4: { if (shared_now()) break; o.lock = sym_choose(2, "stale_lock"); stale_lock = o.lock; f.RemoveStaleArtefacts("/a"); sym_assert(!o.exists & !o.lock, "artefacts of a crashed process are left behind"); stale_lock = false; sym_reach("stale"); break; }
    default: if (!o.exists && !any_live()) { foreign_object(os, o, 256, 5); if (sym_choose(2, "crashed")) { o.lock = true; o.lock_ours = false; o.foreign = 255; stale_lock = true; } } }
    check(); }
  for (auto& x : h) x.reset(); check(); no_leak(os);
}
extern "C" void h_shm_anon() {
  auto* os = world(); F f; FakeSeal seal; SealedShm::InjectMock(&seal); auto& o = os->o[2]; os->seal_ok = sym_choose(2, "seal"); unsigned k = static_cast<unsigned>(sym_choose(4, "permissions")), calls = 0; os->umask = 0; U user = sym_range(0, 512, "size"), id = sym_choose(2, "id") ? 77 : 0xFFFFFFFFFFFFFFFFull;
  R r = f.CreateAnonymous(id, [&](R x) { calls++; sym_assert(x->getBaseAddress() == o.mem, "base"); }, user, perms(k, 1, 2, 3), false); sym_assert(r != nullptr, "created"); sym_assert((calls == 1) & (o.maps == 1) & (o.size >= user + 1), "initialised once, mapped once, large enough"); sym_assert((r->getPath() == nullptr) & (seal.opens == 1) & (seal.seals == 1), "anonymous memory is sealed"); check_perms(os, o, k, 1, 2, 3); sym_assert(MemoryResourceRegistry::getInstance().at(id) == r.get(), "registered under its id"); sym_reach(os->seal_ok ? "sealed" : "plain"); sym_assert(known(o), "known");
  U lo = reinterpret_cast<U>(r->getUsableBaseAddress()); if (user >= 8) { U p = reinterpret_cast<U>(r->allocate(8, 8)); sym_assert((p >= lo) & (p + 8 <= reinterpret_cast<U>(o.mem) + o.size), "space"); } r.reset(); no_leak(os); sym_assert(!known(o) & (MemoryResourceRegistry::getInstance().at(id) == nullptr), "still registered");
}
