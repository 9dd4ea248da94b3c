// SOURCES: score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp score/mw/com/impl/bindings/lola/service_discovery/flag_file_crawler.cpp score/mw/com/impl/bindings/lola/service_discovery/known_instances_container.cpp score/mw/com/impl/bindings/lola/service_discovery/lola_service_instance_identifier.cpp score/mw/com/impl/service_discovery.cpp score/mw/com/impl/i_service_discovery.cpp score/mw/com/impl/i_service_discovery_client.cpp score/mw/com/impl/find_service_handle.cpp @mem @fakert score/mw/com/impl/com_error.cpp score/mw/com/impl/instance_identifier.cpp score/mw/com/impl/instance_specifier.cpp score/mw/com/impl/handle_type.cpp score/mw/com/impl/enriched_instance_identifier.cpp score/mw/com/impl/configuration/configuration.cpp score/mw/com/impl/configuration/configuration_common_resources.cpp score/mw/com/impl/configuration/configuration_error.cpp score/mw/com/impl/configuration/global_configuration.cpp score/mw/com/impl/configuration/tracing_configuration.cpp score/mw/com/impl/configuration/lola_event_id.cpp score/mw/com/impl/configuration/lola_event_instance_deployment.cpp score/mw/com/impl/configuration/lola_field_id.cpp score/mw/com/impl/configuration/lola_field_instance_deployment.cpp score/mw/com/impl/configuration/lola_method_id.cpp score/mw/com/impl/configuration/lola_method_instance_deployment.cpp score/mw/com/impl/configuration/lola_service_element_id.cpp score/mw/com/impl/configuration/lola_service_id.cpp score/mw/com/impl/configuration/lola_service_instance_deployment.cpp score/mw/com/impl/configuration/lola_service_instance_id.cpp score/mw/com/impl/configuration/lola_service_type_deployment.cpp score/mw/com/impl/configuration/quality_type.cpp score/mw/com/impl/configuration/service_identifier_type.cpp score/mw/com/impl/configuration/service_instance_deployment.cpp score/mw/com/impl/configuration/service_instance_id.cpp score/mw/com/impl/configuration/service_type_deployment.cpp score/mw/com/impl/configuration/service_version_type.cpp score/mw/com/impl/configuration/shm_size_calc_mode.cpp
// ENTRY: h_sd_history property=C32 reach=found,gone,late,idle,end quick=250 thorough=900 defs=K=5 tdefs=K=6
// ENTRY: h_sd_callbacks property=C32 reach=found,gone,late,self,other,nested,end quick=250 thorough=900 defs=K=4 tdefs=K=5
// ENTRY: h_sd_restart property=C32 reach=crashed,found,gone,late,end quick=250 thorough=900 defs=K=6 tdefs=K=7
// ENTRY: h_sd_faults property=C32 reach=offer_failed,search_failed,end quick=250 thorough=900 defs=K=4 tdefs=K=5
// ENTRY: h_sd_batch property=C32 reach=stale quick=60 thorough=100
// ENTRY: h_sd_threads property=C32 reach=called,missed quick=100 thorough=900 defs=PRE=3 tdefs=PRE=5
// ENTRY: h_sd_names property=C32 reach=number,other,b,qm,none quick=100 thorough=300 defs=NL=3 tdefs=NL=4
// ENTRY: h_sd_known property=C32 reach=ids,new,again,gone quick=100 thorough=300 defs=K=2,NI=2 tdefs=K=3,NI=2
// BOUND: histories of 4 (5) steps over two instances, two searches and batches of 1 or all events
// ASSUME: only the real client changes flag files
#include "sym.h"
#include "score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.h"
#include "score/mw/com/impl/bindings/lola/service_discovery/flag_file_crawler.h"
#include "score/mw/com/impl/service_discovery.h"
#include "score/mw/com/impl/i_runtime.h"
#include "score/mw/com/impl/i_binding_runtime.h"
#include "score/mw/com/impl/configuration/lola_service_instance_deployment.h"
#include "score/mw/com/impl/configuration/lola_service_type_deployment.h"
#include <string>
#include <vector>
#include <memory>
#ifndef K
#define K 4
#endif
#ifndef PRE
#define PRE 3
#endif
#ifndef NI
#define NI 2
#endif
#ifndef NL
#define NL 6
#endif
namespace I = score::mw::com::impl; namespace L = score::mw::com::impl::lola; namespace FS = score::filesystem; namespace os = score::os; using QT = I::QualityType; using Err = os::Error;
namespace {
bool flip(const char* n) { return sym_choose(2, n) != 0; }
const std::string kRoot = "/tmp/mw_com_lola/service_discovery/7"; constexpr std::uint16_t kId[2] = {1, 12};
score::result::Error bad() { return I::MakeError(I::ComErrc::kBindingFailure, "fs"); }
struct Ev { int wd; std::uint32_t mask; std::string name; };
struct World { std::vector<std::string> dirs, files, watched; std::vector<Ev> q; std::vector<int> ign; bool stale[2][2]{}; int fail_dirs = 0, fail_watch = 0, fail_open = 0, fail_perm = 0; // a watch descriptor is an index into watched + 1, "" = removed
  bool has(const std::vector<std::string>& v, const std::string& p) const { for (auto& x : v) if (x == p) return true; return false; }
  void event(const std::string& path, std::uint32_t mask) { auto s = path.rfind('/'); auto par = path.substr(0, s); for (std::size_t i = 0; i < watched.size(); i++) if (watched[i] == par) q.push_back(Ev{static_cast<int>(i) + 1, mask, path.substr(s + 1)}); }
  void mkdirs(const std::string& p) { if (p.empty() || has(dirs, p)) return; mkdirs(p.substr(0, p.rfind('/'))); dirs.push_back(p); event(p, 0x40000100u); }
  bool flag(int i, bool b) const { auto pre = kRoot + "/" + (i == 0 ? "1" : "12") + "/"; for (auto& f : files) if (f.compare(0, pre.size(), pre) == 0 && f.find(b ? "asil-b" : "asil-qm", pre.size()) != std::string::npos) return true; return false; }
  int nflags(int i) const { auto pre = kRoot + "/" + (i == 0 ? "1" : "12") + "/"; int n = 0; for (auto& f : files) n += f.compare(0, pre.size(), pre) == 0; return n; }
};
World* g;
struct Std : FS::IStandardFilesystem {
  score::Result<bool> Exists(const FS::Path& p) const noexcept override { return g->has(g->dirs, p.Native()) || g->has(g->files, p.Native()); }
  score::Result<FS::FileStatus> Status(const FS::Path& p) const noexcept override { if (g->has(g->dirs, p.Native())) return FS::FileStatus{FS::FileType::kDirectory, static_cast<FS::Perms>(0777)}; if (g->has(g->files, p.Native())) return FS::FileStatus{FS::FileType::kRegular, static_cast<FS::Perms>(0644)}; return score::Unexpected{bad()}; }
  score::Result<void> Permissions(const FS::Path& p, const FS::Perms m, const FS::PermOptions o) const noexcept override { sym_assert(g->has(g->files, p.Native()) && o == FS::PermOptions::kReplace, "rights of something else"); if (g->fail_perm > 0) { g->fail_perm--; return score::Unexpected{bad()}; } sym_assert(static_cast<std::uint32_t>(m) == static_cast<std::uint32_t>(os::Stat::Mode::kReadUser | os::Stat::Mode::kWriteUser | os::Stat::Mode::kReadGroup | os::Stat::Mode::kReadOthers), "everybody may read a flag file, only the owner may write it"); return {}; }
  score::Result<void> Remove(const FS::Path& p) const noexcept override { auto& f = g->files; for (std::size_t i = 0; i < f.size(); i++) if (f[i] == p.Native()) { f.erase(f.begin() + static_cast<std::ptrdiff_t>(i)); g->event(p.Native(), 0x200u); return {}; } sym_assert(!g->has(g->dirs, p.Native()), "a directory is removed"); return score::Unexpected{bad()}; }
  score::Result<std::vector<FS::Path>> List(const FS::Path& p) const noexcept override { std::vector<FS::Path> r; auto pre = p.Native() + "/"; for (auto* v : {&g->dirs, &g->files}) for (auto& x : *v) if (x.compare(0, pre.size(), pre) == 0 && x.find('/', pre.size()) == std::string::npos) r.push_back(FS::Path{x}); return r; }
};
struct Utl : FS::IFileUtils {
  score::Result<void> CreateDirectories(const FS::Path& p, const FS::Perms) const noexcept override { if (g->fail_dirs > 0) { g->fail_dirs--; return score::Unexpected{bad()}; } g->mkdirs(p.Native()); return {}; }
  score::Result<void> CreateDirectory(const FS::Path& p, const FS::Perms) const noexcept override { g->mkdirs(p.Native()); return {}; }
};
struct Fac : FS::IFileFactory { score::Result<std::unique_ptr<std::iostream>> Open(const FS::Path& p, const std::ios_base::openmode) const noexcept override { if (g->fail_open > 0) { g->fail_open--; return score::Unexpected{bad()}; } sym_assert(g->has(g->dirs, p.ParentPath().Native()), "a file without its directory"); if (!g->has(g->files, p.Native())) { g->files.push_back(p.Native()); g->event(p.Native(), 0x100u); } return std::unique_ptr<std::iostream>{}; } };
struct Ino : os::InotifyInstance {
  bool mine; void (*script)() = nullptr; score::cpp::static_vector<os::InotifyEvent, max_events> batch; int closed = 0; explicit Ino(bool m) : mine{m} {}
  score::cpp::expected_blank<Err> IsValid() const noexcept override { return {}; }
  void Close() noexcept override { closed++; }
  score::cpp::expected<os::InotifyWatchDescriptor, Err> AddWatch(std::string_view path, os::Inotify::EventMask m) noexcept override { sym_assert(mine, "harness: only one watching process"); sym_assert(static_cast<std::uint32_t>(m) == 0x300u, "creation and deletion are watched"); if (g->fail_watch > 0) { g->fail_watch--; return score::cpp::make_unexpected(Err::createFromErrno(ENOSPC)); } std::string p{path}; sym_assert(g->has(g->dirs, p), "a watch on a missing directory"); for (std::size_t i = 0; i < g->watched.size(); i++) if (g->watched[i] == p) return os::InotifyWatchDescriptor{static_cast<int>(i) + 1}; g->watched.push_back(p); return os::InotifyWatchDescriptor{static_cast<int>(g->watched.size())}; }
  score::cpp::expected_blank<Err> RemoveWatch(os::InotifyWatchDescriptor d) noexcept override { auto i = static_cast<std::size_t>(d.GetUnderlying() - 1); sym_assert(i < g->watched.size() && !g->watched[i].empty(), "an unknown watch is removed"); g->watched[i].clear(); g->q.push_back(Ev{d.GetUnderlying(), 0x8000u, ""}); return {}; }
  score::cpp::expected<score::cpp::static_vector<os::InotifyEvent, max_events>, Err> Read() noexcept override { batch.clear(); if (script) script(); return batch; }
  // known finding: of the events of one batch deletions are handled before creations, so that a flag created and deleted within one batch stays known until the next deletion
  static void note(const Ev& e, bool (*made)[2]) { if ((e.mask & 0x300u) == 0 || (e.mask & 0x40000000u) != 0) return; auto& w = g->watched[static_cast<std::size_t>(e.wd - 1)]; if (w.size() <= kRoot.size() + 1) return; int i = w.substr(kRoot.size() + 1) == "1" ? 0 : 1, b = e.name.find("asil-b") != std::string::npos; if ((e.mask & 0x100u) != 0) made[i][b] = true; else { g->stale[i][b] = made[i][b]; made[i][b] = false; } }
  void deliver(std::size_t n) { bool made[2][2]{}; for (; n > 0 && !g->q.empty() && batch.size() < max_events; n--) { auto e = g->q.front(); note(e, made); g->q.erase(g->q.begin()); batch.emplace_back(os::InotifyWatchDescriptor{e.wd}, static_cast<os::InotifyEvent::ReadMask>(e.mask), e.name); } }
};
FS::Filesystem files() { FS::Filesystem f; f.standard = std::make_shared<Std>(); f.utils = std::make_shared<Utl>(); f.streams = std::make_shared<Fac>(); FS::IStandardFilesystem::stub_instance() = f.standard.get(); FS::stub_filesystem() = f; return f; }
I::ServiceIdentifierType svc() { return I::make_ServiceIdentifierType("s", 1, 0); }
struct Dep { I::ServiceTypeDeployment t; std::vector<I::ServiceInstanceDeployment> d; std::vector<I::InstanceIdentifier> id; // 0..1 instance 1 (B, QM); 2..3 instance 12; 4..5 any
  Dep() : t{I::LolaServiceTypeDeployment{7}} { d.reserve(6); auto sp = I::InstanceSpecifier::Create(std::string{"a"}).value(); for (int i = 0; i < 6; i++) { std::optional<I::LolaServiceInstanceId> iid; if (i < 4) iid = I::LolaServiceInstanceId{kId[i / 2]}; d.emplace_back(svc(), I::LolaServiceInstanceDeployment{iid}, i % 2 == 0 ? QT::kASIL_B : QT::kASIL_QM, sp); } for (auto& x : d) id.push_back(I::make_InstanceIdentifier(x, t)); } };
struct Rt : I::IRuntime, I::IBindingRuntime {
  L::ServiceDiscoveryClient* c = nullptr; I::ServiceDiscovery* sd = nullptr; std::vector<I::InstanceIdentifier> found;
  std::vector<I::InstanceIdentifier> resolve(const I::InstanceSpecifier&) const override { return found; }
  I::IBindingRuntime* GetBindingRuntime(const I::BindingType) const noexcept override { return const_cast<Rt*>(this); }
  I::IServiceDiscovery& GetServiceDiscovery() & noexcept override { return *sd; }
  I::tracing::ITracingRuntime* GetTracingRuntime() const noexcept override { return nullptr; }
  const I::tracing::ITracingFilterConfig* GetTracingFilterConfig() const override { return nullptr; }
  I::BindingType GetBindingType() const noexcept override { return I::BindingType::kLoLa; }
  I::IServiceDiscoveryClient& GetServiceDiscoveryClient() & noexcept override { return *c; }
  I::tracing::IBindingTracingRuntime* GetTracingRuntime() noexcept override { return nullptr; }
};
struct Proc { score::concurrency::Executor ex; Ino* ino; L::ServiceDiscoveryClient c; explicit Proc(bool m) : ino{new Ino{m}}, c{ex, std::unique_ptr<os::InotifyInstance>{ino}, std::make_unique<os::internal::UnistdImpl>(), files()} {} };
struct Search { bool active = false, stopped = false; int kind = 0; unsigned rep = 0; int calls = 0; std::optional<I::FindServiceHandle> h; int act = 0; };
Search S[2]; Dep* D; Rt* R; Proc* P[2]; bool off[2][2]; // off[i]: B, QM flag held by the living provider
unsigned now(int kind) { unsigned r = 0; for (int i = 0; i < 2; i++) if ((kind >= 4 || kind / 2 == i) && g->flag(i, kind % 2 == 0)) r |= 1u << i; return r; }
unsigned set_of(const I::ServiceHandleContainer<I::HandleType>& v, int kind) { unsigned r = 0; for (auto& h : v) { auto iid = h.GetInstanceId(); auto* p = std::get_if<I::LolaServiceInstanceId>(&iid.binding_info_); sym_assert(p != nullptr, "a handle without instance"); unsigned b = p->GetId() == 1 ? 1u : p->GetId() == 12 ? 2u : 0u; sym_assert(b != 0 && (r & b) == 0, "an instance is reported twice, or an unknown one"); sym_assert(h.GetInstanceIdentifier() == D->id[static_cast<std::size_t>(kind)], "a handle of another service"); r |= b; } return r; }
void start(int s, int kind); void stop(int s);
void on_found(int s, I::ServiceHandleContainer<I::HandleType> v, I::FindServiceHandle h) { auto& x = S[s]; sym_assert(x.active && !x.stopped, "a stopped search is called"); if (x.h.has_value()) sym_assert(*x.h == h, "the handle of another search"); else x.h = h; unsigned r = set_of(v, x.kind); sym_assert(x.kind >= 4 || (r & ~(1u << (x.kind / 2))) == 0, "an instance that was not searched"); sym_assert(r != x.rep, "the same set is reported again"); if (r & ~x.rep) sym_reach("found"); if (x.rep & ~r) sym_reach("gone"); x.rep = r; x.calls++; int a = x.act; x.act = 0; auto& o = S[1 - s]; if (a == 1) { sym_reach("self"); stop(s); } else if (a == 2 && o.active && !o.stopped && o.h.has_value()) { sym_reach("other"); stop(1 - s); } else if (a == 3 && !o.active) { sym_reach("nested"); start(1 - s, 5); } }
int g_acts, g_fault; // actions of handlers, faults
void stop(int s);
void start(int s, int kind) { auto& x = S[s]; x = Search{}; x.active = true; x.kind = kind; if (g_acts) x.act = sym_choose(4, "in the handler"); auto r = R->sd->StartFindService([s](auto v, auto h) { on_found(s, std::move(v), h); }, D->id[static_cast<std::size_t>(kind)]); if (!r.has_value()) { sym_assert(g_fault > 0 && g->fail_watch + g->fail_dirs < g_fault, "a search cannot be started"); sym_reach("search_failed"); x.stopped = true; return; } x.h = r.value(); }
void stop(int s) { auto& x = S[s]; sym_assert(R->sd->StopFindService(*x.h).has_value(), "a search cannot be stopped"); x.stopped = true; }
unsigned g_steps; int g_step; bool g_done, g_flushed; int g_sum;
bool g_known; // this entry shows the known finding
void finish() {
  bool all = true, some[2] = {false, false}, any = false;
  for (auto& x : S) if (x.active && !x.stopped) { all = false; (x.kind >= 4 ? any : some[x.kind / 2]) = true; unsigned n = now(x.kind), st = 0; for (int i = 0; i < 2; i++) if (g->stale[i][x.kind % 2 == 0]) st |= 1u << i; if (x.rep == n) continue; if ((x.rep & ~st) == (n & ~st) && (n & ~x.rep) == 0) { sym_reach("stale"); sym_assert(!g_known, "an instance offered and withdrawn within one batch of events stays reported"); continue; } sym_assert(false, "a search has reported what is not offered now, or missed an offer"); }
  for (auto& w : g->watched) if (!w.empty()) sym_assert(any || (some[0] && w == kRoot + "/1") || (some[1] && w == kRoot + "/12"), "a directory is watched for no search");
  if (all) sym_reach("idle"); int k = g_sum % 6; auto r = R->sd->FindService(D->id[static_cast<std::size_t>(k)]); sym_assert(r.has_value() && set_of(r.value(), k) == now(k), "FindService() gives exactly what is offered");
  sym_reach("end"); g_done = true; }
score::cpp::stop_source* g_stop;
void script() {
  for (;;) {
    if (g_step >= K) { g->fail_watch = g->fail_dirs = 0; if (g->q.empty()) { if (!g_flushed) { g_flushed = true; return; } finish(); g_stop->request_stop(); return; } P[0]->ino->deliver(100); return; }
    g_step++; int i = sym_choose(12, "step"); sym_assume(((g_steps >> i) & 1u) != 0); g_sum = 3 * g_sum + i + 1;
    if (i < 2) { sym_assume(!off[i][0] && !off[i][1]); bool b = i == 0; auto r = P[1]->c.OfferService(D->id[static_cast<std::size_t>(2 * i + (b ? 0 : 1))]); if (!r.has_value()) { sym_assert(g_fault > 0, "an offer fails"); sym_assert(!g->flag(i, true) & !g->flag(i, false), "a failed offer leaves flags behind"); sym_reach("offer_failed"); continue; } sym_assert(g->flag(i, true) == b && g->flag(i, false), "an offer leaves its flags"); sym_assert(g->nflags(i) == 1 + b, "one flag per quality"); off[i][0] = b; off[i][1] = true; }
    else if (i < 5) { int k = i == 4 ? 0 : i - 2; sym_assume(off[k][0] || off[k][1]); bool qm = i == 4; if (qm) sym_assume(off[0][0] && off[0][1]); auto r = P[1]->c.StopOfferService(D->id[static_cast<std::size_t>(2 * k + (k == 0 ? 0 : 1))], qm ? I::IServiceDiscovery::QualityTypeSelector::kAsilQm : I::IServiceDiscovery::QualityTypeSelector::kBoth); off[k][1] = false; if (!qm) off[k][0] = false; sym_assert(r.has_value() && g->flag(k, true) == off[k][0] && g->flag(k, false) == off[k][1], "a stopped offer removes its flags"); }
    else if (i < 7) { int s = i - 5; auto& x = S[s]; sym_assume(!x.active || x.stopped); if (s == 1) sym_assume(S[0].active); static const int kinds[4] = {5, 1, 3, 4}; start(s, kinds[sym_choose(4, "kind")]); }
    else if (i < 9) { int s = i - 7; sym_assume(S[s].active && !S[s].stopped); stop(s); }
    else if (i == 10) { sym_assume(off[0][0] || off[0][1] || off[1][0] || off[1][1]); sym_reach("crashed"); sym_clock_fixed(1000000000 + static_cast<std::uint64_t>(g_step)); P[1] = new Proc{false}; for (auto& o : off) o[0] = o[1] = false; }
    else if (i == 11) { sym_assume(g_fault == 0); int f = sym_choose(5, "fault"); g_fault = f == 4 ? 3 : f == 1 ? 9 : 1; if (f == 0) g->fail_dirs = 1; else if (f == 1) g->fail_dirs = 9; else if (f == 2) g->fail_open = 1; else if (f == 3) g->fail_perm = 1; else g->fail_watch = 3; }
    else { sym_assume(!g->q.empty()); sym_reach("late"); g->fail_watch = g->fail_dirs = 0; P[0]->ino->deliver(flip("one event") ? 1 : 100); return; }
  }
}
void setup() { g = new World; S[0] = S[1] = Search{}; for (auto& o : off) o[0] = o[1] = false; g_steps = 0x3ff; g_acts = g_fault = 0; g_step = g_sum = 0; g_done = g_flushed = g_known = false; sym_clock_fixed(1000000000); D = new Dep; R = new Rt; P[0] = new Proc{true}; P[1] = new Proc{false}; R->c = &P[0]->c; R->sd = new I::ServiceDiscovery{*R}; }
}
void work() { P[0]->ino->script = script; auto src = P[0]->ex.stub_queue().front().second; g_stop = &src; P[0]->ex.stub_run_one(); sym_assert(g_done, "the worker ended"); }
extern "C" void h_sd_history() { setup(); work(); }
extern "C" void h_sd_callbacks() { setup(); g_acts = 1; g_steps = 0x267; work(); }
extern "C" void h_sd_restart() { setup(); g_steps = 0x627; work(); }
extern "C" void h_sd_faults() { setup(); g_steps = 0xa67; work(); }
// an instance is offered and withdrawn before the worker reads
void batch_script() {
  if (g_step == 0) { g_step = 1; start(0, flip("any") ? 4 : 0); sym_assert(P[1]->c.OfferService(D->id[0]).has_value(), "an offer fails"); sym_assert(P[1]->c.StopOfferService(D->id[0], I::IServiceDiscovery::QualityTypeSelector::kBoth).has_value(), "a withdrawal fails"); }
  if (!g->q.empty()) { P[0]->ino->deliver(100); return; }
  finish(); g_stop->request_stop();
}
extern "C" void h_sd_batch() { setup(); g_known = true; g->mkdirs(kRoot + "/1"); auto src = P[0]->ex.stub_queue().front().second; g_stop = &src; P[0]->ino->script = batch_script; P[0]->ex.stub_run_one(); }
// a search is stopped on another thread while the worker handles an event that concerns it
static bool g_stopped, g_running; static int g_calls;
void threads_script() { if (g_step++ == 0) { P[0]->ino->deliver(100); return; } g_stop->request_stop(); }
extern "C" void h_sd_threads() {
  setup(); g_stopped = g_running = false; g_calls = 0; g->mkdirs(kRoot + "/1"); auto h = R->sd->StartFindService([](auto, auto) { sym_assert(!g_stopped, "the handler of a stopped search is called"); g_running = true; sym_yield(); g_calls++; sym_yield(); g_running = false; }, D->id[flip("any") ? 5u : 1u]); sym_assert(h.has_value(), "started");
  sym_assert(P[1]->c.OfferService(D->id[1]).has_value(), "offered"); auto src = P[0]->ex.stub_queue().front().second; g_stop = &src; P[0]->ino->script = threads_script;
  sym_par(PRE, 0, 0, [] { P[0]->ex.stub_run_one(); }, [&h] { sym_assert(R->sd->StopFindService(h.value()).has_value(), "stopped"); g_stopped = true; sym_assert(!g_running, "StopFindService() returns while the handler is running"); });
  if (g_calls) sym_reach("called"); else sym_reach("missed");
}
// names of directories and flag files
extern "C" void h_sd_names() {
  std::string f = "123_"; if (flip("flag")) { int k = sym_choose(3, "which flag"); f += std::string{L::GetQualityTypeString(k == 0 ? QT::kASIL_B : k == 1 ? QT::kASIL_QM : QT::kInvalid)}; f += "_77"; auto q = L::FlagFileCrawler::ParseQualityTypeFromString(f); if (k == 0) { sym_reach("b"); sym_assert(q == QT::kASIL_B, "quality of a flag"); } else if (k == 1) { sym_reach("qm"); sym_assert(q == QT::kASIL_QM, "quality of a flag"); } else { sym_reach("none"); sym_assert(q == QT::kInvalid, "quality of a flag"); } return; }
  const int pre = flip("large") ? 2 : 0; char b[NL + 2] = {'6', '5'}; for (int i = pre; i < pre + NL; i++) b[i] = static_cast<char>(sym_u8("char")); int n = pre + (pre ? NL : 1 + sym_choose(NL, "length")); auto r = L::FlagFileCrawler::ConvertFromStringToInstanceId(std::string_view{b, static_cast<std::size_t>(n)});
  bool digits = true; unsigned long v = 0; for (int i = 0; i < n; i++) { unsigned d = static_cast<unsigned char>(b[i]) - '0'; digits &= d < 10; v = v * 10 + (d & 15u); }
  if (digits & (v <= 65535)) { sym_assert(r.has_value(), "a directory of an instance is not recognised"); sym_assert(r.value().GetId() == v, "a directory is taken for another instance"); sym_reach("number"); }
  else { sym_reach("other"); if (static_cast<unsigned char>(b[0]) - '0' > 9u || digits) sym_assert(!r.has_value(), "an instance made up from the name of a directory"); }
}
// identities for all service and instance ids, and the set of known instances against a plain set
extern "C" void h_sd_known() {
  std::uint16_t sv[2], in[NI]; const bool any = flip("identities"); sv[0] = 7; sv[1] = flip("same service") ? 7 : 8; in[0] = 1; constexpr std::uint16_t other[] = {1, 2, 14, 65535}; in[1] = other[sym_choose(any ? 4 : 2, "other instance")]; auto sp = I::InstanceSpecifier::Create(std::string{"a"}).value(); std::vector<I::ServiceTypeDeployment> t; std::vector<I::ServiceInstanceDeployment> d; t.reserve(2); for (auto& x : sv) { t.emplace_back(I::LolaServiceTypeDeployment{x}); if (any) { x = sym_u16("service"); std::get<I::LolaServiceTypeDeployment>(t.back().binding_info_).service_id_ = x; } }
  d.reserve(4); for (int i = 0; i <= NI; i++) { std::optional<I::LolaServiceInstanceId> iid; if (i < NI) iid = I::LolaServiceInstanceId{in[i]}; d.emplace_back(svc(), I::LolaServiceInstanceDeployment{iid}, QT::kASIL_QM, sp); }
  auto id = [&](int s, int i) { return I::EnrichedInstanceIdentifier{I::make_InstanceIdentifier(d[static_cast<std::size_t>(i)], t[static_cast<std::size_t>(s)])}; };
  auto a = L::LolaServiceInstanceIdentifier{id(0, 0)}, b = L::LolaServiceInstanceIdentifier{id(1, 1)}, c = L::LolaServiceInstanceIdentifier{id(1, NI)}; bool same = (sv[0] == sv[1]) & (in[0] == in[1]); sym_assert((a == b) == same, "two instances are taken for one"); std::hash<L::LolaServiceInstanceIdentifier> hs; if (same) sym_assert(hs(a) == hs(b), "equal instances have equal hashes"); sym_assert(!(b == c) & (c == L::LolaServiceInstanceIdentifier{sv[1]}) & (b.GetInstanceId().value() == in[1]) & !c.GetInstanceId().has_value() & (c.GetServiceId() == sv[1]), "an instance is not the whole service");
  if (any) { sym_reach("ids"); return; }
  L::KnownInstancesContainer k; bool in_set[2][NI]{}; // model: an element stands for its value
  auto mark = [&](int x, int y, bool v) { for (int s = 0; s < 2; s++) for (int i = 0; i < NI; i++) if ((sv[s] == sv[x]) & (in[i] == in[y])) in_set[s][i] = v; };
  for (int n = 0; n < K; n++) { int op = sym_choose(3, "op"), x = sym_choose(2, "which service"), y = sym_choose(NI, "which instance");
    if (op == 0) { bool had = in_set[x][y]; bool fresh = k.Insert(id(x, y)); sym_assert(fresh == !had, "an insertion says whether the instance is new"); if (fresh) sym_reach("new"); else sym_reach("again"); mark(x, y, true); }
    else if (op == 1) { k.Remove(id(x, y)); mark(x, y, false); sym_reach("gone"); }
    else { L::KnownInstancesContainer m; (void)m.Insert(id(x, y)); int z = (y + 1) % NI; (void)m.Insert(id(x, z)); k.Merge(std::move(m)); mark(x, y, true); mark(x, z, true); } }
  for (int s = 0; s < 2; s++) { for (int i = 0; i < NI; i++) { auto h = k.GetKnownHandles(id(s, i)); sym_assert((h.size() == 1) == in_set[s][i] && h.size() <= 1, "an instance is known exactly while it was inserted and not removed"); if (!h.empty()) { auto u = h[0].GetInstanceId(); sym_assert(std::get_if<I::LolaServiceInstanceId>(&u.binding_info_)->GetId() == in[i], "the handle of another instance"); } }
    std::size_t distinct = 0; for (int i = 0; i < NI; i++) { bool dup = false; for (int j = 0; j < i; j++) dup |= in[j] == in[i]; if (in_set[s][i] && !dup) distinct++; } sym_assert(k.GetKnownHandles(id(s, NI)).size() == distinct, "a search for any instance gives all known ones"); }
}
