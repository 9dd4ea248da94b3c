// SOURCES: @mem score/mw/com/impl/bindings/lola/application_id_pid_mapping.cpp score/mw/com/impl/bindings/lola/application_id_pid_mapping_entry.cpp
// ENTRY: h_pid_seq property=C09 reach=new,again,full quick=100 thorough=600 defs=K=4 tdefs=K=6
// ENTRY: h_pid_par property=C09 reach=crashed,taken_over,all,full quick=200 thorough=900 defs=PRE=3 tdefs=PRE=5
// BOUND: histories of 4 (6) registrations over tables of 1 to 3 entries with every application id and process id; 2 processes registering concurrently with 3 (5) preemptions, 2 in a table of one entry or 3 processes with one less, one of them dying at any shared access
// ASSUME: application ids are unique per running process (the platform's configuration contract)
#include "hx.h"
#include "score/mw/com/impl/bindings/lola/application_id_pid_mapping.h"
using namespace score::mw::com::impl::lola;
using Map = ApplicationIdPidMapping<std::allocator<ApplicationIdPidMappingEntry>>;
#ifndef PRE
#define PRE 2
#endif
#ifndef K
#define K 3
#endif
extern "C" void h_pid_seq() {
  int cap = 1 + sym_choose(3, "entries"); Map m{static_cast<std::uint16_t>(cap), std::allocator<ApplicationIdPidMappingEntry>{}}; std::uint32_t id[K]; pid_t pid[K]; int n = 0;
  for (int i = 0; i < K; i++) {
    std::uint32_t a = sym_u32("application"); pid_t p = sym_u32("pid"); int known = -1; for (int j = 0; j < n; j++) if (id[j] == a) known = j;
    auto r = m.RegisterPid(a, p);
    if (known >= 0) { sym_assert(r.has_value() && *r == pid[known], "a known application gets the process id it was registered with before"); pid[known] = p; sym_reach("again"); }
    else if (n < cap) { sym_assert(r.has_value() && *r == p, "a new application is registered"); id[n] = a; pid[n] = p; n++; sym_reach("new"); }
    else { sym_assert(!r.has_value(), "registration in a full table"); sym_reach("full"); }
  }
}
extern "C" void h_pid_par() {
  int var = sym_choose(4, "variant"); const int T = var == 3 ? 3 : 2; int cap = var == 0 ? 1 : var == 1 ? 2 : 3; int pre = var == 0 || var == 3 ? PRE - 1 : PRE; Map m{static_cast<std::uint16_t>(cap), std::allocator<ApplicationIdPidMappingEntry>{}}; std::uint32_t id[3] = {sym_u32("application"), sym_u32("application"), sym_u32("application")};
  pid_t pid[3] = {100, 200, 300}; sym_assume((id[0] != id[1]) & (id[0] != id[2]) & (id[1] != id[2])); std::optional<pid_t> r[3]; bool done[3] = {};
  auto& arr = *reinterpret_cast<score::containers::DynamicArray<ApplicationIdPidMappingEntry>*>(&m); sym_shared(&*arr.begin(), sizeof(ApplicationIdPidMappingEntry) * cap, 2);
  auto t = [&](int i) { r[i] = m.RegisterPid(id[i], pid[i]); done[i] = true; };
  unsigned crashed = T == 3 ? sym_par(pre, 1, 1, [&] { t(0); }, [&] { t(1); }, [&] { t(2); }) : sym_par(pre, 1, 1, [&] { t(0); }, [&] { t(1); });
  int ok = 0; for (int i = 0; i < T; i++) if (done[i] && r[i].has_value()) { sym_assert(*r[i] == pid[i], "a new application is registered with its own process id"); ok++; }
  sym_assert(ok <= cap, "more applications registered than entries");
  if (!crashed) { sym_assert(ok == (cap < T ? cap : T), "registration fails although an entry is free"); if (ok == T) sym_reach("all"); else sym_reach("full"); }
  // the process that died starts again with a new process id
  if (crashed) { sym_reach("crashed"); auto again = m.RegisterPid(id[0], 150);
    if (cap == T) sym_assert(again.has_value(), "an application that died while registering cannot register again");
    if (again.has_value()) { sym_assert(*again == 100 || *again == 150, "process id of another application"); auto next = m.RegisterPid(id[0], 160); sym_assert(next.has_value() && *next == 150, "registration is lost"); sym_reach("taken_over"); ok++; }
    sym_assert(ok <= cap, "more applications registered than entries"); if (cap < T) sym_assert(ok >= cap, "a crash loses an entry for good"); }
  for (int i = crashed ? 1 : 0; i < T; i++) if (r[i].has_value()) { auto old = m.RegisterPid(id[i], 999); sym_assert(old.has_value() && *old == pid[i], "the registration of another application was changed"); }
  auto extra = m.RegisterPid(~(id[0] | id[1] | id[2]), 7); (void)extra;
}
