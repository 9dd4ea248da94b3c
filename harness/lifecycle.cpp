// SOURCES: @subs @fakert score/mw/com/impl/bindings/lola/skeleton.cpp score/mw/com/impl/bindings/lola/proxy.cpp score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp score/mw/com/impl/bindings/lola/partial_restart_path_builder.cpp score/mw/com/impl/bindings/lola/shm_path_builder.cpp score/mw/com/impl/bindings/lola/path_builder.cpp score/mw/com/impl/bindings/lola/i_partial_restart_path_builder.cpp score/mw/com/impl/bindings/lola/i_shm_path_builder.cpp score/mw/com/impl/bindings/lola/application_id_pid_mapping.cpp score/mw/com/impl/bindings/lola/application_id_pid_mapping_entry.cpp score/mw/com/impl/bindings/lola/element_fq_id.cpp score/mw/com/impl/bindings/lola/event_control.cpp score/mw/com/impl/bindings/lola/event_meta_info.cpp score/mw/com/impl/bindings/lola/event_data_storage.cpp score/mw/com/impl/bindings/lola/rollback_synchronization.cpp score/mw/com/impl/bindings/lola/service_data_control.cpp score/mw/com/impl/bindings/lola/service_data_storage.cpp score/mw/com/impl/bindings/lola/skeleton_event_properties.cpp score/mw/com/impl/bindings/lola/skeleton_instance_identifier.cpp score/mw/com/impl/bindings/lola/proxy_instance_identifier.cpp score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp score/mw/com/impl/bindings/lola/skeleton_method.cpp score/mw/com/impl/bindings/lola/proxy_method.cpp score/mw/com/impl/bindings/lola/messaging/method_call_registration_guard.cpp score/mw/com/impl/bindings/lola/messaging/method_subscription_registration_guard.cpp score/mw/com/impl/bindings/lola/messaging/method_unsubscription_registration_guard.cpp score/mw/com/impl/bindings/lola/methods/method_data.cpp score/mw/com/impl/bindings/lola/methods/method_error.cpp score/mw/com/impl/bindings/lola/methods/method_resource_map.cpp score/mw/com/impl/bindings/lola/methods/offered_state_machine.cpp score/mw/com/impl/bindings/lola/methods/proxy_method_instance_identifier.cpp score/mw/com/impl/bindings/lola/methods/type_erased_call_queue.cpp score/mw/com/impl/bindings/lola/methods/unique_method_identifier.cpp score/mw/com/impl/bindings/lola/linear_search_map.cpp score/memory/shared/lock_file.cpp score/memory/shared/new_delete_delegate_resource.cpp score/memory/shared/user_permission.cpp score/memory/shared/i_shared_memory_resource.cpp score/memory/shared/flock/flock_mutex.cpp score/memory/shared/flock/exclusive_flock_mutex.cpp score/memory/shared/flock/shared_flock_mutex.cpp score/memory/shared/flock/flock_mutex_and_lock.cpp score/mw/com/impl/proxy_binding.cpp score/mw/com/impl/skeleton_binding.cpp score/mw/com/impl/skeleton_event_binding.cpp score/mw/com/impl/method_type.cpp score/mw/com/impl/instance_identifier.cpp score/mw/com/impl/instance_specifier.cpp score/mw/com/impl/handle_type.cpp score/mw/com/impl/enriched_instance_identifier.cpp score/mw/com/impl/find_service_handle.cpp score/mw/com/impl/service_element_type.cpp score/mw/com/impl/methods/proxy_method_binding.cpp score/mw/com/impl/methods/skeleton_method_binding.cpp score/mw/com/impl/generic_skeleton_event_binding.cpp score/mw/com/impl/configuration/configuration.cpp score/mw/com/impl/configuration/configuration_common_resources.cpp score/mw/com/impl/configuration/configuration_error.cpp score/mw/com/impl/configuration/global_configuration.cpp score/mw/com/impl/configuration/tracing_configuration.cpp score/mw/com/impl/configuration/lola_event_id.cpp score/mw/com/impl/configuration/lola_event_instance_deployment.cpp score/mw/com/impl/configuration/lola_field_id.cpp score/mw/com/impl/configuration/lola_field_instance_deployment.cpp score/mw/com/impl/configuration/lola_method_id.cpp score/mw/com/impl/configuration/lola_method_instance_deployment.cpp score/mw/com/impl/configuration/lola_service_element_id.cpp score/mw/com/impl/configuration/lola_service_id.cpp score/mw/com/impl/configuration/lola_service_instance_deployment.cpp score/mw/com/impl/configuration/lola_service_instance_id.cpp score/mw/com/impl/configuration/lola_service_type_deployment.cpp score/mw/com/impl/configuration/quality_type.cpp score/mw/com/impl/configuration/service_identifier_type.cpp score/mw/com/impl/configuration/service_instance_deployment.cpp score/mw/com/impl/configuration/service_instance_id.cpp score/mw/com/impl/configuration/service_type_deployment.cpp score/mw/com/impl/configuration/service_version_type.cpp score/mw/com/impl/configuration/shm_size_calc_mode.cpp score/memory/shared/shared_memory_resource.cpp score/mw/com/impl/bindings/lola/generic_skeleton_event.cpp score/mw/com/impl/sample_allocatee_tracker.cpp score/mw/com/impl/skeleton_event_binding.cpp score/mw/com/impl/sample_reference_tracker.cpp score/mw/com/impl/tracing/skeleton_event_tracing_data.cpp score/mw/com/impl/sample_allocatee_guard.cpp
// ENTRY: h_life_history property=C33 reach=fresh,reused,refused,kept,removed,connected,nobody,crashed,end quick=250 thorough=900 defs=K=6 tdefs=K=7
// ENTRY: h_life_size property=C34 reach=typed,generic,field,done quick=120 thorough=600 defs=NE=1 tdefs=NE=2
// ENTRY: h_life_size_field property=C34 reach=done quick=60 thorough=100
// ENTRY: h_life_perm property=C33 reach=done quick=60 thorough=100
// BOUND: histories of 5 (7) steps of two providers and two consumers of one instance with one event
// ASSUME: consumers come when the service is offered (or its memory was left behind by a crash); shared-memory objects are stand-ins (C23, C24 check the real ones)
#include "life.h"
extern "C" void h_life_history() {
  const bool b = flip("ASIL-B"); setup(new Dep{b}, b); bool left = false; // left: memory and marker remain from before
  std::uint32_t val = 0; bool sent = false; L::ElementFqId e = kE;
  for (int i = 0; i < K; i++) {
    const bool alive = P[0].s || P[1].s; const int users = (C[0].p != nullptr) + (C[1].p != nullptr); const int q = P[1].s ? 1 : 0; auto& x = P[q];
    int op = sym_choose(8, "op");
    if (op == 0) { int p = sym_choose(2, "which provider"); sym_assume(!P[p].s); bool ok = create(p); sym_assert(ok == !alive, "two providers of one instance, or none although nobody provides it"); if (!ok) { P[p] = Provider{}; sym_reach("refused"); } }
    else if (op == 1) { sym_assume(alive && !x.up); fw::Res* old[3]; for (int k = 0; k < 3; k++) old[k] = g_w->object(path(k)); int made = g_w->created; sym_assert(offer(q), "a service cannot be offered");
      if (users > 0) { sym_reach("reused"); sym_assert(g_w->created == made, "memory that consumers use is replaced"); for (int k = 0; k < 3; k++) sym_assert(g_w->object(path(k)) == old[k], "memory that consumers use is replaced"); if (sent) { auto v = (*x.e->data)[0]; sym_assert(v == val, "a sample got lost in the restart"); } }
      else { sym_reach("fresh"); sent = false; for (int k = 0; k < 3; k++) { auto* o = g_w->object(path(k)); sym_assert((o != nullptr) == (k != 1 || b), "the objects of the service"); if (o) sym_assert(o != old[k], "memory of an earlier provider is used although nobody needs it"); } }
      sym_assert((x.e->b != nullptr) == b, "an ASIL-B service has its own control"); for (auto* ec : {x.e->qm, x.e->b}) if (ec) { L::ProviderEventDataControlLocalView<> v{ec->data_control}; auto s0 = v.AllocateNextSlot(); sym_assert(s0.has_value(), "slots of the earlier provider stay blocked"); v.Discard(*s0); auto s1 = v.AllocateNextSlot(); sym_assert(s1.has_value(), "slots of the earlier provider stay blocked"); if (ec == x.e->qm && flip("dies while writing")) { left = left; } else v.Discard(*s1); }
      val = 7 + static_cast<std::uint32_t>(i); (*x.e->data)[0] = val; sent = true; left = true; }
    else if (op == 2) { sym_assume(alive && x.up); withdraw(q); if (users > 0) { sym_reach("kept"); } else { sym_reach("removed"); sym_assert(g_w->nobjs() == 0 && g_w->linked(usage()) < 0, "memory or marker of a withdrawn service stays behind"); left = false; } }
    else if (op == 3) { sym_assume(alive && !x.up); as(q); P[q] = Provider{}; sym_assert(g_w->nfds(q) == 0, "a provider that is gone keeps files open"); }
    else if (op == 4) { sym_assume(alive); sym_reach("crashed"); crash(q); }
    else if (op == 5) { int c = sym_choose(2, "which consumer"); sym_assume(!C[c].p && (c == 0 || C[0].p)); sym_assume(!alive || x.up || !left || users > 0); bool want_b = b && flip("B consumer"); bool ok = connect(c, want_b); sym_assert(ok == left, "a consumer connects exactly if the service's memory is there"); if (!ok) { C[c] = Consumer{}; sym_reach("nobody"); sym_assert(g_w->nfds(2 + c) == 0, "a consumer that could not connect keeps files open"); } else { sym_reach("connected"); auto& pr = *C[c].p; sym_assert(C[c].ctl->last_rw && !C[c].data->last_rw, "consumers write control only"); sym_assert(pr.GetQualityType() == (want_b ? QT::kASIL_B : QT::kASIL_QM), "quality"); if (sent) { sym_assert(pr.IsEventProvided("e"), "the event is not there"); auto& mi = pr.GetEventMetaInfo(e); sym_assert(mi.data_type_info_.Size() == 4 && mi.data_type_info_.Alignment() == 4, "description of the samples"); auto* raw = static_cast<const std::uint32_t*>(mi.event_slots_raw_array_.get(8)); sym_assert(raw[0] == val, "a consumer sees other data than the provider wrote"); if (alive && (x.up || x.stopped)) sym_assert(pr.GetSourcePid() == R[q]->l.my_pid, "the consumer takes another process for the provider"); auto& mine = pr.GetEventSubscriptionControl(e); if (alive && x.up) sym_assert(&mine == &(want_b ? x.e->b : x.e->qm)->subscription_control, "the control of the other quality"); } } }
    else { int c = sym_choose(2, "which consumer"); sym_assume(C[c].p != nullptr); if (op == 6) { leave(c); sym_assert(g_w->nfds(2 + c) == 0 && R[2 + c]->sd.searches == 0, "a consumer that is gone leaves something behind"); } else crash(2 + c); }
    for (auto& c : C) if (c.p) { sym_assert(c.ctl->linked && c.data->linked, "memory in use by a consumer is removed"); sym_assert(g_w->linked(usage()) >= 0, "the usage marker of a consumer is removed"); }
    if (g_w->nobjs() > 0) sym_assert(left, "memory without a service");
  }
  sym_reach("end"); for (auto& c : C) if (c.p) leave(&c == &C[1]); for (int p = 0; p < 2; p++) if (P[p].s) { if (P[p].up) { withdraw(p); sym_assert(g_w->nobjs() == 0, "the memory stays behind"); } as(p); P[p] = Provider{}; }
  for (int p = 0; p < 4; p++) sym_assert(g_w->nfds(p) == 0, "files stay open");
}
// who may use the memory
extern "C" void h_life_perm() {
  const bool b = flip("ASIL-B"), strict = flip("strict"); const int ck = sym_choose(4, "consumers"), pk = sym_choose(3, "providers"); std::unordered_map<QT, std::vector<uid_t>> cons, prov; if (ck & 1) cons[QT::kASIL_QM] = {11, 12}; if (ck & 2) cons[QT::kASIL_B] = {13}; if (pk) { prov[QT::kASIL_QM] = {21}; if (pk == 2) prov[QT::kASIL_B] = {22, 23}; }
  setup(new Dep{b, cons, prov, strict}, b); sym_assert(create(0) && offer(0), "offered"); using Perm = score::os::Acl::Permission; using Map = fw::ms::permission::UserPermissionsMap;
  auto list = [](const Map& m, Perm p) { auto it = m.find(p); return it == m.end() ? std::vector<uid_t>{} : it->second; };
  for (int k = 0; k < 3; k++) { auto* o = g_w->object(path(k)); if (!o) continue; std::vector<uid_t> r, w; if (k == 2) { for (auto& [q, v] : cons) for (auto u : v) r.push_back(u); } else { auto it = cons.find(k == 0 ? QT::kASIL_QM : QT::kASIL_B); if (it != cons.end()) r = w = it->second; }
    if (r.empty() && !strict) { sym_assert(k == 2 ? std::holds_alternative<fw::ms::permission::WorldReadable>(o->perm) : std::holds_alternative<fw::ms::permission::WorldWritable>(o->perm), "everybody may use a service without restrictions"); continue; }
    auto* m = std::get_if<Map>(&o->perm); sym_assert(m != nullptr, "a restricted service is open to everybody"); auto same = [](std::vector<uid_t> x, std::vector<uid_t> y) { if (x.size() != y.size()) return false; for (auto u : x) { bool f = false; for (auto v : y) f |= u == v; if (!f) return false; } return true; }; sym_assert(same(list(*m, Perm::kRead), r) && same(list(*m, Perm::kWrite), w), "exactly the allowed consumers may read, and write the control of their quality"); }
  for (int q = 0; q < (b ? 2 : 1); q++) { sym_assert(connect(0, q == 1), "connected"); auto it = prov.find(q ? QT::kASIL_B : QT::kASIL_QM); for (auto* o : {C[0].ctl, C[0].data}) { sym_assert(o->had_providers == (it != prov.end() || strict), "the provider of the memory is checked if configured"); sym_assert(o->providers == (it != prov.end() ? it->second : std::vector<uid_t>{}), "exactly the allowed providers are trusted"); } leave(0); }
  withdraw(0); as(0); P[0] = Provider{}; sym_reach("done");
}

// is the memory large enough for what is configured
namespace {
struct T1 { std::uint8_t x[1]; }; struct T3 { std::uint8_t x[3]; }; struct T4 { std::uint32_t x; }; struct T12 { std::uint32_t x[3]; }; struct T16 { alignas(16) std::uint8_t x[5]; }; struct T24 { std::uint64_t x[3]; };
struct Shape { std::size_t size, align; };
const Shape kShapes[] = {{1, 1}, {3, 1}, {4, 4}, {12, 4}, {16, 16}, {24, 8}, {8, 4}, {6, 2}, {48, 16}};
struct Made { std::vector<const char*> at; Shape sh; L::ElementFqId id; std::size_t slots; };
struct Elem { virtual ~Elem() = default; virtual I::SkeletonEventBindingBase& binding() = 0; virtual const char* take() = 0; virtual void drop() = 0; };
template <class T> struct TE final : Elem { L::SkeletonEvent<T> e; std::vector<I::SampleAllocateePtr<T>> held; TE(L::Skeleton& s, L::SkeletonEventProperties p, L::ElementFqId id) : e{s, id, "x", p, {}} {} I::SkeletonEventBindingBase& binding() override { return e; }
  const char* take() override { auto r = e.Allocate(I::SampleAllocateeGuard{}); if (!r.has_value()) return nullptr; held.push_back(std::move(*r)); return reinterpret_cast<const char*>(held.back().Get()); } void drop() override { held.clear(); } };
struct GE final : Elem { L::GenericSkeletonEvent e; std::vector<I::SampleAllocateePtr<void>> held; GE(L::Skeleton& s, Shape h, L::SkeletonEventProperties p, L::ElementFqId id) : e{s, "x", p, id, score::memory::DataTypeSizeInfo{h.size, h.align}, {}} {} I::SkeletonEventBindingBase& binding() override { return e; }
  const char* take() override { auto r = e.Allocate(I::SampleAllocateeGuard{}); if (!r.has_value()) return nullptr; held.push_back(std::move(*r)); return static_cast<const char*>(held.back().Get()); } void drop() override { held.clear(); } };
std::unique_ptr<Elem> elem(int t, L::Skeleton& s, Shape h, L::SkeletonEventProperties p, L::ElementFqId id) { switch (t) { case 0: return std::make_unique<TE<T1>>(s, p, id); case 1: return std::make_unique<TE<T3>>(s, p, id); case 2: return std::make_unique<TE<T4>>(s, p, id); case 3: return std::make_unique<TE<T12>>(s, p, id); case 4: return std::make_unique<TE<T16>>(s, p, id); case 5: return std::make_unique<TE<T24>>(s, p, id); default: return std::make_unique<GE>(s, h, p, id); } }
void size_run(int n, bool generic, bool field, std::optional<I::FieldTagsStore> tags) {
  const bool b = flip("ASIL-B"); const bool analysis = flip("analysis"); static const char* kNames[] = {"e", "f"}; I::LolaServiceInstanceDeployment::EventInstanceMapping ev; I::LolaServiceInstanceDeployment::FieldInstanceMapping fi; std::vector<Shape> sh; std::vector<int> ty; std::vector<L::SkeletonEventProperties> pr;
  for (int i = 0; i < n; i++) { const auto slots = static_cast<std::uint16_t>(1 + sym_choose(3, "slots")); const auto subs = static_cast<std::uint8_t>(1 + sym_choose(2, "subscribers")), trace = static_cast<std::uint8_t>(sym_choose(2, "tracing slots")); const int t = sym_choose(generic ? 9 : 6, "shape"); sh.push_back(kShapes[t]); ty.push_back(generic ? 9 : t);
    I::LolaEventInstanceDeployment d{slots, subs, std::uint8_t{1}, true, trace}; if (field) { I::LolaFieldInstanceDeployment fd{d, true, true}; fi.emplace(kNames[i], fd); pr.push_back(I::detail::CreateSkeletonEventProperties(fd, tags)); } else { ev.emplace(kNames[i], d); pr.push_back(I::detail::CreateSkeletonEventProperties(d, std::nullopt)); }
    sym_assert(pr.back().GetTotalNumberOfSlots() == static_cast<std::size_t>(slots) + trace + (tags.has_value() && tags->HasGetter()) + (tags.has_value() && tags->HasSetter()), "number of slots for a configuration"); }
  auto* dep = new Dep{b, {}, {}, false, ev, fi}; setup(dep, b); R[0]->l.mode = analysis ? I::ShmSizeCalculationMode::kAnalysis : I::ShmSizeCalculationMode::kSimulation;
  sym_assert(create(0), "created"); std::vector<std::unique_ptr<Elem>> el; std::vector<Made> made; I::SkeletonBinding::SkeletonEventBindings em, fm;
  for (int i = 0; i < n; i++) { const L::ElementFqId id{7, static_cast<std::uint16_t>(5 + i), 1, field ? I::ServiceElementType::FIELD : I::ServiceElementType::EVENT}; el.push_back(elem(ty[i], *P[0].s, sh[i], pr[i], id)); (field ? fm : em).emplace(kNames[i], el.back()->binding()); made.push_back({{}, sh[i], id, pr[i].GetTotalNumberOfSlots()}); }
  sym_assert(P[0].s->PrepareOffer(em, fm, std::nullopt).has_value(), "offered"); auto* data = g_w->object(path(2));
  for (auto& e : el) sym_assert(e->binding().PrepareOffer().has_value(), "prepared");
  for (int i = 0; i < n; i++) { auto& m = made[i]; while (m.at.size() < m.slots) { const char* p = el[i]->take(); sym_assert(p != nullptr, "number of samples that can be used at the same time"); sym_assert(reinterpret_cast<std::uintptr_t>(p) % m.sh.align == 0, "samples are not aligned"); sym_assert(p >= data->mem && p + m.sh.size <= data->mem + data->size, "samples lie outside of the shared memory");
      for (int j = 0; j <= i; j++) for (auto* o : made[j].at) sym_assert(p + m.sh.size <= o || o + made[j].sh.size <= p, "two samples share memory"); m.at.push_back(p); } }
  as(2); auto p = L::Proxy::Create(I::make_HandleType(D->id[b ? 2 : 1])); sym_assert(p != nullptr, "connected"); for (auto& m : made) { auto& mi = p->GetEventMetaInfo(m.id); sym_assert(mi.data_type_info_.Size() == m.sh.size && mi.data_type_info_.Alignment() == m.sh.align, "size of a sample"); sym_assert(mi.event_slots_raw_array_.get(m.sh.size * m.slots) == m.at[0], "place of the samples"); }
  p->PrepareDeinitialize(); p->FinalizeDeinitialize(); p.reset(); as(0); for (auto& e : el) { e->drop(); e->binding().PrepareStopOffer(); } P[0].s->PrepareStopOffer(std::nullopt); sym_assert(g_w->nobjs() == 0, "memory stays behind"); sym_reach(generic ? "generic" : field ? "field" : "typed"); sym_reach("done");
}
}
extern "C" void h_life_size() { const bool field = flip("field"), generic = !field && flip("generic"); size_run(NE, generic, field, field ? std::optional<I::FieldTagsStore>{I::FieldTagsStore::Create<I::WithNotifier>()} : std::nullopt); }
extern "C" void h_life_size_field() { const int k = sym_choose(4, "tags"); using FT = I::FieldTagsStore; size_run(1, false, true, k == 0 ? FT::Create<I::WithGetter>() : k == 1 ? FT::Create<I::WithGetter, I::WithSetter>() : k == 2 ? FT::Create<I::WithNotifier, I::WithSetter>() : FT::Create<I::WithGetter, I::WithNotifier, I::WithSetter>()); }
