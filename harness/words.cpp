// SOURCES: score/mw/com/impl/bindings/lola/event_slot_status.cpp score/mw/com/impl/bindings/lola/transaction_log_slot.cpp score/mw/com/impl/bindings/lola/skeleton_event_properties.cpp
// ENTRY: h_word_slot property=C17 reach=writing,invalid,ready,between quick=60 thorough=60
// ENTRY: h_word_history property=C17 reach=done quick=60 thorough=300 defs=K=4 tdefs=K=6
// ENTRY: h_word_log property=C17 reach=both,none quick=60 thorough=60 defs=K=4 tdefs=K=6
// ENTRY: h_word_slots property=C17 reach=done quick=60 thorough=60
// BOUND: every 64-bit slot word, timestamp, reference count and timestamp interval; histories of 4 (6) modifications
#include "sym.h"
#include "score/mw/com/impl/bindings/lola/event_slot_status.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_slot.h"
#include "score/mw/com/impl/bindings/lola/skeleton_event_properties.h"
using namespace score::mw::com::impl::lola;
#ifndef K
#define K 3
#endif
using S = EventSlotStatus;
static std::uint64_t raw(const S& s) { return static_cast<const S::value_type&>(s); }
static void classify(const S& s) { // the three states are mutually exclusive, and survive the trip through the shared word
  bool inv = s.IsInvalid(), wr = s.IsInWriting(), used = s.IsUsed(); auto ts = s.GetTimeStamp(); auto rc = s.GetReferenceCount();
  sym_assert(!(inv & wr), "invalid and in writing at the same time"); sym_assert(!(inv & used), "an invalid slot is in use"); sym_assert(!wr | used, "a slot in writing is not in use");
  sym_assert(((ts != 0) & (inv | wr)) == 0, "a slot with a timestamp is ready"); sym_assert(used == ((rc != 0) | wr), "used means referenced or in writing");
  S c{raw(s)}; sym_assert((c.GetTimeStamp() == ts) & (c.GetReferenceCount() == rc) & (c.IsInvalid() == inv) & (c.IsInWriting() == wr) & (c.IsUsed() == used), "the word does not carry the state");
  std::uint32_t lo = sym_u32("min"), hi = sym_u32("max"); bool b = s.IsTimeStampBetween(lo, hi); sym_assert(b == ((!inv) & (!wr) & (ts > lo) & (ts < hi)), "timestamp strictly between the limits");
  if (b) sym_reach("between");
}
extern "C" void h_word_slot() {
  S d; sym_assert(d.IsInvalid() & !d.IsInWriting() & !d.IsUsed(), "a new slot is invalid");
  { S any{sym_u64("word")}; classify(any); S w{any}; w.MarkInWriting(); sym_assert(w.IsInWriting() & !w.IsInvalid() & w.IsUsed(), "mark in writing"); sym_assert(!w.IsTimeStampBetween(0, 0xFFFFFFFFu), "a slot in writing is taken for a sample"); S i{any}; i.MarkInvalid(); sym_assert(i.IsInvalid() & !i.IsInWriting() & !i.IsUsed(), "mark invalid"); sym_assert(raw(i) == raw(d), "invalid slots differ");
    sym_assert((raw(any) == raw(w)) == any.IsInWriting(), "one word means in writing"); sym_assert((raw(any) == raw(i)) == any.IsInvalid(), "one word means invalid"); if (any.IsInWriting()) sym_reach("writing"); if (any.IsInvalid()) sym_reach("invalid"); }
  std::uint32_t ts = sym_u32("timestamp"), rc = sym_u32("refcount"), ts2 = sym_u32("timestamp2"), rc2 = sym_u32("refcount2"); S s{ts, rc}, o{ts2, rc2};
  sym_assert((s.GetTimeStamp() == ts) & (s.GetReferenceCount() == rc), "timestamp and reference count are kept apart"); classify(s);
  sym_assert((raw(s) == raw(o)) == ((ts == ts2) & (rc == rc2)), "different slot states share a word");
  if (ts >= S::FIRST_VALID_TIMESTAMP) { sym_assert(!s.IsInvalid() & !s.IsInWriting(), "a published sample looks free or in writing"); sym_reach("ready"); }
  // a reference taken by one consumer is the slot word plus one
  if (ts >= S::FIRST_VALID_TIMESTAMP) { sym_assume(rc < 0xFFFFFFFFu); S p{raw(s) + 1}; sym_assert((p.GetTimeStamp() == ts) & (p.GetReferenceCount() == rc + 1), "adding one to the word adds one reference"); }
}
extern "C" void h_word_history() {
  S s{sym_u64("word")}; 
  for (int i = 0; i < K; i++) { auto ts = s.GetTimeStamp();
    switch (sym_choose(4, "op")) {
      case 0: { std::uint32_t r = sym_u32("refcount"); s.SetReferenceCount(r); sym_assert((s.GetReferenceCount() == r) & (s.GetTimeStamp() == ts), "setting the reference count changes the timestamp"); } break;
      case 1: { std::uint32_t t = sym_u32("timestamp"); bool w = s.IsInWriting(); s.SetTimeStamp(t); sym_assert(s.GetTimeStamp() == t, "timestamp"); sym_assert(!w | (s.GetReferenceCount() == 0), "a newly published sample starts without references"); } break;
      case 2: s.MarkInWriting(); sym_assert(s.IsInWriting(), "mark in writing"); break;
      default: s.MarkInvalid(); sym_assert(s.IsInvalid(), "mark invalid"); break;
    } }
  S a{s}, b; b = a; sym_assert((raw(a) == raw(s)) & (raw(b) == raw(s)), "copies"); sym_reach("done");
}
extern "C" void h_word_log() {
  TransactionLogSlot s; bool b = false, e = false; sym_assert(!s.GetTransactionBegin() && !s.GetTransactionEnd(), "fresh entry");
  for (int i = 0; i < K; i++) { bool v = sym_bool("value"); if (sym_choose(2, "which") == 0) { s.SetTransactionBegin(v); b = v; } else { s.SetTransactionEnd(v); e = v; } sym_assert((s.GetTransactionBegin() == b) & (s.GetTransactionEnd() == e), "begin and end of a transaction are independent"); TransactionLogSlot c{s}; sym_assert((c.GetTransactionBegin() == b) & (c.GetTransactionEnd() == e), "copy of an entry"); }
  if (b & e) sym_reach("both"); if (!b & !e) sym_reach("none");
}
extern "C" void h_word_slots() {
  std::uint64_t n = sym_u16("slots"), t = sym_u16("tracing"), g = sym_u16("getter"), m = sym_u16("subscribers"); bool set = sym_bool("setter"), enf = sym_bool("enforce"); SkeletonEventProperties p{n, t, g, set, m, enf};
  sym_assert(p.GetTotalNumberOfSlots() == n + t + g + (set ? 1 : 0), "slots for consumers, tracing, field getters and the field setter"); sym_assert((p.GetNumberOfFieldGetterSlots() == g) & (p.max_subscribers == m) & (p.enforce_max_samples == enf), "event properties"); sym_reach("done");
}
