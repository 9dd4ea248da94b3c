// Harness primitives. Under the symbolic executor they are intercepted; in the native replay build rt.cpp implements them from a recorded input vector.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint8_t sym_u8(const char* name);
std::uint16_t sym_u16(const char* name);
std::uint32_t sym_u32(const char* name);
std::uint64_t sym_u64(const char* name);
bool sym_bool(const char* name);
void sym_make(void* p, std::size_t n, const char* name);
std::uint64_t sym_range(std::uint64_t lo, std::uint64_t hi, const char* name);   // symbolic value in [lo,hi]
std::uint64_t sym_choose(std::uint64_t n, const char* name);                     // forks: concrete on each path
std::uint64_t sym_concretize(std::uint64_t v);                                   // solver enumerates all feasible values
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_reach(const char* label);
void sym_observe(std::uint64_t v);
void sym_print(const char* label, std::uint64_t v);
void sym_note(const char* s);
void sym_abort_ok(int mode);                          // 0: termination is a violation, 1: termination ends the path silently
void sym_shared(void* p, std::size_t n, int mode);    // 1: atomics are schedule points, 2: + plain stores, 3: + plain loads
void* sym_shm(std::uint64_t size);                    // zero-filled memory that can be mapped a second time
void* sym_alias(void* p);                             // second mapping of the same memory
int sym_try(void (*fn)(void*), void* arg);            // 1 if fn terminated the process (frames dropped, memory kept)
unsigned sym_parallel(std::uint64_t n, void (**fns)(void*), void** args, int preemptions, unsigned crash_mask, int max_crashes);
int sym_thread_id();
void sym_yield();
void sym_clock_fixed(std::uint64_t ns);                  // from here on every clock stands still at this instant
std::uint64_t sym_live_allocs();
int sym_is_symbolic_run();
}
template <class F> int sym_try_f(F f) { return sym_try([](void* a) { (*static_cast<F*>(a))(); }, &f); }
template <class F> struct SymThread { static void run(void* a) { (*static_cast<F*>(a))(); } };
// run lambdas concurrently
template <class... F> unsigned sym_par(int preempt, unsigned crash_mask, int max_crashes, F... f) { void (*fn[])(void*) = {&SymThread<F>::run...}; void* ar[] = {static_cast<void*>(&f)...}; return sym_parallel(sizeof...(F), fn, ar, preempt, crash_mask, max_crashes); }
