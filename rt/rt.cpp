// Native replay runtime: feeds recorded inputs (argv[1]) and the recorded schedule to the harness compiled from the real code.
#include "sym.h"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <condition_variable>
#include <mutex>
#include <chrono>
struct SymEntry { const char* name; void (*fn)(); };
extern SymEntry sym_entries[];
namespace {
struct In { std::string name; unsigned w; unsigned long long v; };
std::vector<In> ins; size_t pos = 0; bool verbose = false;
[[noreturn]] void die(int code, const char* m, const char* s = "") { std::fflush(stdout); std::fprintf(stdout, "SYMRT %s %s\n", m, s); std::fflush(stdout); _exit(code); }
unsigned long long next(const char* name, unsigned w) {
  if (pos >= ins.size()) die(20, "DIVERGED input exhausted at", name);
  In& i = ins[pos++]; if (i.name != name) { std::string m = i.name + " vs " + name; die(20, "DIVERGED input mismatch", m.c_str()); } (void)w; return i.v;
}
int abort_mode = 0;
struct Range { char* lo; char* hi; int mode; }; std::vector<Range> shared;
struct Thr { ucontext_t uc; char* stack; void (*fn)(void*); void* arg; bool done = false, crashed = false, passed = false, blocked = false; const void* wait = nullptr; unsigned long points = 0; std::vector<sigjmp_buf*> scopes; };
std::vector<Thr*> th; int cur = 0; bool par = false; int preempt = 0; unsigned crash_mask = 0; int max_crash = 0; ucontext_t main_uc;
std::vector<sigjmp_buf*> main_scopes;
std::map<const void*, std::pair<int,int>> locks;
int choose(int n) { if (n <= 1) return 0; return (int)next("sched", 32); }
void go(int t) { int from = cur; cur = t; Thr* f = from ? th[from - 1] : nullptr; if (from == t) return; swapcontext(f ? &f->uc : &main_uc, t ? &th[t - 1]->uc : &main_uc); }
void resched();
void finish(bool crashed) { Thr* t = th[cur - 1]; t->done = true; t->crashed = crashed; resched(); }
void resched() {
  for (;;) {
    std::vector<std::pair<int,bool>> opt; bool blk = false;
    for (int i = 1; i <= (int)th.size(); i++) { Thr* t = th[i - 1]; if (t->done) continue; if (t->blocked) { blk = true; continue; } opt.emplace_back(i, false); }
    if (max_crash > 0) for (int i = 1; i <= (int)th.size(); i++) { Thr* t = th[i - 1]; if (!t->done && t->points && (crash_mask >> (i - 1) & 1)) opt.emplace_back(i, true); }
    if (opt.empty()) { if (blk) die(13, "VIOLATION deadlock"); go(0); return; }
    int c = choose((int)opt.size());
    if (opt[c].second) { max_crash--; th[opt[c].first - 1]->done = th[opt[c].first - 1]->crashed = true; continue; }
    th[opt[c].first - 1]->passed = true; go(opt[c].first); return;
  }
}
bool vis(const void* p, size_t n, int k) { if (k == 13) return true; bool atomic = k & 4, wr = k & 1; if (shared.empty()) return atomic; for (auto& s : shared) if ((char*)p < s.hi && (char*)p + n > s.lo) { if (atomic || s.mode >= 3 || (s.mode == 2 && wr)) return true; } return false; }
void point(const void* p, size_t n, int k) {
  if (!par || !cur) return;
  if (!vis(p, n, k)) return;
  if (verbose) std::fprintf(stderr, "PT t%d k%d n%zu passed%d ret %p\n", cur, k, n, (int)th[cur - 1]->passed, __builtin_return_address(0));
  for (;;) {
    Thr* t = th[cur - 1];
    if (t->passed) { t->passed = false; t->points++; return; }
    std::vector<int> opt{cur}; if (preempt > 0) for (int i = 1; i <= (int)th.size(); i++) if (i != cur && !th[i - 1]->done && !th[i - 1]->blocked) opt.push_back(i);
    bool cr = (crash_mask >> (cur - 1) & 1) && max_crash > 0;
    int c = choose((int)opt.size() + cr);
    if (c == 0) { t->points++; return; }
    if (c == (int)opt.size()) { max_crash--; finish(true); return; }
    preempt--; th[opt[c] - 1]->passed = true; go(opt[c]);
  }
}
void tramp() { Thr* t = th[cur - 1]; t->fn(t->arg); finish(false); }
void block(const void* a) { if (!cur) die(13, "VIOLATION deadlock"); Thr* t = th[cur - 1]; t->blocked = true; t->wait = a; t->passed = false; resched(); }
void wake(const void* a) { for (auto* t : th) if (t->blocked && t->wait == a) t->blocked = false; }
int lockop(const void* m, bool ex, bool tr) {
  for (;;) { point(m, 1, 13); auto& l = locks[m]; bool fr = ex ? (!l.first && !l.second) : !l.first;
    if (fr) { if (ex) l.first = cur + 1; else l.second++; return 0; } if (ex && l.first == cur + 1 && ((const int*)m)[4] == 1) { l.second++; return 0; }
    if (tr) return 16; if (l.first == cur + 1) die(13, "VIOLATION self deadlock"); block(m); }
}
int unlockop(const void* m) { point(m, 1, 5); auto& l = locks[m]; if (l.first == cur + 1 && l.second == 0) l.first = 0; else if (l.second > 0) l.second--; else die(13, "VIOLATION unlock of a mutex not held"); wake(m); return 0; }
[[noreturn]] void aborted() { auto& sc = cur ? th[cur - 1]->scopes : main_scopes; if (!sc.empty()) { sigjmp_buf* b = sc.back(); sc.pop_back(); siglongjmp(*b, 1); } if (abort_mode) die(0, "ABORT-OK"); die(12, "VIOLATION unexpected termination"); }
void onsig(int s) { if (s == SIGABRT) aborted(); die(14, "VIOLATION signal", s == SIGSEGV ? "SEGV" : s == SIGILL ? "ILL" : s == SIGFPE ? "FPE" : "other"); }
}
static std::map<std::pair<void*, int>, void*> tls_copies; // each thread's own copy of a thread-local variable
extern "C" {
std::uint8_t sym_u8(const char* n) { return next(n, 8); }
std::uint16_t sym_u16(const char* n) { return next(n, 16); }
std::uint32_t sym_u32(const char* n) { return next(n, 32); }
std::uint64_t sym_u64(const char* n) { return next(n, 64); }
bool sym_bool(const char* n) { return next(n, 8) & 1; }
void sym_make(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = next(nm, 8); }
std::uint64_t sym_range(std::uint64_t, std::uint64_t, const char* n) { return next(n, 64); }
std::uint64_t sym_choose(std::uint64_t, const char* n) { std::string k = std::string("choose:") + n; return next(k.c_str(), 32); }
std::uint64_t sym_concretize(std::uint64_t v) { return v; }
void sym_assume(bool c) { if (!c) die(11, "ASSUME-FALSE"); }
void sym_assert(bool c, const char* m) { if (!c) die(10, "VIOLATION assert", m); }
void sym_reach(const char* l) { std::printf("REACH %s\n", l); }
void sym_observe(std::uint64_t v) { std::printf("OBS %llu\n", (unsigned long long)v); }
void sym_print(const char* l, std::uint64_t v) { std::printf("PRINT %s %llu\n", l, (unsigned long long)v); }
void sym_note(const char*) {}
void sym_abort_ok(int m) { abort_mode = m; }
void sym_shared(void* p, size_t n, int m) { shared.push_back({(char*)p, (char*)p + n, m}); }
int sym_is_symbolic_run() { return 0; }
int sym_thread_id() { return cur; }
int sym_try(void (*fn)(void*), void* a) { sigjmp_buf b; auto& sc = cur ? th[cur - 1]->scopes : main_scopes; sc.push_back(&b); if (sigsetjmp(b, 1)) return 1; fn(a); auto& s2 = cur ? th[cur - 1]->scopes : main_scopes; s2.pop_back(); return 0; }
unsigned sym_parallel(std::uint64_t n, void (**f)(void*), void** a, int pre, unsigned cm, int mc) {
  th.clear(); for (auto& c : tls_copies) free(c.second); tls_copies.clear(); preempt = pre; crash_mask = cm; max_crash = mc;
  for (std::uint64_t i = 0; i < n; i++) { Thr* t = new Thr(); t->fn = f[i]; t->arg = a[i]; t->stack = (char*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); getcontext(&t->uc); t->uc.uc_stack.ss_sp = t->stack; t->uc.uc_stack.ss_size = 1 << 20; t->uc.uc_link = nullptr; makecontext(&t->uc, tramp, 0); th.push_back(t); }
  par = true; cur = 0; resched(); par = false; unsigned m = 0; for (size_t i = 0; i < th.size(); i++) if (th[i]->crashed) m |= 1u << i; return m;
}
void sym_yield() { if (!par || !cur) return; for (;;) { Thr* t = th[cur - 1]; if (t->passed) { t->passed = false; return; } std::vector<int> opt{cur}; for (int i = 1; i <= (int)th.size(); i++) if (i != cur && !th[i - 1]->done && !th[i - 1]->blocked) opt.push_back(i); bool cr = (crash_mask >> (cur - 1) & 1) && max_crash > 0; int c = choose((int)opt.size() + cr); if (!c) return; if (c == (int)opt.size()) { max_crash--; finish(true); return; } th[opt[c] - 1]->passed = true; go(opt[c]); } }
std::uint64_t sym_live_allocs() { return 0; }
static std::map<char*, std::pair<int, size_t>> shms;
void* sym_shm(std::uint64_t n) { int fd = memfd_create("sym", 0); if (ftruncate(fd, n)) die(21, "memfd"); char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); shms[p] = {fd, n}; return p; }
void* sym_alias(void* p) { auto it = shms.upper_bound((char*)p); if (it == shms.begin()) die(21, "UNSUPPORTED sym_alias"); --it; size_t off = (char*)p - it->first; char* q = (char*)mmap(nullptr, it->second.second, PROT_READ | PROT_WRITE, MAP_SHARED, it->second.first, 0); return q + off; }
void __symrt_point(void* p, std::uint64_t n, int k) { point(p, n, k); }
void* __symrt_tls(void* p, std::uint64_t n, const void* init) { if (!cur) return p; void*& q = tls_copies[{p, cur}]; if (!q) { q = aligned_alloc(64, (n + 63) / 64 * 64); std::memcpy(q, init, n); } return q; }
int __symrt_pthread_mutex_lock(void* m) { return lockop(m, true, false); } int __symrt_pthread_mutex_trylock(void* m) { return lockop(m, true, true); } int __symrt_pthread_mutex_unlock(void* m) { return unlockop(m); }
int __symrt_pthread_rwlock_wrlock(void* m) { return lockop(m, true, false); } int __symrt_pthread_rwlock_trywrlock(void* m) { return lockop(m, true, true); } int __symrt_pthread_rwlock_rdlock(void* m) { return lockop(m, false, false); } int __symrt_pthread_rwlock_tryrdlock(void* m) { return lockop(m, false, true); } int __symrt_pthread_rwlock_unlock(void* m) { return unlockop(m); }
void __symrt__ZNSt18condition_variable10notify_oneEv(void* c) { point(c, 1, 13); std::vector<Thr*> w; for (auto* t : th) if (t->blocked && t->wait == c) w.push_back(t); if (w.empty()) return; int k = w.size() > 1 ? choose((int)w.size()) : 0; w[k]->blocked = false; } void __symrt__ZNSt18condition_variable10notify_allEv(void* c) { point(c, 1, 13); wake(c); }
void __symrt__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, void* ul) { const void* m = *(void**)ul; point(c, 1, 13); locks[m].first = 0; wake(m); block(c); while (locks[m].first) block(m); locks[m].first = cur + 1; if (cur) th[cur - 1]->passed = false; }
static bool g_clkFixed = false; static std::uint64_t g_clk; void sym_clock_fixed(std::uint64_t v) { g_clkFixed = true; g_clk = v; }
std::uint64_t __symrt__ZNSt6chrono3_V212steady_clock3nowEv() { return g_clkFixed ? g_clk : next("clock", 64); } std::uint64_t __symrt__ZNSt6chrono3_V212system_clock3nowEv() { return g_clkFixed ? g_clk : next("clock", 64); }
void __symrt_abort() { aborted(); } void __symrt_exit(int) { aborted(); } void __symrt__exit(int) { aborted(); } void __symrt__Exit(int) { aborted(); } void __symrt_quick_exit(int) { aborted(); }
std::uint64_t __symrt_pthread_self() { return cur + 1; } static int rest() { if (!par || !cur) return 0; Thr* t = th[cur - 1]; if (t->passed) { t->passed = false; return 0; } std::vector<int> opt; for (int i = 1; i <= (int)th.size(); i++) if (i != cur && !th[i - 1]->done && !th[i - 1]->blocked) opt.push_back(i); if (opt.empty()) return 0; int c = choose((int)opt.size()); th[opt[c] - 1]->passed = true; go(opt[c]); th[cur - 1]->passed = false; return 0; }
int __symrt_nanosleep(void*, void*) { return rest(); } int __symrt_clock_nanosleep(int, int, void*, void*) { return rest(); } int __symrt_usleep(unsigned) { return rest(); } int __symrt_sched_yield() { return rest(); } int __symrt_getpid() { return 4711; }
}
#include <sys/single_threaded.h>
int main(int argc, char** argv) {
  if (argc < 2) return 2; __libc_single_threaded = 0; verbose = getenv("SYMRT_TRACE") != nullptr; std::ifstream f(argv[1]); std::string l; while (std::getline(f, l)) { auto p2 = l.rfind(' '); auto p1 = l.rfind(' ', p2 - 1); if (p2 == std::string::npos) continue; ins.push_back({l.substr(0, p1), (unsigned)std::stoul(l.substr(p1 + 1)), std::stoull(l.substr(p2 + 1))}); }
  for (int s : {SIGABRT, SIGSEGV, SIGILL, SIGFPE, SIGBUS, SIGTRAP}) { struct sigaction sa{}; sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER; sigaction(s, &sa, nullptr); }
  std::set_terminate([]() { aborted(); });
  for (auto* e = sym_entries; e->name; ++e) if (argc > 2 && std::string(argv[2]) == e->name) e->fn();
  std::printf("SYMRT DONE\n"); std::fflush(stdout); _exit(0);
}
