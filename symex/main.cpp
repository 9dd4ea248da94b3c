#include "engine.h"
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <atomic>
#include <unistd.h>
#include <fstream>
#include <sstream>
using namespace llvm;
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else if (c >= 0x80) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string inputsJs(const std::vector<InputRec>& in, const Assignment& m) { std::string o = "["; bool f = true; for (auto& i : in) { u128 v = i.isSym ? m.get(i.sym) & maskw(i.w) : i.val; char b[64]; snprintf(b, sizeof b, "%llu", (unsigned long long)v); o += (f ? "" : ",") + std::string("[") + js(i.name) + "," + std::to_string(i.w) + "," + b + "]"; f = false; } return o + "]"; }
void Engine::report(const std::string& out, const std::string& entry) {
  std::ofstream o(out); double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  o << "{\"entry\":" << js(entry) << ",\"paths\":" << paths << ",\"infeasible\":" << infeasible << ",\"abort_paths\":" << abortPaths << ",\"forks\":" << forks << ",\"instructions\":" << instrs << ",\"max_path_instructions\":" << maxPathInstr << ",\"asserts\":" << asserts << ",\"assert_queries\":" << assertQueries << ",\"visible_points\":" << points << ",\"crashes\":" << crashes
    << ",\"queries\":" << gSolver.queries << ",\"sat\":" << gSolver.sat << ",\"unsat\":" << gSolver.unsat << ",\"unknown\":" << gSolver.unknown << ",\"cache_hits\":" << gSolver.cacheHits << ",\"model_hits\":" << gSolver.modelHits << ",\"solver_s\":" << gSolver.secs << ",\"wall_s\":" << wall << ",\"incomplete\":" << (incomplete ? "true" : "false") << ",\"incomplete_why\":" << js(incompleteWhy) << ",\n\"errors\":[";
  for (size_t i = 0; i < errors.size(); i++) o << (i ? "," : "") << js(errors[i]);
  o << "],\n\"violations\":[";
  for (size_t i = 0; i < viols.size(); i++) { auto& v = viols[i]; o << (i ? ",\n" : "") << "{\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"inputs\":" << inputsJs(v.inputs, v.model) << ",\"stack\":["; for (size_t k = 0; k < v.stack.size(); k++) o << (k ? "," : "") << js(v.stack[k]); o << "]}"; }
  o << "],\n\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) { auto& v = samples[i]; o << (i ? ",\n" : "") << "{\"end\":" << js(v.end) << ",\"inputs\":" << inputsJs(v.inputs, v.model) << ",\"obs\":["; for (size_t k = 0; k < v.obs.size(); k++) o << (k ? "," : "") << v.obs[k]; o << "]}"; }
  o << "],\n\"reached\":{"; bool f = true; for (auto& r : reached) { o << (f ? "" : ",") << js(r.first) << ":" << r.second; f = false; }
  o << "},\n\"assert_sites\":{"; f = true; for (auto& r : assertCount) { o << (f ? "" : ",") << js(r.first) << ":" << r.second; f = false; }
  o << "},\n\"functions\":["; f = true; for (auto* p : funcList) if (p->used) { std::string file; if (auto* sp = p->F->getSubprogram()) file = sp->getFilename().str(); o << (f ? "" : ",\n") << "[" << js(demangle(p->name)) << "," << js(file) << "," << p->calls << "]"; f = false; }
  o << "]}\n";
}
void Engine::run(const std::string& entry) {
  t0 = std::chrono::steady_clock::now();
  init = new State(); init->nextHeap = 16; // globals use windows below HEAP_W0
  init->model = std::make_shared<Assignment>();
  // function addresses must exist before any execution
  for (auto& F : *M) if (!F.isIntrinsic()) funcOf(&F);
  initGlobals(); init->nextHeap = HEAP_W0;
  init->th.resize(1); init->th[0].stackNext = STACK_W0;
  Function* F = M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "entry %s not found\n", entry.c_str()); exit(3); }
  S = init;
  // frames are entered in reverse: entry at the bottom, constructors above it
  std::vector<std::pair<uint64_t, Function*>> ctors;
  if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.emplace_back(cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  enter(funcOf(F), {}, -1, 0);
  for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) enter(funcOf(it->second), {}, -1, 0);
  work.push_back(init);
  if (jobs <= 1) { solverTimer(); loop(); return; }
  if (!loop(8 * jobs)) return;
  // phase 2: worker processes take the pending states one after another
  std::vector<State*> all; all.swap(work);
  auto* next = static_cast<std::atomic<uint32_t>*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> kids; bool child = false;
  for (int k = 1; k < jobs && !child; k++) { pid_t p = fork(); if (p == 0) { child = true; part = k; } else if (p > 0) kids.push_back(p); else { fprintf(stderr, "fork failed\n"); exit(3); } }
  solverTimer();
  if (child) { paths = infeasible = abortPaths = forks = instrs = asserts = assertQueries = points = crashes = 0; gSolver = SolverStats(); errors.clear(); viols.clear(); samples.clear(); reached.clear(); assertCount.clear(); incomplete = false; incompleteWhy.clear(); }
  for (;;) { uint32_t i = next->fetch_add(1); if (i >= all.size()) break; if (incomplete && incompleteWhy == "time budget") break; work.push_back(all[i]); loop(); if (!work.empty()) break; }
  if (next->load() < all.size() && !incomplete && !viols.empty()) incomplete = true, incompleteWhy = "stopped after violations";
  for (pid_t p : kids) { int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { errors.push_back("a worker process died"); incomplete = true; incompleteWhy = "worker died"; } }
}
int main(int argc, char** argv) {
  struct rlimit rl{RLIM_INFINITY, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &rl);
  std::string in, entry, out = "/dev/stdout", instr; Engine e; setvbuf(stderr, nullptr, _IOLBF, 0);
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--budget") e.budget = std::stod(nx()); else if (a == "--max-instr") e.maxInstrPath = std::stoull(nx()); else if (a == "--max-paths") e.maxPaths = std::stoull(nx()); else if (a == "--max-viol") e.maxViol = std::stoi(nx()); else if (a == "--samples") e.nSamples = std::stoi(nx()); else if (a == "--solver-timeout") gSolverTimeoutMs = std::stoul(nx()); else if (a == "--jobs") e.jobs = std::stoi(nx()); else if (a == "-v") e.verbose = true; else if (a == "--instrument") instr = nx(); else in = a; }
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(in, err, ctx); if (!M) { err.print("symex", errs()); return 3; }
  if (!instr.empty()) { instrumentModule(*M); std::error_code ec; raw_fd_ostream o(instr, ec); WriteBitcodeToFile(*M, o); return 0; }
  e.M = M.get(); e.DL = &M->getDataLayout();
  try { e.run(entry); } catch (PathEnd& p) { e.errors.push_back(p.kind); e.incomplete = true; }
  e.report(e.part ? out + "." + std::to_string(e.part) : out, entry); fflush(nullptr);
  _exit(0);
}
