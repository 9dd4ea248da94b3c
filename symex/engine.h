#pragma once
#include "state.h"
#include <llvm/ADT/DenseMap.h>
#include <functional>
#include <chrono>
struct Violation { std::string msg, where; std::vector<InputRec> inputs; Assignment model; std::vector<std::string> stack; };
struct PathEnd { std::string kind; }; // thrown to end the current path: done, infeasible, abort, error:<..>
struct Engine {
  llvm::Module* M = nullptr; const llvm::DataLayout* DL = nullptr;
  std::unordered_map<const llvm::Function*, PFunc*> funcs; std::vector<PFunc*> funcList; std::unordered_map<const llvm::GlobalVariable*, uint64_t> globals; std::unordered_map<uint64_t, IP<MObj>> tlsInit; // thread-local variables: their initial values
  std::vector<const llvm::GlobalVariable*> pendingInit; std::vector<uint32_t> roObjs; State* init = nullptr;
  std::vector<State*> work; size_t head = 0; int jobs = 1, part = 0; State* S = nullptr; uint64_t nextStateId = 1;
  // options
  double budget = 600; uint64_t maxInstrPath = 20000000; uint64_t maxPaths = ~0ull; int maxViol = 1; int nSamples = 3; uint64_t seed = 1; bool stopOnViol = true; bool verbose = false;
  // results
  uint64_t paths = 0, infeasible = 0, abortPaths = 0, forks = 0, instrs = 0, asserts = 0, assertQueries = 0, points = 0, crashes = 0; bool incomplete = false; std::string incompleteWhy; std::vector<std::string> errors; std::vector<Violation> viols; std::set<std::string> violMsgs;
  struct Sample { std::vector<InputRec> inputs; Assignment model; std::vector<uint64_t> obs; std::string end; std::string why; }; std::vector<Sample> samples; std::map<std::string, uint64_t> reached; std::map<std::string, uint64_t> assertCount; uint64_t maxPathInstr = 0;
  std::chrono::steady_clock::time_point t0;
  [[noreturn]] void fatal(const std::string& m);
  [[noreturn]] void pathError(const std::string& m);
  [[noreturn]] void memError(const std::string& m);
  // prep
  uint32_t bitsOf(llvm::Type* t); uint32_t leavesOf(llvm::Type* t); void layout(llvm::Type* t, uint64_t off, std::vector<std::pair<uint64_t, uint32_t>>& out);
  void constLeaves(const llvm::Constant* c, std::vector<V>& out); V constVal(const llvm::Constant* c); PFunc* funcOf(const llvm::Function* F); uint64_t globalAddr(const llvm::GlobalVariable* g); void initGlobals();
  Opnd operand(const llvm::Value* v, llvm::DenseMap<const llvm::Value*, int>& slot); void prepare(PFunc* p);
  // memory
  uint64_t allocObj(State& s, uint64_t size, int kind, uint64_t win, uint8_t fill); void freeObj(State& s, uint64_t addr);
  MObj* objAt(State& s, uint64_t addr, uint64_t n, uint64_t& off, uint32_t& idx, bool forWrite);
  V memRead(State& s, uint64_t addr, uint32_t w); void memWriteC(State& s, uint64_t addr, V v, uint32_t nbytes); void memCopy(State& s, uint64_t d, uint64_t src, uint64_t n);
  V readByte(MObj* o, uint64_t off); void writeByte(MObj* o, uint64_t off, V v);
  uint64_t concretize(V v, const char* why); uint64_t addrOf(V v, uint64_t n);
  std::string cstr(uint64_t a);
  // solving
  bool addCons(State& s, E c); bool evalModel(State& s, E c); SatRes query(State& s, E extra, Assignment* out); bool mayBe(State& s, E c, std::shared_ptr<Assignment>* m); bool implied(State& s, E c, bool& val);
  // fork: returns the value taken by the current state; clone gets the other one. reexec: clone re-executes the current instruction
  State* clone(); int decide(E c); 
  // exec
  void run(const std::string& entry); bool loop(size_t stopAt = 0);  void step(); void enter(PFunc* f, const std::vector<V>& args, int32_t retDst, uint32_t retN); void doRet(const V* vals, uint32_t n); void jump(uint32_t b); void resume(Frame& f) { if (f.pend >= 0) { uint32_t b = (uint32_t)f.pend; f.pend = -1; jump(b); } } void leave(Frame& f, PInst& q); void call(PInst& q); void doExternal(PInst& q, PFunc* f, std::vector<V>& a); void intrinsic(PInst& q, unsigned id, std::vector<V>& a);
  V get(const Opnd& o) { return o.slot >= 0 ? S->th[S->cur].st.back().r[o.slot] : o.k; }
  void getN(const Opnd& o, uint32_t n, std::vector<V>& out);
  void set(int32_t dst, V v) { S->th[S->cur].st.back().r[dst] = v; }
  V bin(Kind k, V a, V b); V cmp(unsigned pred, V a, V b); V castTo(unsigned op, V a, uint32_t w); V fpBin(unsigned op, V a, V b, uint32_t w);
  bool visible(uint64_t addr, uint64_t n, bool atomic, bool write); bool schedPoint(uint64_t addr, uint64_t n, bool atomic, bool write, bool sync = false); void schedForced(); void doSched(); void blockOn(uint64_t a); void wake(uint64_t a); void switchTo(int t); int choose(const char* name, int n); void threadDone(bool crashed); void abortPath(const std::string& why);
  void newSym(const std::string& name, uint32_t w, V& out); void recordViolation(const std::string& msg, E cond); void finishPath(const std::string& kind); std::vector<std::string> stackTrace();
  void report(const std::string& out, const std::string& entry);
  std::string where();
};
extern Engine* gE;
int instrumentModule(llvm::Module& M);
