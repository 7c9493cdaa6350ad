#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <unordered_map>

struct Val { Expr *e; u64 c; };                 // e==nullptr: concrete value c (width<=64)
inline Val VC(u64 c) { return Val{nullptr, c}; }
inline Val VE(Expr *e) { if (e->isC() && e->w <= 64) return VC(e->v); return Val{e, 0}; }
inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkC(w, v.c); }

template <class T> struct Ref {
  T *p = nullptr;
  Ref() {} Ref(T *x) : p(x) { if (p) p->rc++; }
  Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  Ref &operator=(Ref o) { std::swap(p, o.p); return *this; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  T *operator->() const { return p; } T &operator*() const { return *p; }
  explicit operator bool() const { return p; }
  T *mut() { if (p->rc > 1) { T *n = new T(*p); n->rc = 0; *this = Ref(n); } return p; }
};

enum ObjKind : u8 { O_GLOBAL, O_STACK, O_HEAP, O_FUNC };
struct SymB { Expr *e; u32 idx; };
static const u64 kHuge = 64ull << 20;
struct Obj {
  int rc = 0; u64 base = 0, size = 0; ObjKind kind = O_GLOBAL; bool ro = false; u8 alloc = 0; // alloc: 1 malloc 2 new 3 new[]
  const char *name = "";
  std::vector<u8> bytes; std::vector<u8> st;   // st: empty = all concrete; else per byte 0 concrete 1 uninit 2 symbolic
  std::vector<SymB> sym;
  u32 nsym = 0;                                // number of non-concrete bytes (approx: any)
};
struct Chunk { int rc = 0; Ref<Obj> o[64]; };

struct Func; struct Inst;
struct Frame { int rc = 0; Func *f = nullptr; int bb = 0, ip = 0; const Inst *call = nullptr; std::vector<Val> regs; std::vector<u64> allocas; u64 va = 0; };

struct InputRec { Expr *sym; u64 lo; const char *name; u8 mode; };
struct ExcRec { u64 obj; u64 tinfo; };

struct State {
  std::vector<Ref<Frame>> frames;
  std::vector<Ref<Chunk>> mem; u64 nextId = 0;
  std::vector<Expr *> pc; Model model; Binding bind; u64 bindVer = 0;
  std::vector<InputRec> inputs; std::vector<Val> trace;
  std::vector<ExcRec> thrown, caught;
  u64 steps = 0; int mergeOn = 0; u64 heapLive = 0; u32 uninitCtr = 0;
  bool stopped = false;
  u64 depthForks = 0;
};
typedef std::unique_ptr<State> SP;

struct Engine;
typedef void (*Builtin)(Engine &, State &, const Inst &, Val *args, int n);

struct PhiSet { int pred; std::vector<std::pair<int, int>> moves; };
struct Block { int first = 0, n = 0; std::vector<PhiSet> phis; int ipdom = -1; std::vector<bool> live; bool haveLive = false; std::vector<int> succ; };
struct GepIdx { int op; i64 scale; u8 w; };
struct Clause { bool isCatch; u64 tinfo; std::vector<u64> filter; };
struct FlatEl { u64 off; u8 w; };
struct Inst {
  u16 op = 0; u8 w = 0, w2 = 0; u16 sub = 0; int dst = -1; u32 ndst = 0;
  std::vector<int> ops;
  std::vector<GepIdx> gep; i64 imm = 0;
  std::vector<FlatEl> flat;               // load/store layout
  Func *callee = nullptr; std::vector<u8> argw; std::vector<u32> argn;
  int t1 = -1, t2 = -1; std::vector<std::pair<u64, int>> cases;
  std::vector<Clause> clauses; bool cleanup = false;
  const llvm::Instruction *I = nullptr;
  mutable u32 mergeFail = 0, mergeOk = 0;
  int bb = 0;
};
struct Func {
  llvm::Function *F = nullptr; std::string name; u64 addr = 0; bool decoded = false, isRepo = false; Builtin bi = nullptr; bool noop = false;
  std::vector<Inst> insts; std::vector<Block> blocks; int nslots = 0; std::vector<Val> consts; std::vector<int> argSlots; std::vector<u32> argN;
  bool liveDone = false; u64 calls = 0; bool varargs = false;
};
struct Stop { size_t depth; int bb; };   // bb=-1: until return below depth

struct Violation { std::string kind, label, where, detail; std::vector<u64> inputs; std::vector<std::string> names; };
struct Sample { std::vector<u64> inputs; std::vector<u64> trace; };

struct DeadEx { };                       // state ends
struct ForkEx { std::vector<SP> states; };  // replace current state by these

struct Engine {
  std::unique_ptr<llvm::Module> M; const llvm::DataLayout *DL = nullptr;
  std::unordered_map<const llvm::Function *, Func *> funcs; std::map<u64, Func *> funcByAddr;
  std::unordered_map<const llvm::GlobalValue *, u64> gaddr; std::map<std::string, u64> tinfoByName; std::map<u64, std::string> tinfoName; std::map<u64, u64> tinfoBase; std::map<u64, u64> typeIds;
  std::map<std::string, i64> params;
  std::map<std::string, u64> reached; std::map<std::string, u64> checksPassed;
  std::vector<Violation> viols; std::vector<Sample> samples; u64 maxViol = 3;
  u64 steps = 0, paths = 0, deadAssume = 0, forks = 0, merges = 0, mergeFails = 0, branches = 0, maxSteps = 20000000; double deadline = 0; double t0 = 0;
  bool incomplete = false; std::string incompleteWhy; bool timeUp = false; unsigned maxFork = 4096; u64 sampleSeed = 1; unsigned maxSamples = 24; u64 maxForkValues = 600;
  bool concrete = false; std::vector<u64> concreteInputs;
  bool verbose = false;

  void load(const std::string &path);
  SP initState(const std::string &entry);
  void run(const std::string &entry);
  std::vector<SP> runUntil(SP s, Stop st);
  Func *func(const llvm::Function *F); void decode(Func *f); void liveness(Func *f);
  u64 globalAddr(const llvm::GlobalValue *g);

  // values
  void constFlat(const llvm::Constant *c, std::vector<Val> &out);
  // memory
  Obj *find(State &s, u64 addr); Obj *findMut(State &s, u64 addr);
  u64 alloc(State &s, u64 size, ObjKind k, const char *name, bool uninit, u8 akind = 0);
  void release(State &s, u64 addr);
  Val loadC(State &s, u64 addr, unsigned w); void storeC(State &s, u64 addr, Val v, unsigned w);
  Val load(State &s, Val addr, unsigned w); void store(State &s, Val addr, Val v, unsigned w);
  Val loadObj(State &s, Obj *o, u64 off, unsigned w); void storeObj(State &s, Obj *o, u64 off, Val v, unsigned w);
  void resolve(State &s, Expr *addr, unsigned bytes, bool write, std::vector<std::pair<u64, Expr *>> &out);
  void copyMem(State &s, u64 d, u64 src, u64 n); void setMem(State &s, u64 d, Val b, u64 n);
  std::string readStr(State &s, u64 addr);
  // solver
  Expr *restrict_(State &s, Expr *e);
  void assume(State &s, Expr *c);
  Expr *smallForFp(State &s, Expr *a);
  Res query(State &s, Expr *c, Model *m);
  int decide(State &s, Expr *c, Model *other);  // 0 false, 1 true, 2 both (other = model for the side the current model does not take)
  void checkUninit(State &s, Expr *c, const char *what);
  u64 concretize(State &s, Val v, unsigned w, int slot);   // may throw ForkEx after restricting the slot
  u64 concretizeArg(State &s, const Inst &in, int i, unsigned w);
  SP clone(State &s);
  // control
  void enterBlock(State &s, int bb); void doReturn(State &s, std::vector<Val> &rv); void unwind(State &s, u64 obj, u64 tinfo);
  void callFunc(State &s, const Inst &in, Func *f, std::vector<Val> &args);
  int step(State &s, SP &sp, std::vector<SP> &forked);
  bool merge(State &a, State &b);
  void setDst(State &s, const Inst &in, Val v) { if (in.dst >= 0) s.frames.back().mut()->regs[in.dst] = v; }
  [[noreturn]] void violation(State &s, const std::string &kind, const std::string &label, Expr *cond = nullptr);
  void recordViolation(State &s, const Model &m, const std::string &kind, const std::string &label);
  void finishPath(State &s);
  std::string where(State &s);
  Val rd(State &s, int o) { Frame *f = s.frames.back().p; return o >= 0 ? f->regs[o] : f->f->consts[-o - 1]; }
  [[noreturn]] void beyond();
  void setIncomplete(const std::string &w) { if (!incomplete) { incomplete = true; incompleteWhy = w; } }
  Val newInput(State &s, const std::string &name, unsigned w, u64 lo, u64 hi, int mode);
  std::vector<u64> inputValues(State &s, const Model &m);
};
Builtin findBuiltin(const std::string &name, bool hasBody, bool *noop);
double nowSec();
