// Models of the C/C++ runtime entry points the encoded code calls, and the sx_* harness interface.
#include "engine.h"
#include <algorithm>
#include <unordered_set>
using namespace llvm;
#define BI(name) static void name(Engine &E, State &s, const Inst &in, Val *a, int n)
u64 Engine::concretizeArg(State &s, const Inst &in, int i, unsigned w) {
  int o = in.ops[(in.callee ? 0 : 1) + i];
  return concretize(s, rd(s, o), w, o >= 0 ? o : -1);
}
static u64 kAllocLimit = 64ull << 20;
static void throwStd(Engine &E, State &s, const char *ti, u64 size = 16) {
  u64 t = 0; auto it = E.tinfoByName.find(ti);
  if (it != E.tinfoByName.end()) t = it->second;
  else { t = E.alloc(s, 16, O_GLOBAL, "typeinfo", false); E.tinfoByName[ti] = t; E.tinfoName[t] = ti; auto b = E.tinfoByName.find("_ZTISt9exception"); if (b != E.tinfoByName.end()) E.tinfoBase[t] = b->second; }
  u64 o = E.alloc(s, size, O_GLOBAL, "exception", false);
  if (auto *g = E.M->getNamedGlobal("sx_exc_vtable")) E.storeC(s, o, VC(E.gaddr[g]), 64);
  s.thrown.push_back({o, t}); E.unwind(s, o, t);
}
static void doAlloc(Engine &E, State &s, const Inst &in, u64 sz, u8 kind, bool zero) {
  if (sz > kAllocLimit) { if (kind == 1) { E.setDst(s, in, VC(0)); return; } throwStd(E, s, "_ZTISt9bad_alloc"); return; }
  u64 p = E.alloc(s, sz, O_HEAP, "heap", !zero, kind); E.setDst(s, in, VC(p));
}
BI(b_malloc) { doAlloc(E, s, in, E.concretizeArg(s, in, 0, 64), 1, false); }
BI(b_calloc) { u64 x = E.concretizeArg(s, in, 0, 64), y = E.concretizeArg(s, in, 1, 64); doAlloc(E, s, in, (u128)x * y > kAllocLimit ? kAllocLimit + 1 : x * y, 1, true); }
BI(b_aligned) { doAlloc(E, s, in, E.concretizeArg(s, in, 1, 64), 1, false); }
BI(b_new) { doAlloc(E, s, in, E.concretizeArg(s, in, 0, 64), 2, false); }
BI(b_newa) { doAlloc(E, s, in, E.concretizeArg(s, in, 0, 64), 3, false); }
static void doFree(Engine &E, State &s, const Inst &in, u8 kind) {
  u64 p = E.concretizeArg(s, in, 0, 64); if (!p) return;
  Obj *o = E.find(s, p);
  if (!o) E.violation(s, "invalid-free", "freed twice or never allocated");
  if (o->kind != O_HEAP || o->base != p) E.violation(s, "invalid-free", "not the start of a heap block");
  if (o->alloc != kind) E.violation(s, "invalid-free", "allocation and deallocation functions do not match");
  E.release(s, p);
}
BI(b_free) { doFree(E, s, in, 1); }
BI(b_del) { doFree(E, s, in, 2); }
BI(b_dela) { doFree(E, s, in, 3); }
BI(b_realloc) { u64 p = E.concretizeArg(s, in, 0, 64), z = E.concretizeArg(s, in, 1, 64); if (!p) { doAlloc(E, s, in, z, 1, false); return; } Obj *o = E.find(s, p); if (!o || o->kind != O_HEAP || o->base != p || o->alloc != 1) E.violation(s, "invalid-free", "realloc of something that is no block of malloc"); u64 old = o->size; if (z > kAllocLimit) { E.setDst(s, in, VC(0)); return; } if (!z) { E.release(s, p); E.setDst(s, in, VC(0)); return; } u64 q = E.alloc(s, z, O_HEAP, "heap", true, 1); u64 k = old < z ? old : z; if (k) E.copyMem(s, q, p, k); E.release(s, p); E.setDst(s, in, VC(q)); }
BI(b_memcpy) { u64 c = E.concretizeArg(s, in, 2, 64); if (c) { u64 d = E.concretizeArg(s, in, 0, 64), q = E.concretizeArg(s, in, 1, 64); E.copyMem(s, d, q, c); } E.setDst(s, in, E.rd(s, in.ops[in.callee ? 0 : 1])); }
BI(b_memset) { u64 c = E.concretizeArg(s, in, 2, 64); Val v = a[1]; v = v.e ? VE(mkExtract(v.e, 0, 8)) : VC(v.c & 255); if (c) { u64 d = E.concretizeArg(s, in, 0, 64); E.setMem(s, d, v, c); } E.setDst(s, in, E.rd(s, in.ops[in.callee ? 0 : 1])); }
static void cmpImpl(Engine &E, State &s, const Inst &in, bool eqOnly) {
  u64 c = E.concretizeArg(s, in, 2, 64); if (!c) { E.setDst(s, in, VC(0)); return; }
  u64 p = E.concretizeArg(s, in, 0, 64), q = E.concretizeArg(s, in, 1, 64);
  Expr *r = mkC(32, 0);
  for (u64 i = c; i-- > 0;) {
    Expr *x = toE(E.loadC(s, p + i, 8), 8), *y = toE(E.loadC(s, q + i, 8), 8); Expr *eq = mkEq(x, y);
    Expr *d = eqOnly ? mkC(32, 1) : mkIte(mkUlt(x, y), mkC(32, 0xffffffffu), mkC(32, 1));
    r = mkIte(eq, r, d);
  }
  E.setDst(s, in, VE(r));
}
BI(b_memcmp) { cmpImpl(E, s, in, false); }
BI(b_bcmp) { cmpImpl(E, s, in, true); }
// ---- exceptions
BI(b_allocexc) { u64 c = E.concretizeArg(s, in, 0, 64); u64 p = E.alloc(s, c < 16 ? 16 : c, O_GLOBAL, "exception", true); E.setDst(s, in, VC(p)); }
BI(b_throw) { u64 o = a[0].c, t = a[1].c; s.thrown.push_back({o, t}); E.unwind(s, o, t); }
BI(b_begincatch) { u64 o = a[0].c; u64 t = 0; for (auto &x : s.thrown) if (x.obj == o) t = x.tinfo; s.caught.push_back({o, t}); E.setDst(s, in, a[0]); }
BI(b_endcatch) { if (!s.caught.empty()) s.caught.pop_back(); }
BI(b_rethrow) { if (s.caught.empty()) E.violation(s, "terminate", "rethrow without exception"); ExcRec r = s.caught.back(); E.unwind(s, r.obj, r.tinfo); }
BI(b_excctor) { if (auto *g = E.M->getNamedGlobal("sx_exc_vtable")) E.storeC(s, a[0].c, VC(E.gaddr[g]), 64); if (n > 1 && in.callee) { bool str = in.callee->name.find("basic_string") != std::string::npos || in.callee->name.find("RKNSt7__cxx11") != std::string::npos || in.callee->name.find("RKSs") != std::string::npos; bool copy = !str && in.callee->name.find("EPKc") == std::string::npos;
    Obj *o = E.find(s, a[0].c); if (!o || a[0].c - o->base + 16 > o->size) return;
    if (copy) { if (!a[1].e) { Obj *q = E.find(s, a[1].c); if (q && a[1].c - q->base + 16 <= q->size) E.storeC(s, a[0].c + 8, E.loadC(s, a[1].c + 8, 64), 64); } return; }
    if (!str) { E.storeC(s, a[0].c + 8, a[1], 64); return; }
    Val d = E.loadC(s, a[1].c, 64), l = E.loadC(s, a[1].c + 8, 64); u64 sz = l.e ? 0 : l.c; u64 cp = E.alloc(s, sz + 1, O_GLOBAL, "what", false); if (sz && !d.e) E.copyMem(s, cp, d.c, sz); E.storeC(s, a[0].c + 8, VC(cp), 64); } }
BI(b_excwhat) { E.setDst(s, in, E.loadC(s, a[0].c + 8, 64)); }
BI(b_exccopy) { b_excctor(E, s, in, a, n); }
BI(b_terminate) { E.violation(s, "terminate", in.callee ? in.callee->name : ""); }
BI(b_exit) { s.stopped = true; }
BI(b_guard) { Val v = E.load(s, a[0], 8); E.setDst(s, in, VC(v.c == 0)); }
BI(b_guardrel) { E.store(s, a[0], VC(1), 8); }
BI(b_atexit) { E.setDst(s, in, VC(0)); }
BI(b_pure) { E.violation(s, "pure-virtual", ""); }
// ---- harness interface
Val Engine::newInput(State &s, const std::string &name, unsigned w, u64 lo, u64 hi, int mode) {
  if (hi < lo) throw DeadEx();
  static std::map<std::string, std::string *> names; std::string *&nm = names[name]; if (!nm) nm = new std::string(name);
  if (concrete) { u64 v = s.inputs.size() < concreteInputs.size() ? concreteInputs[s.inputs.size()] : lo; s.inputs.push_back({nullptr, v, nm->c_str(), 0}); if (v < lo || v > hi) { deadAssume++; throw DeadEx(); } return VC(v); }
  u64 span = hi - lo;
  if (!span) { s.inputs.push_back({nullptr, lo, nm->c_str(), 0}); return VC(lo); }
  unsigned k = 64 - __builtin_clzll(span);
  Expr *sym = mkSym("in" + std::to_string(s.inputs.size()) + ":" + name + ":" + std::to_string(k), k, false, false, span);
  s.inputs.push_back({sym, lo, nm->c_str(), (u8)mode});
  if (s.model.size() > sym->v && s.model[sym->v] > span) s.model[sym->v] = 0;
  if (mode == 1) { Expr *r = mkC(w, hi); for (u64 i = span; i-- > 0;) r = mkIte(mkEq(sym, mkC(k, i)), mkC(w, lo + i), r); return VE(r); }
  return VE(mkBin(K_ADD, mkZext(sym, w), mkC(w, lo)));
}
BI(x_range) { u64 lo = E.concretizeArg(s, in, 1, 64), hi = E.concretizeArg(s, in, 2, 64); Val v = E.newInput(s, E.readStr(s, a[0].c), 64, lo, hi, 0); E.setDst(s, in, v); }
BI(x_choice) { u64 lo = E.concretizeArg(s, in, 1, 64), hi = E.concretizeArg(s, in, 2, 64); Val v = E.newInput(s, E.readStr(s, a[0].c), 64, lo, hi, 1); E.setDst(s, in, v); }
static Expr *truth(Val v, unsigned w) { Expr *e = toE(v, w); return w == 1 ? e : mkNot(mkEq(e, mkC(w, 0))); }
BI(x_assume) {
  Expr *c = E.restrict_(s, truth(a[0], in.argw[0])); if (c->isC() && c->v) return;
  Model m; Res r = E.query(s, c, &m);
  if (r == R_SAT) { E.assume(s, c); s.model = m; return; }
  if (r == R_UNKNOWN) E.setIncomplete("solver unknown on assumption"); else E.deadAssume++;
  throw DeadEx();
}
BI(x_check) {
  std::string l = E.readStr(s, a[1].c); Expr *c = E.restrict_(s, truth(a[0], in.argw[0]));
  if (c->uninit) E.checkUninit(s, c, ("uninitialised value reaches " + l).c_str());
  E.checksPassed[l];
  if (c->isC() && c->v) { E.checksPassed[l]++; return; }
  Expr *bad = mkNot(c); Model m; Res r = E.query(s, bad, &m);
  if (r == R_UNKNOWN) { E.setIncomplete("solver unknown on check " + l); return; }
  if (r == R_SAT) { E.recordViolation(s, m, "check", l);
    if (E.query(s, c, &m) == R_SAT) { E.assume(s, c); s.model = m; return; }
    throw DeadEx(); }
  E.checksPassed[l]++;
}
BI(x_reach) { E.reached[E.readStr(s, a[0].c)]++; }
BI(x_param) { std::string k = E.readStr(s, a[0].c); auto it = E.params.find(k); E.setDst(s, in, VC(it == E.params.end() ? E.concretizeArg(s, in, 1, 64) : (u64)it->second)); }
BI(x_observe) { s.trace.push_back(a[0]); }
BI(x_conc) { u64 v = E.concretizeArg(s, in, 0, 64); E.setDst(s, in, VC(v)); }
BI(x_alloclimit) { kAllocLimit = a[0].c; }
BI(x_merge) { u64 m = a[0].c; E.setDst(s, in, VC((u64)s.mergeOn)); s.mergeOn = (int)m; }
BI(x_heap) { E.setDst(s, in, VC(s.heapLive)); }
BI(x_symbolic) { bool sy = a[0].e && !E.restrict_(s, a[0].e)->isC(); E.setDst(s, in, VC(sy)); }
BI(x_fork) { Expr *c = E.restrict_(s, truth(a[0], in.argw[0])); (void)c; u64 v = E.concretizeArg(s, in, 0, in.argw[0]); E.setDst(s, in, VC(v)); }
BI(x_fail) { E.violation(s, "check", E.readStr(s, a[0].c)); }
BI(x_stop) { s.stopped = true; }
BI(x_isnative) { E.setDst(s, in, VC(0)); }
BI(x_dump) { Expr *e = toE(a[1], 64); fprintf(stderr, "sx: %s = %s\n", E.readStr(s, a[0].c).c_str(), exprStr(E.restrict_(s, e), 12).c_str()); }
// memory validity and initialisation of a range
BI(x_checkinit) { u64 p = E.concretizeArg(s, in, 0, 64), c = E.concretizeArg(s, in, 1, 64); std::string l = E.readStr(s, a[2].c);
  E.checksPassed[l];
  for (u64 i = 0; i < c; i++) { Val v = E.loadC(s, p + i, 8); if (v.e && v.e->uninit) E.checkUninit(s, v.e, l.c_str()); } E.checksPassed[l]++; }

static const std::unordered_map<std::string, Builtin> table = {
  {"malloc", b_malloc}, {"calloc", b_calloc}, {"aligned_alloc", b_aligned}, {"realloc", b_realloc}, {"free", b_free},
  {"_Znwm", b_new}, {"_Znam", b_newa}, {"_ZnwmRKSt9nothrow_t", b_new}, {"_ZnamRKSt9nothrow_t", b_newa}, {"_ZnwmSt11align_val_t", b_new}, {"_ZnamSt11align_val_t", b_newa},
  {"_ZdlPv", b_del}, {"_ZdlPvm", b_del}, {"_ZdaPv", b_dela}, {"_ZdaPvm", b_dela}, {"_ZdlPvSt11align_val_t", b_del}, {"_ZdlPvmSt11align_val_t", b_del}, {"_ZdaPvSt11align_val_t", b_dela}, {"_ZdaPvmSt11align_val_t", b_dela},
  {"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_bcmp},
  {"__cxa_allocate_exception", b_allocexc}, {"__cxa_throw", b_throw}, {"__cxa_begin_catch", b_begincatch}, {"__cxa_end_catch", b_endcatch}, {"__cxa_rethrow", b_rethrow}, {"__cxa_get_exception_ptr", b_begincatch},
  {"_ZSt9terminatev", b_terminate}, {"__clang_call_terminate", b_terminate}, {"abort", b_terminate}, {"__assert_fail", b_terminate}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", b_terminate}, {"exit", b_exit}, {"_exit", b_exit},
  {"__cxa_guard_acquire", b_guard}, {"__cxa_guard_release", b_guardrel}, {"__cxa_atexit", b_atexit}, {"__cxa_pure_virtual", b_pure},
  {"sx_range", x_range}, {"sx_choice", x_choice}, {"sx_assume", x_assume}, {"sx_check", x_check}, {"sx_reach", x_reach}, {"sx_param", x_param}, {"sx_observe", x_observe}, {"sx_conc", x_conc},
  {"sx_merge", x_merge}, {"sx_alloc_limit", x_alloclimit}, {"sx_heap_live", x_heap}, {"sx_is_symbolic", x_symbolic}, {"sx_fork", x_fork}, {"sx_fail", x_fail}, {"sx_stop", x_stop}, {"sx_is_native", x_isnative}, {"sx_dump", x_dump}, {"sx_check_init", x_checkinit},
};
Builtin findBuiltin(const std::string &name, bool hasBody, bool *noop) {
  auto it = table.find(name);
  if (it != table.end()) return it->second;
  if (hasBody) return nullptr;
  static const std::unordered_set<std::string> nops = {"__cxa_free_exception", "__cxa_guard_abort", "__cxa_call_unexpected", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"};
  if (nops.count(name)) { *noop = true; return nullptr; }
  static const char *exc[] = {"St9exception", "St13runtime_error", "St11logic_error", "St12out_of_range", "St12length_error", "St16invalid_argument", "St12domain_error", "St11range_error", "St14overflow_error", "St15underflow_error", "St9bad_alloc", "St20bad_array_new_length", "St17bad_function_call", "St8bad_cast"};
  for (const char *e : exc) {
    std::string p = std::string("_ZN") + e, q = std::string("_ZNK") + e;
    if (name.compare(0, p.size(), p) == 0) { std::string r = name.substr(p.size()); if (r[0] == 'C') return b_excctor; if (r[0] == 'D') { *noop = true; return nullptr; } if (r.compare(0, 2, "aS") == 0) return b_excctor; }
    if (name.compare(0, q.size(), q) == 0 && name.find("4what") != std::string::npos) return b_excwhat;
  }
  return nullptr;
}
