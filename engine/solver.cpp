#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <fstream>
SolverStats gSolver;
static Z3_context ctx; static Z3_solver solver; static std::string dumpDir; static unsigned dumpMax = 0, dumped = 0;
static Z3_sort fp64, fp32; static Z3_ast rne, rtz;
static bool z3err = false; static unsigned fullTimeout = 60000;
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "sx: z3 error %s\n", Z3_get_error_msg(c, e)); z3err = true; }
void solverInit(unsigned to, const char *dd, unsigned dm) {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, onErr);
  solver = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, solver);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), to);
  Z3_solver_set_params(ctx, solver, p);
  fp64 = Z3_mk_fpa_sort_64(ctx); fp32 = Z3_mk_fpa_sort_32(ctx); rne = Z3_mk_fpa_rne(ctx); rtz = Z3_mk_fpa_rtz(ctx);
  fullTimeout = to;
  if (dd) { dumpDir = dd; dumpMax = dm; }
}
void solverInterrupt() { Z3_interrupt(ctx); }
std::string solverVersion() { unsigned a, b, c, d; Z3_get_version(&a, &b, &c, &d); return "z3 " + std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(c); }
static Z3_sort bvs(unsigned w) { static Z3_sort s[129]; if (!s[w]) s[w] = Z3_mk_bv_sort(ctx, w); return s[w]; }
static Z3_ast bvc(unsigned w, u128 v) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, bvs(w));
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), bvs(w - 64)), lo = Z3_mk_unsigned_int64(ctx, (u64)v, bvs(64));
  return Z3_mk_concat(ctx, hi, lo);
}
static Z3_ast tr(Expr *e);
static Z3_ast bv(Expr *e) { Z3_ast a = tr(e); if (e->w == 1) return Z3_mk_ite(ctx, a, bvc(1, 1), bvc(1, 0)); return a; }
static Z3_ast tofp(Expr *e) { return Z3_mk_fpa_to_fp_bv(ctx, bv(e), e->w == 64 ? fp64 : fp32); }
static Z3_ast fromfp(Z3_ast a) { return Z3_mk_fpa_to_ieee_bv(ctx, a); }
static unsigned nbits(u64 v) { unsigned n = 1; while (v >>= 1) n++; return n; }
static std::vector<Z3_ast> keep;
static Z3_ast tr0(Expr *e) {
  Expr *a = e->a, *b = e->b;
  switch (e->k) {
  case K_CONST: if (e->w == 1) return e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); return bvc(e->w, e->cv());
  case K_SYM: { Z3_symbol s = Z3_mk_string_symbol(ctx, ("s" + std::to_string(e->v)).c_str());
      return Z3_mk_const(ctx, s, e->w == 1 ? Z3_mk_bool_sort(ctx) : bvs(e->w)); }
  case K_NOT: return e->w == 1 ? Z3_mk_not(ctx, tr(a)) : Z3_mk_bvnot(ctx, tr(a));
  case K_AND: case K_OR: case K_XOR:
    if (e->w == 1) { Z3_ast x[2] = {tr(a), tr(b)}; return e->k == K_AND ? Z3_mk_and(ctx, 2, x) : e->k == K_OR ? Z3_mk_or(ctx, 2, x) : Z3_mk_xor(ctx, x[0], x[1]); }
    return e->k == K_AND ? Z3_mk_bvand(ctx, tr(a), tr(b)) : e->k == K_OR ? Z3_mk_bvor(ctx, tr(a), tr(b)) : Z3_mk_bvxor(ctx, tr(a), tr(b));
  case K_EQ: return Z3_mk_eq(ctx, tr(a), tr(b));
  case K_ULT: case K_SLT: {
    if (e->k == K_ULT && a->w <= 64) { unsigned n = nbits(std::max(a->hi, b->hi)); if (n < a->w) return Z3_mk_bvult(ctx, Z3_mk_extract(ctx, n - 1, 0, bv(a)), Z3_mk_extract(ctx, n - 1, 0, bv(b))); }
    return e->k == K_ULT ? Z3_mk_bvult(ctx, bv(a), bv(b)) : Z3_mk_bvslt(ctx, bv(a), bv(b)); }
  case K_ITE: return Z3_mk_ite(ctx, tr(a), tr(b), tr(e->c));
  case K_CONCAT: return Z3_mk_concat(ctx, bv(a), bv(b));
  case K_EXTRACT: { Z3_ast x = Z3_mk_extract(ctx, (unsigned)e->v + e->w - 1, (unsigned)e->v, bv(a)); return e->w == 1 ? Z3_mk_eq(ctx, x, bvc(1, 1)) : x; }
  case K_ZEXT: return Z3_mk_zero_ext(ctx, e->w - a->w, bv(a));
  case K_SEXT: return Z3_mk_sign_ext(ctx, e->w - a->w, bv(a));
  case K_ADD: case K_SUB: case K_MUL: case K_UDIV: case K_UREM: {
    Z3_ast x = bv(a), y = bv(b); unsigned n = e->w;
    bool ok = e->w <= 64;
    if (ok) {
      if (e->k == K_ADD) ok = (u128)a->hi + b->hi <= mask64(e->w);
      else if (e->k == K_MUL) ok = (u128)a->hi * b->hi <= mask64(e->w);
      else if (e->k == K_SUB) ok = a->lo >= b->hi;
      else ok = b->lo > 0;
    }
    if (ok) { u64 m = std::max(a->hi, b->hi); if (e->k == K_ADD) m = a->hi + b->hi; if (e->k == K_MUL) m = std::max(m, a->hi * b->hi); n = std::min<unsigned>(e->w, nbits(m)); }
    if (n < e->w) { x = Z3_mk_extract(ctx, n - 1, 0, x); y = Z3_mk_extract(ctx, n - 1, 0, y); }
    Z3_ast r;
    switch (e->k) { case K_ADD: r = Z3_mk_bvadd(ctx, x, y); break; case K_SUB: r = Z3_mk_bvsub(ctx, x, y); break; case K_MUL: r = Z3_mk_bvmul(ctx, x, y); break;
      case K_UDIV: r = Z3_mk_bvudiv(ctx, x, y); break; default: r = Z3_mk_bvurem(ctx, x, y); }
    if (n < e->w) r = Z3_mk_zero_ext(ctx, e->w - n, r);
    return r; }
  case K_SDIV: return Z3_mk_bvsdiv(ctx, bv(a), bv(b));
  case K_SREM: return Z3_mk_bvsrem(ctx, bv(a), bv(b));
  case K_SHL: return Z3_mk_bvshl(ctx, bv(a), bv(b));
  case K_LSHR: return Z3_mk_bvlshr(ctx, bv(a), bv(b));
  case K_ASHR: return Z3_mk_bvashr(ctx, bv(a), bv(b));
  case K_FADD: return fromfp(Z3_mk_fpa_add(ctx, rne, tofp(a), tofp(b)));
  case K_FSUB: return fromfp(Z3_mk_fpa_sub(ctx, rne, tofp(a), tofp(b)));
  case K_FMUL: return fromfp(Z3_mk_fpa_mul(ctx, rne, tofp(a), tofp(b)));
  case K_FDIV: return fromfp(Z3_mk_fpa_div(ctx, rne, tofp(a), tofp(b)));
  case K_FOEQ: return Z3_mk_fpa_eq(ctx, tofp(a), tofp(b));
  case K_FOLT: return Z3_mk_fpa_lt(ctx, tofp(a), tofp(b));
  case K_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, tofp(a)), Z3_mk_fpa_is_nan(ctx, tofp(b))}; return Z3_mk_or(ctx, 2, x); }
  case K_UI2F: return fromfp(Z3_mk_fpa_to_fp_unsigned(ctx, rne, bv(a), e->w == 64 ? fp64 : fp32));
  case K_SI2F: return fromfp(Z3_mk_fpa_to_fp_signed(ctx, rne, bv(a), e->w == 64 ? fp64 : fp32));
  case K_F2UI: return Z3_mk_fpa_to_ubv(ctx, rtz, tofp(a), e->w);
  case K_F2SI: return Z3_mk_fpa_to_sbv(ctx, rtz, tofp(a), e->w);
  case K_FEXT: return fromfp(Z3_mk_fpa_to_fp_float(ctx, rne, tofp(a), fp64));
  case K_FTRUNC: return fromfp(Z3_mk_fpa_to_fp_float(ctx, rne, tofp(a), fp32));
  case K_FLOOR: return fromfp(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtn(ctx), tofp(a)));
  case K_FCEIL: return fromfp(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtp(ctx), tofp(a)));
  case K_FINT: return fromfp(Z3_mk_fpa_round_to_integral(ctx, rtz, tofp(a)));
  case K_FROUND: return fromfp(Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rna(ctx), tofp(a)));
  case K_FRINT: return fromfp(Z3_mk_fpa_round_to_integral(ctx, rne, tofp(a)));
  case K_FSQRT: return fromfp(Z3_mk_fpa_sqrt(ctx, rne, tofp(a)));
  default: fprintf(stderr, "sx: cannot translate kind %d\n", e->k); abort();
  }
}
static Z3_ast tr(Expr *e) {
  if (e->ast) return (Z3_ast)e->ast;
  Z3_ast r = tr0(e); Z3_inc_ref(ctx, r); e->ast = r; return r;
}
struct VH { size_t operator()(const std::vector<u32> &v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
struct Entry { Res r; std::vector<std::pair<u32, u64>> model; };
static std::unordered_map<std::vector<u32>, Entry, VH> cache;

static void setTimeout(unsigned ms) {
  static unsigned cur = 0; if (cur == ms) return; cur = ms;
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms); Z3_solver_set_params(ctx, solver, p); Z3_params_dec_ref(ctx, p);
}
Res solveConj(const std::vector<Expr *> &conj0, std::vector<std::pair<u32, u64>> *out, unsigned limit) {
  std::vector<Expr *> conj;
  for (Expr *e : conj0) { if (e->isC()) { if (!e->v) return R_UNSAT; continue; } conj.push_back(e); }
  if (conj.empty()) return R_SAT;
  std::vector<u32> key; for (Expr *e : conj) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) { gSolver.cacheHits++; if (out) *out = it->second.model; return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver_reset(ctx, solver); z3err = false;
  u32 ss = 0;
  for (Expr *e : conj) { Z3_solver_assert(ctx, solver, tr(e)); ss = symsetUnion(ss, e->symset); }
  for (u32 i : gSymSets[ss]) if (gSyms[i].hi < mask64(gSyms[i].w)) Z3_solver_assert(ctx, solver, Z3_mk_bvule(ctx, tr(symByIdx(i)), bvc(gSyms[i].w, gSyms[i].hi)));
  setTimeout(limit && limit < fullTimeout ? limit : fullTimeout);
  Z3_lbool r = Z3_solver_check(ctx, solver);
  Entry en; en.r = R_UNKNOWN;
  if (z3err) r = Z3_L_UNDEF;
  if (r == Z3_L_TRUE) {
    en.r = R_SAT; gSolver.sat++;
    Z3_model m = Z3_solver_get_model(ctx, solver); Z3_model_inc_ref(ctx, m);
    for (u32 i : gSymSets[ss]) {
      Expr *s = symByIdx(i); Z3_ast v;
      u64 val = 0;
      if (Z3_model_eval(ctx, m, tr(s), true, &v)) {
        if (s->w == 1) val = Z3_get_bool_value(ctx, v) == Z3_L_TRUE; else { uint64_t q = 0; Z3_get_numeral_uint64(ctx, v, &q); val = q; }
      }
      en.model.push_back({i, val});
    }
    Z3_model_dec_ref(ctx, m);
    // self-check of the model against our own semantics
    Model mm(gSyms.size(), 0); for (auto &p : en.model) mm[p.first] = p.second;
    newEvalEpoch();
    for (Expr *e : conj) if (!evalExpr(e, mm)) { fprintf(stderr, "sx: INTERNAL model does not satisfy conjunct %s\n", exprStr(e).c_str()); en.r = R_UNKNOWN; }
  } else if (r == Z3_L_FALSE) { en.r = R_UNSAT; gSolver.unsat++; }
  else gSolver.unknown++;
  gSolver.queries++;
  gSolver.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (!dumpDir.empty() && dumped < dumpMax && en.r != R_UNKNOWN) {
    std::vector<Z3_ast> as; for (Expr *e : conj) as.push_back(tr(e));
    Z3_ast last = as.back(); as.pop_back();
    const char *s = Z3_benchmark_to_smtlib_string(ctx, "q", "QF_BV", en.r == R_SAT ? "sat" : "unsat", "", (unsigned)as.size(), as.data(), last);
    std::ofstream(dumpDir + "/q" + std::to_string(dumped++) + (en.r == R_SAT ? ".sat" : ".unsat") + ".smt2") << s;
  }
  if (out) *out = en.model;
  Res rr = en.r; if (rr != R_UNKNOWN || !limit) cache[key] = std::move(en); return rr;
}
