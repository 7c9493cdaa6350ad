#include "expr.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>

std::vector<SymInfo> gSyms;
static std::vector<Expr *> symExprs;
std::vector<std::vector<u32>> gSymSets;
u64 gExprCount = 0;
u32 gTreeLimit = 6000;

// ---------------------------------------------------------------- allocation and interning
static Expr *arenaCur = nullptr; static size_t arenaLeft = 0;
static Expr *allocExpr() {
  if (!arenaLeft) { arenaLeft = 8192; arenaCur = (Expr *)calloc(arenaLeft, sizeof(Expr)); if (!arenaCur) abort(); }
  arenaLeft--; return arenaCur++;
}
static std::vector<Expr *> table(1 << 16, nullptr);
static std::vector<u64> tableH(1 << 16, 0);
static size_t tableN = 0;

static inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static u64 hashE(const Expr &e) {
  u64 h = mix(e.k * 131 + e.w, e.v); h = mix(h, e.v2);
  h = mix(h, e.a ? e.a->id + 1 : 0); h = mix(h, e.b ? e.b->id + 1 : 0); h = mix(h, e.c ? e.c->id + 1 : 0);
  return h;
}

struct VecHash { size_t operator()(const std::vector<u32> &v) const { u64 h = 7; for (u32 x : v) h = mix(h, x); return h; } };
static std::unordered_map<std::vector<u32>, u32, VecHash> symSetIds;
static std::unordered_map<u64, u32> unionCache;
static u32 internSet(std::vector<u32> v) {
  if (gSymSets.empty()) { gSymSets.push_back({}); symSetIds[{}] = 0; }
  auto it = symSetIds.find(v);
  if (it != symSetIds.end()) return it->second;
  u32 id = gSymSets.size(); gSymSets.push_back(v); symSetIds[v] = id; return id;
}
u32 symsetUnion(u32 a, u32 b) {
  if (a == b || b == 0) return a;
  if (a == 0) return b;
  if (a > b) std::swap(a, b);
  u64 key = ((u64)a << 32) | b;
  auto it = unionCache.find(key);
  if (it != unionCache.end()) return it->second;
  std::vector<u32> r;
  std::set_union(gSymSets[a].begin(), gSymSets[a].end(), gSymSets[b].begin(), gSymSets[b].end(), std::back_inserter(r));
  u32 id = internSet(std::move(r)); unionCache[key] = id; return id;
}
bool symsetsIntersect(u32 a, u32 b) {
  if (!a || !b) return false;
  if (a == b) return true;
  auto &x = gSymSets[a], &y = gSymSets[b];
  size_t i = 0, j = 0;
  while (i < x.size() && j < y.size()) { if (x[i] == y[j]) return true; if (x[i] < y[j]) i++; else j++; }
  return false;
}

// |x - y| written as a choice between two subtractions: the comparison that selects each bounds it
static void guarded(Expr *cond, bool val, Expr *t, u64 &lo, u64 &hi) {
  lo = t->lo; hi = t->hi;
  while (cond->k == K_NOT) { cond = cond->a; val = !val; }
  if (cond->k == K_EQ && val == false && cond->b->isC() && cond->a == t && cond->b->v == t->lo && t->lo < t->hi) { lo++; return; }
  if (cond->k != K_ULT) return;
  Expr *small = val ? cond->a : cond->b, *big = val ? cond->b : cond->a;
  bool sub = t->k == K_SUB && t->a == big && t->b == small;
  bool add = t->k == K_ADD && t->a == big && t->b->isC() && small->isC() && ((t->b->v + small->v) & mask64(t->w)) == 0;
  if ((sub || add) && big->hi >= small->lo) { hi = std::min(hi, big->hi - small->lo); u64 l = big->lo > small->hi ? big->lo - small->hi : 0; lo = std::min(hi, std::max(l, (u64)(val ? 1 : 0))); }
}
static Expr *peel(Expr *e) { for (;;) { if (e->k == K_ZEXT) e = e->a; else if (e->k == K_EXTRACT && e->v == 0 && e->a->w <= 64 && e->a->hi <= mask64(e->w)) e = e->a; else return e; } }
static void computeInterval(Expr *e) {
  unsigned w = e->w;
  if (w > 64) { e->lo = 0; e->hi = ~0ull; return; }
  u64 M = mask64(w); u64 lo = 0, hi = M;
  Expr *a = e->a, *b = e->b;
  switch (e->k) {
  case K_CONST: lo = hi = e->v; break;
  case K_SYM: hi = gSyms[e->v].hi; break;
  case K_ADD: { u128 s = (u128)a->hi + b->hi; if (s <= M) { lo = a->lo + b->lo; hi = (u64)s; }
      else if ((u128)a->lo + b->lo > M) { lo = (a->lo + b->lo) & M; hi = (u64)(s & M); } break; }
  case K_SUB: if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; } break;
  case K_MUL: { u128 s = (u128)a->hi * b->hi; if (s <= M) { lo = a->lo * b->lo; hi = (u64)s; } break; }
  case K_UDIV: if (b->lo > 0) { lo = a->lo / b->hi; hi = a->hi / b->lo;
      // x*c / (x+y) <= c when nothing wraps
      Expr *d = peel(b->k == K_ITE && b->b->isC() && b->a->k == K_EQ ? b->c : b);
      if (a->k == K_MUL && d->k == K_ADD && (u128)a->a->hi * a->b->hi <= M && (u128)d->a->hi + d->b->hi <= mask64(d->w)) for (int i = 0; i < 2; i++) { Expr *x = i ? a->b : a->a, *c = i ? a->a : a->b; if (peel(d->a) == peel(x) || peel(d->b) == peel(x)) hi = std::min(hi, c->hi); } } break;
  case K_UREM: if (b->lo > 0) { hi = std::min(a->hi, b->hi - 1); } break;
  case K_AND: hi = std::min(a->hi, b->hi); break;
  case K_OR: case K_XOR: { u64 m = a->hi | b->hi; u64 p = 0; while (p < m) p = (p << 1) | 1; hi = std::min(M, p);
      if (e->k == K_OR) lo = std::max(a->lo, b->lo); break; }
  case K_LSHR: if (b->isC()) { unsigned s = b->v; if (s < w) { lo = a->lo >> s; hi = a->hi >> s; } else lo = hi = 0; } else hi = a->hi; break;
  case K_SHL: if (b->isC() && b->v < w && ((u128)a->hi << b->v) <= M) { lo = a->lo << b->v; hi = a->hi << b->v; } break;
  case K_ITE: if (a->w == 1) { u64 l1, h1, l2, h2; guarded(a, true, b, l1, h1); guarded(a, false, e->c, l2, h2); lo = std::min(l1, l2); hi = std::max(h1, h2); } break;
  case K_ZEXT: lo = a->lo; hi = a->hi; break;
  case K_SEXT: if (a->hi <= mask64(a->w - 1)) { lo = a->lo; hi = a->hi; }
      else if (a->lo > mask64(a->w - 1)) { u64 ext = M & ~mask64(a->w); lo = a->lo | ext; hi = a->hi | ext; } break;
  case K_CONCAT: lo = (a->lo << b->w) | b->lo; hi = (a->hi << b->w) | b->hi;
      if (a->lo != a->hi) { lo = a->lo << b->w; hi = (a->hi << b->w) | mask64(b->w); if (a->lo==0 && false) lo = b->lo; } break;
  case K_EXTRACT: if (e->a->w <= 64 && e->v == 0 && a->hi <= M) { lo = a->lo; hi = a->hi; }
      else if (e->a->w <= 64 && (a->hi >> e->v) <= M) { lo = a->lo >> e->v; hi = a->hi >> e->v; } break;
  default: break;
  }
  if (w == 1 && lo > hi) { lo = 0; hi = 1; }
  e->lo = lo & M; e->hi = hi & M;
  if (e->lo > e->hi) { e->lo = 0; e->hi = M; }
}

static Expr *intern(Expr &p) {
  u64 h = hashE(p); size_t m = table.size() - 1, i = h & m;
  while (table[i]) {
    Expr *q = table[i];
    if (tableH[i] == h && q->k == p.k && q->w == p.w && q->v == p.v && q->v2 == p.v2 && q->a == p.a && q->b == p.b && q->c == p.c) return q;
    i = (i + 1) & m;
  }
  Expr *e = allocExpr(); *e = p; e->id = (u32)gExprCount++;
  e->evEpoch = 0; e->subEpoch = 0; e->ast = nullptr; e->symset = 0; e->uninit = false; e->tree = false; e->nodes = 1;
  if (e->k == K_SYM) { e->symset = internSet({(u32)e->v}); e->uninit = gSyms[e->v].uninit; }
  for (Expr *c : {e->a, e->b, e->c}) if (c) { e->symset = symsetUnion(e->symset, c->symset); e->uninit |= c->uninit; }
  if (e->k == K_CONST) e->tree = true;
  if (e->k == K_ITE && e->w > 1 && e->b->tree && e->c->tree) {
    u64 n = (u64)e->b->nodes + e->c->nodes + 1; e->nodes = n > 0x7fffffff ? 0x7fffffff : (u32)n;
    e->tree = true;
    if (!e->b->isC() && e->b->a->id <= e->a->id) e->tree = false;
    if (!e->c->isC() && e->c->a->id <= e->a->id) e->tree = false;
  }
  computeInterval(e);
  table[i] = e; tableH[i] = h; tableN++;
  if (tableN * 2 > table.size()) {
    std::vector<Expr *> t2(table.size() * 2, nullptr); std::vector<u64> h2(table.size() * 2, 0); size_t m2 = t2.size() - 1;
    for (size_t j = 0; j < table.size(); j++) if (table[j]) { size_t x = tableH[j] & m2; while (t2[x]) x = (x + 1) & m2; t2[x] = table[j]; h2[x] = tableH[j]; }
    table.swap(t2); tableH.swap(h2);
  }
  return e;
}
static Expr *raw(Kind k, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u64 v = 0, u64 v2 = 0) {
  Expr p; memset(&p, 0, sizeof p); p.k = k; p.w = (u8)w; p.a = a; p.b = b; p.c = c; p.v = v; p.v2 = v2; return intern(p);
}
static Expr *smallC[65][258];
Expr *mkC(unsigned w, u128 v) {
  v &= maskW(w);
  if (w <= 64 && v < 258) { Expr *&s = smallC[w][(u64)v]; if (!s) s = raw(K_CONST, w, 0, 0, 0, (u64)v, 0); return s; }
  return raw(K_CONST, w, 0, 0, 0, (u64)v, (u64)(v >> 64));
}
Expr *mkTrue() { return mkC(1, 1); }
Expr *mkFalse() { return mkC(1, 0); }
static std::unordered_map<std::string, Expr *> symByName;
Expr *mkSym(const std::string &name, unsigned w, bool uninit, bool internal, u64 top) {
  std::string key = name + ":" + std::to_string(w) + ":" + std::to_string(top);
  auto it = symByName.find(key);
  if (it != symByName.end()) return it->second;
  u32 idx = gSyms.size(); gSyms.push_back({name, (u8)w, uninit, internal, std::min(top, mask64(w))});
  Expr *e = raw(K_SYM, w, 0, 0, 0, idx); symExprs.push_back(e); symByName[key] = e; return e;
}
Expr *symByIdx(u32 i) { return symExprs[i]; }

// ---------------------------------------------------------------- constant folding
u128 foldBin(Kind k, unsigned w, u128 a, u128 b) {
  u128 M = maskW(w); a &= M; b &= M;
  switch (k) {
  case K_ADD: return (a + b) & M; case K_SUB: return (a - b) & M; case K_MUL: return (a * b) & M;
  case K_UDIV: return b ? a / b : M; case K_UREM: return b ? a % b : a;
  case K_SDIV: { i128 x = sextW(a, w), y = sextW(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (u128)(-(u128)x) & M; return (u128)(x / y) & M; }
  case K_SREM: { i128 x = sextW(a, w), y = sextW(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
  case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
  case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
  case K_LSHR: return b >= w ? 0 : a >> (unsigned)b;
  case K_ASHR: { i128 x = sextW(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & M; }
  case K_EQ: return a == b; case K_ULT: return a < b; case K_SLT: return sextW(a, w) < sextW(b, w);
  default: fprintf(stderr, "foldBin kind %d\n", k); abort();
  }
}
static double d64(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float f32(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u128 bits(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 bitsf(float d) { u32 x; memcpy(&x, &d, 4); return x; }
u128 foldFp(Kind k, unsigned aw, unsigned rw, u128 a, u128 b) {
  switch (k) {
  case K_FADD: return aw == 64 ? bits(d64(a) + d64(b)) : bitsf(f32(a) + f32(b));
  case K_FSUB: return aw == 64 ? bits(d64(a) - d64(b)) : bitsf(f32(a) - f32(b));
  case K_FMUL: return aw == 64 ? bits(d64(a) * d64(b)) : bitsf(f32(a) * f32(b));
  case K_FDIV: return aw == 64 ? bits(d64(a) / d64(b)) : bitsf(f32(a) / f32(b));
  case K_FOEQ: return aw == 64 ? d64(a) == d64(b) : f32(a) == f32(b);
  case K_FOLT: return aw == 64 ? d64(a) < d64(b) : f32(a) < f32(b);
  case K_FUNO: return aw == 64 ? (std::isnan(d64(a)) || std::isnan(d64(b))) : (std::isnan(f32(a)) || std::isnan(f32(b)));
  case K_UI2F: return rw == 64 ? bits((double)(u64)a) : bitsf((float)(u64)a);
  case K_SI2F: { i64 x = (i64)sextW(a, aw); return rw == 64 ? bits((double)x) : bitsf((float)x); }
  case K_F2UI: { double d = aw == 64 ? d64(a) : f32(a); if (!(d > -1 && d < 18446744073709551616.0)) return 0; return (u128)(u64)d & maskW(rw); }
  case K_F2SI: { double d = aw == 64 ? d64(a) : f32(a); if (!(d > -9.3e18 && d < 9.2e18)) return 0; return (u128)(i64)d & maskW(rw); }
  case K_FEXT: return bits((double)f32(a));
  case K_FTRUNC: return bitsf((float)d64(a));
  case K_FLOOR: return aw == 64 ? bits(std::floor(d64(a))) : bitsf(std::floor(f32(a)));
  case K_FCEIL: return aw == 64 ? bits(std::ceil(d64(a))) : bitsf(std::ceil(f32(a)));
  case K_FINT: return aw == 64 ? bits(std::trunc(d64(a))) : bitsf(std::trunc(f32(a)));
  case K_FROUND: return aw == 64 ? bits(std::round(d64(a))) : bitsf(std::round(f32(a)));
  case K_FRINT: return aw == 64 ? bits(std::rint(d64(a))) : bitsf(std::rint(f32(a)));
  case K_FSQRT: return aw == 64 ? bits(std::sqrt(d64(a))) : bitsf(std::sqrt(f32(a)));
  default: fprintf(stderr, "foldFp kind %d\n", k); abort();
  }
}

// ---------------------------------------------------------------- constant-tree (decision diagram) lifting
static Expr *rawIteTree(Expr *c, Expr *t, Expr *e) { if (t == e) return t; return raw(K_ITE, t->w, c, t, e); }
static Expr *mkBoolIte(Expr *c, Expr *t, Expr *e);

struct Lift {
  std::unordered_map<u64, Expr *> memo; u32 budget; unsigned rw; bool fail = false;
  std::function<u128(u128, u128)> f;
  Expr *leaf(u128 v) { return mkC(rw, v); }
  Expr *go(Expr *x, Expr *y) {
    if (fail) return nullptr;
    if (x->isC() && y->isC()) return leaf(f(x->cv(), y->cv()));
    u64 key = ((u64)x->id << 32) | y->id;
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    if (budget-- == 0) { fail = true; budget = 0; return nullptr; }
    Expr *c = nullptr;
    if (!x->isC()) c = x->a;
    if (!y->isC() && (!c || y->a->id < c->id)) c = y->a;
    Expr *x1 = x, *x0 = x, *y1 = y, *y0 = y;
    if (!x->isC() && x->a == c) { x1 = x->b; x0 = x->c; }
    if (!y->isC() && y->a == c) { y1 = y->b; y0 = y->c; }
    Expr *t = go(x1, y1); if (fail) return nullptr;
    Expr *e = go(x0, y0); if (fail) return nullptr;
    Expr *r = rw == 1 ? mkBoolIte(c, t, e) : rawIteTree(c, t, e);
    memo[key] = r; return r;
  }
};
static Expr *liftBin(unsigned rw, Expr *a, Expr *b, std::function<u128(u128, u128)> f) {
  if (!a->tree || !b->tree || (a->isC() && b->isC())) return nullptr;
  Lift L; L.budget = gTreeLimit; L.rw = rw; L.f = std::move(f);
  return L.go(a, b);
}
static Expr *liftUn(unsigned rw, Expr *a, std::function<u128(u128)> f) {
  if (!a->tree || a->isC()) return nullptr;
  Expr *z = mkC(1, 0);
  Lift L; L.budget = gTreeLimit; L.rw = rw; L.f = [&f](u128 x, u128) { return f(x); };
  return L.go(a, z);
}
// ite over trees keeping the condition order
struct IteLift {
  std::unordered_map<u64, Expr *> memo; u32 budget; bool fail = false; Expr *c;
  Expr *go(Expr *t, Expr *e) {
    if (fail) return nullptr;
    if (t == e) return t;
    Expr *top = c;
    if (!t->isC() && t->a->id < top->id) top = t->a;
    if (!e->isC() && e->a->id < top->id) top = e->a;
    if (top == c) {
      Expr *t1 = t, *e0 = e;
      if (!t->isC() && t->a == c) t1 = t->b;
      if (!e->isC() && e->a == c) e0 = e->c;
      return rawIteTree(c, t1, e0);
    }
    u64 key = ((u64)t->id << 32) | e->id;
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    if (budget-- == 0) { fail = true; budget = 0; return nullptr; }
    Expr *t1 = t, *t0 = t, *e1 = e, *e0 = e;
    if (!t->isC() && t->a == top) { t1 = t->b; t0 = t->c; }
    if (!e->isC() && e->a == top) { e1 = e->b; e0 = e->c; }
    Expr *x = go(t1, e1); if (fail) return nullptr;
    Expr *y = go(t0, e0); if (fail) return nullptr;
    Expr *r = rawIteTree(top, x, y); memo[key] = r; return r;
  }
};
static bool collectLeaves(Expr *e, std::vector<u128> &out, size_t limit, std::set<u32> &seen) {
  if (!seen.insert(e->id).second) return true;
  if (e->isC()) { out.push_back(e->cv()); return out.size() <= limit; }
  return collectLeaves(e->b, out, limit, seen) && collectLeaves(e->c, out, limit, seen);
}
bool treeLeaves(Expr *e, std::vector<u128> &out, size_t limit) {
  if (!e->tree) return false;
  std::set<u32> seen; return collectLeaves(e, out, limit, seen);
}
Expr *treeCond(Expr *e, u128 v) { return mkEq(e, mkC(e->w, v)); }

// ---------------------------------------------------------------- constructors
Expr *mkNot(Expr *a) {
  if (a->isC()) return mkC(a->w, ~a->cv());
  if (a->k == K_NOT) return a->a;
  if (a->w > 1) { if (Expr *r = liftUn(a->w, a, [w = a->w](u128 x) { return ~x & maskW(w); })) return r; }
  return raw(K_NOT, a->w, a);
}
static Expr *mkBoolIte(Expr *c, Expr *t, Expr *e) {
  if (c->isC()) return c->v ? t : e;
  if (t == e) return t;
  if (c->k == K_NOT) { c = c->a; std::swap(t, e); }
  if (t->isC() && e->isC()) return t->v ? c : mkNot(c);
  if (t->isC()) return t->v ? mkOr(c, e) : mkAnd(mkNot(c), e);
  if (e->isC()) return e->v ? mkOr(mkNot(c), t) : mkAnd(c, t);
  if (t == c) return mkOr(c, e);
  if (e == c) return mkAnd(c, t);
  if (t->k == K_NOT && t->a == c) return mkAnd(mkNot(c), e);
  if (e->k == K_NOT && e->a == c) return mkOr(mkNot(c), t);
  if (t == mkNot(e)) return e->k == K_NOT ? mkNot(mkBin(K_XOR, c, t)) : mkBin(K_XOR, c, e);
  if (t->k == K_ITE && t->a == c) t = t->b;
  if (e->k == K_ITE && e->a == c) e = e->c;
  if (t == e) return t;
  return raw(K_ITE, 1, c, t, e);
}
Expr *mkIte(Expr *c, Expr *t, Expr *e) {
  if (c->isC()) return c->v ? t : e;
  if (t == e) return t;
  if (t->w == 1) return mkBoolIte(c, t, e);
  if (c->k == K_NOT) { c = c->a; std::swap(t, e); }
  if (t->tree && e->tree) {
    IteLift L; L.budget = gTreeLimit; L.c = c; if (Expr *r = L.go(t, e)) return r;
  }
  if (t->k == K_ITE && t->a == c) t = t->b;
  if (e->k == K_ITE && e->a == c) e = e->c;
  if (t == e) return t;
  // common zext narrowing
  if (t->k == K_ZEXT && e->k == K_ZEXT && t->a->w == e->a->w) return mkZext(mkIte(c, t->a, e->a), t->w);
  return raw(K_ITE, t->w, c, t, e);
}

static bool isPow2(u128 v) { return v && !(v & (v - 1)); }
static unsigned log2u(u128 v) { unsigned n = 0; while (v >>= 1) n++; return n; }
static unsigned bitsOf(u64 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n ? n : 1; }

Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->isC()) return mkC(w, a->cv() >> lo);
  switch (a->k) {
  case K_EXTRACT: return mkExtract(a->a, lo + (unsigned)a->v, w);
  case K_ZEXT: {
    unsigned iw = a->a->w;
    if (lo >= iw) return mkC(w, 0);
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    return mkZext(mkExtract(a->a, lo, iw - lo), w);
  }
  case K_SEXT: {
    unsigned iw = a->a->w;
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    if (lo < iw) return mkSext(mkExtract(a->a, lo, iw - lo), w);
    break;
  }
  case K_CONCAT: {
    unsigned lw = a->b->w;
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
  }
  case K_AND: case K_OR: case K_XOR:
    return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case K_NOT: return mkNot(mkExtract(a->a, lo, w));
  case K_ADD: case K_SUB: case K_MUL:
    if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  default: break;
  }
  if (Expr *r = liftUn(w, a, [lo, w](u128 x) { return (x >> lo) & maskW(w); })) return r;
  if (a->k == K_ITE && (a->b->isC() || a->c->isC())) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
  if (a->w <= 64 && lo && (a->hi >> lo) == 0) return mkC(w, 0);
  return raw(K_EXTRACT, w, a, 0, 0, lo);
}
Expr *mkZext(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (a->isC()) return mkC(w, a->cv());
  if (a->w == 1) return mkIte(a, mkC(w, 1), mkC(w, 0));
  if (a->k == K_ZEXT) return mkZext(a->a, w);
  if (Expr *r = liftUn(w, a, [](u128 x) { return x; })) return r;
  return raw(K_ZEXT, w, a);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (a->isC()) return mkC(w, (u128)sextW(a->cv(), a->w));
  if (a->w == 1) return mkIte(a, mkC(w, ~(u128)0), mkC(w, 0));
  if (a->w <= 64 && a->hi <= mask64(a->w - 1)) return mkZext(a, w);
  if (a->k == K_SEXT) return mkSext(a->a, w);
  if (Expr *r = liftUn(w, a, [aw = a->w, w](u128 x) { return (u128)sextW(x, aw) & maskW(w); })) return r;
  return raw(K_SEXT, w, a);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isC() && lo->isC()) return mkC(w, (hi->cv() << lo->w) | lo->cv());
  if (hi->isC() && hi->cv() == 0) return mkZext(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->v == lo->v + lo->w) return mkExtract(hi->a, (unsigned)lo->v, w);
  if (hi->k == K_EXTRACT && hi->a == lo && hi->v == lo->w && false) return nullptr;
  if (hi->k == K_CONST && lo->k == K_CONCAT && lo->a->k == K_CONST)
    return mkConcat(mkC(hi->w + lo->a->w, (hi->cv() << lo->a->w) | lo->a->cv()), lo->b);
  if (hi->k == K_ZEXT && !(lo->isC() && lo->v == 0)) return mkZext(mkConcat(hi->a, lo), w);
  if (hi->tree && lo->tree) {
    if (Expr *r = liftBin(w, hi, lo, [lw = lo->w](u128 x, u128 y) { return (x << lw) | y; })) return r;
  }
  return raw(K_CONCAT, w, hi, lo);
}

static Expr *mkEqImpl(Expr *a, Expr *b) {
  if (a == b) return mkTrue();
  if (a->isC()) std::swap(a, b);
  unsigned w = a->w;
  if (w == 1) {
    if (b->isC()) return b->v ? a : mkNot(a);
    if (a->k == K_NOT && b->k == K_NOT) return mkEqImpl(a->a, b->a);
    return mkNot(mkBin(K_XOR, a, b));
  }
  if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return mkFalse();
  if (a->tree && b->tree) { if (Expr *r = liftBin(1, a, b, [](u128 x, u128 y) { return (u128)(x == y); })) return r; }
  if (b->isC()) {
    switch (a->k) {
    case K_ZEXT: return (b->cv() >> a->a->w) ? mkFalse() : mkEqImpl(a->a, mkC(a->a->w, b->cv()));
    case K_SEXT: { u128 t = b->cv() & maskW(a->a->w); return ((u128)sextW(t, a->a->w) & maskW(w)) == b->cv() ? mkEqImpl(a->a, mkC(a->a->w, t)) : mkFalse(); }
    case K_CONCAT: return mkAnd(mkEqImpl(a->a, mkC(a->a->w, b->cv() >> a->b->w)), mkEqImpl(a->b, mkC(a->b->w, b->cv())));
    case K_ADD: if (a->b->isC()) return mkEqImpl(a->a, mkC(w, b->cv() - a->b->cv())); break;
    case K_XOR: if (a->b->isC()) return mkEqImpl(a->a, mkC(w, b->cv() ^ a->b->cv())); if (b->cv() == 0) return mkEqImpl(a->a, a->b); break;
    case K_SUB: if (b->cv() == 0) return mkEqImpl(a->a, a->b); break;
    case K_NOT: return mkEqImpl(a->a, mkC(w, ~b->cv()));
    case K_ITE: if (a->b->isC() || a->c->isC()) return mkIte(a->a, mkEqImpl(a->b, b), mkEqImpl(a->c, b)); break;
    case K_OR: if (b->cv() == 0) return mkAnd(mkEqImpl(a->a, b), mkEqImpl(a->b, b)); break;
    default: break;
    }
  } else {
    if (a->k == K_ZEXT && b->k == K_ZEXT) {
      unsigned n = std::max(a->a->w, b->a->w); return mkEqImpl(mkZext(a->a, n), mkZext(b->a, n));
    }
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkEqImpl(a->a, b->a);
    if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkAnd(mkEqImpl(a->a, b->a), mkEqImpl(a->b, b->b));
    if (a->k == K_ADD && b->k == K_ADD && a->b == b->b) return mkEqImpl(a->a, b->a);
  }
  if (a->id > b->id && !b->isC()) std::swap(a, b);
  return raw(K_EQ, 1, a, b);
}
static Expr *mkUltImpl(Expr *a, Expr *b) {
  if (a == b) return mkFalse();
  unsigned w = a->w;
  if (w == 1) return mkAnd(mkNot(a), b);
  if (w <= 64) {
    if (a->hi < b->lo) return mkTrue();
    if (a->lo >= b->hi) return mkFalse();
  }
  if (a->tree && b->tree) { if (Expr *r = liftBin(1, a, b, [](u128 x, u128 y) { return (u128)(x < y); })) return r; }
  if (b->isC() && b->cv() == 1) return mkEqImpl(a, mkC(w, 0));
  if (a->isC() && a->cv() == 0) return mkNot(mkEqImpl(b, a));
  if (b->isC() && b->cv() == maskW(w)) return mkNot(mkEqImpl(a, b));
  if (w <= 64) {
    if (b->isC() && b->v == a->hi && a->hi > 0) return mkNot(mkEqImpl(a, b));         // a < hi(a)  <=> a != hi(a)
    if (a->isC() && a->v == b->lo) return mkNot(mkEqImpl(b, a));
    if (b->isC() && a->lo + 1 == b->v) return mkEqImpl(a, mkC(w, a->lo));
    if (a->isC() && b->hi - 1 == a->v) return mkEqImpl(b, mkC(w, b->hi));
  }
  if (a->k == K_ZEXT && b->k == K_ZEXT) { unsigned n = std::max(a->a->w, b->a->w); return mkUltImpl(mkZext(a->a, n), mkZext(b->a, n)); }
  if (a->k == K_ZEXT && b->isC()) return mkUltImpl(a->a, mkC(a->a->w, b->cv()));   // interval already excluded b > max
  if (b->k == K_ZEXT && a->isC()) return mkUltImpl(mkC(b->a->w, a->cv()), b->a);
  if (a->k == K_ITE && b->isC() && (a->b->isC() || a->c->isC())) return mkIte(a->a, mkUltImpl(a->b, b), mkUltImpl(a->c, b));
  if (b->k == K_ITE && a->isC() && (b->b->isC() || b->c->isC())) return mkIte(b->a, mkUltImpl(a, b->b), mkUltImpl(a, b->c));
  return raw(K_ULT, 1, a, b);
}
static Expr *mkSltImpl(Expr *a, Expr *b) {
  if (a == b) return mkFalse();
  unsigned w = a->w;
  if (w == 1) return mkAnd(a, mkNot(b));
  if (w <= 64) {
    u64 S = 1ull << (w - 1);
    auto flipRange = [&](Expr *e, i64 &l, i64 &h) {
      if (e->hi < S) { l = e->lo; h = e->hi; return true; }
      if (e->lo >= S) { l = (i64)sextW(e->lo, w); h = (i64)sextW(e->hi, w); return true; }
      l = (i64)sextW(S, w); h = (i64)(S - 1); return false;
    };
    i64 al, ah, bl, bh; bool ak = flipRange(a, al, ah), bk = flipRange(b, bl, bh);
    if (ah < bl) return mkTrue();
    if (al >= bh) return mkFalse();
    if (ak && bk && ((a->hi < S) == (b->hi < S))) return mkUltImpl(a, b);
  }
  if (a->tree && b->tree) { if (Expr *r = liftBin(1, a, b, [w](u128 x, u128 y) { return (u128)(sextW(x, w) < sextW(y, w)); })) return r; }
  auto fits = [&](u128 v, unsigned n) { return ((u128)sextW(v & maskW(n), n) & maskW(w)) == v; };
  if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkSltImpl(a->a, b->a);
  if (a->k == K_SEXT && b->isC() && fits(b->cv(), a->a->w)) return mkSltImpl(a->a, mkC(a->a->w, b->cv()));
  if (b->k == K_SEXT && a->isC() && fits(a->cv(), b->a->w)) return mkSltImpl(mkC(b->a->w, a->cv()), b->a);
  if (a->k == K_SEXT && b->isC()) return sextW(b->cv(), w) < 0 ? mkFalse() : mkTrue();
  if (b->k == K_SEXT && a->isC()) return sextW(a->cv(), w) < 0 ? mkTrue() : mkFalse();
  if (a->k == K_ITE && b->isC() && (a->b->isC() || a->c->isC())) return mkIte(a->a, mkSltImpl(a->b, b), mkSltImpl(a->c, b));
  if (b->k == K_ITE && a->isC() && (b->b->isC() || b->c->isC())) return mkIte(b->a, mkSltImpl(a, b->b), mkSltImpl(a, b->c));
  return raw(K_SLT, 1, a, b);
}

Expr *mkBin(Kind k, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch kind %d %d %d\n", k, a->w, b->w); abort(); }
  if (a->isC() && b->isC()) return mkC((k == K_EQ || k == K_ULT || k == K_SLT) ? 1 : w, foldBin(k, w, a->cv(), b->cv()));
  if (k == K_EQ) return mkEqImpl(a, b);
  if (k == K_ULT) return mkUltImpl(a, b);
  if (k == K_SLT) return mkSltImpl(a, b);
  if (w == 1) { // boolean algebra
    switch (k) {
    case K_AND: case K_OR: {
      if (a->isC()) std::swap(a, b);
      if (b->isC()) { if (k == K_AND) return b->v ? a : b; return b->v ? b : a; }
      if (a == b) return a;
      if (mkNot(a) == b) return mkC(1, k == K_OR);
      // absorption with one level
      for (int s = 0; s < 2; s++) {
        Expr *x = s ? b : a, *y = s ? a : b;
        if (y->k == k && (y->a == x || y->b == x)) return y;
        Kind d = k == K_AND ? K_OR : K_AND;
        if (y->k == d && (y->a == x || y->b == x)) return x;
        Expr *nx = mkNot(x);
        if (y->k == k && (y->a == nx || y->b == nx)) return mkC(1, k == K_OR);
        if (y->k == d && y->a == nx) return mkBin(k, x, y->b);
        if (y->k == d && y->b == nx) return mkBin(k, x, y->a);
        if (y->k == K_NOT && y->a->k == d) { // !(p|q) for and: !(p|q)=!p&!q
          if (y->a->a == nx || y->a->b == nx) { /* contains !x */ }
          if (y->a->a == x || y->a->b == x) return mkC(1, k == K_OR);
        }
        if (y->k == K_ITE) { if (y->a == x) return mkBin(k, x, k == K_AND ? y->b : y->c); if (y->a == nx) return mkBin(k, x, k == K_AND ? y->c : y->b); }
      }
      // eq(x,c1) & eq(x,c2)
      if (k == K_AND && a->k == K_EQ && b->k == K_EQ && a->a == b->a && a->b->isC() && b->b->isC()) return mkFalse();
      if (a->id > b->id) std::swap(a, b);
      return raw(k, 1, a, b);
    }
    case K_XOR: case K_ADD: case K_SUB:
      if (a->isC()) std::swap(a, b);
      if (b->isC()) return b->v ? mkNot(a) : a;
      if (a == b) return mkFalse();
      if (mkNot(a) == b) return mkTrue();
      if (a->k == K_NOT) return mkNot(mkBin(K_XOR, a->a, b));
      if (b->k == K_NOT) return mkNot(mkBin(K_XOR, a, b->a));
      if (a->id > b->id) std::swap(a, b);
      return raw(K_XOR, 1, a, b);
    case K_MUL: return mkBin(K_AND, a, b);
    case K_SHL: case K_LSHR: return mkAnd(a, mkNot(b));
    case K_ASHR: return a;
    case K_UDIV: case K_SDIV: return a; // divisor must be 1
    case K_UREM: case K_SREM: return mkFalse();
    default: break;
    }
  }
  if (a->tree && b->tree) {
    if (Expr *r = liftBin(w, a, b, [k, w](u128 x, u128 y) { return foldBin(k, w, x, y); })) return r;
  }
  switch (k) {
  case K_ADD:
    if (a->isC()) std::swap(a, b);
    if (b->isC()) {
      if (b->cv() == 0) return a;
      if (a->k == K_ADD && a->b->isC()) return mkBin(K_ADD, a->a, mkC(w, a->b->cv() + b->cv()));
      if (a->k == K_SUB && a->a->isC()) return mkBin(K_SUB, mkC(w, a->a->cv() + b->cv()), a->b);
      if (a->k == K_ITE && (a->b->isC() && a->c->isC())) return mkIte(a->a, mkBin(K_ADD, a->b, b), mkBin(K_ADD, a->c, b));
    } else {
      if (b->k == K_ADD && b->b->isC()) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
      if (a->k == K_ADD && a->b->isC()) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
      if (b->k == K_SUB && b->b == a) return b->a;
      if (a->k == K_SUB && a->b == b) return a->a;
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case K_SUB:
    if (b->isC()) return mkBin(K_ADD, a, mkC(w, -b->cv()));
    if (a == b) return mkC(w, 0);
    if (a->k == K_ADD && a->b == b) return a->a;
    if (a->k == K_ADD && a->a == b) return a->b;
    if (a->k == K_ADD && a->b->isC() && b->k == K_ADD && b->b->isC()) return mkBin(K_ADD, mkBin(K_SUB, a->a, b->a), mkC(w, a->b->cv() - b->b->cv()));
    if (a->k == K_ADD && a->b->isC()) return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
    if (b->k == K_ADD && b->b->isC()) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkC(w, -b->b->cv()));
    break;
  case K_MUL:
    if (a->isC()) std::swap(a, b);
    if (b->isC()) {
      if (b->cv() == 0) return b;
      if (b->cv() == 1) return a;
      if (isPow2(b->cv())) return mkBin(K_SHL, a, mkC(w, log2u(b->cv())));
      if (a->k == K_MUL && a->b->isC()) return mkBin(K_MUL, a->a, mkC(w, a->b->cv() * b->cv()));
    } else if (a->id > b->id) std::swap(a, b);
    break;
  case K_UDIV:
    if (b->isC()) {
      if (b->cv() == 1) return a;
      if (isPow2(b->cv())) return mkBin(K_LSHR, a, mkC(w, log2u(b->cv())));
    }
    if (w <= 64 && b->lo > 0 && a->hi < b->lo) return mkC(w, 0);
    break;
  case K_UREM:
    if (b->isC()) {
      if (b->cv() == 1) return mkC(w, 0);
      if (isPow2(b->cv())) return mkBin(K_AND, a, mkC(w, b->cv() - 1));
    }
    if (w <= 64 && b->lo > 0 && a->hi < b->lo) return a;
    break;
  case K_SDIV: case K_SREM:
    if (w <= 64 && a->hi < (1ull << (w - 1)) && b->hi < (1ull << (w - 1))) return mkBin(k == K_SDIV ? K_UDIV : K_UREM, a, b);
    break;
  case K_AND: {
    if (a->isC()) std::swap(a, b);
    if (a == b) return a;
    if (b->isC()) {
      u128 m = b->cv();
      if (m == 0) return b;
      if (m == maskW(w)) return a;
      if (w <= 64 && isPow2(m + 1) && a->hi <= (u64)m) return a;
      if (a->k == K_AND && a->b->isC()) return mkBin(K_AND, a->a, mkC(w, m & a->b->cv()));
      if (isPow2(m + 1)) return mkZext(mkExtract(a, 0, log2u(m + 1)), w);   // low mask
      if (a->k == K_ZEXT) return mkZext(mkBin(K_AND, a->a, mkC(a->a->w, m)), w);
      if (a->k == K_CONCAT) return mkConcat(mkBin(K_AND, a->a, mkC(a->a->w, m >> a->b->w)), mkBin(K_AND, a->b, mkC(a->b->w, m)));
      // contiguous mask: concat(0, extract, 0)
      unsigned lo = 0; while (!((m >> lo) & 1)) lo++;
      u128 mm = m >> lo;
      if (isPow2(mm + 1)) {
        unsigned n = log2u(mm + 1);
        return mkZext(mkConcat(mkExtract(a, lo, n), mkC(lo, 0)), w);
      }
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT) { unsigned n = std::max(a->a->w, b->a->w); return mkZext(mkBin(K_AND, mkZext(a->a, n), mkZext(b->a, n)), w); }
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  }
  case K_OR: case K_XOR: {
    if (a->isC()) std::swap(a, b);
    if (a == b) return k == K_OR ? a : mkC(w, 0);
    if (b->isC()) {
      if (b->cv() == 0) return a;
      if (b->cv() == maskW(w)) return k == K_OR ? b : mkNot(a);
    }
    // disjoint concat-like patterns
    auto lowZero = [](Expr *e, unsigned &n) { if (e->k == K_CONCAT && e->b->isC() && e->b->cv() == 0) { n = e->b->w; return true; } return false; };
    for (int s = 0; s < 2; s++) {
      Expr *x = s ? b : a, *y = s ? a : b; unsigned n;
      Expr *xc = x; bool zx = false; if (x->k == K_ZEXT) { xc = x->a; zx = true; } (void)zx;
      if (lowZero(xc, n)) {
        bool fits = (y->k == K_ZEXT && y->a->w <= n) || (y->w <= 64 && n < 64 && (y->hi >> n) == 0);
        if (fits) return mkZext(mkConcat(xc->a, mkExtract(y, 0, n)), w);
      }
    }
    if (!b->isC() && a->k == K_ZEXT && b->k == K_ZEXT) { unsigned n = std::max(a->a->w, b->a->w); if (n < w) return mkZext(mkBin(k, mkZext(a->a, n), mkZext(b->a, n)), w); }
    if (!b->isC() && a->id > b->id) std::swap(a, b);
    break;
  }
  case K_SHL:
    if (b->isC()) {
      if (b->cv() == 0) return a;
      if (b->cv() >= w) return mkC(w, 0);
      unsigned s = (unsigned)b->v; return mkConcat(mkExtract(a, 0, w - s), mkC(s, 0));
    }
    break;
  case K_LSHR:
    if (b->isC()) {
      if (b->cv() == 0) return a;
      if (b->cv() >= w) return mkC(w, 0);
      unsigned s = (unsigned)b->v; return mkZext(mkExtract(a, s, w - s), w);
    }
    break;
  case K_ASHR:
    if (w <= 64 && a->hi < (1ull << (w - 1))) return mkBin(K_LSHR, a, b);
    if (b->isC()) {
      if (b->cv() == 0) return a;
      unsigned s = b->cv() >= w ? w - 1 : (unsigned)b->v; return mkSext(mkExtract(a, s, w - s), w);
    }
    break;
  default: break;
  }
  return raw(k, w, a, b);
}

Expr *mkFp(Kind k, Expr *a, Expr *b, unsigned rw) {
  unsigned aw = a->w;
  if (a->isC() && (!b || b->isC())) return mkC(rw, foldFp(k, aw, rw, a->cv(), b ? b->cv() : 0));
  if (b) { if (Expr *r = liftBin(rw, a, b, [k, aw, rw](u128 x, u128 y) { return foldFp(k, aw, rw, x, y); })) return r; }
  else if (Expr *r = liftUn(rw, a, [k, aw, rw](u128 x) { return foldFp(k, aw, rw, x, 0); })) return r;
  if (!b && (k == K_UI2F || k == K_SI2F) && a->w <= 64 && a->hi - a->lo < 256 && a->hi < (1ull << 62)) {
    // small integer range: enumerate as a tree over equalities
    Expr *t = mkC(a->w, a->hi); std::vector<std::pair<Expr *, u64>> eqs;   // ordered by id, so that the result is a decision diagram
    for (u64 v = a->lo; v < a->hi; v++) { Expr *q = mkEq(a, mkC(a->w, v)); if (!q->isC()) eqs.push_back({q, v}); else if (q->v) { t = mkC(a->w, v); } }
    std::sort(eqs.begin(), eqs.end(), [](auto &x, auto &y) { return x.first->id > y.first->id; });
    for (auto &q : eqs) t = mkIte(q.first, mkC(a->w, q.second), t);
    if (t->tree) if (Expr *r = liftUn(rw, t, [k, aw, rw](u128 x) { return foldFp(k, aw, rw, x, 0); })) return r;
  }
  return raw(k, rw, a, b);
}

// ---------------------------------------------------------------- evaluation, substitution
static u64 evEpoch = 1, subEpoch = 1;
void newEvalEpoch() { evEpoch++; }
void newSubstEpoch() { subEpoch++; }
static u128 evalRec(Expr *e, const Model &m) {
  if (e->k == K_CONST) return e->cv();
  if (e->evEpoch == evEpoch) return e->evVal;
  u128 r;
  switch (e->k) {
  case K_SYM: r = e->v < m.size() ? m[e->v] & mask64(e->w) : 0; break;
  case K_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
  case K_NOT: r = ~evalRec(e->a, m) & maskW(e->w); break;
  case K_CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
  case K_EXTRACT: r = (evalRec(e->a, m) >> e->v) & maskW(e->w); break;
  case K_ZEXT: r = evalRec(e->a, m); break;
  case K_SEXT: r = (u128)sextW(evalRec(e->a, m), e->a->w) & maskW(e->w); break;
  default:
    if (e->k >= K_FADD) r = foldFp(e->k, e->a->w, e->w, evalRec(e->a, m), e->b ? evalRec(e->b, m) : 0);
    else r = foldBin(e->k, e->a->w, evalRec(e->a, m), evalRec(e->b, m));
  }
  e->evEpoch = evEpoch; e->evVal = r; return r;
}
u128 evalExpr(Expr *e, const Model &m) { return evalRec(e, m); }

Expr *substExpr(Expr *e, const Binding &b) {
  if (e->k == K_CONST || !e->symset) return e;
  if (e->subEpoch == subEpoch) return e->subVal;
  Expr *r = e;
  switch (e->k) {
  case K_SYM: if (e->v < b.known.size() && b.known[e->v]) r = mkC(e->w, b.val[e->v]); break;
  case K_ITE: { Expr *c = substExpr(e->a, b); if (c->isC()) r = substExpr(c->v ? e->b : e->c, b);
      else { Expr *t = substExpr(e->b, b), *f = substExpr(e->c, b); if (c != e->a || t != e->b || f != e->c) r = mkIte(c, t, f); } break; }
  default: {
    Expr *x = e->a ? substExpr(e->a, b) : nullptr, *y = e->b ? substExpr(e->b, b) : nullptr;
    if (x == e->a && y == e->b) break;
    switch (e->k) {
    case K_NOT: r = mkNot(x); break; case K_CONCAT: r = mkConcat(x, y); break;
    case K_EXTRACT: r = mkExtract(x, (unsigned)e->v, e->w); break;
    case K_ZEXT: r = mkZext(x, e->w); break; case K_SEXT: r = mkSext(x, e->w); break;
    default: r = e->k >= K_FADD ? mkFp(e->k, x, y, e->w) : mkBin(e->k, x, y);
    }
  } }
  e->subEpoch = subEpoch; e->subVal = r; return r;
}

static const char *kn[] = {"const","sym","+","-","*","udiv","sdiv","urem","srem","&","|","^","<<","lshr","ashr","not","=","u<","s<","ite","concat","extract","zext","sext","f+","f-","f*","f/","f=","f<","funo","ui2f","si2f","f2ui","f2si","fext","ftrunc"};
std::string exprStr(Expr *e, int d) {
  if (e->isC()) return std::to_string((unsigned long long)e->v) + ":" + std::to_string(e->w);
  if (e->k == K_SYM) return gSyms[e->v].name;
  if (d <= 0) return "..";
  std::string s = std::string("(") + kn[e->k];
  if (e->k == K_EXTRACT) s += "[" + std::to_string((unsigned long long)e->v) + "+" + std::to_string(e->w) + "]";
  for (Expr *c : {e->a, e->b, e->c}) if (c) s += " " + exprStr(c, d - 1);
  return s + ")";
}
