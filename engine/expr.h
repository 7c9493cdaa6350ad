// Symbolic expression DAG (hash-consed bit-vectors, width 1..128) with a rewriting constructor layer.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;

enum Kind : u8 {
  K_CONST, K_SYM,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_NOT,
  K_EQ, K_ULT, K_SLT,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FOEQ, K_FOLT, K_FUNO,
  K_UI2F, K_SI2F, K_F2UI, K_F2SI, K_FEXT, K_FTRUNC,
  K_FLOOR, K_FCEIL, K_FINT, K_FROUND, K_FRINT, K_FSQRT,
  K_NUM
};

struct Expr {
  Kind k; u8 w; bool uninit; bool tree;     // tree: constant, or ite over constants with ordered conditions
  u32 id; u32 symset; u32 nodes;            // nodes: (upper bound of) tree size
  Expr *a, *b, *c;
  u64 v, v2;                                // constant (low, high), symbol index, extract low bit
  u64 lo, hi;                               // unsigned interval (only meaningful for w<=64)
  u64 evEpoch; u128 evVal;                  // evaluation memo
  u64 subEpoch; Expr *subVal;               // substitution memo
  void *ast;                                // solver translation memo
  bool isC() const { return k == K_CONST; }
  u128 cv() const { return ((u128)v2 << 64) | v; }
};

struct SymInfo { std::string name; u8 w; bool uninit; bool internal; u64 hi; };   // values lie in [0, hi]
extern std::vector<SymInfo> gSyms;
extern std::vector<std::vector<u32>> gSymSets;   // interned, sorted

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i128 sextW(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskW(w); return (i128)((v ^ s) - s); }

Expr *mkC(unsigned w, u128 v);
Expr *mkSym(const std::string &name, unsigned w, bool uninit = false, bool internal = false, u64 hi = ~0ull);
Expr *symByIdx(u32 idx);
Expr *mkBin(Kind k, Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkIte(Expr *c, Expr *t, Expr *e);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkFp(Kind k, Expr *a, Expr *b, unsigned rw);  // fp ops and conversions (rw = result width)
inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(K_EQ, a, b); }
inline Expr *mkAnd(Expr *a, Expr *b) { return mkBin(K_AND, a, b); }
inline Expr *mkOr(Expr *a, Expr *b) { return mkBin(K_OR, a, b); }
inline Expr *mkUlt(Expr *a, Expr *b) { return mkBin(K_ULT, a, b); }
inline Expr *mkUle(Expr *a, Expr *b) { return mkNot(mkBin(K_ULT, b, a)); }
Expr *mkTrue(); Expr *mkFalse();

u128 foldBin(Kind k, unsigned w, u128 a, u128 b);   // w: operand width
u128 foldFp(Kind k, unsigned aw, unsigned rw, u128 a, u128 b);

typedef std::vector<u64> Model;                      // by symbol index; absent = 0
u128 evalExpr(Expr *e, const Model &m);              // memoised inside one evaluation epoch
void newEvalEpoch();
// substitute symbols bound in `bind` (bind[i].first = is bound)
struct Binding { std::vector<u8> known; std::vector<u64> val; };
Expr *substExpr(Expr *e, const Binding &b);
void newSubstEpoch();
u32 symsetUnion(u32 a, u32 b);
bool symsetsIntersect(u32 a, u32 b);
std::string exprStr(Expr *e, int depth = 6);
// distinct constant leaves of a tree (false if too many)
bool treeLeaves(Expr *e, std::vector<u128> &out, size_t limit);
// condition under which tree e has leaf value v
Expr *treeCond(Expr *e, u128 v);
extern u64 gExprCount;
extern u32 gTreeLimit;
