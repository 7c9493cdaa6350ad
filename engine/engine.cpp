#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <algorithm>
#include <cassert>
using namespace llvm;
static const unsigned SLOT = 20;
double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
[[noreturn]] static void unsupported(const std::string &w) { fprintf(stderr, "sx: UNSUPPORTED %s\n", w.c_str()); fflush(stderr); exit(4); }
static std::string instStr(const Instruction *I) { std::string s; raw_string_ostream os(s); I->print(os); return s; }

// ---------------------------------------------------------------- types
static unsigned scalarW(Type *t, const DataLayout &DL) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  return 0;
}
static void flatten(Type *t, const DataLayout &DL, u64 off, std::vector<FlatEl> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), DL, off + sl->getElementOffset(i), out); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 s = DL.getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), DL, off + i * s, out); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { unsigned ew = scalarW(vt->getElementType(), DL); if (ew % 8) { if (ew == 1) { for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({off, 1}); return; } unsupported("vector of odd elements"); } for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({off + i * ew / 8, (u8)ew}); return; }
  unsigned w = scalarW(t, DL); if (!w || w > 128) { std::string s; raw_string_ostream os(s); t->print(os); unsupported("type " + s); }
  out.push_back({off, (u8)w});
}
static std::vector<FlatEl> flat(Type *t, const DataLayout &DL) { std::vector<FlatEl> v; if (!t->isVoidTy()) flatten(t, DL, 0, v); return v; }

// ---------------------------------------------------------------- loading
u64 Engine::globalAddr(const GlobalValue *g) {
  if (auto *ga = dyn_cast<GlobalAlias>(g)) { std::vector<Val> v; constFlat(ga->getAliasee(), v); return v[0].c; }
  auto it = gaddr.find(g); if (it == gaddr.end()) unsupported("global " + g->getName().str());
  return it->second;
}
static const char *tiBase(const std::string &n) {
  static const std::map<std::string, const char *> m = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}};
  auto it = m.find(n); return it == m.end() ? nullptr : it->second;
}
void Engine::constFlat(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) out.push_back(VC(ci->getZExtValue()));
    else { u128 v = ci->getValue().getRawData()[0] | ((u128)ci->getValue().getRawData()[1] << 64); out.push_back(VE(mkC(w, v))); }
    return;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(VC(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(VC(0)); return; }
  if (isa<UndefValue>(c)) { for (auto &f : flat(t, *DL)) { out.push_back(Val{mkSym("undef", f.w, true, true), 0}); } return; }
  if (isa<ConstantAggregateZero>(c)) { for (auto &f : flat(t, *DL)) out.push_back(f.w > 64 ? VE(mkC(f.w, 0)) : VC(0)); return; }
  if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) constFlat(cast<Constant>(c->getOperand(i)), out); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constFlat(cd->getElementAsConstant(i), out); return; }
  if (auto *g = dyn_cast<GlobalValue>(c)) { out.push_back(VC(globalAddr(g))); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    auto op = [&](unsigned i) { std::vector<Val> v; constFlat(ce->getOperand(i), v); return v[0].c; };
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto *go = cast<GEPOperator>(ce); if (!go->accumulateConstantOffset(*DL, off)) unsupported("const gep"); out.push_back(VC(op(0) + off.getSExtValue())); return; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: out.push_back(VC(op(0) & mask64(scalarW(t, *DL)))); return;
    case Instruction::Sub: out.push_back(VC((op(0) - op(1)) & mask64(scalarW(t, *DL)))); return;
    case Instruction::Add: out.push_back(VC((op(0) + op(1)) & mask64(scalarW(t, *DL)))); return;
    case Instruction::Trunc: out.push_back(VC(op(0) & mask64(scalarW(t, *DL)))); return;
    case Instruction::ICmp: { bool eq = op(0) == op(1); out.push_back(VC(ce->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq)); return; }
    default: unsupported(std::string("constexpr ") + ce->getOpcodeName());
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); unsupported("constant " + s);
}
static LLVMContext *gctx;
void Engine::load(const std::string &path) {
  gctx = new LLVMContext(); SMDiagnostic err;
  M = parseIRFile(path, err, *gctx);
  if (!M) { err.print("sx", errs()); exit(3); }
  DL = &M->getDataLayout();
}
Func *Engine::func(const Function *F) {
  auto it = funcs.find(F); if (it != funcs.end()) return it->second;
  Func *f = new Func(); f->F = const_cast<Function *>(F); f->name = F->getName().str(); f->varargs = F->isVarArg();
  std::string d = demangle(f->name);
  f->isRepo = d.find("ppocr::") != std::string::npos && !F->isDeclaration() && d.compare(0, 5, "std::") != 0 && d.find(" std::") == std::string::npos;
  if (f->name.find("repo_main") != std::string::npos) f->isRepo = true;
  f->bi = findBuiltin(f->name, !F->isDeclaration(), &f->noop);
  funcs[F] = f; return f;
}

// ---------------------------------------------------------------- decoding
enum { OP_INTR = 200, OP_CALL = 201, OP_NOP = 202, OP_SHUF = 203, OP_EXTEL = 204, OP_INSEL = 205 };
void Engine::decode(Func *f) {
  if (f->decoded) return;
  f->decoded = true;
  Function &F = *f->F; const DataLayout &D = *DL;
  std::unordered_map<const Value *, int> slot; std::unordered_map<const BasicBlock *, int> bbi; int ns = 0;
  auto cnt = [&](Type *t) { return t->isVoidTy() ? 0u : (u32)flat(t, D).size(); };
  for (auto &a : F.args()) { slot[&a] = ns; f->argSlots.push_back(ns); u32 n = cnt(a.getType()); f->argN.push_back(n); ns += n; }
  int b = 0;
  for (auto &B : F) { bbi[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy() && !I.getType()->isLabelTy()) { slot[&I] = ns; ns += cnt(I.getType()); } }
  f->nslots = ns;
  std::map<const Constant *, int> cslot;
  auto opnd = [&](const Value *v) -> int {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = cslot.find(c); if (it != cslot.end()) return it->second;
      int idx = -(int)f->consts.size() - 1; std::vector<Val> vs; constFlat(c, vs); for (auto &x : vs) f->consts.push_back(x);
      cslot[c] = idx; return idx;
    }
    auto it = slot.find(v); if (it == slot.end()) { std::string s; raw_string_ostream os(s); v->print(os); unsupported("operand " + s); }
    return it->second;
  };
  PostDominatorTree pdt(F);
  for (auto &B : F) {
    Block blk; blk.first = (int)f->insts.size(); int bi = bbi[&B];
    for (auto *S : successors(&B)) blk.succ.push_back(bbi[S]);
    if (auto *n = pdt.getNode(&B)) if (auto *ip = n->getIDom()) if (ip->getBlock()) blk.ipdom = bbi[ip->getBlock()];
    std::map<int, std::vector<std::pair<int, int>>> ph;
    for (auto &I : B) {
      if (auto *P = dyn_cast<PHINode>(&I)) {
        u32 n = cnt(P->getType()); int d = slot[P];
        for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
          int pb = bbi[P->getIncomingBlock(k)]; int o = opnd(P->getIncomingValue(k)); auto &mv = ph[pb];
          bool dup = false; for (auto &m : mv) if (m.first == d) dup = true;
          if (dup) continue;
          for (u32 j = 0; j < n; j++) mv.push_back({d + (int)j, o >= 0 ? o + (int)j : o - (int)j});
        }
        continue;
      }
      Inst in; in.I = &I; in.op = I.getOpcode(); in.bb = bi;
      if (!I.getType()->isVoidTy()) { in.dst = slot[&I]; in.ndst = cnt(I.getType()); if (in.ndst == 1) in.w = flat(I.getType(), D)[0].w; }
      switch (I.getOpcode()) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
        in.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; if (in.ndst > 1) in.w = flat(I.getType(), D)[0].w; break;
      case Instruction::FNeg: case Instruction::Freeze: in.ops = {opnd(I.getOperand(0))}; break;
      case Instruction::ICmp: case Instruction::FCmp: { in.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; in.sub = cast<CmpInst>(&I)->getPredicate(); in.w2 = flat(I.getOperand(0)->getType(), D)[0].w; break; }
      case Instruction::Select: in.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1)), opnd(I.getOperand(2))}; in.flat = flat(I.getType(), D); if (I.getOperand(0)->getType()->isVectorTy()) in.sub = 1; break;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
      case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: {
        in.ops = {opnd(I.getOperand(0))}; auto fo = flat(I.getOperand(0)->getType(), D), fd = flat(I.getType(), D); in.w2 = fo[0].w; in.w = fd[0].w;
        if (fo.size() != fd.size()) { if (I.getOpcode() != Instruction::BitCast) unsupported(instStr(&I)); in.imm = fo.size(); in.sub = 1; } break; }
      case Instruction::Load: case Instruction::Store: {
        Type *t = I.getOpcode() == Instruction::Load ? I.getType() : I.getOperand(0)->getType(); in.flat = flat(t, D);
        if (I.getOpcode() == Instruction::Load) in.ops = {opnd(I.getOperand(0))}; else in.ops = {opnd(I.getOperand(1)), opnd(I.getOperand(0))}; break; }
      case Instruction::Alloca: { auto *A = cast<AllocaInst>(&I); in.imm = (i64)D.getTypeAllocSize(A->getAllocatedType()); in.ops = {opnd(A->getArraySize())}; in.w2 = flat(A->getArraySize()->getType(), D)[0].w; break; }
      case Instruction::GetElementPtr: {
        auto *G = cast<GetElementPtrInst>(&I); in.ops = {opnd(G->getPointerOperand())};
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (auto *st = gi.getStructTypeOrNull()) { in.imm += (i64)D.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          i64 sc = (i64)D.getTypeAllocSize(gi.getIndexedType()).getFixedValue();
          if (auto *ci = dyn_cast<ConstantInt>(ix)) { in.imm += ci->getSExtValue() * sc; continue; }
          in.gep.push_back({opnd(ix), sc, (u8)flat(ix->getType(), D)[0].w});
        }
        if (I.getType()->isVectorTy()) unsupported(instStr(&I));
        break; }
      case Instruction::ExtractValue: { auto *E = cast<ExtractValueInst>(&I); Type *t = E->getAggregateOperand()->getType(); u32 off = 0;
        for (unsigned ix : E->indices()) { for (unsigned k = 0; k < ix; k++) off += cnt(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
        int o = opnd(E->getAggregateOperand()); in.ops = {o >= 0 ? o + (int)off : o - (int)off}; break; }
      case Instruction::InsertValue: { auto *E = cast<InsertValueInst>(&I); Type *t = E->getAggregateOperand()->getType(); u32 off = 0;
        for (unsigned ix : E->indices()) { for (unsigned k = 0; k < ix; k++) off += cnt(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
        in.ops = {opnd(E->getAggregateOperand()), opnd(E->getInsertedValueOperand())}; in.imm = off; in.w2 = (u8)cnt(t); break; }
      case Instruction::ExtractElement: in.op = OP_EXTEL; in.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; break;
      case Instruction::InsertElement: in.op = OP_INSEL; in.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1)), opnd(I.getOperand(2))}; break;
      case Instruction::ShuffleVector: { in.op = OP_SHUF; auto *S = cast<ShuffleVectorInst>(&I); in.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; in.imm = cnt(I.getOperand(0)->getType()); for (int m : S->getShuffleMask()) in.cases.push_back({0, m}); break; }
      case Instruction::Br: { auto *B2 = cast<BranchInst>(&I); if (B2->isConditional()) { in.ops = {opnd(B2->getCondition())}; in.t1 = bbi[B2->getSuccessor(0)]; in.t2 = bbi[B2->getSuccessor(1)]; } else in.t1 = bbi[B2->getSuccessor(0)]; break; }
      case Instruction::Switch: { auto *S = cast<SwitchInst>(&I); in.ops = {opnd(S->getCondition())}; in.w2 = flat(S->getCondition()->getType(), D)[0].w; in.t1 = bbi[S->getDefaultDest()]; for (auto &c : S->cases()) in.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]}); break; }
      case Instruction::Ret: if (I.getNumOperands()) { in.ops = {opnd(I.getOperand(0))}; in.imm = cnt(I.getOperand(0)->getType()); } break;
      case Instruction::Unreachable: break;
      case Instruction::Resume: in.ops = {opnd(I.getOperand(0))}; break;
      case Instruction::LandingPad: { auto *L = cast<LandingPadInst>(&I); in.cleanup = L->isCleanup();
        for (unsigned k = 0; k < L->getNumClauses(); k++) { Clause c; c.isCatch = L->isCatch(k);
          if (c.isCatch) { std::vector<Val> v; constFlat(L->getClause(k), v); c.tinfo = v[0].c; } else { std::vector<Val> v; constFlat(L->getClause(k), v); for (auto &x : v) c.filter.push_back(x.c); c.tinfo = 0; }
          in.clauses.push_back(c); } break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto *C = cast<CallBase>(&I); in.op = OP_CALL;
        if (auto *iv = dyn_cast<InvokeInst>(&I)) { in.t1 = bbi[iv->getNormalDest()]; in.t2 = bbi[iv->getUnwindDest()]; }
        Function *cf = C->getCalledFunction();
        if (!cf) if (auto *al = dyn_cast<GlobalAlias>(C->getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(al->getAliaseeObject());
        if (cf && cf->isIntrinsic()) {
          in.op = OP_INTR; in.sub = cf->getIntrinsicID(); StringRef n = cf->getName();
          if (n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.invariant") || n.starts_with("llvm.var.annotation") || n.starts_with("llvm.donothing") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.stackrestore")) { in.op = OP_NOP; break; }
          for (unsigned k = 0; k < C->arg_size(); k++) { Type *at = C->getArgOperand(k)->getType(); if (at->isMetadataTy()) continue; in.ops.push_back(opnd(C->getArgOperand(k))); in.argw.push_back(flat(at, D)[0].w); }
          if (in.ndst > 1) { in.flat = flat(I.getType(), D); in.w = in.flat[0].w; }
          if (in.dst >= 0 && I.getType()->isVectorTy()) in.w = flat(I.getType(), D)[0].w;
          break;
        }
        if (C->isInlineAsm()) { in.op = OP_NOP; if (in.dst >= 0) unsupported("inline asm"); break; }
        if (cf) in.callee = func(cf); else in.ops.push_back(opnd(C->getCalledOperand()));
        for (unsigned k = 0; k < C->arg_size(); k++) { Type *at = C->getArgOperand(k)->getType(); if (at->isMetadataTy()) continue; u32 n = cnt(at); in.ops.push_back(opnd(C->getArgOperand(k))); in.argn.push_back(n); in.argw.push_back(n ? flat(at, D)[0].w : 0); if (C->isByValArgument(k)) { /* callee-owned copy */ in.imm |= 1ll << k; in.cases.push_back({D.getTypeAllocSize(C->getParamByValType(k)), (int)k}); } }
        break; }
      case Instruction::AtomicRMW: { auto *A = cast<AtomicRMWInst>(&I); in.ops = {opnd(A->getPointerOperand()), opnd(A->getValOperand())}; in.sub = A->getOperation(); break; }
      case Instruction::AtomicCmpXchg: { auto *A = cast<AtomicCmpXchgInst>(&I); in.ops = {opnd(A->getPointerOperand()), opnd(A->getCompareOperand()), opnd(A->getNewValOperand())}; in.w = flat(A->getCompareOperand()->getType(), D)[0].w; break; }
      case Instruction::Fence: in.op = OP_NOP; break;
      default: unsupported(instStr(&I));
      }
      f->insts.push_back(std::move(in));
    }
    blk.n = (int)f->insts.size() - blk.first;
    for (auto &p : ph) blk.phis.push_back({p.first, p.second});
    f->blocks.push_back(std::move(blk));
  }
}
void Engine::liveness(Func *f) {
  if (f->liveDone) return;
  f->liveDone = true;
  size_t nb = f->blocks.size(); std::vector<std::vector<bool>> use(nb, std::vector<bool>(f->nslots)), def = use, in = use;
  for (size_t b = 0; b < nb; b++) {
    Block &B = f->blocks[b];
    for (int i = B.first; i < B.first + B.n; i++) {
      Inst &I = f->insts[i];
      auto U = [&](int o, u32 n) { if (o >= 0) for (u32 k = 0; k < n; k++) if (!def[b][o + k]) use[b][o + k] = true; };
      for (size_t k = 0; k < I.ops.size(); k++) {
        u32 n = 1; const Value *v = nullptr; (void)v;
        if (I.op == OP_CALL) { size_t a = I.callee ? k : k - 1; if (!I.callee && k == 0) n = 1; else n = I.argn[a]; }
        else if (I.op == Instruction::Ret) n = (u32)I.imm;
        else if (I.op == Instruction::Select && k > 0) n = I.ndst;
        else if (I.op == Instruction::Select && I.sub == 1) n = I.ndst;
        else if (I.op == Instruction::Store && k == 1) n = (u32)I.flat.size();
        else if (I.op == Instruction::ExtractValue) n = I.ndst;
        else if (I.op == Instruction::InsertValue) n = k == 0 ? I.ndst : I.w2;
        else if (I.op == Instruction::Resume) n = 2;
        else if (I.op == OP_SHUF) n = (u32)I.imm;
        else if (I.op == Instruction::BitCast && I.sub) n = (u32)I.imm;
        else if (I.op == OP_EXTEL && k == 0) n = 64;
        else if (I.ndst > 1) n = I.ndst;
        if (I.ops[k] >= 0) n = std::min<u32>(n, f->nslots - I.ops[k]);
        U(I.ops[k], n);
      }
      for (auto &g : I.gep) U(g.op, 1);
      if (I.dst >= 0) for (u32 k = 0; k < I.ndst; k++) def[b][I.dst + k] = true;
    }
  }
  bool ch = true;
  while (ch) { ch = false;
    for (size_t b = nb; b-- > 0;) {
      std::vector<bool> out(f->nslots);
      for (int s : f->blocks[b].succ) {
        std::vector<bool> t = in[s];
        for (auto &p : f->blocks[s].phis) for (auto &m : p.moves) t[m.first] = false;
        for (auto &p : f->blocks[s].phis) if (p.pred == (int)b) for (auto &m : p.moves) if (m.second >= 0) t[m.second] = true;
        for (int i = 0; i < f->nslots; i++) if (t[i]) out[i] = true;
      }
      for (int i = 0; i < f->nslots; i++) { bool v = use[b][i] || (out[i] && !def[b][i]); if (v && !in[b][i]) { in[b][i] = true; ch = true; } }
    } }
  for (size_t b = 0; b < nb; b++) f->blocks[b].live = in[b];   // live before first non-phi instruction (phi results included when used)
}

// ---------------------------------------------------------------- memory
Obj *Engine::find(State &s, u64 addr) {
  u64 id = addr >> SLOT; if (id >= s.nextId) return nullptr;
  return s.mem[id >> 6]->o[id & 63].p;
}
Obj *Engine::findMut(State &s, u64 addr) {
  u64 id = addr >> SLOT; if (id >= s.nextId) return nullptr;
  Chunk *c = s.mem[id >> 6].mut(); Ref<Obj> &r = c->o[id & 63]; if (!r) return nullptr;
  if (r->rc > 1 && r->size <= (1ull << SLOT)) { r.mut(); }
  else if (r->size > (1ull << SLOT)) { // multi-slot objects share one Obj across slots
    u64 base = r->base >> SLOT, n = ((r->size - 1) >> SLOT) + 1; if ((u64)r->rc > n) { Obj *no = new Obj(*r.p); no->rc = 0; Ref<Obj> nr(no); for (u64 i = base; i < base + n; i++) s.mem[i >> 6].mut()->o[i & 63] = nr; return no; } }
  return r.p;
}
u64 Engine::alloc(State &s, u64 size, ObjKind k, const char *name, bool uninit, u8 akind) {
  u64 n = size ? ((size - 1) >> SLOT) + 1 : 1; u64 id = s.nextId; s.nextId += n;
  while (s.mem.size() * 64 < s.nextId) s.mem.push_back(Ref<Chunk>(new Chunk()));
  Obj *o = new Obj(); o->base = id << SLOT; o->size = size; o->kind = k; o->name = name; o->alloc = akind; u64 back = size > kHuge ? 4096 : size; o->bytes.resize(back);
  if (uninit && size) { o->st.assign(back, 1); o->nsym = 1; }
  Ref<Obj> r(o);
  for (u64 i = id; i < id + n; i++) s.mem[i >> 6].mut()->o[i & 63] = r;
  if (k == O_HEAP) s.heapLive++;
  return o->base;
}
void Engine::release(State &s, u64 addr) {
  Obj *o = find(s, addr); u64 n = o->size ? ((o->size - 1) >> SLOT) + 1 : 1, id = o->base >> SLOT; if (o->kind == O_HEAP) s.heapLive--;
  for (u64 i = id; i < id + n; i++) s.mem[i >> 6].mut()->o[i & 63] = Ref<Obj>();
}
static void ensureSym(Obj *o) { if (o->st.empty()) o->st.assign(o->bytes.size(), 0); if (o->sym.empty()) o->sym.resize(o->bytes.size()); }
void Engine::beyond() { setIncomplete("access beyond the materialised part of a huge allocation"); throw DeadEx(); }
Val Engine::loadObj(State &s, Obj *o, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8; if (off + n > o->bytes.size()) beyond();
  bool conc = o->st.empty();
  if (!conc) { conc = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i]) { conc = false; break; } }
  if (conc) {
    if (n <= 8) { u64 v = 0; memcpy(&v, &o->bytes[off], n); return VC(v & mask64(w)); }
    u128 v = 0; memcpy(&v, &o->bytes[off], n); return VE(mkC(w, v & maskW(w)));
  }
  // materialise uninitialised bytes as fresh symbols
  for (unsigned i = 0; i < n; i++) if (o->st[off + i] == 1) {
    Obj *m = findMut(s, o->base); ensureSym(m); o = m;
    for (unsigned j = 0; j < n; j++) if (m->st[off + j] == 1) {
      Expr *u = mkSym(std::string("uninit:") + o->name + "@" + std::to_string(o->base >> SLOT) + "+" + std::to_string(off + j), 8, true, true);
      m->st[off + j] = 2; m->sym[off + j] = {u, 0};
    }
    break;
  }
  if (o->st[off] == 2 && o->sym[off].idx == 0 && o->sym[off].e->w == w && n * 8 == w) {
    bool ok = true; for (unsigned i = 1; i < n; i++) if (o->st[off + i] != 2 || o->sym[off + i].e != o->sym[off].e || o->sym[off + i].idx != i) { ok = false; break; }
    if (ok) return VE(o->sym[off].e);
  }
  Expr *r = nullptr;
  unsigned i = n;
  while (i > 0) { // assemble from most significant, grouping runs of the same source
    unsigned j = i - 1;
    if (o->st[off + j] == 0) {
      unsigned k = j; while (k > 0 && o->st[off + k - 1] == 0) k--;
      u128 v = 0; memcpy(&v, &o->bytes[off + k], j - k + 1); Expr *p = mkC((j - k + 1) * 8, v); r = r ? mkConcat(r, p) : p; i = k;
    } else {
      SymB sb = o->sym[off + j]; unsigned k = j;
      while (k > 0 && o->st[off + k - 1] == 2 && o->sym[off + k - 1].e == sb.e && o->sym[off + k - 1].idx + (j - k + 1) == sb.idx) k--;
      unsigned lo = (sb.idx - (j - k)) * 8; Expr *p = mkExtract(sb.e, lo, (j - k + 1) * 8); r = r ? mkConcat(r, p) : p; i = k;
    }
  }
  if (r->w != w) r = mkExtract(r, 0, w);
  return VE(r);
}
void Engine::storeObj(State &s, Obj *o, u64 off, Val v, unsigned w) {
  unsigned n = (w + 7) / 8; if (off + n > o->bytes.size()) beyond();
  if (!v.e) {
    u64 x = v.c; memcpy(&o->bytes[off], &x, n);
    if (!o->st.empty()) for (unsigned i = 0; i < n; i++) o->st[off + i] = 0;
    return;
  }
  Expr *e = v.e;
  if (e->isC()) { u128 x = e->cv(); memcpy(&o->bytes[off], &x, n); if (!o->st.empty()) for (unsigned i = 0; i < n; i++) o->st[off + i] = 0; return; }
  if (e->w != n * 8) e = mkZext(e, n * 8);
  ensureSym(o);
  for (unsigned i = 0; i < n; i++) { o->st[off + i] = 2; o->sym[off + i] = {e, i}; }
}
Val Engine::loadC(State &s, u64 addr, unsigned w) {
  Obj *o = find(s, addr); unsigned n = (w + 7) / 8;
  if (!o || o->kind == O_FUNC || addr - o->base + n > o->size) violation(s, "memory-read", o ? "out of bounds" : addr < (16ull << SLOT) ? "null" : "dangling or unmapped");
  return loadObj(s, o, addr - o->base, w);
}
void Engine::storeC(State &s, u64 addr, Val v, unsigned w) {
  Obj *o = findMut(s, addr); unsigned n = (w + 7) / 8;
  if (!o || o->kind == O_FUNC || o->ro || addr - o->base + n > o->size) violation(s, "memory-write", o ? "out of bounds" : addr < (16ull << SLOT) ? "null" : "dangling or unmapped");
  storeObj(s, o, addr - o->base, v, w);
}
// enumerate the feasible concrete addresses of a symbolic address; a feasible invalid one is a violation
void Engine::resolve(State &s, Expr *addr, unsigned bytes, bool write, std::vector<std::pair<u64, Expr *>> &out) {
  const char *kind = write ? "memory-write" : "memory-read";
  auto valid = [&](u64 a) { Obj *o = find(s, a); return o && o->kind != O_FUNC && !(write && o->ro) && a - o->base + bytes <= o->size; };
  if (addr->uninit) checkUninit(s, mkEq(addr, mkC(64, (u64)evalExpr(addr, (newEvalEpoch(), s.model)))), "uninitialised value used as an address");
  std::vector<u128> leaves;
  if (treeLeaves(addr, leaves, 4096)) {
    for (u128 l : leaves) {
      Expr *c = treeCond(addr, l);
      Model m; 
      if (!valid((u64)l)) { if (query(s, c, &m) != R_UNSAT) violation(s, kind, "out of bounds", c); continue; }
      if (leaves.size() <= 64) { if (query(s, c, nullptr) == R_UNSAT) continue; }
      out.push_back({(u64)l, c});
    }
    return;
  }
  Expr *left = mkTrue(); int guard = 0;
  for (;;) {
    Model m; Res r = query(s, left, &m);
    if (r == R_UNSAT) break;
    if (r == R_UNKNOWN) { setIncomplete("solver unknown on address"); throw DeadEx(); }
    newEvalEpoch(); u64 a = (u64)evalExpr(addr, m);
    if (!valid(a)) violation(s, kind, "out of bounds", mkAnd(left, mkEq(addr, mkC(64, a))));
    Obj *o = find(s, a); u64 lo = o->base, hi = o->base + o->size - bytes;
    Expr *inside = mkAnd(mkUle(mkC(64, lo), addr), mkUle(addr, mkC(64, hi)));
    // stride
    unsigned k = 0; while (k < 4 && bytes % (2u << k) == 0) k++;
    u64 step = 1;
    while (k > 0) { u64 st = 1ull << k; if (query(s, mkAnd(left, mkAnd(inside, mkNot(mkEq(mkExtract(addr, 0, k), mkC(k, a & (st - 1)))))), nullptr) == R_UNSAT) { step = st; break; } k--; }
    u64 first = lo + ((a - lo) % step);
    if (addr->lo > first && addr->lo <= hi) first = addr->lo + ((a % step + step - addr->lo % step) % step);
    u64 last = std::min(hi, addr->hi);
    if ((last - first) / step > 8192) unsupported("symbolic access to large object");
    size_t cnt = (last - first) / step + 1;
    for (u64 x = first; x <= last; x += step) { Expr *c = mkEq(addr, mkC(64, x)); if (c->isC() && !c->v) continue; if (cnt <= 40 && query(s, mkAnd(left, c), nullptr) == R_UNSAT) continue; out.push_back({x, c}); }
    left = mkAnd(left, mkNot(inside));
    if (++guard > 64) unsupported("address resolves to too many objects");
  }
}
Val Engine::load(State &s, Val addr, unsigned w) {
  if (!addr.e) return loadC(s, addr.c, w);
  Expr *a = restrict_(s, addr.e);
  if (a->isC()) return loadC(s, a->v, w);
  std::vector<std::pair<u64, Expr *>> cand; resolve(s, a, (w + 7) / 8, false, cand);
  if (cand.empty()) throw DeadEx();
  Val r = loadC(s, cand.back().first, w); Expr *e = toE(r, w);
  for (size_t i = cand.size() - 1; i-- > 0;) e = mkIte(cand[i].second, toE(loadC(s, cand[i].first, w), w), e);
  return VE(e);
}
void Engine::store(State &s, Val addr, Val v, unsigned w) {
  if (!addr.e) { storeC(s, addr.c, v, w); return; }
  Expr *a = restrict_(s, addr.e);
  if (a->isC()) { storeC(s, a->v, v, w); return; }
  std::vector<std::pair<u64, Expr *>> cand; resolve(s, a, (w + 7) / 8, true, cand);
  Expr *ve = toE(v, w);
  for (auto &c : cand) { Val old = loadC(s, c.first, w); storeC(s, c.first, VE(mkIte(c.second, ve, toE(old, w))), w); }
}
void Engine::copyMem(State &s, u64 d, u64 src, u64 n) {
  if (!n) return;
  Obj *so = find(s, src);
  if (!so || so->kind == O_FUNC || src - so->base + n > so->size) violation(s, "memory-read", "memcpy source out of bounds");
  Ref<Obj> keep(so);
  Obj *o = findMut(s, d);
  if (!o || o->kind == O_FUNC || o->ro || d - o->base + n > o->size) violation(s, "memory-write", "memcpy destination out of bounds");
  u64 so_ = src - keep->base, do_ = d - o->base; if (so_ + n > keep->bytes.size() || do_ + n > o->bytes.size()) beyond();
  std::vector<u8> b(keep->bytes.begin() + so_, keep->bytes.begin() + so_ + n), st; std::vector<SymB> sy;
  bool any = false;
  if (!keep->st.empty()) { st.assign(keep->st.begin() + so_, keep->st.begin() + so_ + n); for (u8 x : st) if (x) any = true; if (!keep->sym.empty()) sy.assign(keep->sym.begin() + so_, keep->sym.begin() + so_ + n); }
  memcpy(&o->bytes[do_], b.data(), n);
  if (any) { ensureSym(o); for (u64 i = 0; i < n; i++) { o->st[do_ + i] = st[i]; if (st[i] == 2) o->sym[do_ + i] = sy[i]; } }
  else if (!o->st.empty()) memset(&o->st[do_], 0, n);
}
void Engine::setMem(State &s, u64 d, Val b, u64 n) {
  if (!n) return;
  Obj *o = findMut(s, d);
  if (!o || o->kind == O_FUNC || o->ro || d - o->base + n > o->size) violation(s, "memory-write", "memset out of bounds");
  u64 off = d - o->base; if (off + n > o->bytes.size()) beyond();
  if (!b.e) { memset(&o->bytes[off], (int)b.c, n); if (!o->st.empty()) memset(&o->st[off], 0, n); }
  else for (u64 i = 0; i < n; i++) storeObj(s, o, off + i, b, 8);
}
std::string Engine::readStr(State &s, u64 addr) { std::string r; for (;;) { Val v = loadC(s, addr++, 8); if (v.e || !v.c) break; r += (char)v.c; } return r; }

// ---------------------------------------------------------------- solver interface
static u64 bindVerCtr = 1, substFor = 0;
Expr *Engine::restrict_(State &s, Expr *e) {
  if (!e->symset || s.bindVer == 0) return e;
  if (substFor != s.bindVer) { newSubstEpoch(); substFor = s.bindVer; }
  return substExpr(e, s.bind);
}
static void bindSym(State &s, Expr *sym, u64 v) {
  if (s.bind.known.size() <= sym->v) { s.bind.known.resize(sym->v + 1, 0); s.bind.val.resize(sym->v + 1, 0); }
  s.bind.known[sym->v] = 1; s.bind.val[sym->v] = v; s.bindVer = ++bindVerCtr;
}
void Engine::assume(State &s, Expr *c) {
  c = restrict_(s, c);
  if (c->isC()) return;
  if (c->k == K_AND) { assume(s, c->a); assume(s, c->b); return; }
  if (c->k == K_NOT && c->a->k == K_OR) { assume(s, mkNot(c->a->a)); assume(s, mkNot(c->a->b)); return; }
  s.pc.push_back(c);
  if (c->k == K_SYM) bindSym(s, c, 1);
  else if (c->k == K_NOT && c->a->k == K_SYM) bindSym(s, c->a, 0);
  else if (c->k == K_EQ && c->a->k == K_SYM && c->b->isC()) bindSym(s, c->a, c->b->v);
}
static bool isHard(Expr *e) {   // floating point or division inside
  static std::unordered_map<Expr *, bool> memo;
  if (!e->symset) return false;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool r = e->k >= K_FADD || e->k == K_UDIV || e->k == K_SDIV || e->k == K_UREM || e->k == K_SREM;
  for (Expr *x : {e->a, e->b, e->c}) if (x && !r) r = isHard(x);
  return memo[e] = r;
}
// The solver gave no answer on a conjunction (rounding circuits, division): decide it by cases over the symbols it
// mentions, each case again a query over the remaining ones.  `budget` bounds the number of cases.
static Res solveSplit(const std::vector<Expr *> &sl, Binding &b, unsigned &budget, std::vector<std::pair<u32, u64>> &o) {
  std::map<u32, unsigned> uses; o.clear();
  for (Expr *e : sl) { unsigned weight = isHard(e) ? 1000 : 1; for (u32 i : gSymSets[e->symset]) if (!(i < b.known.size() && b.known[i])) uses[i] += weight; }
  u32 best = 0; unsigned bu = 0;
  for (auto &p : uses) { if (gSyms[p.first].w <= 8 && p.second > bu) { bu = p.second; best = p.first; } }
  if (!bu) return R_UNKNOWN;
  if (b.known.size() <= best) { b.known.resize(best + 1, 0); b.val.resize(best + 1, 0); }
  b.known[best] = 1; Res all = R_UNSAT;
  for (u64 v = 0; v <= gSyms[best].hi && v < (1ull << gSyms[best].w); v++) {
    if (!budget) { all = R_UNKNOWN; break; }
    budget--; b.val[best] = v; newSubstEpoch(); substFor = 0;
    std::vector<Expr *> c; for (Expr *e : sl) c.push_back(substExpr(e, b));
    std::vector<std::pair<u32, u64>> oo; Res r = solveConj(c, &oo, 2000);
    if (r == R_UNKNOWN) r = solveSplit(c, b, budget, oo);
    if (r == R_SAT) { oo.push_back({best, v}); o = oo; all = R_SAT; break; }
    if (r == R_UNKNOWN) { all = R_UNKNOWN; break; }
  }
  b.known[best] = 0; return all;
}
Res Engine::query(State &s, Expr *c, Model *m) {
  c = restrict_(s, c);
  if (c->isC() && !c->v) return R_UNSAT;
  if (c->isC()) { if (m) *m = s.model; return R_SAT; }
  newEvalEpoch();
  if (evalExpr(c, s.model)) { gSolver.modelHits++; if (m) *m = s.model; return R_SAT; }
  u32 ss = c->symset; std::vector<Expr *> sl; sl.push_back(c); std::vector<bool> in(s.pc.size());
  bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!in[i] && symsetsIntersect(s.pc[i]->symset, ss)) { in[i] = true; sl.push_back(s.pc[i]); u32 n = symsetUnion(ss, s.pc[i]->symset); if (n != ss) { ss = n; ch = true; } } }
  std::vector<std::pair<u32, u64>> o; size_t syms = gSymSets[ss].size();
  Res r = solveConj(sl, &o, syms <= 64 ? 2000 : 0);
  if (r == R_UNKNOWN && syms <= 64) { Binding b; unsigned budget = 512; o.clear(); r = solveSplit(sl, b, budget, o); }
  if (r == R_UNKNOWN && syms <= 64) { o.clear(); r = solveConj(sl, &o); }
  if (r == R_SAT && m) { *m = s.model; for (auto &p : o) { if (m->size() <= p.first) m->resize(p.first + 1, 0); (*m)[p.first] = p.second; } }
  return r;
}
// An integer about to become floating point: when the path condition bounds it to a byte, say so, so that the
// floating-point part becomes a decision over its (few) values instead of a rounding circuit.
Expr *Engine::smallForFp(State &s, Expr *a) {
  if (a->isC() || a->tree || a->w <= 8 || a->w > 64 || a->uninit || (a->hi - a->lo < 256 && a->hi < (1ull << 62))) return a;
  if (query(s, mkUlt(mkC(a->w, 255), a), nullptr) != R_UNSAT) return a;
  return mkZext(mkExtract(a, 0, 8), a->w);
}
int Engine::decide(State &s, Expr *c, Model *other) {
  c = restrict_(s, c);
  if (c->isC()) return (int)c->v;
  newEvalEpoch(); bool v = evalExpr(c, s.model);
  Res r = query(s, v ? mkNot(c) : c, other);
  if (r == R_UNSAT) return v;
  if (r == R_UNKNOWN) { setIncomplete("solver gave no answer on a branch"); throw DeadEx(); }
  return 2;
}
void Engine::checkUninit(State &s, Expr *c, const char *what) {
  c = restrict_(s, c); if (!c->uninit) return;
  // rename uninitialised symbols; if the outcome can differ, the value is really used
  Binding none; static u64 ctr = 0; (void)ctr;
  std::map<u32, Expr *> ren;
  std::function<Expr *(Expr *)> rn; std::unordered_map<Expr *, Expr *> memo;
  rn = [&](Expr *e) -> Expr * {
    if (!e->uninit) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Expr *r;
    if (e->k == K_SYM) r = mkSym(gSyms[e->v].name + "'", e->w, true, true);
    else { Expr *x = e->a ? rn(e->a) : nullptr, *y = e->b ? rn(e->b) : nullptr, *z = e->c ? rn(e->c) : nullptr;
      switch (e->k) { case K_ITE: r = mkIte(x, y, z); break; case K_NOT: r = mkNot(x); break; case K_CONCAT: r = mkConcat(x, y); break; case K_EXTRACT: r = mkExtract(x, (unsigned)e->v, e->w); break;
        case K_ZEXT: r = mkZext(x, e->w); break; case K_SEXT: r = mkSext(x, e->w); break; default: r = e->k >= K_FADD ? mkFp(e->k, x, y, e->w) : mkBin(e->k, x, y); } }
    memo[e] = r; return r;
  };
  Expr *d = mkBin(K_XOR, c, rn(c)); Model m;
  Res r = query(s, d, &m);
  if (r == R_SAT) { recordViolation(s, m, "uninitialised", what); throw DeadEx(); }
}
SP Engine::clone(State &s) { return std::make_unique<State>(s); }
u64 Engine::concretize(State &s, Val v, unsigned w, int slot) {
  if (!v.e) return v.c;
  Expr *e = restrict_(s, v.e);
  if (e->isC()) return e->v;
  if (e->uninit) checkUninit(s, mkEq(e, mkC(e->w, (u64)evalExpr(e, (newEvalEpoch(), s.model)))), "uninitialised value used as size, selector or pointer");
  std::vector<std::pair<u64, Model>> vals;
  std::vector<u128> leaves;
  if (treeLeaves(e, leaves, 512)) {
    for (u128 l : leaves) { Model m; Res r = query(s, mkEq(e, mkC(e->w, l)), &m); if (r == R_SAT) vals.push_back({(u64)l, m}); else if (r == R_UNKNOWN) { setIncomplete("solver unknown"); throw DeadEx(); } }
  } else {
    Expr *left = mkTrue();
    for (;;) {
      Model m; Res r = query(s, left, &m);
      if (r == R_UNSAT) break;
      if (r == R_UNKNOWN) { setIncomplete("solver unknown"); throw DeadEx(); }
      newEvalEpoch(); u64 x = (u64)evalExpr(e, m); vals.push_back({x, m}); left = mkAnd(left, mkNot(mkEq(e, mkC(e->w, x))));
      if (vals.size() > maxForkValues) { setIncomplete("too many values to split on in " + where(s)); throw DeadEx(); }
    }
  }
  if (vals.empty()) throw DeadEx();
  ForkEx fx;
  for (auto &p : vals) { SP n = clone(s); n->model = p.second; assume(*n, mkEq(e, mkC(e->w, p.first))); if (slot >= 0) n->frames.back().mut()->regs[slot] = VC(p.first); fx.states.push_back(std::move(n)); }
  if (slot < 0 && vals.size() > 1) unsupported("concretize of a non-register");
  if (vals.size() == 1) { s.model = vals[0].second; assume(s, mkEq(e, mkC(e->w, vals[0].first))); if (slot >= 0) s.frames.back().mut()->regs[slot] = VC(vals[0].first); return vals[0].first; }
  forks += vals.size() - 1;
  throw fx;
}

// ---------------------------------------------------------------- violations, path ends
std::string Engine::where(State &s) {
  std::string r; int n = 0;
  for (size_t i = s.frames.size(); i-- > 0 && n < 7;) { Func *f = s.frames[i]->f; std::string d = demangle(f->name); size_t p = d.find('('); if (p != std::string::npos && p > 12) d = d.substr(0, p); if (d.size() > 140) d = d.substr(0, 140); r += (n++ ? " < " : "") + d; }
  return r;
}
std::vector<u64> Engine::inputValues(State &s, const Model &m) {
  std::vector<u64> r; newEvalEpoch();
  for (auto &i : s.inputs) r.push_back(i.sym ? (u64)evalExpr(i.sym, m) + i.lo : i.lo);
  return r;
}
void Engine::recordViolation(State &s, const Model &m, const std::string &kind, const std::string &label) {
  std::string w = where(s);
  for (auto &v : viols) if (v.kind == kind && v.label == label && v.where == w) return;
  Violation v; v.kind = kind; v.label = label; v.where = w; v.inputs = inputValues(s, m); for (auto &i : s.inputs) v.names.push_back(i.name);
  viols.push_back(v);
  if (verbose) fprintf(stderr, "sx: violation %s %s at %s\n", kind.c_str(), label.c_str(), w.c_str());
}
void Engine::violation(State &s, const std::string &kind, const std::string &label, Expr *cond) {
  Model m = s.model;
  if (cond) { Res r = query(s, cond, &m); if (r == R_UNSAT) throw DeadEx(); if (r == R_UNKNOWN) { setIncomplete("solver unknown"); throw DeadEx(); } }
  recordViolation(s, m, kind, label); throw DeadEx();
}
void Engine::finishPath(State &s) {
  paths++;
  // reservoir sample of completed paths for native validation
  static u64 rs = 0; if (!rs) rs = sampleSeed * 0x9e3779b97f4a7c15ull + 1;
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  size_t pos = samples.size();
  if (samples.size() >= maxSamples) { pos = rs % paths; if (pos >= maxSamples) return; }
  Sample sm; sm.inputs = inputValues(s, s.model); newEvalEpoch();
  for (auto &t : s.trace) { if (t.e && t.e->uninit) return; sm.trace.push_back(t.e ? (u64)evalExpr(t.e, s.model) : t.c); }
  if (pos == samples.size()) samples.push_back(sm); else samples[pos] = sm;
}

// ---------------------------------------------------------------- control flow
void Engine::enterBlock(State &s, int bb) {
  Frame *f = s.frames.back().mut(); Block &B = f->f->blocks[bb];
  if (!B.phis.empty()) {
    for (auto &p : B.phis) if (p.pred == f->bb) {
      Val tmp[64]; size_t n = p.moves.size(); std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
      for (size_t i = 0; i < n; i++) { int o = p.moves[i].second; t[i] = o >= 0 ? f->regs[o] : f->f->consts[-o - 1]; }
      for (size_t i = 0; i < n; i++) f->regs[p.moves[i].first] = t[i];
      break;
    }
  }
  f->bb = bb; f->ip = B.first;
}
void Engine::doReturn(State &s, std::vector<Val> &rv) {
  Frame *f = s.frames.back().p; std::vector<u64> al = f->allocas; const Inst *call = f->call;
  s.frames.pop_back();
  for (u64 a : al) release(s, a);
  if (s.frames.empty()) { s.stopped = true; return; }
  Frame *c = s.frames.back().mut();
  if (call->dst >= 0) for (u32 i = 0; i < call->ndst && i < rv.size(); i++) c->regs[call->dst + i] = rv[i];
  if (call->t1 >= 0) enterBlock(s, call->t1); else c->ip++;
}
static bool tmatch(Engine &E, u64 thrown, u64 want) { for (int i = 0; i < 10 && thrown; i++) { if (thrown == want) return true; auto it = E.tinfoBase.find(thrown); thrown = it == E.tinfoBase.end() ? 0 : it->second; } return false; }
void Engine::unwind(State &s, u64 obj, u64 tinfo) {
  for (;;) {
    if (s.frames.empty()) { s.stopped = true; return; }
    Frame *f = s.frames.back().p; const Inst &in = f->f->insts[f->ip];
    if (in.op == OP_CALL && in.t2 >= 0) {
      Block &L = f->f->blocks[in.t2]; const Inst *lp = nullptr;
      for (int i = L.first; i < L.first + L.n; i++) if (f->f->insts[i].op == Instruction::LandingPad) { lp = &f->f->insts[i]; break; }
      bool land = lp->cleanup; u64 sel = 0;
      for (auto &c : lp->clauses) {
        if (c.isCatch) { if (c.tinfo == 0) { land = true; sel = 0xffff; break; } if (tmatch(*this, tinfo, c.tinfo)) { land = true; auto it = typeIds.find(c.tinfo); if (it == typeIds.end()) { u64 nid = typeIds.size() + 1; typeIds[c.tinfo] = nid; sel = nid; } else sel = it->second; break; } }
        else { bool ok = false; for (u64 t : c.filter) if (tmatch(*this, tinfo, t)) ok = true; if (!ok) { land = true; sel = (u64)-1; break; } }
      }
      if (land) {
        enterBlock(s, in.t2); Frame *g = s.frames.back().mut();
        g->regs[lp->dst] = VC(obj); g->regs[lp->dst + 1] = VC(sel & 0xffffffff); g->ip = (int)(lp - &g->f->insts[0]) + 1;
        return;
      }
    }
    std::vector<u64> al = f->allocas; bool last = s.frames.size() == 1;
    if (last) { std::string tn = tinfoName.count(tinfo) ? tinfoName[tinfo] : "?"; violation(s, "uncaught-exception", demangle(tn)); }
    s.frames.pop_back(); for (u64 a : al) release(s, a);
  }
}
void Engine::callFunc(State &s, const Inst &in, Func *f, std::vector<Val> &args) {
  if (f->F->isDeclaration()) unsupported("call to external function " + f->name + " (" + demangle(f->name) + ") from " + where(s));
  decode(f); f->calls++;
  if (s.frames.size() > 3000) violation(s, "stack-overflow", "recursion too deep");
  Frame *n = new Frame(); n->f = f; n->call = &in; n->regs.assign(f->nslots, VC(0)); n->bb = 0; n->ip = f->blocks[0].first;
  size_t k = 0; for (size_t i = 0; i < f->argSlots.size(); i++) for (u32 j = 0; j < f->argN[i]; j++) n->regs[f->argSlots[i] + j] = args[k++];
  if (f->varargs) { size_t x = args.size() > k ? args.size() - k : 0; n->va = alloc(s, 8 * x + 8, O_STACK, "variable arguments", false); n->allocas.push_back(n->va); for (size_t i = 0; i < x; i++) storeC(s, n->va + 8 * i, args[k + i], in.argw[in.argw.size() - x + i]); }
  for (auto &bv : in.cases) if (in.op == OP_CALL) { // byval copies
    int a = bv.second; size_t pos = 0; for (int q = 0; q < a; q++) pos += in.argn[q]; if ((size_t)a >= f->argSlots.size()) continue; u64 p = args[pos].c; u64 o = alloc(s, bv.first, O_STACK, "byval", true); copyMem(s, o, p, bv.first); n->regs[f->argSlots[a]] = VC(o); n->allocas.push_back(o); }
  s.frames.push_back(Ref<Frame>(n));
}

// ---------------------------------------------------------------- one step
static Expr *cmpE(unsigned pred, Expr *a, Expr *b) {
  switch (pred) {
  case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_ULE: return mkUle(a, b); case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_UGE: return mkUle(b, a);
  case CmpInst::ICMP_SLT: return mkBin(K_SLT, a, b); case CmpInst::ICMP_SLE: return mkNot(mkBin(K_SLT, b, a)); case CmpInst::ICMP_SGT: return mkBin(K_SLT, b, a); default: return mkNot(mkBin(K_SLT, a, b));
  }
}
static Kind binKind(unsigned op) {
  switch (op) {
  case Instruction::Add: return K_ADD; case Instruction::Sub: return K_SUB; case Instruction::Mul: return K_MUL; case Instruction::UDiv: return K_UDIV; case Instruction::SDiv: return K_SDIV;
  case Instruction::URem: return K_UREM; case Instruction::SRem: return K_SREM; case Instruction::And: return K_AND; case Instruction::Or: return K_OR; case Instruction::Xor: return K_XOR;
  case Instruction::Shl: return K_SHL; case Instruction::LShr: return K_LSHR; case Instruction::AShr: return K_ASHR; case Instruction::FAdd: return K_FADD; case Instruction::FSub: return K_FSUB;
  case Instruction::FMul: return K_FMUL; case Instruction::FDiv: return K_FDIV; default: return K_NUM;
  }
}
static Val binV(Kind k, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) {
    u64 M = mask64(w), x = a.c, y = b.c;
    switch (k) { case K_ADD: return VC((x + y) & M); case K_SUB: return VC((x - y) & M); case K_MUL: return VC((x * y) & M); case K_AND: return VC(x & y); case K_OR: return VC(x | y); case K_XOR: return VC(x ^ y); default: return VC((u64)foldBin(k, w, x, y)); }
  }
  return VE(mkBin(k, toE(a, w), toE(b, w)));
}
int Engine::step(State &s, SP &sp, std::vector<SP> &forked) {
  Ref<Frame> &fr = s.frames.back(); if (fr.p->rc > 1) fr.mut();
  Frame *f = fr.p; const Inst &in = f->f->insts[f->ip];
  steps++; s.steps++;
  auto R = [&](int o) -> Val { return o >= 0 ? f->regs[o] : f->f->consts[-o - 1]; };
  auto el = [](int o, u32 i) { return o >= 0 ? o + (int)i : o - (int)i; };
  switch (in.op) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    Kind k = binKind(in.op);
    for (u32 i = 0; i < in.ndst; i++) f->regs[in.dst + i] = binV(k, in.w, R(el(in.ops[0], i)), R(el(in.ops[1], i)));
    break; }
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    Val a = R(in.ops[0]), b = R(in.ops[1]);
    if (in.ndst > 1) unsupported("vector division");
    Expr *z = mkEq(toE(b, in.w), mkC(in.w, 0)); z = restrict_(s, z);
    if (!z->isC() || z->v) { Res r = query(s, z, nullptr); if (r == R_SAT) { checkUninit(s, z, "uninitialised divisor"); violation(s, "division-by-zero", "", z); } if (r == R_UNKNOWN) { setIncomplete("solver unknown"); throw DeadEx(); } assume(s, mkNot(z)); }
    if (b.e) b = VE(restrict_(s, b.e));
    if (b.e && b.e->lo == 0 && !b.e->isC()) b = VE(mkIte(mkEq(b.e, mkC(in.w, 0)), mkC(in.w, 1), b.e));   // known not to be zero here
    f->regs[in.dst] = binV(binKind(in.op), in.w, a, b); break; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
    for (u32 i = 0; i < in.ndst; i++) f->regs[in.dst + i] = VE(mkFp(binKind(in.op), toE(R(el(in.ops[0], i)), in.w), toE(R(el(in.ops[1], i)), in.w), in.w));
    break;
  case Instruction::FNeg: f->regs[in.dst] = VE(mkBin(K_XOR, toE(R(in.ops[0]), in.w), mkC(in.w, (u128)1 << (in.w - 1)))); break;
  case Instruction::Freeze: for (u32 i = 0; i < in.ndst; i++) f->regs[in.dst + i] = R(el(in.ops[0], i)); break;
  case Instruction::ICmp:
    for (u32 i = 0; i < in.ndst; i++) {
      Val a = R(el(in.ops[0], i)), b = R(el(in.ops[1], i)); unsigned w = in.w2;
      if (!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c; i64 sx = (i64)sextW(x, w), sy = (i64)sextW(y, w); bool r;
        switch (in.sub) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; default: r = sx >= sy; }
        f->regs[in.dst + i] = VC(r);
      } else f->regs[in.dst + i] = VE(cmpE(in.sub, toE(a, w), toE(b, w)));
    }
    break;
  case Instruction::FCmp: {
    Expr *a = toE(R(in.ops[0]), in.w2), *b = toE(R(in.ops[1]), in.w2), *r; unsigned p = in.sub;
    auto eq = [&] { return mkFp(K_FOEQ, a, b, 1); }; auto lt = [&] { return mkFp(K_FOLT, a, b, 1); }; auto gt = [&] { return mkFp(K_FOLT, b, a, 1); }; auto un = [&] { return mkFp(K_FUNO, a, b, 1); };
    switch (p) { case CmpInst::FCMP_OEQ: r = eq(); break; case CmpInst::FCMP_OLT: r = lt(); break; case CmpInst::FCMP_OGT: r = gt(); break; case CmpInst::FCMP_OLE: r = mkOr(lt(), eq()); break; case CmpInst::FCMP_OGE: r = mkOr(gt(), eq()); break;
      case CmpInst::FCMP_ONE: r = mkOr(lt(), gt()); break; case CmpInst::FCMP_ORD: r = mkNot(un()); break; case CmpInst::FCMP_UNO: r = un(); break; case CmpInst::FCMP_UEQ: r = mkNot(mkOr(lt(), gt())); break; case CmpInst::FCMP_UNE: r = mkNot(eq()); break;
      case CmpInst::FCMP_ULT: r = mkNot(mkOr(gt(), eq())); break; case CmpInst::FCMP_UGT: r = mkNot(mkOr(lt(), eq())); break; case CmpInst::FCMP_ULE: r = mkNot(gt()); break; case CmpInst::FCMP_UGE: r = mkNot(lt()); break; case CmpInst::FCMP_TRUE: r = mkTrue(); break; default: r = mkFalse(); }
    f->regs[in.dst] = VE(r); break; }
  case Instruction::Select: {
    if (in.sub == 1) { for (u32 i = 0; i < in.ndst; i++) { Val c = R(el(in.ops[0], i)), a = R(el(in.ops[1], i)), b = R(el(in.ops[2], i)); f->regs[in.dst + i] = VE(mkIte(toE(c, 1), toE(a, in.flat[i].w), toE(b, in.flat[i].w))); } break; }
    Val c = R(in.ops[0]);
    if (c.e) c = VE(restrict_(s, c.e));
    for (u32 i = 0; i < in.ndst; i++) { Val a = R(el(in.ops[1], i)), b = R(el(in.ops[2], i));
      if (!c.e) f->regs[in.dst + i] = c.c ? a : b;
      else f->regs[in.dst + i] = VE(mkIte(c.e, toE(a, in.flat[i].w), toE(b, in.flat[i].w))); }
    break; }
  case Instruction::Trunc: for (u32 i = 0; i < in.ndst; i++) { Val a = R(el(in.ops[0], i)); f->regs[in.dst + i] = !a.e ? VC(a.c & mask64(in.w)) : VE(mkExtract(a.e, 0, in.w)); } break;
  case Instruction::ZExt: for (u32 i = 0; i < in.ndst; i++) { Val a = R(el(in.ops[0], i)); f->regs[in.dst + i] = !a.e && in.w <= 64 ? a : VE(mkZext(toE(a, in.w2), in.w)); } break;
  case Instruction::SExt: for (u32 i = 0; i < in.ndst; i++) { Val a = R(el(in.ops[0], i)); f->regs[in.dst + i] = !a.e && in.w <= 64 ? VC((u64)sextW(a.c, in.w2) & mask64(in.w)) : VE(mkSext(toE(a, in.w2), in.w)); } break;
  case Instruction::BitCast:
    if (in.sub) { u32 nsrc = (u32)in.imm; Expr *all = nullptr; for (u32 i = nsrc; i-- > 0;) { Expr *e = toE(R(el(in.ops[0], i)), in.w2); all = all ? mkConcat(all, e) : e; } for (u32 i = 0; i < in.ndst; i++) f->regs[in.dst + i] = VE(mkExtract(all, i * in.w, in.w)); break; }
    for (u32 i = 0; i < in.ndst; i++) f->regs[in.dst + i] = R(el(in.ops[0], i));
    break;
  case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = R(in.ops[0]); if (in.w < in.w2) a = !a.e ? VC(a.c & mask64(in.w)) : VE(mkExtract(a.e, 0, in.w)); else if (in.w > in.w2) a = !a.e ? a : VE(mkZext(a.e, in.w)); f->regs[in.dst] = a; break; }
  case Instruction::UIToFP: f->regs[in.dst] = VE(mkFp(K_UI2F, smallForFp(s, restrict_(s, toE(R(in.ops[0]), in.w2))), nullptr, in.w)); break;
  case Instruction::SIToFP: f->regs[in.dst] = VE(mkFp(K_SI2F, smallForFp(s, restrict_(s, toE(R(in.ops[0]), in.w2))), nullptr, in.w)); break;
  case Instruction::FPToUI: f->regs[in.dst] = VE(mkFp(K_F2UI, toE(R(in.ops[0]), in.w2), nullptr, in.w)); break;
  case Instruction::FPToSI: f->regs[in.dst] = VE(mkFp(K_F2SI, toE(R(in.ops[0]), in.w2), nullptr, in.w)); break;
  case Instruction::FPExt: f->regs[in.dst] = VE(mkFp(K_FEXT, toE(R(in.ops[0]), in.w2), nullptr, in.w)); break;
  case Instruction::FPTrunc: f->regs[in.dst] = VE(mkFp(K_FTRUNC, toE(R(in.ops[0]), in.w2), nullptr, in.w)); break;
  case Instruction::Load: {
    Val a = R(in.ops[0]);
    if (a.e) { a = VE(restrict_(s, a.e)); }
    for (size_t i = 0; i < in.flat.size(); i++) { Val x = load(s, in.flat[i].off ? binV(K_ADD, 64, a, VC(in.flat[i].off)) : a, in.flat[i].w); s.frames.back().mut()->regs[in.dst + i] = x; }
    break; }
  case Instruction::Store: {
    Val a = R(in.ops[0]);
    if (a.e) { a = VE(restrict_(s, a.e)); }
    for (size_t i = 0; i < in.flat.size(); i++) store(s, in.flat[i].off ? binV(K_ADD, 64, a, VC(in.flat[i].off)) : a, R(el(in.ops[1], (u32)i)), in.flat[i].w);
    break; }
  case Instruction::Alloca: { u64 n = concretize(s, R(in.ops[0]), in.w2, in.ops[0]); u64 p = alloc(s, n * in.imm, O_STACK, "local", true); f = s.frames.back().mut(); f->regs[in.dst] = VC(p); f->allocas.push_back(p); break; }
  case Instruction::GetElementPtr: {
    Val p = R(in.ops[0]); if (in.imm) p = binV(K_ADD, 64, p, VC((u64)in.imm));
    for (auto &g : in.gep) { Val ix = R(g.op); ix = !ix.e ? VC((u64)sextW(ix.c, g.w)) : VE(mkSext(restrict_(s, ix.e), 64)); p = binV(K_ADD, 64, p, g.scale == 1 ? ix : binV(K_MUL, 64, ix, VC((u64)g.scale))); }
    f->regs[in.dst] = p; break; }
  case Instruction::ExtractValue: for (u32 i = 0; i < in.ndst; i++) f->regs[in.dst + i] = R(el(in.ops[0], i)); break;
  case Instruction::InsertValue: { std::vector<Val> t; for (u32 i = 0; i < in.ndst; i++) t.push_back(R(el(in.ops[0], i))); for (u32 i = 0; i < in.w2; i++) t[in.imm + i] = R(el(in.ops[1], i)); for (u32 i = 0; i < in.ndst; i++) f->regs[in.dst + i] = t[i]; break; }
  case OP_EXTEL: { u64 ix = concretize(s, R(in.ops[1]), 64, in.ops[1]); f->regs[in.dst] = R(el(in.ops[0], (u32)ix)); break; }
  case OP_INSEL: { u64 ix = concretize(s, R(in.ops[2]), 64, in.ops[2]); Val v = R(in.ops[1]); std::vector<Val> t; for (u32 i = 0; i < in.ndst; i++) t.push_back(R(el(in.ops[0], i))); t[ix] = v; for (u32 i = 0; i < in.ndst; i++) f->regs[in.dst + i] = t[i]; break; }
  case OP_SHUF: { std::vector<Val> t; for (auto &c : in.cases) { int m = c.second; t.push_back(m < 0 ? VC(0) : m < in.imm ? R(el(in.ops[0], m)) : R(el(in.ops[1], m - (u32)in.imm))); } for (u32 i = 0; i < in.ndst; i++) f->regs[in.dst + i] = t[i]; break; }
  case Instruction::Br: {
    if (in.ops.empty()) { enterBlock(s, in.t1); return 1; }
    Val c = R(in.ops[0]);
    if (c.e) { Expr *e = restrict_(s, c.e); if (e->uninit) { checkUninit(s, e, "branch depends on uninitialised value"); } c = VE(e); }
    if (!c.e) { enterBlock(s, c.c ? in.t1 : in.t2); return 1; }
    branches++;
    Model other; int d = decide(s, c.e, &other);
    if (d != 2) { enterBlock(s, d ? in.t1 : in.t2); return 1; }
    newEvalEpoch(); bool cur = evalExpr(c.e, s.model);
    forks++; SP n = clone(s); n->model = std::move(other);
    assume(s, cur ? c.e : mkNot(c.e)); assume(*n, cur ? mkNot(c.e) : c.e);
    enterBlock(s, cur ? in.t1 : in.t2); enterBlock(*n, cur ? in.t2 : in.t1);
    if (cur) { forked.push_back(std::move(n)); forked.push_back(std::move(sp)); } else { forked.push_back(std::move(sp)); forked.push_back(std::move(n)); }
    return 2; }
  case Instruction::Switch: {
    Val c = R(in.ops[0]); if (c.e) { Expr *e = restrict_(s, c.e); c = VE(e); }
    if (!c.e) { int t = in.t1; for (auto &k : in.cases) if (k.first == c.c) { t = k.second; break; } enterBlock(s, t); return 1; }
    if (c.e->uninit) for (auto &k : in.cases) checkUninit(s, mkEq(c.e, mkC(in.w2, k.first)), "switch depends on uninitialised value");
    std::vector<std::pair<int, Expr *>> alts; Expr *def = mkTrue();
    for (auto &k : in.cases) { Expr *q = mkEq(c.e, mkC(in.w2, k.first)); def = mkAnd(def, mkNot(q)); bool found = false; for (auto &a : alts) if (a.first == k.second) { a.second = mkOr(a.second, q); found = true; } if (!found) alts.push_back({k.second, q}); }
    bool df = false; for (auto &a : alts) if (a.first == in.t1) { a.second = mkOr(a.second, def); df = true; } if (!df) alts.push_back({in.t1, def});
    std::vector<std::tuple<int, Expr *, Model>> ok; branches++;
    for (auto &a : alts) { Model m; Res r = query(s, a.second, &m); if (r == R_SAT) ok.emplace_back(a.first, a.second, m); else if (r == R_UNKNOWN) { setIncomplete("solver unknown"); throw DeadEx(); } }
    if (ok.size() == 1) { s.model = std::get<2>(ok[0]); enterBlock(s, std::get<0>(ok[0])); return 1; }
    forks += ok.size() - 1;
    for (auto &o : ok) { SP n = clone(s); n->model = std::get<2>(o); assume(*n, std::get<1>(o)); enterBlock(*n, std::get<0>(o)); forked.push_back(std::move(n)); }
    return 2; }
  case Instruction::Ret: { std::vector<Val> rv; for (i64 i = 0; i < in.imm; i++) rv.push_back(R(el(in.ops[0], (u32)i))); doReturn(s, rv); return 1; }
  case Instruction::Unreachable: violation(s, "unreachable", "control reached an unreachable point");
  case Instruction::Resume: { u64 obj = R(in.ops[0]).c; u64 ti = 0; for (auto &t : s.thrown) if (t.obj == obj) ti = t.tinfo;
    std::vector<u64> al = f->allocas; if (s.frames.size() == 1) violation(s, "uncaught-exception", "resume"); s.frames.pop_back(); for (u64 a : al) release(s, a); unwind(s, obj, ti); return 1; }
  case Instruction::AtomicCmpXchg: { Val p = R(in.ops[0]), c = R(in.ops[1]), v = R(in.ops[2]); Val old = load(s, p, in.w); Expr *eq = mkEq(toE(old, in.w), toE(c, in.w)); store(s, p, VE(mkIte(eq, toE(v, in.w), toE(old, in.w))), in.w); auto *r = s.frames.back().mut(); r->regs[in.dst] = old; r->regs[in.dst + 1] = VE(eq); break; }
  case Instruction::AtomicRMW: { Val p = R(in.ops[0]), v = R(in.ops[1]); Val old = load(s, p, in.w); Val nv = v; switch (in.sub) { case AtomicRMWInst::Add: nv = binV(K_ADD, in.w, old, v); break; case AtomicRMWInst::Sub: nv = binV(K_SUB, in.w, old, v); break; case AtomicRMWInst::Xchg: break; case AtomicRMWInst::Or: nv = binV(K_OR, in.w, old, v); break; case AtomicRMWInst::And: nv = binV(K_AND, in.w, old, v); break; default: unsupported("atomicrmw"); } store(s, p, nv, in.w); s.frames.back().mut()->regs[in.dst] = old; break; }
  case OP_NOP: break;
  case OP_INTR: {
    auto A = [&](int i) { return R(in.ops[i]); }; unsigned w = in.w;
    auto E = [&](int i) { return toE(R(in.ops[i]), in.argw[i]); };
    auto set = [&](Expr *e) { s.frames.back().mut()->regs[in.dst] = VE(e); };
    switch (in.sub) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(s, A(2), 64, in.ops[2]); if (!n) break; u64 d = concretize(s, A(0), 64, in.ops[0]), q = concretize(s, A(1), 64, in.ops[1]); copyMem(s, d, q, n); break; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = concretize(s, A(2), 64, in.ops[2]); if (!n) break; u64 d = concretize(s, A(0), 64, in.ops[0]); setMem(s, d, A(1), n); break; }
    case Intrinsic::umin: for (u32 i = 0; i < in.ndst; i++) { Expr *a = toE(R(el(in.ops[0], i)), w), *b = toE(R(el(in.ops[1], i)), w); f->regs[in.dst + i] = VE(mkIte(mkUlt(a, b), a, b)); } break;
    case Intrinsic::umax: for (u32 i = 0; i < in.ndst; i++) { Expr *a = toE(R(el(in.ops[0], i)), w), *b = toE(R(el(in.ops[1], i)), w); f->regs[in.dst + i] = VE(mkIte(mkUlt(a, b), b, a)); } break;
    case Intrinsic::smin: set(mkIte(mkBin(K_SLT, E(0), E(1)), E(0), E(1))); break;
    case Intrinsic::smax: set(mkIte(mkBin(K_SLT, E(0), E(1)), E(1), E(0))); break;
    case Intrinsic::abs: set(mkIte(mkBin(K_SLT, E(0), mkC(w, 0)), mkBin(K_SUB, mkC(w, 0), E(0)), E(0))); break;
    case Intrinsic::usub_sat: set(mkIte(mkUlt(E(0), E(1)), mkC(w, 0), mkBin(K_SUB, E(0), E(1)))); break;
    case Intrinsic::uadd_sat: { Expr *a = mkBin(K_ADD, E(0), E(1)); set(mkIte(mkUlt(a, E(0)), mkC(w, maskW(w)), a)); break; }
    case Intrinsic::ctpop: { Expr *r = mkC(w, 0); for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZext(mkExtract(E(0), i, 1), w)); set(r); break; }
    case Intrinsic::ctlz: { Expr *r = mkC(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(E(0), i, 1), mkC(w, w - 1 - i), r); set(r); break; }
    case Intrinsic::cttz: { Expr *r = mkC(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(E(0), i, 1), mkC(w, i), r); set(r); break; }
    case Intrinsic::bswap: { Expr *r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(E(0), i * 8, 8); r = r ? mkConcat(r, b) : b; } set(r); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { u64 sh = concretize(s, A(2), w, in.ops[2]) % w; Expr *c = mkConcat(E(0), E(1)); set(in.sub == Intrinsic::fshl ? mkExtract(c, w - (unsigned)sh, w) : mkExtract(c, (unsigned)sh, w)); break; }
    case Intrinsic::uadd_with_overflow: { Expr *r = mkBin(K_ADD, E(0), E(1)); f->regs[in.dst] = VE(r); f->regs[in.dst + 1] = VE(mkUlt(r, E(0))); break; }
    case Intrinsic::usub_with_overflow: { f->regs[in.dst + 1] = VE(mkUlt(E(0), E(1))); f->regs[in.dst] = VE(mkBin(K_SUB, E(0), E(1))); break; }
    case Intrinsic::umul_with_overflow: { if (w > 64) unsupported("wide umulo"); Expr *r = mkBin(K_MUL, mkZext(E(0), 2 * w), mkZext(E(1), 2 * w)); f->regs[in.dst + 1] = VE(mkNot(mkEq(mkExtract(r, w, w), mkC(w, 0)))); f->regs[in.dst] = VE(mkExtract(r, 0, w)); break; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: { if (w > 63) { if (w > 64) unsupported("wide smulo"); }
      Kind k = in.sub == Intrinsic::sadd_with_overflow ? K_ADD : in.sub == Intrinsic::ssub_with_overflow ? K_SUB : K_MUL; Expr *r = mkBin(k, mkSext(E(0), 2 * w), mkSext(E(1), 2 * w)); Expr *t = mkBin(k, E(0), E(1)); f->regs[in.dst] = VE(t); f->regs[in.dst + 1] = VE(mkNot(mkEq(r, mkSext(t, 2 * w)))); break; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: f->regs[in.dst] = A(0); break;
    case Intrinsic::objectsize: f->regs[in.dst] = VC(R(in.ops[1]).c ? 0 : mask64(w)); break;
    case Intrinsic::is_constant: f->regs[in.dst] = VC(0); break;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation(s, "trap", "");
    case Intrinsic::eh_typeid_for: { u64 t = A(0).c; auto it = typeIds.find(t); if (it == typeIds.end()) { u64 nid = typeIds.size() + 1; typeIds[t] = nid; f->regs[in.dst] = VC(nid); } else f->regs[in.dst] = VC(it->second); break; }
    case Intrinsic::stacksave: f->regs[in.dst] = VC(0); break;
    case Intrinsic::fmuladd: case Intrinsic::fma: set(mkFp(K_FADD, mkFp(K_FMUL, E(0), E(1), w), E(2), w)); break;
    case Intrinsic::fabs: set(mkBin(K_AND, E(0), mkC(w, maskW(w - 1)))); break;
    case Intrinsic::floor: set(mkFp(K_FLOOR, E(0), nullptr, w)); break;
    case Intrinsic::ceil: set(mkFp(K_FCEIL, E(0), nullptr, w)); break;
    case Intrinsic::trunc: set(mkFp(K_FINT, E(0), nullptr, w)); break;
    case Intrinsic::round: set(mkFp(K_FROUND, E(0), nullptr, w)); break;
    case Intrinsic::rint: set(mkFp(K_FRINT, E(0), nullptr, w)); break;
    case Intrinsic::nearbyint: set(mkFp(K_FRINT, E(0), nullptr, w)); break;
    case Intrinsic::roundeven: set(mkFp(K_FRINT, E(0), nullptr, w)); break;
    case Intrinsic::sqrt: set(mkFp(K_FSQRT, E(0), nullptr, w)); break;
    case Intrinsic::lround: case Intrinsic::llround: case Intrinsic::lrint: case Intrinsic::llrint: { unsigned fw = in.argw[0]; Expr *x = E(0); f->regs[in.dst] = VE(mkFp(K_F2SI, mkFp(in.sub == Intrinsic::lround || in.sub == Intrinsic::llround ? K_FROUND : K_FRINT, x, nullptr, fw), nullptr, 64)); break; }
    case Intrinsic::minnum: case Intrinsic::maxnum: { Expr *x = E(0), *y = E(1); Expr *c = in.sub == Intrinsic::minnum ? mkFp(K_FOLT, x, y, 1) : mkFp(K_FOLT, y, x, 1); Expr *nx = mkFp(K_FUNO, x, x, 1), *ny = mkFp(K_FUNO, y, y, 1); set(mkIte(nx, y, mkIte(ny, x, mkIte(c, x, y)))); break; }
    case Intrinsic::copysign: set(mkBin(K_OR, mkBin(K_AND, E(0), mkC(w, maskW(w - 1))), mkBin(K_AND, E(1), mkC(w, (u128)1 << (w - 1))))); break;
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: {
      unsigned vw = in.w; u32 n = (u32)flat(cast<CallBase>(in.I)->getArgOperand(0)->getType(), *DL).size(); Expr *r = toE(R(el(in.ops[0], 0)), vw);
      for (u32 i = 1; i < n; i++) { Expr *x = toE(R(el(in.ops[0], i)), vw); switch (in.sub) { case Intrinsic::vector_reduce_or: r = mkBin(K_OR, r, x); break; case Intrinsic::vector_reduce_and: r = mkBin(K_AND, r, x); break; case Intrinsic::vector_reduce_xor: r = mkBin(K_XOR, r, x); break; case Intrinsic::vector_reduce_mul: r = mkBin(K_MUL, r, x); break; case Intrinsic::vector_reduce_umax: r = mkIte(mkUlt(r, x), x, r); break; case Intrinsic::vector_reduce_umin: r = mkIte(mkUlt(r, x), r, x); break; case Intrinsic::vector_reduce_smax: r = mkIte(mkBin(K_SLT, r, x), x, r); break; default: r = mkIte(mkBin(K_SLT, r, x), r, x); } } set(r); break; }
    case Intrinsic::vastart: { u64 l = concretize(s, A(0), 64, in.ops[0]); storeC(s, l, VC(48), 32); storeC(s, l + 4, VC(176), 32); storeC(s, l + 8, VC(f->va), 64); storeC(s, l + 16, VC(0), 64); break; }
    case Intrinsic::vaend: break;
    case Intrinsic::vacopy: { u64 d = concretize(s, A(0), 64, in.ops[0]), q = concretize(s, A(1), 64, in.ops[1]); copyMem(s, d, q, 24); break; }
    case Intrinsic::threadlocal_address: f->regs[in.dst] = A(0); break;
    case Intrinsic::vector_reduce_add: { unsigned vw = in.w; Expr *r = mkC(vw, 0); u32 n = (u32)flat(cast<CallBase>(in.I)->getArgOperand(0)->getType(), *DL).size(); for (u32 i = 0; i < n; i++) r = mkBin(K_ADD, r, toE(R(el(in.ops[0], i)), vw)); set(r); break; }
    default: unsupported("intrinsic " + instStr(in.I));
    }
    break; }
  case OP_CALL: {
    Func *cf = in.callee; size_t base = 0;
    if (!cf) { u64 a = concretize(s, R(in.ops[0]), 64, in.ops[0]); base = 1; auto it = funcByAddr.find(a); if (it == funcByAddr.end()) violation(s, "memory-read", "call through an invalid function pointer"); cf = it->second; }
    f = s.frames.back().mut();
    std::vector<Val> args; for (size_t k = base; k < in.ops.size(); k++) for (u32 j = 0; j < in.argn[k - base]; j++) args.push_back(R(el(in.ops[k], j)));
    if (cf->noop) { if (in.dst >= 0) f->regs[in.dst] = args.empty() ? VC(0) : args[0]; if (in.t1 >= 0) enterBlock(s, in.t1); else f->ip++; return 1; }
    if (cf->bi) {
      size_t d = s.frames.size(); int ip = f->ip; int bb = f->bb; (void)bb; cf->calls++;
      cf->bi(*this, s, in, args.data(), (int)args.size());
      if (s.stopped) return 1;
      if (s.frames.size() == d && s.frames.back()->ip == ip && s.frames.back()->f == f->f) { if (in.t1 >= 0) enterBlock(s, in.t1); else s.frames.back().mut()->ip++; }
      return 1;
    }
    callFunc(s, in, cf, args); return 1; }
  default: unsupported("instruction " + instStr(in.I));
  }
  s.frames.back().mut()->ip++;
  return 0;
}

// ---------------------------------------------------------------- state merging
bool Engine::merge(State &a, State &b) {
  if (a.frames.size() != b.frames.size() || a.nextId != b.nextId || a.inputs.size() != b.inputs.size() || a.trace.size() != b.trace.size() || a.thrown.size() != b.thrown.size() || a.caught.size() != b.caught.size() || a.mergeOn != b.mergeOn || a.heapLive != b.heapLive) return false;
  if (a.stopped || b.stopped) return false;
  for (size_t i = 0; i < a.inputs.size(); i++) if (a.inputs[i].sym != b.inputs[i].sym || a.inputs[i].lo != b.inputs[i].lo) return false;
  for (size_t i = 0; i < a.caught.size(); i++) if (a.caught[i].obj != b.caught[i].obj) return false;
  size_t n = a.frames.size();
  auto objOf = [&](u64 v) -> Obj * { if (v < (16ull << SLOT)) return nullptr; return find(a, v); };
  int mode = a.mergeOn; bool ok = true; size_t cost = 0;
  auto compat = [&](const Val &x, const Val &y) { // may these two concrete values be merged?
    if (++cost > 4000) return false;
    if (x.e || y.e) return true;
    Obj *p = objOf(x.c), *q = objOf(y.c);
    if (!p && !q) return true;
    if (p != q) return (mode & 4) != 0;
    return p->kind != O_FUNC && (mode & 2) != 0;
  };
  for (size_t i = 0; i < n && ok; i++) {
    Frame *x = a.frames[i].p, *y = b.frames[i].p; if (x == y) continue;
    if (x->f != y->f || x->bb != y->bb || x->ip != y->ip || x->call != y->call || x->allocas != y->allocas) return false;
    std::vector<bool> *live = nullptr;
    if (i + 1 == n && x->ip == x->f->blocks[x->bb].first) { liveness(x->f); live = &x->f->blocks[x->bb].live; }
    for (size_t r = 0; r < x->regs.size(); r++) { if (live && !(*live)[r]) continue; const Val &p = x->regs[r], &q = y->regs[r]; if (p.e == q.e && (p.e || p.c == q.c)) continue; if (!compat(p, q)) return false; }
  }
  struct Diff { u64 id; }; std::vector<u64> diffs;
  for (size_t c = 0; c < a.mem.size(); c++) {
    if (a.mem[c].p == b.mem[c].p) continue;
    for (int j = 0; j < 64; j++) {
      Obj *p = a.mem[c]->o[j].p, *q = b.mem[c]->o[j].p; if (p == q) continue;
      if (!p || !q || p->size != q->size || p->kind != q->kind || p->base != q->base) return false;
      if ((p->base >> SLOT) != c * 64 + j) continue; // secondary slot of a large object
      // compare 8-byte groups for pointers
      u64 sz = p->size; bool differs = false;
      auto sb = [](Obj *o, u64 k) -> u8 { return o->st.empty() ? 0 : o->st[k]; };
      for (u64 k = 0; k < sz; k++) {
        u8 s1 = sb(p, k), s2 = sb(q, k);
        if (s1 != s2 || (s1 == 0 && p->bytes[k] != q->bytes[k]) || (s1 == 2 && (p->sym[k].e != q->sym[k].e || p->sym[k].idx != q->sym[k].idx))) {
          differs = true; u64 g = k & ~7ull;
          if (s1 == 0 && s2 == 0 && g + 8 <= sz) {
            bool conc = true; for (u64 z = g; z < g + 8; z++) if (sb(p, z) || sb(q, z)) conc = false;
            if (conc) { u64 v1, v2; memcpy(&v1, &p->bytes[g], 8); memcpy(&v2, &q->bytes[g], 8); if (!compat(VC(v1), VC(v2))) return false; k = g + 7; }
          }
          if (++cost > 4000) return false;
        }
      }
      if (differs) diffs.push_back(p->base);
    }
  }
  // commit
  size_t pre = 0; while (pre < a.pc.size() && pre < b.pc.size() && a.pc[pre] == b.pc[pre]) pre++;
  Expr *ca = mkTrue(), *cb = mkTrue();
  for (size_t i = pre; i < a.pc.size(); i++) ca = mkAnd(ca, a.pc[i]);
  for (size_t i = pre; i < b.pc.size(); i++) cb = mkAnd(cb, b.pc[i]);
  auto mg = [&](const Val &x, const Val &y, unsigned w) { return VE(mkIte(ca, toE(x, w), toE(y, w))); };
  for (size_t i = 0; i < n; i++) {
    if (a.frames[i].p == b.frames[i].p) continue;
    Frame *x = a.frames[i].mut(), *y = b.frames[i].p; std::vector<bool> *live = nullptr;
    if (i + 1 == n && x->ip == x->f->blocks[x->bb].first) live = &x->f->blocks[x->bb].live;
    for (size_t r = 0; r < x->regs.size(); r++) {
      Val &p = x->regs[r]; const Val &q = y->regs[r]; if (p.e == q.e && (p.e || p.c == q.c)) continue;
      if (live && !(*live)[r]) { p = VC(0); continue; }
      unsigned w = p.e ? p.e->w : q.e ? q.e->w : 64;
      if (p.e && q.e && p.e->w != q.e->w) { fprintf(stderr, "sx: merge width mismatch\n"); abort(); }
      if (!p.e && !q.e) { // width from the defining value is unknown: use the slot type
        static std::unordered_map<Func *, std::vector<u8>> wcache; auto &wc = wcache[x->f];
        if (wc.empty()) { wc.assign(x->regs.size(), 64); for (size_t ai = 0; ai < x->f->argSlots.size(); ai++) { auto fl = flat(x->f->F->getArg(ai)->getType(), *DL); for (size_t k = 0; k < fl.size(); k++) wc[x->f->argSlots[ai] + k] = fl[k].w; }
          std::unordered_map<const Value *, int> dummy; int ns = 0; for (auto &ar : x->f->F->args()) ns += (int)flat(ar.getType(), *DL).size();
          for (auto &B : *x->f->F) for (auto &I : B) if (!I.getType()->isVoidTy() && !I.getType()->isLabelTy()) { auto fl = flat(I.getType(), *DL); for (auto &q2 : fl) wc[ns++] = q2.w; } }
        w = wc[r];
      }
      p = mg(p, q, w);
    }
  }
  for (u64 base : diffs) {
    Obj *p = findMut(a, base), *q = find(b, base);
    auto sb = [](Obj *o, u64 k) -> u8 { return o->st.empty() ? 0 : o->st[k]; };
    auto same = [&](u64 k) { u8 s1 = sb(p, k), s2 = sb(q, k); return s1 == s2 && (s1 == 0 ? p->bytes[k] == q->bytes[k] : s1 == 2 ? (p->sym[k].e == q->sym[k].e && p->sym[k].idx == q->sym[k].idx) : true); };
    for (u64 k = 0; k < p->size; k++) {
      if (same(k)) continue;
      if (sb(p, k) == 1 || sb(q, k) == 1) { // one side uninitialised: keep it uninitialised only if both; otherwise conditional
        Val x = sb(p, k) == 1 ? Val{mkSym(std::string("uninit:") + p->name + "@" + std::to_string(base >> SLOT) + "+" + std::to_string(k), 8, true, true), 0} : loadObj(a, p, k, 8);
        Val y = sb(q, k) == 1 ? Val{mkSym(std::string("uninit:") + p->name + "@" + std::to_string(base >> SLOT) + "+" + std::to_string(k), 8, true, true), 0} : loadObj(b, q, k, 8);
        storeObj(a, p, k, mg(x, y, 8), 8); continue;
      }
      // widest aligned group that is initialised on both sides
      u64 g = 1; for (u64 t : {8ull, 4ull, 2ull}) if (k % t == 0 && k + t <= p->size) { bool init = true; for (u64 z = k; z < k + t; z++) if (sb(p, z) == 1 || sb(q, z) == 1) init = false; if (!init) continue;
        // a group is used when a stored value of that size starts here on some side, or (concrete) for 8-byte pointers
        bool hit = (sb(p, k) == 2 && p->sym[k].idx == 0 && p->sym[k].e->w == t * 8) || (sb(q, k) == 2 && q->sym[k].idx == 0 && q->sym[k].e->w == t * 8);
        if (!hit && t == 8) { u64 v1, v2; bool conc = true; for (u64 z = k; z < k + 8; z++) if (sb(p, z) || sb(q, z)) conc = false; if (conc) { memcpy(&v1, &p->bytes[k], 8); memcpy(&v2, &q->bytes[k], 8); if (find(a, v1) || find(a, v2)) hit = true; } }
        if (!hit && t == 4) { bool conc = true; for (u64 z = k; z < k + 4; z++) if (sb(p, z) || sb(q, z)) conc = false; if (conc && p->kind != O_GLOBAL) { // heuristic: 4-byte scalar whose upper bytes are zero on both sides
            if (!p->bytes[k + 2] && !p->bytes[k + 3] && !q->bytes[k + 2] && !q->bytes[k + 3] && !p->bytes[k+1] && !q->bytes[k+1]) hit = true; } }
        if (hit) { g = t; break; } }
      Val x = loadObj(a, p, k, (unsigned)g * 8), y = loadObj(b, q, k, (unsigned)g * 8);
      storeObj(a, p, k, mg(x, y, (unsigned)g * 8), (unsigned)g * 8); k += g - 1;
    }
  }
  for (size_t i = 0; i < a.trace.size(); i++) { Val &p = a.trace[i], &q = b.trace[i]; if (p.e == q.e && (p.e || p.c == q.c)) continue; p = mg(p, q, 64); }
  a.pc.resize(pre); Expr *d = mkOr(ca, cb);
  Binding nb; size_t bn = std::min(a.bind.known.size(), b.bind.known.size()); nb.known.assign(bn, 0); nb.val.assign(bn, 0);
  for (size_t i = 0; i < bn; i++) if (a.bind.known[i] && b.bind.known[i] && a.bind.val[i] == b.bind.val[i]) { nb.known[i] = 1; nb.val[i] = a.bind.val[i]; }
  a.bind = nb; a.bindVer = ++bindVerCtr;
  if (!d->isC()) a.pc.push_back(d);
  a.steps = std::max(a.steps, b.steps);
  return true;
}

// ---------------------------------------------------------------- exploration
std::vector<SP> Engine::runUntil(SP s0, Stop st) {
  std::vector<SP> out, wl; wl.push_back(std::move(s0));
  static int rdepth = 0; rdepth++;
  u64 tick = 0, asked = gSolver.queries;
  while (!wl.empty()) {
    SP sp = std::move(wl.back()); wl.pop_back();
    bool check = true;
    for (;;) {
      State &s = *sp;
      if (check) {
        if (s.stopped) { finishPath(s); break; }
        if (s.frames.size() < st.depth || (st.bb >= 0 && s.frames.size() == st.depth && s.frames.back()->bb == st.bb && s.frames.back()->ip == s.frames.back()->f->blocks[st.bb].first)) { out.push_back(std::move(sp)); break; }
      }
      if (((++tick & 1023) == 0 || gSolver.queries != asked) && (asked = gSolver.queries, nowSec() > deadline)) { timeUp = true; }
      if (timeUp) { setIncomplete("time limit"); break; }
      if (viols.size() >= maxViol) { break; }
      if (s.steps > maxSteps) { recordViolation(s, s.model, "hang", "instruction limit per path exceeded"); break; }
      std::vector<SP> forked; int r;
      Frame *fb = s.frames.back().p; const Inst *bi = &fb->f->insts[fb->ip]; size_t depth = s.frames.size(); int bbNow = fb->bb; Func *ff = fb->f; int mergeOn = s.mergeOn;
      try { r = step(s, sp, forked); }
      catch (DeadEx &) { break; }
      catch (ForkEx &fx) { forked = std::move(fx.states); r = 3; }
      if (r == 0) { check = false; continue; }
      if (r == 1) { check = true; continue; }
      bool doMerge = mergeOn && r == 2 && (bi->mergeFail < 6 || bi->mergeOk > bi->mergeFail) && rdepth < 400;
      if (!doMerge) { for (auto &x : forked) wl.push_back(std::move(x)); break; }
      int J = ff->blocks[bbNow].ipdom;
      std::vector<SP> joined;
      for (auto &x : forked) { auto v = runUntil(std::move(x), Stop{depth, J}); for (auto &y : v) joined.push_back(std::move(y)); }
      if (joined.size() > 1) {
        std::vector<SP> m; bool any = false;
        for (auto &x : joined) { bool done = false; for (auto &y : m) if (merge(*y, *x)) { done = true; any = true; merges++; break; } else mergeFails++; if (!done) m.push_back(std::move(x)); }
        if (any) bi->mergeOk++; else bi->mergeFail++;
        joined = std::move(m);
      }
      for (auto &x : joined) wl.push_back(std::move(x));
      break;
    }
    if (viols.size() >= maxViol || timeUp) break;
  }
  rdepth--;
  return out;
}

SP Engine::initState(const std::string &entry) {
  auto s = std::make_unique<State>(); s->nextId = 16; s->mem.push_back(Ref<Chunk>(new Chunk()));
  for (auto &F : *M) { u64 a = alloc(*s, 1, O_FUNC, "function", false); gaddr[&F] = a; if (F.isIntrinsic()) continue; Func *f = func(&F); f->addr = a; funcByAddr[a] = f; }
  std::vector<GlobalVariable *> gs;
  for (auto &G : M->globals()) { u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 8; if (G.isDeclaration() && sz < 8) sz = 8; std::string *nm = new std::string(G.getName().str()); u64 a = alloc(*s, sz, O_GLOBAL, nm->c_str(), false); gaddr[&G] = a; if (G.getName().starts_with("_ZTI")) { tinfoByName[G.getName().str()] = a; tinfoName[a] = G.getName().str(); } gs.push_back(&G); }
  for (auto *G : gs) {
    u64 a = gaddr[G];
    if (G->hasInitializer()) {
      std::function<void(const Constant *, u64)> put = [&](const Constant *c, u64 p) {
        Type *t = c->getType();
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); Obj *o = findMut(*s, p); memcpy(&o->bytes[p - o->base], r.data(), r.size()); return; }
        if (isa<ConstantAggregate>(c)) {
          for (unsigned i = 0; i < c->getNumOperands(); i++) { u64 off = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType()); put(cast<Constant>(c->getOperand(i)), p + off); }
          return; }
        std::vector<Val> v; constFlat(c, v); storeC(*s, p, v[0], scalarW(t, *DL));
      };
      put(G->getInitializer(), a);
      if (G->isConstant()) findMut(*s, a)->ro = true;
    }
    std::string n = G->getName().str();
    if (n.compare(0, 4, "_ZTI") == 0) {
      if (G->hasInitializer()) { if (auto *cs = dyn_cast<ConstantStruct>(G->getInitializer())) if (cs->getNumOperands() >= 3) if (auto *b = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts())) tinfoBase[a] = gaddr[b]; }
      else if (const char *b = tiBase(n)) { auto *bg = M->getNamedGlobal(b); if (bg) tinfoBase[a] = gaddr[bg]; else { // synthesise missing base nodes
            std::string cur = b; u64 child = a; while (true) { u64 id; auto it = tinfoByName.find(cur); if (it != tinfoByName.end()) { tinfoBase[child] = it->second; break; } id = alloc(*s, 16, O_GLOBAL, "typeinfo", false); tinfoByName[cur] = id; tinfoName[id] = cur; tinfoBase[child] = id; const char *nb = tiBase(cur); if (!nb) break; if (auto *g2 = M->getNamedGlobal(nb)) { tinfoBase[id] = gaddr[g2]; break; } child = id; cur = nb; } } }
    }
  }
  return s;
}
void Engine::run(const std::string &entry) {
  t0 = nowSec(); SP s = initState(entry);
  std::vector<Function *> ctors;
  if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<u64, Function *>> v; for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; }); for (auto &p : v) ctors.push_back(p.second); }
  Function *F = M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "sx: no entry %s\n", entry.c_str()); exit(3); }
  ctors.push_back(F);
  u64 basePaths = 0;
  for (size_t i = 0; i < ctors.size(); i++) {
    Func *f = func(ctors[i]); decode(f); Inst dummy; std::vector<Val> args; f->calls++;
    Frame *n = new Frame(); n->f = f; n->call = nullptr; n->regs.assign(f->nslots, VC(0)); n->ip = f->blocks[0].first; s->frames.push_back(Ref<Frame>(n)); s->stopped = false;
    bool last = i + 1 == ctors.size();
    if (last) { runUntil(std::move(s), Stop{0, -1}); }
    else { // constructors run concretely to completion
      std::vector<SP> fk; while (!s->stopped) { int r = step(*s, s, fk); if (r >= 2) unsupported("fork in global constructor"); } }
  }
  (void)basePaths;
}
