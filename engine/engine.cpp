#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/Verifier.h>
#include <chrono>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;

static Module* M; static const DataLayout* DL;
static std::unordered_map<const Function*, FnInfo*> gFn;
static std::unordered_map<const GlobalValue*, uint64_t> gAddr;
static std::unordered_map<uint64_t, Function*> gFnByAddr;
static State* gInit;
static uint64_t gNextObj = 16;
static const uint64_t STK0 = 0x1000000ull;

// options / stats
static double gT0, gMaxTime = 600; static uint64_t gMaxInstr = ~0ull, gInstr = 0, gPaths = 0, gForks = 0, gMerges = 0, gKilled = 0, gAsserts = 0, gAssertQ = 0, gErrPaths = 0, gStateId = 0, gMemSymR = 0, gMemSymW = 0, gBoundsQ = 0, gSched = 0, gMaxLoopErr = 0;
static int gMaxErrors = 8, gPreempt = 2; static bool gRace = true; static bool gVerbose = false; static bool gStop = false; static uint64_t gMemLimit = 12ull << 30; static uint64_t gMaxEnum = 4096;
static bool gUninitSym = true; static bool gReplay = false; static std::map<std::string, uint64_t> gReplayIn;
static std::string gOut; static std::map<std::string, uint64_t> gReach, gAssertMsgs; static std::map<std::string, uint64_t> gIncomplete;
static std::map<std::string, std::string> gOpts;
struct ErrRec { std::string kind, msg, loc, fn; std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> in; std::vector<std::string> stack, trace; };
static std::vector<ErrRec> gErrs; static std::set<std::string> gErrKeys;
static std::vector<std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>>> gTraces; static size_t gMaxTraces = 6;
static std::vector<State*>* WL; static const Barrier* CURBAR;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static uint64_t rssBytes() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return (uint64_t)b * 4096; }

static void incomplete(const std::string& why) { gIncomplete[why]++; }

// ---- types --------------------------------------------------------------------------------------------------------
static int nslots(Type* t) {
  if (t->isVoidTy()) return 0;
  if (auto* v = dyn_cast<FixedVectorType>(t)) return (int)v->getNumElements() * nslots(v->getElementType());
  if (auto* s = dyn_cast<StructType>(t)) { int n = 0; for (Type* e : s->elements()) n += nslots(e); return n; }
  if (auto* a = dyn_cast<ArrayType>(t)) return (int)a->getNumElements() * nslots(a->getElementType());
  return 1;
}
static unsigned lw(Type* t) {
  if (auto* v = dyn_cast<FixedVectorType>(t)) return lw(v->getElementType());
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
static void leavesOf(Type* t, uint64_t off, std::vector<Leaf>& out) {
  if (auto* v = dyn_cast<FixedVectorType>(t)) { unsigned b = lw(t); uint64_t es = b / 8; for (unsigned i = 0; i < v->getNumElements(); i++) out.push_back({off + i * es, b}); return; }
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leavesOf(s->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) leavesOf(a->getElementType(), off + i * es, out); return; }
  out.push_back({off, lw(t)});
}

static void slotWidths(Type* t, std::vector<uint8_t>& o) {
  if (t->isVoidTy()) return;
  if (auto* s = dyn_cast<StructType>(t)) { for (Type* e : s->elements()) slotWidths(e, o); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { for (uint64_t i = 0; i < a->getNumElements(); i++) slotWidths(a->getElementType(), o); return; }
  int n = nslots(t); unsigned w = lw(t); for (int i = 0; i < n; i++) o.push_back((uint8_t)(w > 64 ? 64 : w));
}
// ---- constants ----------------------------------------------------------------------------------------------------
static uint64_t fnAddr(Function* F) {
  auto it = gAddr.find(F); if (it != gAddr.end()) return it->second;
  uint64_t a = (uint64_t)(gNextObj++) << 32; gAddr[F] = a; gFnByAddr[a] = F; return a;
}
static uint64_t gvAddr(const GlobalValue* g) {
  auto it = gAddr.find(g); if (it != gAddr.end()) return it->second;
  if (auto* F = dyn_cast<Function>(g)) return fnAddr(const_cast<Function*>(F));
  if (auto* A = dyn_cast<GlobalAlias>(g)) { if (auto* t = dyn_cast<GlobalValue>(A->getAliasee()->stripPointerCasts())) return gvAddr(t); }
  fprintf(stderr, "bsym: no address for global %s\n", g->getName().str().c_str()); exit(3);
}
static V cbin(unsigned opc, unsigned w, V a, V b);
static void evalConst(const Constant* c, std::vector<V>& out) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { fprintf(stderr, "bsym: wide int const\n"); out.push_back(CV(0)); return; } out.push_back(CV(ci->getZExtValue())); return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { out.push_back(CV(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(CV(0)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { int n = nslots(c->getType()); for (int i = 0; i < n; i++) out.push_back(CV(0)); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) evalConst(cd->getElementAsConstant(i), out); return; }
  if (isa<ConstantVector>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c)) { for (auto& o : c->operands()) evalConst(cast<Constant>(o), out); return; }
  if (auto* gv = dyn_cast<GlobalValue>(c)) { out.push_back(CV(gvAddr(gv))); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    std::vector<V> a;
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        evalConst(ce->getOperand(0), a); APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "bsym: gep const\n"); exit(3); }
        out.push_back(CV(a[0].c + off.getZExtValue())); return;
      }
      case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::BitCast: { evalConst(ce->getOperand(0), a); unsigned w = lw(ce->getType()); for (auto& v : a) out.push_back(CV(v.c & maskw(w))); return; }
      case Instruction::Trunc: case Instruction::ZExt: { evalConst(ce->getOperand(0), a); for (auto& v : a) out.push_back(CV(v.c & maskw(lw(ce->getType())))); return; }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Xor: case Instruction::And: case Instruction::Or: case Instruction::Shl: case Instruction::LShr: {
        std::vector<V> b; evalConst(ce->getOperand(0), a); evalConst(ce->getOperand(1), b); for (size_t i = 0; i < a.size(); i++) out.push_back(cbin(ce->getOpcode(), lw(ce->getType()), a[i], b[i])); return;
      }
      case Instruction::ICmp: { std::vector<V> b; evalConst(ce->getOperand(0), a); evalConst(ce->getOperand(1), b); bool eq = a[0].c == b[0].c; auto p = (CmpInst::Predicate)ce->getPredicate(); out.push_back(CV(p == CmpInst::ICMP_EQ ? eq : p == CmpInst::ICMP_NE ? !eq : p == CmpInst::ICMP_ULT ? a[0].c < b[0].c : a[0].c > b[0].c)); return; }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "bsym: unsupported constant %s\n", s.c_str()); exit(3);
}
static void initBytes(const Constant* c, uint8_t* p) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return; // already zero
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* L = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(cs->getOperand(i), p + L->getElementOffset(i)); return; }
  if (auto* ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(ca->getOperand(i), p + i * es); return; }
  if (auto* cv = dyn_cast<ConstantVector>(c)) { uint64_t es = lw(t) / 8; for (unsigned i = 0; i < cv->getNumOperands(); i++) initBytes(cv->getOperand(i), p + i * es); return; }
  if (auto* ci = dyn_cast<ConstantInt>(c)) { uint64_t n = DL->getTypeStoreSize(t); for (uint64_t i = 0; i < n; i++) p[i] = (uint8_t)ci->getValue().lshr(i * 8).trunc(8 < ci->getBitWidth() ? 8 : ci->getBitWidth()).getZExtValue(); return; }
  std::vector<V> v; evalConst(c, v); uint64_t n = DL->getTypeStoreSize(t); memcpy(p, &v[0].c, n);
}

// ---- value operations ---------------------------------------------------------------------------------------------
static inline V vbin(K k, unsigned w, V a, V b) {
  if (!a.e && !b.e) {
    uint64_t m = maskw(w);
    switch (k) { case K_ADD: return CV((a.c + b.c) & m); case K_SUB: return CV((a.c - b.c) & m); case K_AND: return CV(a.c & b.c); case K_OR: return CV(a.c | b.c); case K_XOR: return CV(a.c ^ b.c); default: return CV(evalOp(k, w, w, a.c, b.c, 0, 0)); }
  }
  return EV(mkBin(k, X(a, w), X(b, w)));
}
static inline V vcmp(K k, unsigned w, V a, V b) { if (!a.e && !b.e) return CV(evalOp(k, 1, w, a.c, b.c, 0, 0)); return EV(mkCmp(k, X(a, w), X(b, w))); }
static inline V vnot1(V a) { if (!a.e) return CV(!a.c); return EV(mkNot(a.e)); }
static inline V vite(V c, unsigned w, V t, V f) { if (!c.e) return c.c ? t : f; if (!t.e && !f.e && t.c == f.c) return t; if (t.e && t.e == f.e) return t; return EV(mkIte(c.e, X(t, w), X(f, w))); }
static inline V vext(V a, unsigned off, unsigned w, unsigned wa) { if (!a.e) return CV((a.c >> off) & maskw(w)); return EV(mkExtract(a.e, off, w)); }
static inline V vzext(V a, unsigned wa, unsigned w) { if (!a.e) return a; return EV(mkZExt(a.e, w)); }
static inline V vsext(V a, unsigned wa, unsigned w) { if (!a.e) return CV((uint64_t)sextw(a.c, wa) & maskw(w)); return EV(mkSExt(a.e, w)); }
static inline V vconcat(V hi, unsigned wh, V lo, unsigned wl) { if (!hi.e && !lo.e) return CV((hi.c << wl) | lo.c); return EV(mkConcat(X(hi, wh), X(lo, wl))); }
static inline V vf(K k, unsigned w, unsigned wa, V a, V b = CV(0), bool hasB = false, uint64_t val = 0) {
  if (!a.e && (!hasB || !b.e)) return CV(evalOp(k, w, wa, a.c, b.c, 0, val));
  return EV(mkF(k, w, X(a, wa), hasB ? X(b, wa) : nullptr, nullptr, val));
}
static K binK(unsigned opc) {
  switch (opc) { case Instruction::Add: return K_ADD; case Instruction::Sub: return K_SUB; case Instruction::Mul: return K_MUL; case Instruction::UDiv: return K_UDIV; case Instruction::SDiv: return K_SDIV; case Instruction::URem: return K_UREM; case Instruction::SRem: return K_SREM; case Instruction::And: return K_AND; case Instruction::Or: return K_OR; case Instruction::Xor: return K_XOR; case Instruction::Shl: return K_SHL; case Instruction::LShr: return K_LSHR; case Instruction::AShr: return K_ASHR; case Instruction::FAdd: return K_FADD; case Instruction::FSub: return K_FSUB; case Instruction::FMul: return K_FMUL; case Instruction::FDiv: return K_FDIV; case Instruction::FRem: return K_FREM; }
  return K__COUNT;
}
static V cbin(unsigned opc, unsigned w, V a, V b) { return vbin(binK(opc), w, a, b); }
static V fIsNan(V a, unsigned w) { // bit level
  uint64_t am = w == 64 ? 0x7fffffffffffffffull : 0x7fffffffull, inf = w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull;
  return vcmp(K_ULT, w, CV(inf), vbin(K_AND, w, a, CV(am)));
}
static V vfcmp(unsigned p, unsigned w, V a, V b) {
  auto uno = [&] { V na = fIsNan(a, w), nb = fIsNan(b, w); return vbin(K_OR, 1, na, nb); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return CV(0); case CmpInst::FCMP_TRUE: return CV(1);
    case CmpInst::FCMP_OEQ: return vf(K_FEQ, 1, w, a, b, true);
    case CmpInst::FCMP_OLT: return vf(K_FLT, 1, w, a, b, true);
    case CmpInst::FCMP_OLE: return vf(K_FLE, 1, w, a, b, true);
    case CmpInst::FCMP_OGT: return vf(K_FLT, 1, w, b, a, true);
    case CmpInst::FCMP_OGE: return vf(K_FLE, 1, w, b, a, true);
    case CmpInst::FCMP_UNE: return vnot1(vf(K_FEQ, 1, w, a, b, true));
    case CmpInst::FCMP_UGE: return vnot1(vf(K_FLT, 1, w, a, b, true));
    case CmpInst::FCMP_UGT: return vnot1(vf(K_FLE, 1, w, a, b, true));
    case CmpInst::FCMP_ULE: return vnot1(vf(K_FLT, 1, w, b, a, true));
    case CmpInst::FCMP_ULT: return vnot1(vf(K_FLE, 1, w, b, a, true));
    case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_ORD: return vnot1(uno());
    case CmpInst::FCMP_ONE: return vbin(K_OR, 1, vf(K_FLT, 1, w, a, b, true), vf(K_FLT, 1, w, b, a, true));
    case CmpInst::FCMP_UEQ: return vnot1(vbin(K_OR, 1, vf(K_FLT, 1, w, a, b, true), vf(K_FLT, 1, w, b, a, true)));
  }
  return CV(0);
}
static V vctpop(V a, unsigned w) { if (!a.e) return CV(__builtin_popcountll(a.c)); V r = CV(0); for (unsigned i = 0; i < w; i++) r = vbin(K_ADD, w, r, vzext(vext(a, i, 1, w), 1, w)); return r; }
static V vcttz(V a, unsigned w) { if (!a.e) return CV(a.c ? __builtin_ctzll(a.c) : w); V r = CV(w); for (int i = (int)w - 1; i >= 0; i--) r = vite(vext(a, i, 1, w), w, CV(i), r); return r; }
static V vctlz(V a, unsigned w) { if (!a.e) return CV(a.c ? __builtin_clzll(a.c) - (64 - w) : w); V r = CV(w); for (unsigned i = 0; i < w; i++) r = vite(vext(a, i, 1, w), w, CV(w - 1 - i), r); return r; }
static V vbswap(V a, unsigned w) { V r = vext(a, 0, 8, w); for (unsigned i = 1; i < w / 8; i++) r = vconcat(r, i * 8, vext(a, i * 8, 8, w), 8); return r; }
static V vbitrev(V a, unsigned w) { V r = vext(a, 0, 1, w); for (unsigned i = 1; i < w; i++) r = vconcat(r, i, vext(a, i, 1, w), 1); return r; }
static V vsat(V a, unsigned w, unsigned to, bool sgnOut) { // signed input saturated
  int64_t mx = sgnOut ? (int64_t)(maskw(to) >> 1) : (int64_t)maskw(to), mn = sgnOut ? -mx - 1 : 0;
  V gt = vcmp(K_SLT, w, CV((uint64_t)mx & maskw(w)), a), lt = vcmp(K_SLT, w, a, CV((uint64_t)mn & maskw(w)));
  return vite(gt, to, CV((uint64_t)mx & maskw(to)), vite(lt, to, CV((uint64_t)mn & maskw(to)), vext(a, 0, to, w)));
}
static V vmin(V a, V b, unsigned w, bool sgn, bool mx) { V c = vcmp(sgn ? K_SLT : K_ULT, w, a, b); return mx ? vite(c, w, b, a) : vite(c, w, a, b); }

// generic bit repack of lanes (little endian)
static void repack(const V* in, int n, unsigned w, V* out, int m, unsigned wo) {
  if (w == wo) { for (int i = 0; i < m; i++) out[i] = in[i]; return; }
  if (w > wo) { unsigned k = w / wo; for (int i = m - 1; i >= 0; i--) out[i] = vext(in[i / k], (i % k) * wo, wo, w); return; }
  unsigned k = wo / w; std::vector<V> tmp(m);
  for (int i = 0; i < m; i++) { V r = in[i * k]; for (unsigned j = 1; j < k; j++) r = vconcat(in[i * k + j], w, r, j * w); tmp[i] = r; }
  for (int i = 0; i < m; i++) out[i] = tmp[i];
}

// ---- decoding -----------------------------------------------------------------------------------------------------
static int extId(const std::string& n);
static int ref(FnInfo* f, const Value* v) {
  auto s = f->slotOf.find(v); if (s != f->slotOf.end()) return s->second;
  auto p = f->poolOf.find(v); if (p != f->poolOf.end()) return ~p->second;
  if (auto* c = dyn_cast<Constant>(v)) { int i = (int)f->pool.size(); std::vector<V> o; evalConst(c, o); f->pool.insert(f->pool.end(), o.begin(), o.end()); f->poolOf[v] = i; return ~i; }
  if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return 0;
  fprintf(stderr, "bsym: bad ref\n"); exit(3);
}
static int mkEdge(FnInfo* f, BasicBlock* from, BasicBlock* to) {
  Edge e; e.block = f->bidx[to]; e.pc = -1;
  for (auto& ph : to->phis()) { int n = nslots(ph.getType()); e.cp.push_back({f->slotOf[&ph], ref(f, ph.getIncomingValueForBlock(from)), n}); }
  f->edges.push_back(e); return (int)f->edges.size() - 1;
}
static FnInfo* getFn(Function* F) {
  auto it = gFn.find(F); if (it != gFn.end()) return it->second;
  FnInfo* f = new FnInfo(); gFn[F] = f; f->F = F; f->name = F->getName().str();
  auto newSlot = [&](const Value* v) { int n = nslots(v->getType()); f->slotOf[v] = f->nslots; f->nslots += n; slotWidths(v->getType(), f->slotW); };
  for (auto& a : F->args()) { f->argSlot.push_back(f->nslots); f->argN.push_back(nslots(a.getType())); newSlot(&a); }
  for (auto& B : *F) { f->bidx[&B] = (int)f->blocks.size(); f->blocks.push_back(&B); for (auto& I : B) if (!I.getType()->isVoidTy()) newSlot(&I); }
  for (auto& B : *F) {
    f->blockPc.push_back((int)f->code.size());
    for (auto& I : B) {
      if (isa<PHINode>(I)) continue;
      Inst in{}; in.I = &I; in.dst = I.getType()->isVoidTy() ? -1 : f->slotOf[&I]; in.w = (uint16_t)lw(I.getType()); in.n = nslots(I.getType()); in.op = X_UNSUP;
      auto R = [&](unsigned i) { return ref(f, I.getOperand(i)); };
      unsigned opc = I.getOpcode();
      if (I.isBinaryOp()) {
        in.sub = binK(opc); in.a = R(0); in.b = R(1); in.wa = in.w;
        in.op = I.getType()->isFPOrFPVectorTy() ? X_FBIN : (opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem) ? X_DIV : X_BIN;
        if (in.w > 64) in.op = X_UNSUP;
      } else switch (opc) {
        case Instruction::FNeg: in.op = X_FNEG; in.a = R(0); break;
        case Instruction::ICmp: in.op = X_ICMP; in.sub = cast<ICmpInst>(I).getPredicate(); in.a = R(0); in.b = R(1); in.wa = (uint16_t)lw(I.getOperand(0)->getType()); if (in.wa > 64) in.op = X_UNSUP; break;
        case Instruction::FCmp: in.op = X_FCMP; in.sub = cast<FCmpInst>(I).getPredicate(); in.a = R(0); in.b = R(1); in.wa = (uint16_t)lw(I.getOperand(0)->getType()); break;
        case Instruction::Select: in.op = X_SELECT; in.a = R(0); in.b = R(1); in.c = R(2); in.flag = nslots(I.getOperand(0)->getType()) > 1 ? 1 : 0; if (!in.w) { std::vector<Leaf> l; leavesOf(I.getType(), 0, l); in.x = (int)f->leaves.size(); f->leaves.push_back(l); } else in.x = -1; break;
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: in.op = opc == Instruction::ZExt ? X_ZEXT : opc == Instruction::SExt ? X_SEXT : X_TRUNC; in.a = R(0); in.wa = (uint16_t)lw(I.getOperand(0)->getType()); if (in.w > 64 || in.wa > 64) in.op = X_UNSUP; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: in.wa = (uint16_t)lw(I.getOperand(0)->getType()); in.a = R(0); in.op = in.w < in.wa ? X_TRUNC : in.w > in.wa ? X_ZEXT : X_COPY; break;
        case Instruction::Freeze: case Instruction::AddrSpaceCast: in.op = X_COPY; in.a = R(0); break;
        case Instruction::BitCast: in.op = X_BITCAST; in.a = R(0); in.wa = (uint16_t)lw(I.getOperand(0)->getType()); in.x = nslots(I.getOperand(0)->getType()); if (in.w > 64 || in.wa > 64) in.op = X_UNSUP; break;
        case Instruction::FPToSI: case Instruction::FPToUI: in.op = X_F2I; in.sub = opc == Instruction::FPToSI ? K_F2SI : K_F2UI; in.a = R(0); in.wa = (uint16_t)lw(I.getOperand(0)->getType()); break;
        case Instruction::SIToFP: case Instruction::UIToFP: in.op = X_I2F; in.sub = opc == Instruction::SIToFP ? K_SI2F : K_UI2F; in.a = R(0); in.wa = (uint16_t)lw(I.getOperand(0)->getType()); break;
        case Instruction::FPExt: in.op = X_FPEXT; in.a = R(0); in.wa = 32; break;
        case Instruction::FPTrunc: in.op = X_FPTRUNC; in.a = R(0); in.wa = 64; break;
        case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); in.op = X_ALLOCA; in.a = ref(f, A.getArraySize()); in.wa = (uint16_t)lw(A.getArraySize()->getType()); in.x = (int)DL->getTypeAllocSize(A.getAllocatedType()).getFixedValue(); break; }
        case Instruction::Load: case Instruction::Store: {
          bool ld = opc == Instruction::Load; Type* t = ld ? I.getType() : I.getOperand(0)->getType();
          in.op = ld ? X_LOAD : X_STORE; in.a = ld ? R(0) : R(1); in.b = ld ? 0 : R(0); in.w = (uint16_t)lw(t); in.n = nslots(t);
          if (t->isVectorTy() && in.w < 8) { in.op = X_UNSUP; break; }
          if (in.w > 64) { in.op = X_UNSUP; break; }
          in.flag = ld ? (cast<LoadInst>(I).isAtomic() || cast<LoadInst>(I).isVolatile()) : (cast<StoreInst>(I).isAtomic() || cast<StoreInst>(I).isVolatile());
          if (in.flag && !(ld ? cast<LoadInst>(I).isAtomic() : cast<StoreInst>(I).isAtomic())) in.flag = 0;
          std::vector<Leaf> l; leavesOf(t, 0, l); in.x = (int)f->leaves.size(); f->leaves.push_back(l); break;
        }
        case Instruction::GetElementPtr: {
          auto& G = cast<GetElementPtrInst>(I); if (G.getType()->isVectorTy()) break;
          in.op = X_GEP; in.a = R(0); GepX g; g.off = 0;
          for (auto ti = gep_type_begin(G); ti != gep_type_end(G); ++ti) {
            Value* ix = ti.getOperand();
            if (auto* st = ti.getStructTypeOrNull()) { g.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
            int64_t es = (int64_t)DL->getTypeAllocSize(ti.getIndexedType()).getFixedValue();
            if (auto* ci = dyn_cast<ConstantInt>(ix)) g.off += ci->getSExtValue() * es; else g.idx.push_back({ref(f, ix), {(int)lw(ix->getType()), es}});
          }
          in.x = (int)f->geps.size(); f->geps.push_back(g); break;
        }
        case Instruction::Br: { auto& b = cast<BranchInst>(I); if (b.isUnconditional()) { in.op = X_BR; in.b = mkEdge(f, &B, b.getSuccessor(0)); } else { in.op = X_CONDBR; in.a = ref(f, b.getCondition()); in.b = mkEdge(f, &B, b.getSuccessor(0)); in.c = mkEdge(f, &B, b.getSuccessor(1)); } break; }
        case Instruction::Switch: { auto& s = cast<SwitchInst>(I); in.op = X_SWITCH; in.a = ref(f, s.getCondition()); in.wa = (uint16_t)lw(s.getCondition()->getType()); in.b = mkEdge(f, &B, s.getDefaultDest()); std::vector<std::pair<uint64_t, int>> v; std::map<BasicBlock*, int> em; for (auto& c : s.cases()) { auto* d = c.getCaseSuccessor(); if (!em.count(d)) em[d] = mkEdge(f, &B, d); v.push_back({c.getCaseValue()->getZExtValue(), em[d]}); } in.x = (int)f->sw.size(); f->sw.push_back(v); break; }
        case Instruction::Ret: in.op = X_RET; in.n = I.getNumOperands() ? nslots(I.getOperand(0)->getType()) : 0; if (in.n) in.a = R(0); break;
        case Instruction::Unreachable: in.op = X_UNREACHABLE; break;
        case Instruction::ExtractElement: in.op = X_EXTRACTELT; in.a = R(0); in.b = R(1); in.x = nslots(I.getOperand(0)->getType()); in.wa = (uint16_t)lw(I.getOperand(1)->getType()); break;
        case Instruction::InsertElement: in.op = X_INSERTELT; in.a = R(0); in.b = R(1); in.c = R(2); in.wa = (uint16_t)lw(I.getOperand(2)->getType()); break;
        case Instruction::ShuffleVector: { auto& s = cast<ShuffleVectorInst>(I); in.op = X_SHUFFLE; in.a = R(0); in.b = R(1); std::vector<int> m; for (int k : s.getShuffleMask()) m.push_back(k); m.push_back(nslots(I.getOperand(0)->getType())); in.x = (int)f->shuf.size(); f->shuf.push_back(m); break; }
        case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(I); Type* t = e.getAggregateOperand()->getType(); int off = 0; for (unsigned ix : e.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(st->getElementType(k)); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += (int)ix * nslots(t); } } in.op = X_EXTRACTVAL; in.a = R(0); in.x = off; break; }
        case Instruction::InsertValue: { auto& e = cast<InsertValueInst>(I); Type* t = e.getAggregateOperand()->getType(); int off = 0; for (unsigned ix : e.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(st->getElementType(k)); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += (int)ix * nslots(t); } } in.op = X_INSERTVAL; in.a = R(0); in.b = R(1); in.c = nslots(I.getOperand(1)->getType()); in.x = off; break; }
        case Instruction::AtomicRMW: { auto& a = cast<AtomicRMWInst>(I); in.op = X_ATOMICRMW; in.sub = a.getOperation(); in.a = R(0); in.b = R(1); break; }
        case Instruction::AtomicCmpXchg: in.op = X_CMPXCHG; in.a = R(0); in.b = R(1); in.c = R(2); in.w = (uint16_t)lw(I.getOperand(1)->getType()); break;
        case Instruction::Fence: in.op = X_FENCE; break;
        case Instruction::Call: {
          auto& c = cast<CallInst>(I); CallX cx; cx.F = nullptr; cx.retN = in.n; cx.retW = in.w; in.op = X_CALL;
          Value* cv = c.getCalledOperand()->stripPointerCasts();
          if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
          if (auto* ia = dyn_cast<InlineAsm>(cv)) { cx.isAsm = true; cx.name = ia->getAsmString(); }
          else if (auto* cf = dyn_cast<Function>(cv)) { cx.F = cf; cx.name = cf->getName().str(); if (cf->isDeclaration()) cx.ext = extId(cx.name); }
          else cx.ref = ref(f, cv);
          bool skip = false;
          if (cx.F && cx.F->isIntrinsic()) { switch (cx.F->getIntrinsicID()) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::vaend: skip = true; default: break; } }
          if (skip) continue;
          for (auto& a : c.args()) cx.args.push_back({ref(f, a), nslots(a->getType())});
          in.x = (int)f->calls.size(); f->calls.push_back(cx); break;
        }
        default: break;
      }
      f->code.push_back(in);
    }
  }
  for (auto& e : f->edges) e.pc = f->blockPc[e.block];
  PostDominatorTree PDT(*F); f->ipdom.assign(f->blocks.size(), -1);
  for (size_t i = 0; i < f->blocks.size(); i++) { auto* n = PDT.getNode(f->blocks[i]); if (n && n->getIDom() && n->getIDom()->getBlock()) f->ipdom[i] = f->bidx[n->getIDom()->getBlock()]; }
  return f;
}
static void computeLive(FnInfo* f) {
  if (f->liveDone) return; f->liveDone = true;
  size_t nb = f->blocks.size(); f->livein.assign(nb, std::vector<char>(f->nslots, 0));
  std::vector<std::vector<std::pair<int, int>>> dummy;
  bool ch = true;
  auto markUse = [&](std::vector<char>& L, const Value* v) { auto it = f->slotOf.find(v); if (it == f->slotOf.end()) return; int n = nslots(v->getType()); for (int i = 0; i < n; i++) L[it->second + i] = 1; };
  auto markDef = [&](std::vector<char>& L, const Value* v) { auto it = f->slotOf.find(v); if (it == f->slotOf.end()) return; int n = nslots(v->getType()); for (int i = 0; i < n; i++) L[it->second + i] = 0; };
  while (ch) {
    ch = false;
    for (size_t bi = nb; bi-- > 0;) {
      BasicBlock* B = f->blocks[bi]; std::vector<char> L(f->nslots, 0);
      for (BasicBlock* s : successors(B)) { auto& sl = f->livein[f->bidx[s]]; std::vector<char> t = sl; for (auto& ph : s->phis()) markDef(t, &ph); for (auto& ph : s->phis()) markUse(t, ph.getIncomingValueForBlock(B)); for (int i = 0; i < f->nslots; i++) L[i] |= t[i]; }
      for (auto it = B->rbegin(); it != B->rend(); ++it) { Instruction& I = *it; markDef(L, &I); if (!isa<PHINode>(I)) for (auto& o : I.operands()) markUse(L, o); }
      for (auto& ph : B->phis()) markUse(L, &ph); // phi results are set by the edge copies: live at the block start
      if (L != f->livein[bi]) { f->livein[bi] = L; ch = true; }
    }
  }
}

// ---- errors -------------------------------------------------------------------------------------------------------
static std::string locOf(const Inst* in) {
  if (!in || !in->I) return "?";
  if (const DILocation* d = in->I->getDebugLoc()) { std::string s = (d->getFilename() + ":" + Twine(d->getLine())).str(); size_t p = s.find("blend2d/"); return s; }
  return "?";
}
static const Inst* curInst(State* s) { auto& fr = s->frames(); if (fr.empty()) return nullptr; Frame* f = fr.back(); if (f->pc < 0 || f->pc >= (int)f->fi->code.size()) return nullptr; return &f->fi->code[f->pc]; }
static std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> evalInputs(State* s, const Model& m) {
  std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>> r; evalBegin(); for (auto& i : s->inputs) r.push_back({i.first, {i.second->w, evalExpr(i.second, m)}}); return r;
}
static void report(State* s, const char* kind, const std::string& msg, const Model& m) {
  gErrPaths++;
  const Inst* in = curInst(s); std::string loc = locOf(in), fn = s->frames().empty() ? "?" : s->frames().back()->fi->name;
  std::string key = std::string(kind) + "|" + msg + "|" + (std::string(kind) == "assert" ? "" : loc);
  if (!gErrKeys.insert(key).second) return;
  ErrRec e; e.kind = kind; e.msg = msg; e.loc = loc; e.fn = fn; e.in = evalInputs(s, m); e.trace = s->trace;
  for (auto& t : s->th) { for (Frame* f : t.fr) { std::string l = f->fi->name; if (f->pc >= 0 && f->pc < (int)f->fi->code.size()) l += " @ " + locOf(&f->fi->code[f->pc]); e.stack.push_back(l); } e.stack.push_back("--"); }
  gErrs.push_back(e);
  fprintf(stderr, "bsym: ERROR %s: %s at %s in %s\n", kind, msg.c_str(), loc.c_str(), fn.c_str());
  for (auto& l : e.stack) fprintf(stderr, "    %s\n", l.c_str());
  for (auto& i : e.in) fprintf(stderr, "    input %s = 0x%llx\n", i.first.c_str(), (unsigned long long)i.second.second);
  if ((int)gErrs.size() >= gMaxErrors) gStop = true;
}

// ---- path conditions ----------------------------------------------------------------------------------------------
static Res feasible(State* s, Expr* c, Model* out, bool heavy = true) {
  static double slow = getenv("BSYM_SLOW") ? atof(getenv("BSYM_SLOW")) : 0; double t0 = slow > 0 ? now() : 0; Res r = solverCheck(s->pc, c, *s->model, out, heavy);
  if (slow > 0 && now() - t0 > slow) { fprintf(stderr, "bsym: SLOW query\n"); for (auto& t : s->th) for (Frame* f : t.fr) if (f->pc >= 0 && f->pc < (int)f->fi->code.size()) fprintf(stderr, "    %s @ %s\n", f->fi->name.c_str(), locOf(&f->fi->code[f->pc]).c_str()); for (auto& i : evalInputs(s, *s->model)) fprintf(stderr, "    in %s = 0x%llx\n", i.first.c_str(), (unsigned long long)i.second.second); }
  return r;
}
static void addPC(State* s, Expr* c) {
  if (isTrue(c)) return;
  if (c->kind == K_AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
  s->pc.push_back(c);
}
static bool mval(State* s, Expr* c) { evalBegin(); return evalExpr(c, *s->model) != 0; }
// Decide c in s. Returns the side taken by s; *other is the clone for the opposite side when feasible.
static int forkOn(State* s, Expr* c, State** other) {
  *other = nullptr;
  if (isC(c)) return c->val != 0;
  bool side = mval(s, c); Expr* opp = side ? mkNot(c) : c; Model m;
  Res r = feasible(s, opp, &m);
  if (r == R_UNKNOWN) incomplete("solver-unknown at branch " + locOf(curInst(s)));
  if (r != R_SAT) return side;
  State* o = s->clone(); o->id = ++gStateId; o->model = std::make_shared<Model>(std::move(m)); o->pc.push_back(opp); *other = o; gForks++;
  s->pc.push_back(side ? c : mkNot(c));
  if (!s->frames().empty()) s->frames().back()->fi->forked = true;
  return side;
}

// ---- memory -------------------------------------------------------------------------------------------------------
static Obj* lookup(State* s, uint64_t addr) {
  uint64_t id = addr >> 32;
  if (id >= STK0) return s->stk.get(id - STK0);
  return s->tab.get(id);
}
static Obj* writable(State* s, Obj* o) { uint64_t id = o->base >> 32; return id >= STK0 ? s->stk.wget(id - STK0) : s->tab.wget(id); }
static Obj* newObj(State* s, uint64_t size, ObjKind k, const char* name, bool uninit) {
  Obj* o = new Obj(); o->size = size; o->kind = k; o->name = name;
  o->data = (uint8_t*)calloc(1, size ? size : 1);
  if (uninit && gUninitSym && size) { o->un = (uint8_t*)malloc(size); memset(o->un, 1, size); }
  if (k == OK_STACK) {
    uint32_t id; if (!s->freeStk.empty()) { id = s->freeStk.back(); s->freeStk.pop_back(); } else id = s->nextStk++;
    o->base = (STK0 + id) << 32; s->stk.set(id, o);
  } else { uint32_t id = s->nextHeap++; o->base = (uint64_t)id << 32; s->tab.set(id, o); }
  return o;
}
static Expr* byteE(State* s, Obj*& o, uint64_t off) { // may create an uninit symbol
  if (o->un && o->un[off]) {
    o = writable(s, o);
    if (!o->sym) o->sym = (Expr**)calloc(o->size, sizeof(Expr*));
    o->sym[off] = mkSym("u" + std::to_string(s->uninitCtr++), 8); o->symCount++; o->un[off] = 0;
    return o->sym[off];
  }
  if (o->sym && o->sym[off]) return o->sym[off];
  return mkConst(o->data[off], 8);
}
static V readScalar(State* s, Obj*& o, uint64_t off, unsigned bits) {
  unsigned n = (bits + 7) / 8;
  bool conc = true;
  if (o->un) for (unsigned i = 0; i < n; i++) if (o->un[off + i]) { conc = false; break; }
  if (conc && o->sym && o->symCount) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { conc = false; break; }
  if (conc) { uint64_t v = 0; memcpy(&v, o->data + off, n); return CV(v & maskw(bits)); }
  Expr* e = byteE(s, o, off);
  for (unsigned i = 1; i < n; i++) { Expr* b = byteE(s, o, off + i); e = mkConcat(b, e); }
  if (n * 8 != bits) e = mkExtract(e, 0, bits);
  return EV(e);
}
static void writeByte(Obj* o, uint64_t off, Expr* e) {
  if (o->un) o->un[off] = 0;
  if (isC(e)) { o->data[off] = (uint8_t)e->val; if (o->sym && o->sym[off]) { o->sym[off] = nullptr; o->symCount--; } return; }
  if (!o->sym) o->sym = (Expr**)calloc(o->size, sizeof(Expr*));
  if (!o->sym[off]) o->symCount++;
  o->sym[off] = e;
}
static void writeScalar(Obj* o, uint64_t off, unsigned bits, V v) { // o is writable
  unsigned n = (bits + 7) / 8;
  if (!v.e) {
    memcpy(o->data + off, &v.c, n);
    if (o->un) memset(o->un + off, 0, n);
    if (o->sym && o->symCount) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { o->sym[off + i] = nullptr; o->symCount--; }
    return;
  }
  Expr* e = v.e; if (n * 8 != bits) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) writeByte(o, off + i, mkExtract(e, i * 8, 8));
}
struct MemRef { Obj* o; uint64_t off; Expr* offE; uint64_t lo, hi, stride; };
enum RR { RR_OK, RR_DEAD, RR_RETRY };
static const char* checkAcc(Obj* o, uint64_t addr, uint64_t n, bool write) {
  if (!o) return addr < 65536 ? "null pointer access" : "wild pointer access";
  if (o->freed) return "use after free";
  uint64_t off = addr - o->base;
  if (n && (off > o->size || o->size - off < n)) return write ? "out-of-bounds write" : "out-of-bounds read";
  if (write && o->kind == OK_CONST) return "write to read-only object";
  if (o->kind == OK_FUNC) return "data access to function";
  return nullptr;
}
static std::string objDesc(Obj* o, uint64_t addr, uint64_t n) { if (!o) return ""; char b[200]; snprintf(b, 200, " [object '%s' size %llu, offset %lld, access %llu]", o->name, (unsigned long long)o->size, (long long)(addr - o->base), (unsigned long long)n); return b; }

static void refineRange(State* s, Expr* e, uint64_t& lo, uint64_t& hi, uint64_t stride, uint64_t target) {
  // binary search tighten hi then lo (bounded number of queries)
  uint64_t base = lo;
  auto can = [&](Expr* c) { Model m; return feasible(s, c, &m, false) != R_UNSAT; };
  uint64_t cur; evalBegin(); cur = evalExpr(e, *s->model);
  uint64_t L = cur, H = hi; // max in [L,H]
  while (L < H && (H - base) / stride > target) { uint64_t mid = L + (H - L) / 2; if (can(mkCmp(K_ULT, mkConst(mid, e->w), e))) L = mid + 1; else H = mid; }
  hi = H; 
  uint64_t A = lo, B = cur;
  while (A < B && (hi - A) / stride > target) { uint64_t mid = A + (B - A) / 2; if (can(mkCmp(K_ULE, e, mkConst(mid, e->w)))) B = mid; else A = mid + 1; }
  lo = A; (void)base;
}
static RR resolve(State* s, V addr, uint64_t n, bool write, MemRef& r) {
  r.offE = nullptr;
  if (!addr.e) {
    Obj* o = lookup(s, addr.c);
    if (const char* w = checkAcc(o, addr.c, n, write)) { report(s, "memory", std::string(w) + objDesc(o, addr.c, n), *s->model); return RR_DEAD; }
    r.o = o; r.off = addr.c - o->base; return RR_OK;
  }
  Expr* a = addr.e;
  evalBegin(); uint64_t ca = evalExpr(a, *s->model); Obj* o = lookup(s, ca);
  if (const char* w = checkAcc(o, ca, n, write)) { report(s, "memory", std::string(w) + objDesc(o, ca, n), *s->model); return RR_DEAD; }
  Expr* off = mkBin(K_SUB, a, mkConst(o->base, 64));
  uint64_t lim = o->size - n;
  if (!(off->hi <= lim)) {
    gBoundsQ++;
    Expr* inb = mkCmp(K_ULE, off, mkConst(lim, 64)); Expr* out = mkNot(inb);
    if (!isTrue(inb)) {
      Model m; 
      // same slot, outside the object: a genuine out-of-bounds access
      Expr* same = mkCmp(K_EQ, mkExtract(a, 32, 32), mkConst(o->base >> 32, 32));
      Res q = feasible(s, mkBin(K_AND, out, same), &m);
      if (q == R_SAT) { evalBegin(); uint64_t a2 = evalExpr(a, m); report(s, "memory", std::string(write ? "out-of-bounds write" : "out-of-bounds read") + objDesc(o, a2, n), m); if (gStop) return RR_DEAD; }
      else if (q == R_UNKNOWN) incomplete("solver-unknown at bounds check " + locOf(curInst(s)));
      q = feasible(s, mkBin(K_AND, out, mkNot(same)), &m);
      if (q == R_SAT) {
        evalBegin(); uint64_t a2 = evalExpr(a, m); Obj* o2 = lookup(s, a2);
        if (const char* w = checkAcc(o2, a2, n, write)) report(s, "memory", std::string(w) + objDesc(o2, a2, n), m);
        else { State* c = s->clone(); c->id = ++gStateId; c->model = std::make_shared<Model>(m); c->pc.push_back(out); c->pc.push_back(mkNot(same)); WL->push_back(c); gForks++; }
      } else if (q == R_UNKNOWN) incomplete("solver-unknown at bounds check " + locOf(curInst(s)));
      addPC(s, inb);
    }
  }
  uint64_t lo = off->lo, hi = std::min(off->hi, lim), stride = 1;
  { uint64_t nz = ~off->kz; stride = nz ? (1ull << std::min(31, __builtin_ctzll(nz))) : 1; lo = (lo + stride - 1) / stride * stride; 
    if (n && stride > 1) { } }
  if ((hi - lo) / stride >= 24) refineRange(s, off, lo, hi, stride, 16);
  lo = (lo + stride - 1) / stride * stride; hi = hi / stride * stride;
  if (lo == hi) { r.o = o; r.off = lo; return RR_OK; }
  if (write ? gMemSymW++ : gMemSymR++) {}
  r.o = o; r.offE = off; r.lo = lo; r.hi = hi; r.stride = stride; r.off = 0;
  return RR_OK;
}
static Expr* muxRead(State* s, Obj*& o, Expr* idx, int bit, uint64_t i0, uint64_t cnt, uint64_t lo, uint64_t stride, uint64_t add, unsigned bits) {
  if (bit < 0 || cnt == 1) { V v = readScalar(s, o, lo + i0 * stride + add, bits); return X(v, bits); }
  uint64_t half = 1ull << bit;
  if (cnt <= half) return muxRead(s, o, idx, bit - 1, i0, cnt, lo, stride, add, bits);
  Expr* L = muxRead(s, o, idx, bit - 1, i0, half, lo, stride, add, bits);
  Expr* H = muxRead(s, o, idx, bit - 1, i0 + half, cnt - half, lo, stride, add, bits);
  return mkIte(mkExtract(idx, bit, 1), H, L);
}
static V readSym(State* s, MemRef& r, uint64_t add, unsigned bits) {
  uint64_t cnt = (r.hi - r.lo) / r.stride + 1; int sb = __builtin_ctzll(r.stride), nb = 64 - __builtin_clzll(cnt - 1);
  Expr* idx = mkExtract(mkBin(K_SUB, r.offE, mkConst(r.lo, 64)), sb, nb);
  return EV(muxRead(s, r.o, idx, nb - 1, 0, cnt, r.lo, r.stride, add, bits));
}
// Enumerate feasible values of e: s continues with one, clones with the others are queued (retrying the instruction).
static bool concretize(State* s, Expr* e, uint64_t& out) {
  evalBegin(); uint64_t v = evalExpr(e, *s->model); Expr* c = mkCmp(K_EQ, e, mkConst(v, e->w)); Model m;
  if (!isTrue(c)) {
    Res q = feasible(s, mkNot(c), &m);
    if (q == R_SAT) { State* o = s->clone(); o->id = ++gStateId; o->model = std::make_shared<Model>(std::move(m)); addPC(o, mkNot(c)); WL->push_back(o); gForks++; if (!s->frames().empty()) s->frames().back()->fi->forked = true; }
    else if (q == R_UNKNOWN) incomplete("solver-unknown at concretisation " + locOf(curInst(s)));
    addPC(s, c);
  }
  out = v; return true;
}
static V substC(State* s, V v) { if (!v.e) return v; uint64_t x; concretize(s, v.e, x); return CV(x); }

static bool raceCheck(State* s, uint64_t addr, uint64_t n, bool write);

static RR loadLeaves(State* s, V addr, const std::vector<Leaf>& L, V* out) {
  uint64_t n = L.back().off + (L.back().bits + 7) / 8; MemRef r;
  RR q = resolve(s, addr, n, false, r); if (q != RR_OK) return q;
  if (!r.offE) {
    if (s->multi && !raceCheck(s, r.o->base + r.off, n, false)) return RR_DEAD;
    for (size_t i = 0; i < L.size(); i++) out[i] = readScalar(s, r.o, r.off + L[i].off, L[i].bits); return RR_OK; }
  uint64_t cnt = (r.hi - r.lo) / r.stride + 1;
  if (cnt > 70000) { uint64_t c; concretize(s, r.offE, c); for (size_t i = 0; i < L.size(); i++) out[i] = readScalar(s, r.o, c + L[i].off, L[i].bits); return RR_OK; }
  for (size_t i = 0; i < L.size(); i++) out[i] = readSym(s, r, L[i].off, L[i].bits);
  return RR_OK;
}
static RR storeLeaves(State* s, V addr, const std::vector<Leaf>& L, const V* v) {
  uint64_t n = L.back().off + (L.back().bits + 7) / 8; MemRef r;
  RR q = resolve(s, addr, n, true, r); if (q != RR_OK) return q;
  if (!r.offE) {
    if (s->multi && !raceCheck(s, r.o->base + r.off, n, true)) return RR_DEAD;
    Obj* o = writable(s, r.o); for (size_t i = 0; i < L.size(); i++) writeScalar(o, r.off + L[i].off, L[i].bits, v[i]); return RR_OK; }
  uint64_t cnt = (r.hi - r.lo) / r.stride + 1;
  if (cnt > 600) { uint64_t c; concretize(s, r.offE, c); Obj* o = writable(s, r.o); for (size_t i = 0; i < L.size(); i++) writeScalar(o, c + L[i].off, L[i].bits, v[i]); return RR_OK; }
  Obj* o = writable(s, r.o);
  for (uint64_t c = r.lo;; c += r.stride) {
    Expr* g = mkCmp(K_EQ, r.offE, mkConst(c, 64));
    if (!isFalse(g)) for (size_t i = 0; i < L.size(); i++) {
      unsigned nb = (L[i].bits + 7) / 8; Expr* val = X(v[i], L[i].bits); if (nb * 8 != L[i].bits) val = mkZExt(val, nb * 8);
      for (unsigned k = 0; k < nb; k++) { uint64_t off = c + L[i].off + k; Expr* old = byteE(s, o, off); writeByte(o, off, mkIte(g, mkExtract(val, k * 8, 8), old)); }
    }
    if (c >= r.hi) break;
  }
  return RR_OK;
}

// ---- race detection (vector clocks; plain accesses, 8-byte granules of heap/global objects) -------------------------
static bool raceCheck(State* s, uint64_t addr, uint64_t n, bool write) {
  if (!gRace || (addr >> 32) >= STK0) return true;
  int me = s->cur; auto& vc = s->th[me].vc;
  for (uint64_t g = addr; g < addr + n; g++) {
    auto w = s->lastW.find(g);
    if (w != s->lastW.end() && w->second.first != me) { uint32_t seen = (size_t)w->second.first < vc.size() ? vc[w->second.first] : 0; if (seen < w->second.second) { report(s, "race", "data race between threads (unsynchronised access to the same memory)", *s->model); return false; } }
    if (write) {
      auto rd = s->lastR.find(g);
      if (rd != s->lastR.end()) for (auto& p : rd->second) if (p.first != me) { uint32_t seen = (size_t)p.first < vc.size() ? vc[p.first] : 0; if (seen < p.second) { report(s, "race", "data race between threads (unsynchronised access to the same memory)", *s->model); return false; } }
    }
  }
  for (uint64_t g = addr; g < addr + n; g++) { if (write) { s->lastW[g] = {me, vc[me]}; s->lastR.erase(g); } else s->lastR[g][me] = vc[me]; }
  return true;
}
static void vcJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void vcAcquire(State* s, uint64_t a) { if (!s->multi) return; auto it = s->syncVC.find(a); if (it != s->syncVC.end()) vcJoin(s->th[s->cur].vc, it->second); }
static void vcRelease(State* s, uint64_t a) { if (!s->multi) return; auto& t = s->th[s->cur]; vcJoin(s->syncVC[a], t.vc); t.vc[s->cur]++; }
// release that replaces (plain atomic store release breaks the release sequence of others; join is a sound over-approximation of order)

// ---- frames -------------------------------------------------------------------------------------------------------
static Frame* pushFrame(State* s, FnInfo* f) {
  Frame* n = new Frame(); n->fi = f; n->s.resize(f->nslots, V{0, nullptr}); n->pc = f->code.empty() ? 0 : f->blockPc[0]; n->block = 0; s->frames().push_back(n); f->hits++; return n;
}
static void popFrame(State* s) {
  Frame* f = s->frames().back();
  for (uint32_t id : f->allocas) { s->stk.set(id, nullptr); s->freeStk.push_back(id); }
  s->frames().pop_back(); if (--f->rc == 0) delete f;
}
static inline V* op(Frame* f, int r) { return r >= 0 ? &f->s[r] : &f->fi->pool[~r]; }

// ---- merging ------------------------------------------------------------------------------------------------------
static bool compatible(State* a, State* b) {
  if (a->th.size() != b->th.size() || a->cur != b->cur || a->nextHeap != b->nextHeap || a->nextStk != b->nextStk || a->freeStk != b->freeStk || a->heapLive != b->heapLive || a->mallocFailLeft != b->mallocFailLeft || a->mallocCtr != b->mallocCtr || a->nameCtr != b->nameCtr || a->mtx != b->mtx || a->mergeMode != b->mergeMode) return false;
  auto &fa = a->frames(), &fb = b->frames(); if (fa.size() != fb.size()) return false;
  for (size_t i = 0; i < fa.size(); i++) { if (fa[i] == fb[i]) continue; if (fa[i]->fi != fb[i]->fi || fa[i]->pc != fb[i]->pc || fa[i]->block != fb[i]->block || fa[i]->allocas != fb[i]->allocas) return false; }
  for (int t = 0; t < 2; t++) { auto &ta = t ? a->stk : a->tab, &tb = t ? b->stk : b->tab; size_t n = std::max(ta.pages.size(), tb.pages.size());
    for (size_t p = 0; p < n; p++) { Page* x = p < ta.pages.size() ? ta.pages[p] : nullptr; Page* y = p < tb.pages.size() ? tb.pages[p] : nullptr; if (x == y) continue; for (int i = 0; i < PG; i++) { Obj* o = x ? x->o[i] : nullptr; Obj* q = y ? y->o[i] : nullptr; if (o == q) continue; if (!o || !q || o->size != q->size || o->freed != q->freed || o->kind != q->kind) return false; } } }
  return true;
}
static State* mergePair(State* a, State* b, Expr* c) { // ite(c, a, b) into a; b is destroyed
  gMerges++;
  V cv = EV(c);
  auto &fa = a->frames(), &fb = b->frames();
  for (size_t i = 0; i < fa.size(); i++) if (fa[i] != fb[i]) {
    Frame*& f = fa[i]; if (f->rc > 1) { Frame* n = new Frame(*f); n->rc = 1; f->rc--; f = n; }
    computeLive(f->fi);
    bool atBlock = i + 1 == fa.size() && f->pc == f->fi->blockPc[f->block];
    for (size_t k = 0; k < f->s.size(); k++) {
      V &x = f->s[k], &y = fb[i]->s[k];
      if (x.e == y.e && x.c == y.c) continue;
      if (atBlock && !f->fi->livein[f->block][k]) { continue; }
      // widths: find from exprs; concrete/concrete pairs need a width - use 64 when unknown
      unsigned w = x.e ? x.e->w : y.e ? y.e->w : f->fi->slotW[k];
      if (!w) w = 64;
      x = vite(cv, w, x, y);
    }
  }
  for (int t = 0; t < 2; t++) { auto &ta = t ? a->stk : a->tab, &tb = t ? b->stk : b->tab; size_t n = std::max(ta.pages.size(), tb.pages.size());
    for (size_t p = 0; p < n; p++) { Page* x = p < ta.pages.size() ? ta.pages[p] : nullptr; Page* y = p < tb.pages.size() ? tb.pages[p] : nullptr; if (x == y) continue;
      for (int i = 0; i < PG; i++) { Obj* o = x ? x->o[i] : nullptr; Obj* q = y ? y->o[i] : nullptr; if (o == q || o->freed) continue;
        Obj* w = ta.wget(p * PG + i); x = ta.pages[p];
        for (uint64_t k = 0; k < w->size; k++) {
          bool ua = w->un && w->un[k], ub = q->un && q->un[k]; Expr* sa = w->sym ? w->sym[k] : nullptr; Expr* sb = q->sym ? q->sym[k] : nullptr;
          if (ua && ub) continue; if (!ua && !ub && sa == sb && (sa || w->data[k] == q->data[k])) continue;
          Expr* ea = ua ? mkSym("u" + std::to_string(a->uninitCtr++), 8) : sa ? sa : mkConst(w->data[k], 8);
          Expr* eb = ub ? mkSym("u" + std::to_string((a->uninitCtr = std::max(a->uninitCtr, b->uninitCtr), a->uninitCtr++)), 8) : sb ? sb : mkConst(q->data[k], 8);
          writeByte(w, k, mkIte(c, ea, eb));
        } } } }
  a->uninitCtr = std::max(a->uninitCtr, b->uninitCtr);
  std::set<std::string> have; for (auto& i : a->inputs) have.insert(i.first); for (auto& i : b->inputs) if (!have.count(i.first)) a->inputs.push_back(i);
  a->reached.insert(b->reached.begin(), b->reached.end());
  delete b; return a;
}
static std::vector<State*> mergeStates(std::vector<State*> v, size_t pre) {
  if (v.size() <= 1) return v;
  while (true) { // skip the common prefix
    bool same = true; for (State* s : v) if (s->pc.size() <= pre || s->pc[pre] != v[0]->pc[pre]) { same = false; break; }
    if (!same) break; pre++;
  }
  std::vector<std::pair<Expr*, std::vector<State*>>> g; std::vector<State*> ended;
  for (State* s : v) { if (s->pc.size() <= pre) { ended.push_back(s); continue; } bool f = false; for (auto& x : g) if (x.first == s->pc[pre]) { x.second.push_back(s); f = true; break; } if (!f) g.push_back({s->pc[pre], {s}}); }
  if (!ended.empty() || g.size() > 64) return v; // should not happen; leave unmerged
  std::vector<State*> res;
  std::vector<std::pair<Expr*, State*>> items; // guard includes everything beyond pre
  for (auto& x : g) for (State* s : mergeStates(x.second, pre + 1)) items.push_back({x.first, s});
  auto extra = [&](State* s) { Expr* e = mkConst(1, 1); for (size_t i = pre + 1; i < s->pc.size(); i++) e = mkBin(K_AND, e, s->pc[i]); return e; };
  while (!items.empty()) {
    auto cur = items[0]; items.erase(items.begin()); Expr* guard = cur.first; Expr* full = mkBin(K_AND, guard, extra(cur.second));
    State* acc = cur.second; bool any = false;
    for (size_t i = 0; i < items.size();) {
      if (compatible(acc, items[i].second)) {
        Expr* f2 = mkBin(K_AND, items[i].first, extra(items[i].second));
        acc = mergePair(acc, items[i].second, full); full = mkBin(K_OR, full, f2); any = true; items.erase(items.begin() + i);
      } else i++;
    }
    if (any) { acc->pc.resize(pre); addPC(acc, full); }
    res.push_back(acc);
  }
  return res;
}

// ---- execution ----------------------------------------------------------------------------------------------------
enum Step { ST_NEXT, ST_DONE, ST_JUMPED };   // NEXT: pc++; JUMPED: control moved; DONE: state consumed
static void explore(std::vector<State*> init, const Barrier& bar, std::vector<State*>& out);
static Step callExt(State* s, Frame* f, Inst& in, CallX& cx);
static Step callIntrinsic(State* s, Frame* f, Inst& in, CallX& cx);

static void finishPath(State* s, const char* why) {
  gPaths++;
  for (auto& r : s->reached) gReach[r]++;
  if (gTraces.size() < gMaxTraces && !s->inputs.empty() && !gErrPaths) gTraces.push_back(evalInputs(s, *s->model));
}
static void takeEdge(State* s, Frame* f, int ei) {
  Edge& e = f->fi->edges[ei];
  if (e.cp.size() == 1) { auto& c = e.cp[0]; V* src = op(f, c.src); for (int i = 0; i < c.n; i++) f->s[c.dst + i] = src[i]; }
  else if (!e.cp.empty()) {
    static thread_local std::vector<V> tmp; tmp.clear();
    for (auto& c : e.cp) { V* src = op(f, c.src); tmp.insert(tmp.end(), src, src + c.n); }
    size_t k = 0; for (auto& c : e.cp) for (int i = 0; i < c.n; i++) f->s[c.dst + i] = tmp[k++];
  }
  f->block = e.block; f->pc = e.pc;
}
// threads
static bool runnable(State* s, int t) { return s->th[t].st == T_RUN; }
static bool switchable(State* s) { int n = 0; for (size_t i = 0; i < s->th.size(); i++) n += runnable(s, (int)i); return n > 0; }
// A scheduling point before a visible operation. Every choice of the next thread is a value of a symbolic schedule variable.
static std::unordered_set<uint64_t> gDone; 
static int schedPoint(State* s, bool forced) { // returns false when the state died (deadlock)
  std::vector<int> r; for (size_t i = 0; i < s->th.size(); i++) if (runnable(s, (int)i)) r.push_back((int)i);
  if (r.empty()) return -1;
  bool curRun = runnable(s, s->cur);
  if (!forced && curRun && s->preempts >= gPreempt) return s->cur;
  if (r.size() == 1) return r[0];
  gSched++;
  if (gReplay) { auto it = gReplayIn.find("sched" + std::to_string(s->schedCtr++)); int t = it == gReplayIn.end() ? r[0] : (int)it->second; if (std::find(r.begin(), r.end(), t) == r.end()) t = r[0]; if (curRun && !forced && t != s->cur) s->preempts++; return t; }
  Expr* v = mkSym("sched" + std::to_string(s->schedCtr++), 8);
  s->inputs.push_back({"sched" + std::to_string(s->schedCtr - 1), v});
  // order: current first
  if (curRun) { r.erase(std::find(r.begin(), r.end(), s->cur)); r.insert(r.begin(), s->cur); }
  for (size_t i = 1; i < r.size(); i++) { State* c = s->clone(); c->id = ++gStateId; c->cur = r[i]; if (curRun && !forced) c->preempts++; Expr* k = mkCmp(K_EQ, v, mkConst(r[i], 8)); c->pc.push_back(k); Model m = *c->model; m.set((uint32_t)v->val, r[i]); c->model = std::make_shared<Model>(m); c->clock++; WL->push_back(c); gForks++; }
  Expr* k = mkCmp(K_EQ, v, mkConst(r[0], 8)); s->pc.push_back(k); Model m = *s->model; m.set((uint32_t)v->val, r[0]); s->model = std::make_shared<Model>(m);
  return r[0];
}

#include "exec.inc"

static bool gTopRun = false; static void finishPath(State* s, const char* how);
static void explore(std::vector<State*> init, const Barrier& bar, std::vector<State*>& out) {
  bool isTop = gTopRun; gTopRun = false;
  std::vector<State*> wl(init.rbegin(), init.rend()); std::vector<State*>* saveWL = WL; const Barrier* saveBar = CURBAR;
  while (!wl.empty()) {
    State* s = wl.back(); wl.pop_back();
    if (gStop) { gKilled++; delete s; continue; }
    WL = &wl; CURBAR = &bar;
    if (bar.depth) {
      size_t d = s->frames().size();
      bool at = d < bar.depth || (d == bar.depth && bar.block >= 0 && s->frames().back()->block == bar.block && s->frames().back()->pc == s->frames().back()->fi->blockPc[bar.block] && s->frames().back()->mergeRegion != -7);
      if (at) { if (isTop) { finishPath(s, "end"); delete s; } else out.push_back(s); continue; }
    }
    if (run(s, bar)) { if (isTop) { finishPath(s, "end"); delete s; } else out.push_back(s); }
    if (gInstr > gMaxInstr) { incomplete("instruction budget"); gStop = true; }
    if (now() - gT0 > gMaxTime) { incomplete("time budget"); gStop = true; }
  }
  WL = saveWL; CURBAR = saveBar;
}

// ---- setup --------------------------------------------------------------------------------------------------------
static void setupGlobals() {
  gInit = new State(); gInit->model = std::make_shared<Model>();
  for (auto& F : *M) if (!F.isDeclaration() || !F.isIntrinsic()) fnAddr(&F);
  std::vector<GlobalVariable*> gs;
  for (auto& G : M->globals()) { gAddr[&G] = (uint64_t)(gNextObj++) << 32; gs.push_back(&G); }
  for (auto& A : M->aliases()) if (auto* t = dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts())) gAddr[&A] = gvAddr(t);
  for (auto* G : gs) {
    if (!G->getValueType()->isSized()) continue;
    uint64_t sz = DL->getTypeAllocSize(G->getValueType()); Obj* o = new Obj(); o->size = sz; o->kind = G->isConstant() ? OK_CONST : OK_GLOBAL; o->name = strdup(G->getName().str().c_str()); o->base = gAddr[G]; o->data = (uint8_t*)calloc(1, sz ? sz : 1);
    if (G->hasInitializer()) initBytes(G->getInitializer(), o->data);
    gInit->tab.set(o->base >> 32, o);
  }
  for (auto& p : gFnByAddr) { Obj* o = new Obj(); o->size = 1; o->kind = OK_FUNC; o->base = p.first; o->data = (uint8_t*)calloc(1, 1); o->name = strdup(p.second->getName().str().c_str()); gInit->tab.set(p.first >> 32, o); }
  gInit->nextHeap = (uint32_t)gNextObj; 
}
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void writeInputs(FILE* o, const std::vector<std::pair<std::string, std::pair<unsigned, uint64_t>>>& in) { fprintf(o, "["); for (size_t i = 0; i < in.size(); i++) fprintf(o, "%s[\"%s\",%u,%llu]", i ? "," : "", jesc(in[i].first).c_str(), in[i].second.first, (unsigned long long)in[i].second.second); fprintf(o, "]"); }
static void writeOut(const std::string& entry) {
  FILE* o = gOut.empty() ? stdout : fopen(gOut.c_str(), "w");
  fprintf(o, "{\"entry\":\"%s\",\"paths\":%llu,\"forks\":%llu,\"merges\":%llu,\"killed\":%llu,\"instr\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"bounds_queries\":%llu,\"sym_reads\":%llu,\"sym_writes\":%llu,\"sched_points\":%llu,\"exprs\":%llu,\"time\":%.3f,\n", entry.c_str(), (unsigned long long)gPaths, (unsigned long long)gForks, (unsigned long long)gMerges, (unsigned long long)gKilled, (unsigned long long)gInstr, (unsigned long long)gAsserts, (unsigned long long)gAssertQ, (unsigned long long)gBoundsQ, (unsigned long long)gMemSymR, (unsigned long long)gMemSymW, (unsigned long long)gSched, (unsigned long long)gNumExprs, now() - gT0);
  fprintf(o, "\"solver\":{\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"z3_calls\":%llu,\"portfolio\":%llu,\"own\":%llu,\"cuts\":%llu,\"xcheck\":%llu,\"disagree\":%llu,\"fp\":%llu,\"time\":%.3f,\"portfolio_time\":%.3f},\n", (unsigned long long)gSS.queries, (unsigned long long)gSS.sat, (unsigned long long)gSS.unsat, (unsigned long long)gSS.unknown, (unsigned long long)gSS.cacheHits, (unsigned long long)gSS.modelHits, (unsigned long long)gSS.z3Calls, (unsigned long long)gSS.heavy, (unsigned long long)gSS.own, (unsigned long long)gSS.cuts, (unsigned long long)gSS.xcheck, (unsigned long long)gSS.disagree, (unsigned long long)gSS.fpQueries, gSS.time, gSS.heavyTime);
  fprintf(o, "\"symbols\":%zu,\"reach\":{", gSyms.size()); bool first = true; for (auto& r : gReach) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
  fprintf(o, "},\n\"assert_sites\":{"); first = true; for (auto& r : gAssertMsgs) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
  fprintf(o, "},\n\"incomplete\":{"); first = true; for (auto& r : gIncomplete) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
  fprintf(o, "},\n\"functions\":["); first = true; for (auto& p : gFn) if (p.second->hits) { fprintf(o, "%s[\"%s\",%llu,%d]", first ? "" : ",", jesc(p.second->name).c_str(), (unsigned long long)p.second->hits, p.second->forked ? 1 : 0); first = false; }
  fprintf(o, "],\n\"errors\":["); for (size_t i = 0; i < gErrs.size(); i++) { auto& e = gErrs[i]; fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"fn\":\"%s\",\"stack\":[", i ? ",\n" : "", jesc(e.kind).c_str(), jesc(e.msg).c_str(), jesc(e.loc).c_str(), jesc(e.fn).c_str()); for (size_t k = 0; k < e.stack.size(); k++) fprintf(o, "%s\"%s\"", k ? "," : "", jesc(e.stack[k]).c_str()); fprintf(o, "],\"trace\":["); for (size_t k = 0; k < e.trace.size(); k++) fprintf(o, "%s\"%s\"", k ? "," : "", jesc(e.trace[k]).c_str()); fprintf(o, "],\"inputs\":"); writeInputs(o, e.in); fprintf(o, "}"); }
  fprintf(o, "],\n\"traces\":["); for (size_t i = 0; i < gTraces.size(); i++) { if (i) fprintf(o, ",\n"); writeInputs(o, gTraces[i]); } fprintf(o, "]}\n");
  if (!gOut.empty()) fclose(o);
}
static std::string gFile, gEntry;
static void* mainThread(void*) {
  LLVMContext ctx; SMDiagnostic d; auto mod = parseIRFile(gFile, d, ctx); if (!mod) { d.print("bsym", errs()); exit(3); }
  M = mod.get(); DL = &M->getDataLayout(); solverInit();
  gT0 = now();
  setupGlobals();
  Function* E = M->getFunction(gEntry); if (!E || E->isDeclaration()) { fprintf(stderr, "bsym: no entry %s\n", gEntry.c_str()); exit(3); }
  std::vector<Function*> seq;
  if (GlobalVariable* g = M->getGlobalVariable("llvm.global_ctors")) if (!gOpts.count("no-ctors")) if (auto* a = dyn_cast<ConstantArray>(g->getInitializer())) {
    std::vector<std::pair<uint64_t, Function*>> c; for (auto& o : a->operands()) { auto* st = cast<ConstantStruct>(o); c.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cast<Function>(st->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(c.begin(), c.end(), [](auto& x, auto& y) { return x.first < y.first; }); for (auto& x : c) seq.push_back(x.second);
  }
  State* s = gInit; s->th.resize(1); Barrier none;
  auto runOne = [&](Function* F) -> State* { FnInfo* fi = getFn(F); Frame* base = pushFrame(s, fi); (void)base; s->frames().back()->retDst = -2; std::vector<State*> out; Barrier b; b.depth = 1; b.block = -2; explore({s}, b, out); return out.size() == 1 ? out[0] : nullptr; };
  for (Function* F : seq) { s = runOne(F); if (!s) { fprintf(stderr, "bsym: constructor failed\n"); writeOut(gEntry); exit(3); } }
  double tInit = now() - gT0; uint64_t iInit = gInstr; for (auto& p : gFn) p.second->hits = 0;
  if (gVerbose) fprintf(stderr, "bsym: init done, %llu instr, %.2fs\n", (unsigned long long)gInstr, tInit);
  FnInfo* fi = getFn(E); pushFrame(s, fi); s->frames().back()->retDst = -2; 
  std::vector<State*> out; Barrier b; b.depth = 1; b.block = -2; 
  gTopRun = true; explore({s}, b, out);
  for (State* x : out) finishPath(x, "end");
  (void)iInit; writeOut(gEntry);
  fflush(stdout); _exit(gErrs.empty() ? 0 : 1);
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") gEntry = nx(); else if (a == "--out") gOut = nx(); else if (a == "--max-time") gMaxTime = atof(nx().c_str()); else if (a == "--max-instr") gMaxInstr = strtoull(nx().c_str(), 0, 10);
    else if (a == "--shard") { std::string v = nx(); sscanf(v.c_str(), "%d/%d@%d", &gShardK, &gShardN, &gShardD); }
    else if (a == "--heavy-timeout") gHeavyTimeout = atof(nx().c_str()); else if (a == "--preempt") gPreempt = atoi(nx().c_str()); else if (a == "--max-errors") gMaxErrors = atoi(nx().c_str()); else if (a == "-v") gVerbose = true; else if (a == "--fp-uf") gFpUF = true;
    else if (a == "--tmp") gTmpDir = nx(); else if (a == "--no-race") gRace = false; else if (a == "--traces") gMaxTraces = atoi(nx().c_str()); else if (a == "--replay") { gReplay = true; FILE* f = fopen(nx().c_str(), "r"); char line[1024]; while (f && fgets(line, sizeof line, f)) { char* e = strrchr(line, ' '); if (!e) continue; *e = 0; gReplayIn[line] = strtoull(e + 1, 0, 0); } if (f) fclose(f); } else if (a == "--max-steps") gMaxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--mem") gMemLimit = strtoull(nx().c_str(), 0, 10) << 20; else if (a == "--no-uninit") gUninitSym = false;
    else if (a.substr(0, 2) == "--") gOpts[a.substr(2)] = "1"; else gFile = a;
  }
  pthread_attr_t at; pthread_attr_init(&at); size_t ss = 16ull << 30; void* stk = mmap(nullptr, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
  if (stk == MAP_FAILED) { ss = 1ull << 30; stk = mmap(nullptr, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  pthread_attr_setstack(&at, stk, ss); pthread_t t; if (pthread_create(&t, &at, mainThread, nullptr)) { perror("pthread_create"); return 3; }
  pthread_join(t, nullptr); return 3;
}
