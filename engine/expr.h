// bsym - expression DAG (hash-consed bit-vector terms, width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <z3.h>

enum K : uint8_t {
  K_CONST, K_SYM,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FSQRT, K_FMA,
  K_FLT, K_FLE, K_FEQ,
  K_F2SI, K_F2UI, K_SI2F, K_UI2F, K_FEXT, K_FTRUNC, K_FRINT,
  K__COUNT
};

struct SymSet { std::vector<uint32_t> v; uint32_t id; };

struct Expr {
  uint8_t kind; uint8_t w; uint8_t hasFP; uint8_t hasMul;
  uint32_t id;
  Expr *a, *b, *c;
  uint64_t val;            // const value / sym id / extract offset / rounding mode
  uint64_t kz, ko;         // known-zero / known-one bits
  uint64_t lo, hi;         // unsigned range
  SymSet* syms;
  Expr* next;              // hash chain
  Z3_ast zbv, zbool, zfp;
  uint64_t evalV; uint32_t evalEpoch;
  uint32_t size;           // saturating tree size estimate
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t s = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ s) - s); }

struct SymInfo { std::string name; unsigned w; Expr* e; };
extern std::vector<SymInfo> gSyms;
extern uint64_t gNumExprs;

Expr* mkConst(uint64_t v, unsigned w);
Expr* mkSym(const std::string& name, unsigned w);   // hash-consed by name
Expr* mkBin(K k, Expr* a, Expr* b);                  // arithmetic/bitwise (same width)
Expr* mkCmp(K k, Expr* a, Expr* b);                  // -> width 1
Expr* mkIte(Expr* c, Expr* t, Expr* f);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* e, unsigned off, unsigned w);
Expr* mkZExt(Expr* e, unsigned w);
Expr* mkSExt(Expr* e, unsigned w);
Expr* mkNot(Expr* e);                                // bitwise not
Expr* mkF(K k, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, uint64_t val = 0);
static inline bool isC(const Expr* e) { return e->kind == K_CONST; }
static inline bool isTrue(const Expr* e) { return e->kind == K_CONST && e->val == 1; }
static inline bool isFalse(const Expr* e) { return e->kind == K_CONST && e->val == 0; }
static inline Expr* mkAnd1(Expr* a, Expr* b) { return mkBin(K_AND, a, b); }
static inline Expr* mkOr1(Expr* a, Expr* b) { return mkBin(K_OR, a, b); }

// Concrete semantics shared by the folder, the model evaluator and the interpreter.
uint64_t evalOp(K k, unsigned w, unsigned wa, uint64_t a, uint64_t b, uint64_t c, uint64_t val, unsigned wb = 0);

struct Model {
  std::vector<uint64_t> v;
  uint64_t get(uint32_t s) const { return s < v.size() ? v[s] : 0; }
  void set(uint32_t s, uint64_t x) { if (s >= v.size()) v.resize(std::max<size_t>(s + 1, gSyms.size()), 0); v[s] = x; }
};
uint64_t evalExpr(Expr* e, const Model& m);   // memoised per evalBegin()
void evalBegin();
SymSet* symUnion(SymSet* a, SymSet* b);
std::string exprStr(Expr* e, int depth = 6);
