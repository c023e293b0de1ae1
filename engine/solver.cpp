#include "solver.h"
#include "sat.h"
#include <chrono>
#include <functional>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/select.h>
#include <signal.h>
#include <fcntl.h>
#include <map>
SolverStats gSS; static uint64_t gXCheck = getenv("BSYM_XCHECK") ? atoi(getenv("BSYM_XCHECK")) : 200; double gHeavyTimeout = 120; bool gFpUF = false; std::string gTmpDir = "/tmp";
static Z3_context C; static Z3_solver S;
static size_t gAsserted = 0;
static std::unordered_map<Expr*, Z3_ast> gProxy;
static std::vector<Model> gRecent; static size_t gRecentPos = 0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static bool gZ3Err = false;
static void zerr(Z3_context c, Z3_error_code e) { gZ3Err = true; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

static bool gUfMode = false;
static std::map<std::pair<int,int>, Z3_func_decl> gUfDecl;

static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_sort bvs(unsigned w) { static Z3_sort s[65]; if (!s[w]) { s[w] = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, Z3_sort_to_ast(C, s[w])); } return s[w]; }
static Z3_sort fps(unsigned w) { static Z3_sort d, f; if (!d) { d = Z3_mk_fpa_sort_double(C); f = Z3_mk_fpa_sort_single(C); Z3_inc_ref(C, Z3_sort_to_ast(C, d)); Z3_inc_ref(C, Z3_sort_to_ast(C, f)); } return w == 64 ? d : f; }
static Z3_ast rm(int k) { static Z3_ast r[5]; if (!r[0]) { r[0] = keep(Z3_mk_fpa_rne(C)); r[1] = keep(Z3_mk_fpa_rtn(C)); r[2] = keep(Z3_mk_fpa_rtp(C)); r[3] = keep(Z3_mk_fpa_rtz(C)); r[4] = keep(Z3_mk_fpa_rna(C)); } return r[k]; }
static Z3_ast zBV(Expr* e); static Z3_ast zBool(Expr* e); static Z3_ast zFP(Expr* e);
static Z3_ast bvnum(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(C, v, bvs(w)); }

static std::vector<Expr*> gUfTouched; // exprs with cached asts built in UF mode
static Z3_ast ufApp(Expr* e) {
  int n = e->c ? 3 : e->b ? 2 : 1;
  auto key = std::make_pair((int)e->kind * 256 + (int)e->val, (int)e->w * 256 + (int)e->a->w);
  auto it = gUfDecl.find(key);
  if (it == gUfDecl.end()) {
    Z3_sort dom[3]; for (int i = 0; i < n; i++) dom[i] = bvs(e->a->w);
    std::string nm = "uf_" + std::to_string(key.first) + "_" + std::to_string(key.second);
    Z3_func_decl d = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, nm.c_str()), n, dom, bvs(e->w)); Z3_inc_ref(C, Z3_func_decl_to_ast(C, d));
    it = gUfDecl.emplace(key, d).first;
  }
  Z3_ast args[3] = {zBV(e->a), e->b ? zBV(e->b) : nullptr, e->c ? zBV(e->c) : nullptr};
  return Z3_mk_app(C, it->second, n, args);
}

static Z3_ast zBool(Expr* e) {
  if (e->zbool) return e->zbool;
  Z3_ast r;
  switch (e->kind) {
    case K_CONST: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K_AND: { Z3_ast x[2] = {zBool(e->a), zBool(e->b)}; r = Z3_mk_and(C, 2, x); break; }
    case K_OR: { Z3_ast x[2] = {zBool(e->a), zBool(e->b)}; r = Z3_mk_or(C, 2, x); break; }
    case K_XOR: r = isC(e->b) ? (e->b->val ? Z3_mk_not(C, zBool(e->a)) : zBool(e->a)) : Z3_mk_xor(C, zBool(e->a), zBool(e->b)); break;
    case K_EQ: r = Z3_mk_eq(C, zBV(e->a), zBV(e->b)); break;
    case K_ULT: r = Z3_mk_bvult(C, zBV(e->a), zBV(e->b)); break;
    case K_ULE: r = Z3_mk_bvule(C, zBV(e->a), zBV(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(C, zBV(e->a), zBV(e->b)); break;
    case K_SLE: r = Z3_mk_bvsle(C, zBV(e->a), zBV(e->b)); break;
    case K_ITE: r = Z3_mk_ite(C, zBool(e->a), zBool(e->b), zBool(e->c)); break;
    case K_FLT: if (gUfMode) { r = Z3_mk_eq(C, ufApp(e), bvnum(1, 1)); break; } r = Z3_mk_fpa_lt(C, zFP(e->a), zFP(e->b)); break;
    case K_FLE: if (gUfMode) { r = Z3_mk_eq(C, ufApp(e), bvnum(1, 1)); break; } r = Z3_mk_fpa_leq(C, zFP(e->a), zFP(e->b)); break;
    case K_FEQ: if (gUfMode) { r = Z3_mk_eq(C, ufApp(e), bvnum(1, 1)); break; } r = Z3_mk_fpa_eq(C, zFP(e->a), zFP(e->b)); break;
    default: r = Z3_mk_eq(C, zBV(e), bvnum(1, 1)); break;
  }
  if (gUfMode && e->hasFP) gUfTouched.push_back(e);
  return e->zbool = keep(r);
}
static Z3_ast zBV(Expr* e) {
  if (e->zbv) return e->zbv;
  Z3_ast r; unsigned w = e->w;
  if (gUfMode && e->kind >= K_FADD) { r = ufApp(e); gUfTouched.push_back(e); return e->zbv = keep(r); }
  switch (e->kind) {
    case K_CONST: r = bvnum(e->val, w); break;
    case K_SYM: r = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)e->val), bvs(w)); break;
    case K_ADD: r = Z3_mk_bvadd(C, zBV(e->a), zBV(e->b)); break;
    case K_SUB: r = Z3_mk_bvsub(C, zBV(e->a), zBV(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(C, zBV(e->a), zBV(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(C, zBV(e->a), zBV(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(C, zBV(e->a), zBV(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(C, zBV(e->a), zBV(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(C, zBV(e->a), zBV(e->b)); break;
    case K_AND: r = w == 1 ? nullptr : Z3_mk_bvand(C, zBV(e->a), zBV(e->b)); break;
    case K_OR: r = w == 1 ? nullptr : Z3_mk_bvor(C, zBV(e->a), zBV(e->b)); break;
    case K_XOR: r = w == 1 ? nullptr : Z3_mk_bvxor(C, zBV(e->a), zBV(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(C, zBV(e->a), zBV(e->b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(C, zBV(e->a), zBV(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(C, zBV(e->a), zBV(e->b)); break;
    case K_ITE: r = w == 1 ? nullptr : Z3_mk_ite(C, zBool(e->a), zBV(e->b), zBV(e->c)); break;
    case K_CONCAT: r = Z3_mk_concat(C, zBV(e->a), zBV(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(C, (unsigned)e->val + w - 1, (unsigned)e->val, zBV(e->a)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(C, w - e->a->w, zBV(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(C, w - e->a->w, zBV(e->a)); break;
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: case K_FSQRT: case K_FMA: case K_SI2F: case K_UI2F: case K_FEXT: case K_FTRUNC: case K_FRINT:
      r = Z3_mk_fpa_to_ieee_bv(C, zFP(e)); break;
    case K_F2SI: case K_F2UI: {
      // x86 cvtt semantics: "integer indefinite" when out of range.
      Z3_ast f = zFP(e->a); bool wide = w > 32 || (e->kind == K_F2UI && w == 32); unsigned cw = wide ? 64 : 32;
      double lim = wide ? 9223372036854775808.0 : 2147483648.0; unsigned fw = e->a->w;
      auto num = [&](double v) { return fw == 64 ? Z3_mk_fpa_numeral_double(C, v, fps(64)) : Z3_mk_fpa_numeral_float(C, (float)v, fps(32)); };
      double lo = wide ? -9223372036854775808.0 : (fw == 64 ? -2147483649.0 : -2147483648.0); // for 32-bit from double the valid range is (-2147483649, 2147483648)
      auto conv = [&](Z3_ast f) {
        Z3_ast c[2] = {Z3_mk_fpa_lt(C, f, num(lim)), (wide || fw == 32) ? Z3_mk_fpa_geq(C, f, num(lo)) : Z3_mk_fpa_gt(C, f, num(lo))};
        return Z3_mk_ite(C, Z3_mk_and(C, 2, c), Z3_mk_fpa_to_sbv(C, rm(3), f, cw), bvnum(1ull << (cw - 1), cw)); };
      r = conv(f);
      if (e->kind == K_F2UI && w == 64) r = Z3_mk_ite(C, Z3_mk_fpa_geq(C, f, num(lim)), Z3_mk_bvxor(C, conv(Z3_mk_fpa_sub(C, rm(0), f, num(lim))), bvnum(1ull << 63, 64)), r);
      if (cw != w) r = Z3_mk_extract(C, w - 1, 0, r);
      break;
    }
    default: r = nullptr; break;
  }
  if (!r || w == 1 && (e->kind == K_EQ || (e->kind >= K_ULT && e->kind <= K_SLE) || (e->kind >= K_FLT && e->kind <= K_FEQ)))
    r = Z3_mk_ite(C, zBool(e), bvnum(1, 1), bvnum(0, 1));
  if (gUfMode && e->hasFP) gUfTouched.push_back(e);
  return e->zbv = keep(r);
}
static Z3_ast zFP(Expr* e) {
  if (e->zfp) return e->zfp;
  Z3_ast r; 
  switch (e->kind) {
    case K_FADD: r = Z3_mk_fpa_add(C, rm(0), zFP(e->a), zFP(e->b)); break;
    case K_FSUB: r = Z3_mk_fpa_sub(C, rm(0), zFP(e->a), zFP(e->b)); break;
    case K_FMUL: r = Z3_mk_fpa_mul(C, rm(0), zFP(e->a), zFP(e->b)); break;
    case K_FDIV: r = Z3_mk_fpa_div(C, rm(0), zFP(e->a), zFP(e->b)); break;
    case K_FREM: r = Z3_mk_fpa_rem(C, zFP(e->a), zFP(e->b)); break;
    case K_FSQRT: r = Z3_mk_fpa_sqrt(C, rm(0), zFP(e->a)); break;
    case K_FMA: r = Z3_mk_fpa_fma(C, rm(0), zFP(e->a), zFP(e->b), zFP(e->c)); break;
    case K_SI2F: r = Z3_mk_fpa_to_fp_signed(C, rm(0), zBV(e->a), fps(e->w)); break;
    case K_UI2F: r = Z3_mk_fpa_to_fp_unsigned(C, rm(0), zBV(e->a), fps(e->w)); break;
    case K_FEXT: r = Z3_mk_fpa_to_fp_float(C, rm(0), zFP(e->a), fps(64)); break;
    case K_FTRUNC: r = Z3_mk_fpa_to_fp_float(C, rm(0), zFP(e->a), fps(32)); break;
    case K_FRINT: r = Z3_mk_fpa_round_to_integral(C, rm((int)e->val), zFP(e->a)); break;
    case K_ITE: r = Z3_mk_ite(C, zBool(e->a), zFP(e->b), zFP(e->c)); break;
    case K_XOR: if (isC(e->b) && e->b->val == 1ull << (e->w - 1)) { r = Z3_mk_fpa_neg(C, zFP(e->a)); break; } // fallthrough
    default: r = Z3_mk_fpa_to_fp_bv(C, zBV(e), fps(e->w)); break;
  }
  return e->zfp = keep(r);
}

static void newSolver() {
  if (S) Z3_solver_dec_ref(C, S);
  S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, S);
  gProxy.clear(); gAsserted = 0;
}
void solverInit() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg); Z3_set_error_handler(C, zerr);
  newSolver();
}
static void readModel(Z3_model m, SymSet* syms, Model* out) {
  Z3_model_inc_ref(C, m);
  for (uint32_t s : syms->v) {
    Z3_ast v = nullptr; 
    if (Z3_model_eval(C, m, zBV(gSyms[s].e), true, &v) && v) { uint64_t x = 0; Z3_inc_ref(C, v); if (Z3_get_numeral_uint64(C, v, &x)) out->set(s, x); Z3_dec_ref(C, v); }
  }
  Z3_model_dec_ref(C, m);
}

// ---- own bit-blaster to CNF (second, independent encoder; solved by kissat) ---------------------------------------
struct CNF {
  int nv = 1; std::vector<int> cl; // var 1 == true
  std::unordered_map<uint64_t, int> gates; std::unordered_map<Expr*, std::vector<int>> memo;
  bool ok = true;
  CNF() { cl = {1, 0}; }
  void add(std::initializer_list<int> l) { for (int x : l) cl.push_back(x); cl.push_back(0); }
  int nw() { return ++nv; }
  int AND(int a, int b) {
    if (a == -1 || b == -1 || a == -b) return -1; if (a == 1) return b; if (b == 1 || a == b) return a;
    if (a > b) std::swap(a, b); uint64_t k = ((uint64_t)(uint32_t)a << 32 | (uint32_t)b); auto it = gates.find(k); if (it != gates.end()) return it->second;
    int r = nw(); add({-r, a}); add({-r, b}); add({r, -a, -b}); return gates[k] = r;
  }
  int OR(int a, int b) { return -AND(-a, -b); }
  std::unordered_map<uint64_t, int> xg;
  int XOR(int a, int b) {
    if (a == 1) return -b; if (a == -1) return b; if (b == 1) return -a; if (b == -1) return a; if (a == b) return -1; if (a == -b) return 1;
    int s = 1; if (a < 0) { a = -a; s = -s; } if (b < 0) { b = -b; s = -s; } if (a > b) std::swap(a, b);
    uint64_t k = ((uint64_t)(uint32_t)a << 32 | (uint32_t)b); auto it = xg.find(k); if (it != xg.end()) return s * it->second;
    int r = nw(); add({-r, a, b}); add({-r, -a, -b}); add({r, -a, b}); add({r, a, -b}); xg[k] = r; return s * r;
  }
  int MUX(int c, int t, int f) {
    if (c == 1) return t; if (c == -1) return f; if (t == f) return t; if (t == 1) return OR(c, f); if (t == -1) return AND(-c, f); if (f == 1) return OR(-c, t); if (f == -1) return AND(c, t); if (t == -f) return XOR(-c, t);
    int r = nw(); add({-c, -t, r}); add({-c, t, -r}); add({c, -f, r}); add({c, f, -r}); add({-t, -f, r}); add({t, f, -r}); return r;
  }
  int MAJ(int a, int b, int c) {
    if (c == -1) return AND(a, b); if (c == 1) return OR(a, b); if (a == -1) return AND(b, c); if (a == 1) return OR(b, c); if (b == -1) return AND(a, c); if (b == 1) return OR(a, c);
    int r = nw(); add({-a, -b, r}); add({-a, -c, r}); add({-b, -c, r}); add({a, b, -r}); add({a, c, -r}); add({b, c, -r}); return r;
  }
  typedef std::vector<int> BV;
  BV addv(const BV& a, const BV& b, int cin, int* cout = nullptr) { BV r(a.size()); int c = cin; for (size_t i = 0; i < a.size(); i++) { int x = XOR(a[i], b[i]); r[i] = XOR(x, c); c = MAJ(a[i], b[i], c); } if (cout) *cout = c; return r; }
  BV neg(const BV& a) { BV r(a); for (int& x : r) x = -x; return r; }
  int ult(const BV& a, const BV& b) { int c; addv(a, neg(b), 1, &c); return -c; }
  int eqv(const BV& a, const BV& b) { int r = 1; for (size_t i = 0; i < a.size(); i++) r = AND(r, -XOR(a[i], b[i])); return r; }
  BV mulv(const BV& a, const BV& b) { size_t n = a.size(); BV r(n, -1);
    { bool cst = true; for (int x : b) cst &= x == 1 || x == -1;
      if (cst) { // constant multiplier: signed digits
        uint64_t k = 0; for (size_t i = 0; i < n; i++) if (b[i] == 1) k |= 1ull << i;
        for (size_t i = 0; i < n && k; i++, k >>= 1) { if (!(k & 1)) continue; bool neg1 = (k & 3) == 3 && (k >> 2 & 1); BV p(n, -1); for (size_t j = i; j < n; j++) p[j] = a[j - i]; if (neg1) { r = addv(r, neg(p), 1); k += 1; } else { r = addv(r, p, -1); k -= 1; } }
        return r; } } for (size_t i = 0; i < n; i++) { if (b[i] == -1) continue; BV p(n, -1); for (size_t j = i; j < n; j++) p[j] = AND(a[j - i], b[i]); r = addv(r, p, -1); } return r; }
  void divv(const BV& a, const BV& b, BV& q, BV& r) { // restoring
    size_t n = a.size(); q.assign(n, -1); r.assign(n + 1, -1); BV be(b); be.push_back(-1);
    for (size_t i = n; i-- > 0;) { for (size_t j = n; j > 0; j--) r[j] = r[j - 1]; r[0] = a[i]; int lt = ult(r, be); q[i] = -lt; BV s = addv(r, neg(be), 1); for (size_t j = 0; j <= n; j++) r[j] = MUX(lt, r[j], s[j]); }
    r.pop_back();
  }
  BV blast(Expr* e) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    BV r; unsigned w = e->w;
    if (e->kind == K_CONST) { for (unsigned i = 0; i < w; i++) r.push_back(e->val >> i & 1 ? 1 : -1); return r; }
    if (e->kind == K_SYM) { for (unsigned i = 0; i < w; i++) r.push_back(nw()); return memo[e] = r; }
    if (e->kind >= K_FADD) { ok = false; r.assign(w, 1); return r; }
    BV a = blast(e->a), b, c; if (e->b) b = blast(e->b); if (e->c) c = blast(e->c);
    switch (e->kind) {
      case K_ADD: r = addv(a, b, -1); break;
      case K_SUB: r = addv(a, neg(b), 1); break;
      case K_MUL: r = mulv(a, b); break;
      case K_UDIV: case K_UREM: { BV q, m; divv(a, b, q, m); r = e->kind == K_UDIV ? q : m; break; }
      case K_SDIV: case K_SREM: {
        int sa = a[w - 1], sb = b[w - 1]; BV z(w, -1);
        auto absv = [&](const BV& x, int s) { BV n = addv(neg(x), z, 1); BV o(w); for (unsigned i = 0; i < w; i++) o[i] = MUX(s, n[i], x[i]); return o; };
        BV q, m; divv(absv(a, sa), absv(b, sb), q, m);
        r = e->kind == K_SDIV ? absv(q, XOR(sa, sb)) : absv(m, sa); break;
      }
      case K_AND: for (unsigned i = 0; i < w; i++) r.push_back(AND(a[i], b[i])); break;
      case K_OR: for (unsigned i = 0; i < w; i++) r.push_back(OR(a[i], b[i])); break;
      case K_XOR: for (unsigned i = 0; i < w; i++) r.push_back(XOR(a[i], b[i])); break;
      case K_SHL: case K_LSHR: case K_ASHR: {
        r = a; int fill = e->kind == K_ASHR ? a[w - 1] : -1; unsigned lg = 0; while ((1u << lg) < w) lg++;
        for (unsigned s = 0; s < lg; s++) { BV t(w); for (unsigned i = 0; i < w; i++) { int src; if (e->kind == K_SHL) src = i >= (1u << s) ? r[i - (1u << s)] : -1; else src = i + (1u << s) < w ? r[i + (1u << s)] : fill; t[i] = MUX(b[s], src, r[i]); } r = t; }
        int big = -1; for (unsigned i = lg; i < w; i++) big = OR(big, b[i]);
        if ((1u << lg) != w) { BV k(w); for (unsigned i = 0; i < w; i++) k[i] = (w >> i & 1) ? 1 : -1; big = OR(big, -ult(b, k)); }
        for (unsigned i = 0; i < w; i++) r[i] = MUX(big, fill, r[i]); break;
      }
      case K_EQ: r.push_back(eqv(a, b)); break;
      case K_ULT: r.push_back(ult(a, b)); break;
      case K_ULE: r.push_back(-ult(b, a)); break;
      case K_SLT: case K_SLE: { a.back() = -a.back(); b.back() = -b.back(); r.push_back(e->kind == K_SLT ? ult(a, b) : -ult(b, a)); break; }
      case K_ITE: for (unsigned i = 0; i < w; i++) r.push_back(MUX(a[0], b[i], c[i])); break;
      case K_CONCAT: r = b; r.insert(r.end(), a.begin(), a.end()); break;
      case K_EXTRACT: r.assign(a.begin() + e->val, a.begin() + e->val + w); break;
      case K_ZEXT: r = a; r.resize(w, -1); break;
      case K_SEXT: r = a; r.resize(w, a.back()); break;
      default: ok = false; r.assign(w, 1);
    }
    return memo[e] = r;
  }
};
static const char* kissatPath() { static const char* p = access("/usr/local/bin/kissat", X_OK) == 0 ? "/usr/local/bin/kissat" : nullptr; return p; }

static void childKissat(const std::vector<Expr*>& cs, SymSet* syms, int fd) {
  CNF cnf; for (Expr* e : cs) { auto b = cnf.blast(e); if (!cnf.ok) _exit(1); cnf.add({b[0]}); }
  if (!cnf.ok) _exit(1);
  std::string f = gTmpDir + "/bsym." + std::to_string(getpid()) + ".cnf";
  FILE* o = fopen(f.c_str(), "w"); if (!o) _exit(1);
  size_t nc = 0; for (int x : cnf.cl) nc += x == 0; fprintf(o, "p cnf %d %zu\n", cnf.nv, nc);
  for (int x : cnf.cl) { if (x) fprintf(o, "%d ", x); else fputs("0\n", o); } fclose(o);
  std::string cmd = std::string("exec ") + kissatPath() + " -q " + f; 
  int pp[2]; if (pipe(pp)) _exit(1);
  pid_t p = fork();
  if (!p) { dup2(pp[1], 1); close(pp[0]); close(pp[1]); execl(kissatPath(), "kissat", "-q", f.c_str(), (char*)nullptr); _exit(1); }
  close(pp[1]); FILE* in = fdopen(pp[0], "r"); std::vector<int8_t> val(cnf.nv + 1, 0); int res = 2; char line[1 << 16];
  while (fgets(line, sizeof line, in)) { if (line[0] == 's') res = strstr(line, "UNSAT") ? 0 : strstr(line, "SATISFIABLE") ? 1 : 2; else if (line[0] == 'v') { char* t = line + 1; char* end; for (;;) { long x = strtol(t, &end, 10); if (end == t) break; t = end; if (x && labs(x) <= cnf.nv) val[labs(x)] = x > 0; } } }
  int st; waitpid(p, &st, 0); unlink(f.c_str());
  if (res == 2) _exit(1);
  std::string out; out.push_back((char)res);
  if (res == 1) for (uint32_t s : syms->v) { uint64_t x = 0; auto it = cnf.memo.find(gSyms[s].e); if (it != cnf.memo.end()) for (size_t i = 0; i < it->second.size(); i++) if (val[it->second[i]]) x |= 1ull << i; out.append((char*)&x, 8); }
  size_t off = 0; while (off < out.size()) { ssize_t n = write(fd, out.data() + off, out.size() - off); if (n <= 0) break; off += n; }
  _exit(0);
}
static void childZ3(const std::vector<Expr*>& cs, SymSet* syms, int fd, const char* tac, unsigned ms) {
  Z3_tactic t = Z3_mk_tactic(C, tac); Z3_tactic_inc_ref(C, t);
  Z3_solver s = Z3_mk_solver_from_tactic(C, t); Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, s, p);
  for (Expr* e : cs) Z3_solver_assert(C, s, zBool(e));
  Z3_lbool r = Z3_solver_check(C, s);
  if (r == Z3_L_UNDEF || gZ3Err) _exit(1);
  std::string out; out.push_back(r == Z3_L_TRUE ? 1 : 0);
  if (r == Z3_L_TRUE) { Model m; readModel(Z3_solver_get_model(C, s), syms, &m); for (uint32_t y : syms->v) { uint64_t x = m.get(y); out.append((char*)&x, 8); } }
  size_t off = 0; while (off < out.size()) { ssize_t n = write(fd, out.data() + off, out.size() - off); if (n <= 0) break; off += n; }
  _exit(0);
}
static void childCvc5(const std::vector<Expr*>& cs, SymSet* syms, int fd, unsigned ms, bool asInt) {
  std::vector<Z3_ast> as; for (Expr* e : cs) as.push_back(zBool(e));
  bool fp = false; for (Expr* e : cs) fp |= e->hasFP;
  Z3_set_ast_print_mode(C, Z3_PRINT_SMTLIB2_COMPLIANT);
  Z3_ast all = as.size() == 1 ? as[0] : Z3_mk_and(C, (unsigned)as.size(), as.data());
  std::string body = Z3_benchmark_to_smtlib_string(C, "q", fp ? "QF_BVFP" : "QF_BV", "unknown", "", 0, nullptr, all);
  std::string f = gTmpDir + "/bsym." + std::to_string(getpid()) + ".smt2";
  FILE* o = fopen(f.c_str(), "w"); if (!o) _exit(1); fputs(body.c_str(), o); fclose(o);
  int pp[2]; if (pipe(pp)) _exit(1); pid_t p = fork();
  std::string tl = "--tlimit=" + std::to_string(ms);
  if (!p) { dup2(pp[1], 1); dup2(pp[1], 2); close(pp[0]); close(pp[1]); if (asInt) execlp("cvc5", "cvc5", "--solve-bv-as-int=sum", tl.c_str(), f.c_str(), (char*)nullptr); else execlp("cvc5", "cvc5", tl.c_str(), f.c_str(), (char*)nullptr); _exit(1); }
  close(pp[1]); FILE* in = fdopen(pp[0], "r"); char line[4096]; int res = 2; while (fgets(line, sizeof line, in)) { if (!strncmp(line, "unsat", 5)) res = 0; if (!strncmp(line, "(error", 6)) { res = 2; break; } }
  int st; waitpid(p, &st, 0); unlink(f.c_str());
  if (res != 0) _exit(1); // only unsat answers are used from here
  char z = 0; if (write(fd, &z, 1) != 1) _exit(1); _exit(0);
}

static Res portfolio(const std::vector<Expr*>& cs, SymSet* syms, Model* out, bool fp) {
  double t0 = now(); gSS.heavy++;
  struct Ch { pid_t p; int fd; std::string buf; bool done = false; }; std::vector<Ch> ch;
  unsigned ms = (unsigned)(gHeavyTimeout * 1000);
  auto spawn = [&](const std::function<void(int)>& f) {
    int pp[2]; if (pipe(pp)) return; fflush(nullptr);
    pid_t p = fork();
    if (!p) { setpgid(0, 0); close(pp[0]); f(pp[1]); _exit(1); }
    setpgid(p, p); close(pp[1]); ch.push_back({p, pp[0]});
  };
  spawn([&](int fd) { childZ3(cs, syms, fd, fp ? "qffpbv" : "qfbv", ms); });
  if (!fp && kissatPath()) spawn([&](int fd) { childKissat(cs, syms, fd); });
  bool mul = false; for (Expr* e : cs) mul |= e->size > 0; (void)mul;
  spawn([&](int fd) { childCvc5(cs, syms, fd, ms, false); });
  Res res = R_UNKNOWN; size_t live = ch.size();
  while (live && res == R_UNKNOWN) {
    double left = gHeavyTimeout - (now() - t0); if (left <= 0) break;
    fd_set fs; FD_ZERO(&fs); int mx = 0; for (auto& c : ch) if (!c.done) { FD_SET(c.fd, &fs); mx = std::max(mx, c.fd); }
    struct timeval tv{(long)left, (long)((left - (long)left) * 1e6)}; int n = select(mx + 1, &fs, nullptr, nullptr, &tv); if (n <= 0) break;
    for (auto& c : ch) if (!c.done && FD_ISSET(c.fd, &fs)) {
      char b[65536]; ssize_t k = read(c.fd, b, sizeof b);
      if (k > 0) { c.buf.append(b, k); continue; }
      c.done = true; live--;
      if (c.buf.empty()) continue;
      if (c.buf[0] == 0) { res = R_UNSAT; break; }
      if (c.buf[0] == 1 && c.buf.size() == 1 + 8 * syms->v.size()) { for (size_t i = 0; i < syms->v.size(); i++) { uint64_t x; memcpy(&x, c.buf.data() + 1 + 8 * i, 8); out->set(syms->v[i], x); } res = R_SAT; break; }
    }
  }
  for (auto& c : ch) { kill(-c.p, SIGKILL); kill(c.p, SIGKILL); int st; waitpid(c.p, &st, 0); close(c.fd); 
    unlink((gTmpDir + "/bsym." + std::to_string(c.p) + ".cnf").c_str()); unlink((gTmpDir + "/bsym." + std::to_string(c.p) + ".smt2").c_str()); }
  gSS.heavyTime += now() - t0;
  return res;
}

struct CacheEnt { Res r; Model m; };
static std::unordered_map<std::string, CacheEnt> gCache;

static Res incremental(const std::vector<Expr*>& cs, SymSet* syms, Model* out, unsigned ms) {
  if (gAsserted > 2000) newSolver();
  std::vector<Z3_ast> as;
  for (Expr* e : cs) {
    auto it = gProxy.find(e);
    if (it == gProxy.end()) {
      Z3_ast p = keep(Z3_mk_fresh_const(C, "p", Z3_mk_bool_sort(C)));
      Z3_ast x[2] = {Z3_mk_not(C, p), zBool(e)};
      Z3_solver_assert(C, S, Z3_mk_or(C, 2, x)); gAsserted++;
      it = gProxy.emplace(e, p).first;
    }
    as.push_back(it->second);
  }
  static unsigned curMs = 0;
  if (curMs != ms || gAsserted <= cs.size()) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p); curMs = ms; }
  gSS.z3Calls++;
  Z3_lbool r = Z3_solver_check_assumptions(C, S, (unsigned)as.size(), as.data());
  if (r == Z3_L_FALSE) return R_UNSAT;
  if (r == Z3_L_TRUE) { readModel(Z3_solver_get_model(C, S), syms, out); return R_SAT; }
  gZ3Err = false;
  newSolver();
  return R_UNKNOWN;
}
// first stage: own bit-blaster + CDCL; a sample of its unsat verdicts is re-decided by z3
static Res ownSat(const std::vector<Expr*>& cs, SymSet* syms, Model* out) {
  CNF cnf; size_t nodes = 0; for (Expr* e : cs) { nodes += e->size; if (e->hasFP) return R_UNKNOWN; }
  for (Expr* e : cs) { auto b = cnf.blast(e); if (!cnf.ok || cnf.nv > 60000) return R_UNKNOWN; cnf.add({b[0]}); }
  Sat sat(cnf.nv); const int* b = cnf.cl.data(); const int* e = b + cnf.cl.size();
  while (b < e) { const int* q = b; while (*q) q++; sat.addClause(b, q); b = q + 1; }
  gSS.ownCalls++;
  int r = sat.solve(4000);
  if (r < 0) return R_UNKNOWN;
  if (r == 0) return R_UNSAT;
  for (uint32_t s : syms->v) { uint64_t x = 0; auto it = cnf.memo.find(gSyms[s].e); if (it != cnf.memo.end()) for (size_t i = 0; i < it->second.size(); i++) if (sat.val[it->second[i]] > 0) x |= 1ull << i; out->set(s, x); }
  return R_SAT;
}
// arithmetic-heavy queries: a fresh solver each (an incremental one would carry the circuits of all earlier queries)
static Res oneShot(const std::vector<Expr*>& cs, SymSet* syms, Model* out, unsigned ms) {
  static Z3_tactic t = nullptr; static Z3_params p = nullptr; static unsigned pms = 0;
  if (!t) { const char* n = getenv("BSYM_TAC"); t = Z3_mk_tactic(C, n ? n : "qfbv"); Z3_tactic_inc_ref(C, t); }
  Z3_solver s = Z3_mk_solver_from_tactic(C, t); Z3_solver_inc_ref(C, s);
  if (!p || pms != ms) { p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); pms = ms; }
  Z3_solver_set_params(C, s, p);
  for (Expr* e : cs) Z3_solver_assert(C, s, zBool(e));
  gSS.z3Calls++;
  Z3_lbool r = Z3_solver_check(C, s); Res res = r == Z3_L_FALSE ? R_UNSAT : r == Z3_L_TRUE ? R_SAT : R_UNKNOWN;
  if (gZ3Err) res = R_UNKNOWN; gZ3Err = false;
  if (res == R_SAT) readModel(Z3_solver_get_model(C, s), syms, out);
  Z3_solver_dec_ref(C, s);
  return res;
}
static Res fpCheck(const std::vector<Expr*>& cs, SymSet* syms, Model* out, unsigned ms, bool uf) {
  gSS.fpQueries++; gSS.z3Calls++;
  if (uf) gUfMode = true;
  Z3_solver s;
  if (uf) s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_UFBV"));
  else { Z3_tactic t = Z3_mk_tactic(C, "qffpbv"); Z3_tactic_inc_ref(C, t); s = Z3_mk_solver_from_tactic(C, t); Z3_tactic_dec_ref(C, t); }
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  std::vector<std::pair<Expr*, Z3_ast>> savedB;
  if (uf) { // drop caches that were built precisely
    std::unordered_set<Expr*> seen; std::vector<Expr*> st(cs.begin(), cs.end());
    while (!st.empty()) { Expr* e = st.back(); st.pop_back(); if (!e || !e->hasFP || !seen.insert(e).second) continue; e->zbv = e->zbool = nullptr; st.push_back(e->a); st.push_back(e->b); st.push_back(e->c); }
  }
  for (Expr* e : cs) Z3_solver_assert(C, s, zBool(e));
  Z3_lbool r = Z3_solver_check(C, s); Res res = r == Z3_L_FALSE ? R_UNSAT : r == Z3_L_TRUE ? R_SAT : R_UNKNOWN; gZ3Err = false;
  if (uf) { gUfMode = false; for (Expr* e : gUfTouched) e->zbv = e->zbool = nullptr; gUfTouched.clear(); if (res == R_SAT) res = R_UNKNOWN; }
  else if (res == R_SAT) readModel(Z3_solver_get_model(C, s), syms, out);
  Z3_solver_dec_ref(C, s);
  return res;
}

static bool modelSat(const std::vector<Expr*>& sl, const Model& m) { evalBegin(); for (Expr* e : sl) if (!evalExpr(e, m)) return false; return true; }

// Proof by cut points: an equality a == b is valid if it is valid after the subterms that both sides share are replaced by fresh
// variables. Cut symbols are numbered in discovery order, so that repeated instances of one identity share a cache entry.
struct CutRewriter {
  std::unordered_map<Expr*, Expr*> memo; std::unordered_set<Expr*>* other; std::unordered_set<Expr*>* mine; unsigned maxW; int nCut = 0; bool bad = false; int budget = 30000;
  Expr* go(Expr* e) {
    if (isC(e) || bad) return e; auto it = memo.find(e); if (it != memo.end()) return it->second; if (--budget < 0 || e->hasFP) { bad = true; return e; }
    Expr* r;
    if (e->w > 1 && e->w <= maxW && other->count(e) && mine->count(e)) { char nm[40]; snprintf(nm, sizeof nm, "?cut%d.%u", nCut++, e->w); r = mkSym(nm, e->w); }
    else {
      Expr *a = e->a ? go(e->a) : nullptr, *b = e->b ? go(e->b) : nullptr, *c = e->c ? go(e->c) : nullptr; if (bad) return e;
      switch (e->kind) {
        case K_SYM: r = e; break;
        case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: r = mkCmp((K)e->kind, a, b); break;
        case K_ITE: r = mkIte(a, b, c); break; case K_CONCAT: r = mkConcat(a, b); break; case K_EXTRACT: r = mkExtract(a, e->val, e->w); break;
        case K_ZEXT: r = mkZExt(a, e->w); break; case K_SEXT: r = mkSExt(a, e->w); break;
        default: if (e->kind >= K_ADD && e->kind <= K_ASHR) r = mkBin((K)e->kind, a, b); else { bad = true; return e; }
      }
    }
    return memo[e] = r;
  }
};
static void reachSet(Expr* e, std::unordered_set<Expr*>& s) { std::vector<Expr*> st{e}; while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (isC(x) || !s.insert(x).second || s.size() > 30000) continue; if (x->a) st.push_back(x->a); if (x->b) st.push_back(x->b); if (x->c) st.push_back(x->c); } }
static bool proveByCuts(Expr* eq) { // eq: K_EQ over w > 1
  std::unordered_set<Expr*> ra, rb; reachSet(eq->a, ra); reachSet(eq->b, rb); if (ra.size() > 30000 || rb.size() > 30000) return false;
  for (unsigned maxW : {8u, 64u}) {
    CutRewriter r; r.other = &rb; r.mine = &ra; r.maxW = maxW; Expr* a = r.go(eq->a); Expr* b = r.bad ? a : r.go(eq->b); if (r.bad || !r.nCut) return false;
    Expr* n = mkNot(mkCmp(K_EQ, a, b)); if (isFalse(n)) return true; if (isTrue(n)) continue;
    std::vector<Expr*> sl{n}; std::string key((char*)&n->id, 4); auto it = gCache.find(key); Res res; Model m;
    if (it != gCache.end()) res = it->second.r; else { res = ownSat(sl, n->syms, &m); if (res == R_UNKNOWN) res = oneShot(sl, n->syms, &m, maxW == 8 ? 15000 : 3000); if (res != R_SAT || modelSat(sl, m)) gCache[key] = {res, m}; }
    static int dq = getenv("BSYM_DUMPCUT") ? atoi(getenv("BSYM_DUMPCUT")) : 0; if (dq-- > 0) fprintf(stderr, "CUT maxW=%u res=%d %s\n", maxW, res, exprStr(n, 40).c_str());
    if (res == R_UNSAT) return true;
  }
  return false;
}
static bool proveNeg(Expr* x, int& budget) { // is x (a conjunction of equalities) valid?
  if (isTrue(x)) return true; if (--budget < 0) return false;
  if (x->kind == K_AND && x->w == 1) return proveNeg(x->a, budget) && proveNeg(x->b, budget);
  if (x->kind == K_EQ && x->a->w > 1 && !isC(x->b) && x->size > 12) return proveByCuts(x);
  return false;
}
Res solverCheck(const std::vector<Expr*>& cs, Expr* extra, const Model& base, Model* out, bool heavy) {
  if (isFalse(extra)) return R_UNSAT;
  gSS.queries++;
  double t0 = now();
  // slice
  std::vector<Expr*> sl; SymSet* syms = extra->syms; 
  {
    std::vector<char> used(cs.size(), 0); bool ch = true; std::vector<bool> in(gSyms.size(), false);
    std::vector<uint32_t> q(syms->v); for (auto s : q) in[s] = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < cs.size(); i++) if (!used[i]) {
        bool hit = false; for (auto s : cs[i]->syms->v) if (in[s]) { hit = true; break; }
        if (hit) { used[i] = 1; ch = true; for (auto s : cs[i]->syms->v) in[s] = true; syms = symUnion(syms, cs[i]->syms); }
      }
    }
    for (size_t i = 0; i < cs.size(); i++) if (used[i]) sl.push_back(cs[i]);
  }
  if (!isTrue(extra)) sl.push_back(extra);
  std::sort(sl.begin(), sl.end(), [](Expr* a, Expr* b) { return a->id < b->id; }); sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
  std::string key; key.reserve(sl.size() * 4); for (Expr* e : sl) key.append((char*)&e->id, 4);
  auto finish = [&](Res r, const Model* m) {
    if (r == R_SAT) { gSS.sat++; if (out) { Model res = base; if (res.v.size() < gSyms.size()) res.v.resize(gSyms.size(), 0); for (uint32_t s : syms->v) res.set(s, m->get(s)); *out = std::move(res); } }
    else if (r == R_UNSAT) gSS.unsat++; else gSS.unknown++;
    double dt = now() - t0; gSS.time += dt; static double slow = getenv("BSYM_SLOW") ? atof(getenv("BSYM_SLOW")) : 1e9; if (dt > slow) { fprintf(stderr, "bsym: SLOW %.1fs res=%d n=%zu %s\n", dt, (int)r, sl.size(), exprStr(extra, 7).c_str()); if (getenv("BSYM_SLOWALL")) for (Expr* e : sl) fprintf(stderr, "   & %s\n", exprStr(e, 40).c_str()); }
    return r;
  };
  auto it = gCache.find(key);
  if (it != gCache.end()) { gSS.cacheHits++; return finish(it->second.r, &it->second.m); }
  if (modelSat(sl, base)) { gSS.modelHits++; return finish(R_SAT, &base); }
  for (size_t i = 0; i < gRecent.size(); i++) { Model& m = gRecent[(gRecentPos + gRecent.size() - 1 - i) % gRecent.size()]; if (modelSat(sl, m)) { gSS.modelHits++; Model c = m; return finish(R_SAT, &c); } }
  bool fp = false; for (Expr* e : sl) fp |= e->hasFP;
  Model m; Res r = R_UNKNOWN;
  if (!fp && extra->kind == K_XOR && extra->w == 1 && isC(extra->b)) { int bud = 200; if (proveNeg(extra->a, bud)) { gSS.cuts++; gCache[key] = {R_UNSAT, m}; return finish(R_UNSAT, &m); } }
  if (fp) {
    if (gFpUF) r = fpCheck(sl, syms, &m, 3000, true);
    if (r == R_UNKNOWN) r = fpCheck(sl, syms, &m, 3000, false);
  } else { bool mul = false; for (Expr* e : sl) mul |= e->hasMul; static int oo = getenv("BSYM_OWN") ? atoi(getenv("BSYM_OWN")) : 2; r = (oo == 2 || (oo == 1 && mul)) ? ownSat(sl, syms, &m) : R_UNKNOWN; gSS.own += r != R_UNKNOWN;
    if (r == R_UNSAT && ++gSS.ownUnsat % gXCheck == 0) { Model t; Res z = oneShot(sl, syms, &t, 3000); gSS.xcheck++; if (z == R_SAT) { fprintf(stderr, "bsym: SOLVER DISAGREEMENT (own unsat, z3 sat)\n"); gSS.disagree++; r = R_SAT; m = t; } }
    if (r == R_UNKNOWN) r = mul ? oneShot(sl, syms, &m, 3000) : incremental(sl, syms, &m, 2000); }
  if (r == R_UNKNOWN && heavy) r = portfolio(sl, syms, &m, fp);
  if (r == R_SAT && !modelSat(sl, m)) {
    static int w = 0; if (w++ < 5) fprintf(stderr, "bsym: solver model does not evaluate to true%s\n", fp ? " (fp)" : "");
    r = R_UNKNOWN;
  }
  if (r != R_UNKNOWN) gCache[key] = {r, m};
  if (r == R_SAT) { if (gRecent.size() < 12) gRecent.push_back(m); else gRecent[gRecentPos % 12] = m; gRecentPos++; if (gRecent.size() == 12) gRecentPos %= 12; }
  return finish(r, &m);
}
