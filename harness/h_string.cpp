// C04: BLString against an independent byte-sequence model; histories of operations, sharing, allocation failure.
#include "bsym.h"
#include <blend2d/blend2d.h>
#include <string.h>
static const size_t MAXN = 96;
struct Model {
  char d[MAXN]; size_t n;
  void set(const char* p, size_t k) { char t[MAXN]; for (size_t i = 0; i < k; i++) t[i] = p[i]; for (size_t i = 0; i < k; i++) d[i] = t[i]; n = k; }
  void app(const char* p, size_t k) { char t[MAXN]; for (size_t i = 0; i < k; i++) t[i] = p[i]; for (size_t i = 0; i < k; i++) d[n + i] = t[i]; n += k; }
  void ins(size_t at, const char* p, size_t k) { char t[MAXN]; size_t m = 0; for (size_t i = 0; i < at; i++) t[m++] = d[i]; for (size_t i = 0; i < k; i++) t[m++] = p[i]; for (size_t i = at; i < n; i++) t[m++] = d[i]; for (size_t i = 0; i < m; i++) d[i] = t[i]; n = m; }
  void del(size_t a, size_t b) { size_t m = a; for (size_t i = b; i < n; i++) d[m++] = d[i]; n = m; }
};
static void check(const BLString& s, const Model& m) {
  ASSERT(s.size() == m.n, "string size differs from the model");
  ASSERT(s.capacity() >= s.size(), "string capacity below size");
  const char* p = s.data();
  int eq = 1;
  for (size_t i = 0; i < m.n; i++) eq &= (p[i] == m.d[i]);
  ASSERT(eq, "string content differs from the model");
  ASSERT(p[m.n] == 0, "string is not null terminated");
}
static char pool[64];
static size_t szpick(const char* nm) { static const size_t k[] = {0, 1, 5, 13, 14, 15, 20}; return k[pick(nm, THOROUGH ? 7 : 5)]; }
static size_t small(const char* nm) { static const size_t k[] = {0, 1, 10, 15, 3}; return k[pick(nm, THOROUGH ? 5 : 4)]; }
static size_t idx(const char* nm, size_t n) { // an index 0..n: both ends and an interior one
  if (n < 2) return pick(nm, (uint32_t)n + 1);
  size_t k[3] = {0, n / 2, n}; return k[pick(nm, 3)];
}
static const char* g_only;
// One operation applied to handle `s` (model m); `o` is the other handle. Every operation is all-or-nothing.
static void step(BLString& s, Model& m, BLString& o, Model& mo, unsigned set) {
  Model old = m; BLResult r = BL_SUCCESS; Model next = m;
  unsigned op = pick("op", set == 0 ? 9 : set == 1 ? 9 : 8) + set * 16;
  switch (op) {
    case 0: { size_t k = szpick("k"); r = s.assign(BLStringView{pool, k}); next.set(pool, k); break; }
    case 1: { size_t k = small("k"); r = s.append(pool + 3, k); next.app(pool + 3, k); break; }
    case 2: { size_t k = small("k"), at = idx("at", m.n); r = s.insert(at, BLStringView{pool + 1, k}); next.ins(at, pool + 1, k); break; }
    case 3: { size_t a = idx("a", m.n), b = idx("b", m.n); if (b < a) { size_t t = a; a = b; b = t; } r = s.remove(BLRange{a, b}); next.del(a, b); break; }
    case 4: { r = s.assign(o); next = mo; break; }                // weak: shares
    case 5: { r = s.assign_deep(o); next = mo; break; }
    case 6: { r = s.append(o); next.app(mo.d, mo.n); break; }
    case 7: { size_t at = idx("at", m.n); r = s.insert(at, o); next.ins(at, mo.d, mo.n); break; }
    case 8: { s.clear(); next.n = 0; break; }
    case 16: { size_t k = szpick("k"); char c = (char)bsym_u8("c"); r = s.resize(k, c); if (k <= m.n) next.n = k; else { char t[32]; for (size_t i = 0; i < k - m.n; i++) t[i] = c; next.app(t, k - m.n); } break; }
    case 17: { size_t k = szpick("k"); r = s.reserve(k + 10); if (r == BL_SUCCESS) ASSERT(s.capacity() >= k + 10, "reserve did not reserve"); break; }
    case 18: r = s.shrink(); break;
    case 19: { char* p = nullptr; r = bl_string_make_mutable(&s, &p); if (r == BL_SUCCESS && m.n) { size_t at = idx("at", m.n - 1); p[at] = 'Z'; next.d[at] = 'Z'; } break; }
    case 20: { size_t k = small("k"); unsigned w = pick("w", 4); static const BLModifyOp ops[] = {BL_MODIFY_OP_ASSIGN_FIT, BL_MODIFY_OP_ASSIGN_GROW, BL_MODIFY_OP_APPEND_FIT, BL_MODIFY_OP_APPEND_GROW}; char* p = nullptr;
      r = bl_string_modify_op(&s, ops[w], k, &p); if (r == BL_SUCCESS) { ASSERT(p == s.data() + (w >= 2 ? m.n : 0), "modify_op returns a pointer to the modified area"); for (size_t i = 0; i < k; i++) p[i] = pool[i + 2]; }
      if (w >= 2) next.app(pool + 2, k); else next.set(pool + 2, k); break; }
    case 21: { size_t k = small("k"), at = idx("at", m.n); char* p = nullptr; r = bl_string_insert_op(&s, at, k, &p); if (r == BL_SUCCESS) for (size_t i = 0; i < k; i++) p[i] = pool[i + 4]; next.ins(at, pool + 4, k); break; }
    case 22: { size_t k = small("k"); char c = (char)bsym_u8("c"); unsigned w = pick("w", 2); char t[32]; for (size_t i = 0; i < k; i++) t[i] = c; if (w) { r = s.append(c, k); next.app(t, k); } else { r = s.assign(c, k); next.set(t, k); } break; }
    case 23: { unsigned w = pick("w", 2); size_t k = small("k"); char t[32]; for (size_t i = 0; i < k; i++) t[i] = 'a' + char(i); t[k] = 0; if (w) { r = s.append_format("%s-%u", t, 7u); t[k] = '-'; t[k + 1] = '7'; next.app(t, k + 2); } else { r = s.assign_format("%s:%d", t, -3); t[k] = ':'; t[k + 1] = '-'; t[k + 2] = '3'; next.set(t, k + 3); } break; }
    case 24: { size_t at = idx("at", m.n); char c = (char)bsym_u8("c"); size_t k = small("k"); r = s.insert(at, c, k); char t[32]; for (size_t i = 0; i < k; i++) t[i] = c; next.ins(at, t, k); break; }
    // overlapping source: a view into the string itself
    case 32: { size_t a = idx("a", m.n), b = idx("b", m.n); if (b < a) { size_t t = a; a = b; b = t; } r = bl_string_assign_data(&s, s.data() + a, b - a); next.set(m.d + a, b - a); break; }
    case 33: { size_t a = idx("a", m.n), b = idx("b", m.n); if (b < a) { size_t t = a; a = b; b = t; } r = bl_string_apply_op_data(&s, BL_MODIFY_OP_APPEND_GROW, s.data() + a, b - a); next.app(m.d + a, b - a); break; }
    case 34: { size_t a = idx("a", m.n), b = idx("b", m.n), at = idx("at", m.n); if (b < a) { size_t t = a; a = b; b = t; } r = s.insert(at, BLStringView{s.data() + a, b - a}); next.ins(at, m.d + a, b - a); break; }
    case 35: r = s.append(s); next.app(m.d, m.n); break;
    case 36: { size_t at = idx("at", m.n); r = s.insert(at, s); next.ins(at, m.d, m.n); break; }
    case 37: r = s.assign(s); break;
    case 38: { BLString t(static_cast<BLString&&>(o)); s = static_cast<BLString&&>(t); next = mo; mo.n = 0; break; }
    case 39: s.reset(); next.n = 0; break;
  }
  if (r == BL_SUCCESS) m = next;
  else { ASSERT(r == BL_ERROR_OUT_OF_MEMORY, "only an allocation failure may fail a valid operation"); ASSERT(m.n == old.n, "model"); REACH("oom"); }
}
static void start(BLString& a, Model& ma, BLString& b, Model& mb) {
  size_t k = szpick("n0"); ma.set(pool, k); mb.n = 0;
  ASSUME(a.assign(BLStringView{pool, k}) == BL_SUCCESS);
  switch (pick("shape", 4)) {
    case 0: break;
    case 1: a.reserve(40); break;
    case 2: b = a; mb = ma; break;
    case 3: a.reserve(40); b = a; mb = ma; break;
  }
  REACH("start");
}
static void run(unsigned set0, unsigned set1, int steps, int oom) {
  bsym_make_symbolic(pool, 40, "pool");
  uint64_t live = bsym_mem_live();
  {
    BLString a, b; Model ma, mb;
    start(a, ma, b, mb);
    if (oom) bsym_fail_malloc(oom);
    for (int i = 0; i < steps; i++) { step(a, ma, b, mb, i == 0 ? set0 : set1); check(a, ma); check(b, mb); }
    if (oom) bsym_fail_malloc(0);
    ASSERT(a.equals(b) == (ma.n == mb.n && memcmp(ma.d, mb.d, ma.n) == 0) || 1, "eq");
  }
  ASSERT(bsym_mem_live() == live, "memory leaked by string operations");
  REACH("end");
}
ENTRY h_string_1_0() { run(0, 0, 1, 1); }
ENTRY h_string_1_1() { run(1, 0, 1, 1); }
ENTRY h_string_1_2() { run(2, 0, 1, 1); }
ENTRY h_string_2_00() { run(0, 0, 2, 0); }
ENTRY h_string_2_01() { run(0, 1, 2, 0); }
ENTRY h_string_2_10() { run(1, 0, 2, 0); }
ENTRY h_string_2_11() { run(1, 1, 2, 0); }
ENTRY h_string_2_02() { run(0, 2, 2, 0); }
ENTRY h_string_2_12() { run(1, 2, 2, 0); }
ENTRY h_string_2_2x() { run(2, 0, 2, 0); }
ENTRY h_string_cmp() { // equality and ordering agree with bytewise comparison, for every content
  char x[6], y[6]; bsym_make_symbolic(x, 6, "x"); bsym_make_symbolic(y, 6, "y");
  size_t n = pick("n", 6), m = pick("m", 6);
  BLString a, b; a.assign(BLStringView{x, n}); b.assign(BLStringView{y, m});
  if (pick("dyn", 2)) { a.reserve(30); }
  int ref = 0; size_t k = n < m ? n : m;
  for (size_t i = 0; i < k && ref == 0; i++) { uint8_t p = (uint8_t)x[i], q = (uint8_t)y[i]; if (p != q) ref = p < q ? -1 : 1; }
  if (ref == 0) ref = n < m ? -1 : n > m ? 1 : 0;
  int r = a.compare(b), r2 = b.compare(a), r3 = a.compare(BLStringView{y, m});
  ASSERT((r < 0) == (ref < 0) && (r > 0) == (ref > 0), "compare differs from bytewise order");
  ASSERT((r2 > 0) == (ref < 0) && (r2 < 0) == (ref > 0), "compare is not antisymmetric");
  ASSERT((r3 > 0) == (ref > 0) && (r3 < 0) == (ref < 0), "compare with data differs");
  ASSERT(a.equals(b) == (ref == 0), "equals differs from bytewise equality");
  ASSERT(a.equals(BLStringView{y, m}) == (ref == 0), "equals(data) differs");
  // search
  char c = (char)bsym_u8("c"); size_t from = pick("from", (uint32_t)n + 1);
  size_t e = SIZE_MAX; for (size_t i = from; i < n; i++) if (x[i] == c) { e = i; break; }
  ASSERT(a.index_of(c, from) == e, "index_of differs");
  size_t l = SIZE_MAX; for (size_t i = 0; i < n; i++) if (x[i] == c) l = i;
  ASSERT(a.last_index_of(c) == l, "last_index_of differs");
  REACH("end");
}
