// C05: BLArray<T> against an independent sequence model: histories, sharing, external data, OOM, object items.
#include "bsym.h"
#include <blend2d/blend2d.h>
static const size_t MAXN = 80;
template <typename T> struct Model {
  T d[MAXN]; size_t n;
  void set(const T* p, size_t k) { T t[MAXN]; for (size_t i = 0; i < k; i++) t[i] = p[i]; for (size_t i = 0; i < k; i++) d[i] = t[i]; n = k; }
  void rep(size_t a, size_t b, const T* p, size_t k) { T t[MAXN]; size_t m = 0; for (size_t i = 0; i < a; i++) t[m++] = d[i]; for (size_t i = 0; i < k; i++) t[m++] = p[i]; for (size_t i = b; i < n; i++) t[m++] = d[i]; for (size_t i = 0; i < m; i++) d[i] = t[i]; n = m; }
  void ins(size_t at, const T* p, size_t k) { rep(at, at, p, k); }
  void del(size_t a, size_t b) { rep(a, b, p0(), 0); }
  static const T* p0() { static const T z{}; return &z; }
};
struct S16 { uint64_t a, b; bool operator==(const S16& o) const { return a == o.a && b == o.b; } };
template <typename T> static bool same(const T& a, const T& b) { return a == b; }
static bool same(const double& a, const double& b) { return __builtin_bit_cast(uint64_t, a) == __builtin_bit_cast(uint64_t, b); }
template <typename T> static void check(const BLArray<T>& s, const Model<T>& m) {
  ASSERT(s.size() == m.n, "array size differs from the model");
  ASSERT(s.capacity() >= s.size(), "array capacity below size");
  const T* p = s.data(); int eq = 1;
  for (size_t i = 0; i < m.n; i++) eq &= same(p[i], m.d[i]);
  ASSERT(eq, "array content differs from the model");
}
static size_t idx(const char* nm, size_t n) { if (n < 2) return pick(nm, (uint32_t)n + 1); size_t k[3] = {0, n / 2, n}; return k[pick(nm, 3)]; }
template <typename T> struct Cfg { static const size_t cap = 16 / sizeof(T) > 12 / sizeof(T) ? 12 / sizeof(T) : 0; };
template <typename T> static size_t szpick(const char* nm) { const size_t c = Cfg<T>::cap; size_t k[] = {0, 1, c, c + 1, c + 8, 2}; return k[pick(nm, THOROUGH ? 6 : 5)]; }
template <typename T> static size_t small(const char* nm) { size_t k[] = {0, 1, 3, 13}; return k[pick(nm, THOROUGH ? 4 : 3)]; }
template <typename T> struct H {
  static T pool[32]; static int destroyed;
  static T ext[3][24]; static int created;
  static void on_destroy(void*, void*, void*) noexcept { destroyed++; }
  static void step(BLArray<T>& s, Model<T>& m, BLArray<T>& o, Model<T>& mo, unsigned set) {
    BLResult r = BL_SUCCESS; static Model<T> next; next = m; Model<T> old = m;
    unsigned op = pick("op", set == 0 ? 10 : 10) + set * 16;
    switch (op) {
      case 0: { size_t k = szpick<T>("k"); r = s.assign_data(pool, k); next.set(pool, k); break; }
      case 1: { size_t k = small<T>("k"); r = s.append_data(pool + 3, k); next.ins(m.n, pool + 3, k); break; }
      case 2: { size_t k = small<T>("k"), at = idx("at", m.n); r = s.insert_data(at, pool + 1, k); next.ins(at, pool + 1, k); break; }
      case 3: { size_t a = idx("a", m.n), b = idx("b", m.n); if (b < a) { size_t t = a; a = b; b = t; } r = s.remove(BLRange{a, b}); next.del(a, b); break; }
      case 4: { r = s.assign(o); next = mo; break; }
      case 5: { r = s.assign_deep(o); next = mo; break; }
      case 6: { size_t k = small<T>("k"), a = idx("a", m.n), b = idx("b", m.n); if (b < a) { size_t t = a; a = b; b = t; } r = s.replace_data(BLRange{a, b}, pool + 5, k); next.rep(a, b, pool + 5, k); break; }
      case 7: { if (!m.n) return; size_t at = idx("at", m.n - 1); r = s.replace(at, pool[7]); next.d[at] = pool[7]; break; }
      case 8: { s.clear(); next.n = 0; break; }
      case 9: { r = s.append(pool[9]); next.ins(m.n, pool + 9, 1); break; }
      case 16: { size_t k = szpick<T>("k"); r = s.resize(k, pool[2]); if (k < m.n) next.n = k; else while (next.n < k) next.d[next.n++] = pool[2]; break; }
      case 17: { size_t k = szpick<T>("k"); r = s.reserve(k + 5); if (r == BL_SUCCESS) ASSERT(s.capacity() >= k + 5, "reserve did not reserve"); break; }
      case 18: r = s.shrink(); break;
      case 19: { T* p = nullptr; r = s.make_mutable(&p); if (r == BL_SUCCESS && m.n) { size_t at = idx("at", m.n - 1); p[at] = pool[4]; next.d[at] = pool[4]; } break; }
      case 20: { size_t at = idx("at", m.n); r = s.insert(at, pool[11]); next.ins(at, pool + 11, 1); break; }
      case 21: { if (!m.n) return; size_t at = idx("at", m.n - 1); r = s.remove(at); next.del(at, at + 1); break; }
      case 22: { s.reset(); next.n = 0; break; }
      case 23: { BLArray<T> t(static_cast<BLArray<T>&&>(o)); s = static_cast<BLArray<T>&&>(t); next = mo; mo.n = 0; break; }
      case 24: { if (!m.n) return; size_t at = idx("at", m.n - 1); T v = s.data()[at]; r = s.append(s.data()[at]); next.ins(m.n, &v, 1); break; } // own element
      case 25: { size_t k = small<T>("k"); r = s.prepend_data(pool + 6, k); next.ins(0, pool + 6, k); break; }
      // overlapping sources / uninitialised growth (plain data only)
      case 32: { size_t a = idx("a", m.n), b = idx("b", m.n); if (b < a) { size_t t = a; a = b; b = t; } r = s.assign_data(s.data() + a, b - a); next.set(m.d + a, b - a); break; }
      case 33: { size_t a = idx("a", m.n), b = idx("b", m.n); if (b < a) { size_t t = a; a = b; b = t; } r = s.append_data(s.data() + a, b - a); next.ins(m.n, m.d + a, b - a); break; }
      case 34: { size_t a = idx("a", m.n), b = idx("b", m.n), at = idx("at", m.n); if (b < a) { size_t t = a; a = b; b = t; } r = s.insert_data(at, s.data() + a, b - a); next.ins(at, m.d + a, b - a); break; }
      case 35: r = s.assign(s); break;
      case 36: r = s.assign_deep(s); break;
      case 37: { size_t k = small<T>("k"); unsigned w = pick("w", 4); static const BLModifyOp ops[] = {BL_MODIFY_OP_ASSIGN_FIT, BL_MODIFY_OP_ASSIGN_GROW, BL_MODIFY_OP_APPEND_FIT, BL_MODIFY_OP_APPEND_GROW}; T* p = nullptr;
        r = s.modify_op(ops[w], k, &p); if (r == BL_SUCCESS) for (size_t i = 0; i < k; i++) p[i] = pool[i + 2]; if (w >= 2) next.ins(m.n, pool + 2, k); else next.set(pool + 2, k); break; }
      case 38: { size_t k = small<T>("k"), at = idx("at", m.n); T* p = nullptr; r = s.insert_op(at, k, &p); if (r == BL_SUCCESS) for (size_t i = 0; i < k; i++) p[i] = pool[i + 4]; next.ins(at, pool + 4, k); break; }
      case 39: { if (!m.n) return; size_t a = idx("a", m.n), b = idx("b", m.n), c = idx("c", m.n), e = idx("e", m.n); if (b < a) { size_t t = a; a = b; b = t; } if (e < c) { size_t t = c; c = e; e = t; } T tmp[MAXN]; for (size_t i = c; i < e; i++) tmp[i - c] = m.d[i]; r = s.replace_data(BLRange{a, b}, s.data() + c, e - c); next.rep(a, b, tmp, e - c); break; }
      case 40: { size_t n = pick("n", 3); T* e = ext[created]; next.set(e, n * 5); r = s.assign_external_data(e, n * 5, 20, pick("ro", 2) ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW, on_destroy, nullptr); if (r == BL_SUCCESS) created++; if (r == BL_SUCCESS) REACH("external"); break; }
      case 41: { int e = s.equals(o); int ref = m.n == mo.n; if (ref) for (size_t i = 0; i < m.n; i++) ref &= same(m.d[i], mo.d[i]); ASSERT(e == ref, "equals differs from the model"); break; }
    }
    if (r == BL_SUCCESS) m = next;
    else { ASSERT(r == BL_ERROR_OUT_OF_MEMORY, "only an allocation failure may fail a valid operation"); REACH("oom"); }
  }
  static void start(BLArray<T>& a, Model<T>& ma, BLArray<T>& b, Model<T>& mb) {
    unsigned shape = pick("shape", 5); mb.n = 0;
    if (shape == 4) { size_t n = 6; ASSUME(a.assign_external_data(ext[0], n, 8, pick("ro", 2) ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW, on_destroy, nullptr) == BL_SUCCESS); created++; ma.set(ext[0], n); if (pick("sh", 2)) { b = a; mb = ma; } return; }
    size_t k = szpick<T>("n0"); ma.set(pool, k); ASSUME(a.assign_data(pool, k) == BL_SUCCESS);
    if (shape & 1) a.reserve(40);
    if (shape & 2) { b = a; mb = ma; }
  }
  static void run(unsigned set0, unsigned set1, int steps, int oom) {
    uint64_t live = bsym_mem_live(); destroyed = 0; created = 0;
    {
      BLArray<T> a, b; static Model<T> ma, mb;
      start(a, ma, b, mb);
      if (oom) bsym_fail_malloc(oom);
      for (int i = 0; i < steps; i++) { step(a, ma, b, mb, i == 0 ? set0 : set1); check(a, ma); check(b, mb); }
      bsym_fail_malloc(0);
    }
    if (bsym_mem_live() != live) ASSERT(0, "memory leaked by array operations");
    ASSERT(destroyed == created, "external data must be destroyed exactly once");
    REACH("end");
  }
};
template <typename T> T H<T>::pool[32]; template <typename T> T H<T>::ext[3][24]; template <typename T> int H<T>::destroyed; template <typename T> int H<T>::created;
template <typename T> static void go(unsigned a, unsigned b, int steps, int oom) { bsym_make_symbolic(H<T>::pool, 24 * sizeof(T), "pool"); bsym_make_symbolic(H<T>::ext, sizeof(T) * 8, "ext"); H<T>::run(a, b, steps, oom); }
#define ARR(T, N) \
  ENTRY h_array_##N##_1_0() { go<T>(0, 0, 1, 1); } ENTRY h_array_##N##_1_1() { go<T>(1, 0, 1, 1); } ENTRY h_array_##N##_1_2() { go<T>(2, 0, 1, 1); } \
  ENTRY h_array_##N##_00() { go<T>(0, 0, 2, 0); } ENTRY h_array_##N##_01() { go<T>(0, 1, 2, 0); } ENTRY h_array_##N##_10() { go<T>(1, 0, 2, 0); } ENTRY h_array_##N##_12() { go<T>(1, 2, 2, 0); } ENTRY h_array_##N##_20() { go<T>(2, 0, 2, 0); } ENTRY h_array_##N##_22() { go<T>(2, 2, 2, 0); }
ARR(uint8_t, u8) ARR(uint32_t, u32) ARR(double, f64)
// Object items: items are reference counted strings; the model holds plain handles compared by content. Any over/under-release is
// a leak or a use after free on the encoded heap.
struct OM { uint8_t d[40]; size_t n; };
static const char* kTxt[4] = {"item-zero-with-heap-storage", "item-one-with-heap-storage", "", "short"};
static BLString* gS;
static void ocheck(const BLArray<BLString>& s, const OM& m) {
  ASSERT(s.size() == m.n, "object array size differs"); int eq = 1;
  for (size_t i = 0; i < m.n; i++) eq &= s[i].equals(gS[m.d[i]]);
  ASSERT(eq, "object array content differs");
}
static void oins(OM& m, size_t at, const uint8_t* p, size_t k) { OM t = m; for (size_t i = 0; i < k; i++) t.d[at + i] = p[i]; for (size_t i = at; i < m.n; i++) t.d[i + k] = m.d[i]; t.n += k; m = t; }
static void odel(OM& m, size_t a, size_t b) { for (size_t i = b; i < m.n; i++) m.d[a + i - b] = m.d[i]; m.n -= b - a; }
static void ostep(BLArray<BLString>& s, OM& m, BLArray<BLString>& o, OM& mo) {
  OM next = m; BLResult r = BL_SUCCESS; static const uint8_t ids[4] = {1, 0, 3, 2}; BLString src[4] = {gS[1], gS[0], gS[3], gS[2]};
  switch (pick("op", 14)) {
    case 0: { size_t k = pick("k", 3); r = s.append_data(src, k); oins(next, m.n, ids, k); break; }
    case 1: { size_t k = pick("k", 3), at = idx("at", m.n); r = s.insert_data(at, src, k); oins(next, at, ids, k); break; }
    case 2: { size_t a = idx("a", m.n), b = idx("b", m.n); if (b < a) { size_t t = a; a = b; b = t; } r = s.remove(BLRange{a, b}); odel(next, a, b); break; }
    case 3: { size_t a = idx("a", m.n), b = idx("b", m.n), k = pick("k", 3); if (b < a) { size_t t = a; a = b; b = t; } r = s.replace_data(BLRange{a, b}, src, k); odel(next, a, b); oins(next, a, ids, k); break; }
    case 4: { if (!m.n) return; size_t at = idx("at", m.n - 1); r = s.replace(at, src[0]); next.d[at] = ids[0]; break; }
    case 5: s.clear(); next.n = 0; break;
    case 6: r = s.assign(o); next = mo; break;
    case 7: r = s.assign_deep(o); next = mo; break;
    case 8: { size_t k = pick("k", 4); r = s.resize(k, src[1]); uint8_t f = ids[1]; while (next.n < k) oins(next, next.n, &f, 1); next.n = k; break; }
    case 9: r = s.shrink(); break;
    case 10: { BLString* p = nullptr; r = s.make_mutable(&p); if (r == BL_SUCCESS && m.n) { p[0] = src[2]; next.d[0] = ids[2]; } break; }
    case 11: { size_t k = pick("k", 3); r = s.assign_data(src, k); next.n = 0; oins(next, 0, ids, k); break; }
    case 12: { if (!m.n) return; uint8_t id = m.d[m.n - 1]; size_t at = idx("at", m.n - 1); r = s.insert(at, s[m.n - 1]); oins(next, at, &id, 1); break; }
    case 13: r = s.reserve(9); break;
  }
  if (r == BL_SUCCESS) m = next; else { ASSERT(r == BL_ERROR_OUT_OF_MEMORY, "only an allocation failure may fail a valid operation"); REACH("oom"); }
}
static void ogo(int steps, int oom) {
  uint64_t live = bsym_mem_live();
  {
    BLString st[4]; for (int i = 0; i < 4; i++) st[i].assign(kTxt[i]); gS = st;
    BLArray<BLString> a, b; OM ma, mb; ma.n = mb.n = 0; static const uint8_t ids0[4] = {0, 1, 2, 3};
    size_t n0 = pick("n0", 4); a.assign_data(st, n0); oins(ma, 0, ids0, n0);
    unsigned sh = pick("shape", 3); if (sh == 1) { b = a; mb = ma; } if (sh == 2) { a.reserve(20); }
    if (oom) bsym_fail_malloc(oom);
    for (int i = 0; i < steps; i++) { ostep(a, ma, b, mb); ocheck(a, ma); ocheck(b, mb); }
    bsym_fail_malloc(0);
  }
  ASSERT(bsym_mem_live() == live, "object array leaked or over-released items");
  REACH("end");
}
ENTRY h_array_obj1() { ogo(1, 1); }
ENTRY h_array_obj2() { ogo(2, 0); }
ENTRY h_array_obj3() { ogo(3, 0); }
