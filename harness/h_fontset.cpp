// C23: BLFontFeatureSettings / BLFontVariationSettings against an abstract map from tags to values.
#include "bsym.h"
#include <blend2d/blend2d.h>
static constexpr BLTag T(const char* s) { return BLTag((uint32_t)(uint8_t)s[0] << 24 | (uint32_t)(uint8_t)s[1] << 16 | (uint32_t)(uint8_t)s[2] << 8 | (uint8_t)s[3]); }
enum { NF = 13, NV = 8, MAXT = 13 };
enum { BOOL = 0, FAT = 1, UNK = 2, BAD = 3 };
struct Tag { BLTag t; int k; };
static const Tag ftags[NF] = { // sorted by tag
  {T("AAAA"), UNK}, {T("aalt"), FAT}, {T("kern"), BOOL}, {T("liga"), BOOL}, {T("nalt"), FAT}, {T("salt"), FAT}, {T("ss01"), FAT}, {T("swsh"), FAT}, {T("zero"), BOOL}, {T("zzz~"), UNK},
  {T("a\x1f""bc"), BAD}, {T("zzz\x7f"), BAD}, {T("\xe1""abc"), BAD} };
static const Tag vtags[NV] = { {T("AAAA"), UNK}, {T("ital"), FAT}, {T("opsz"), FAT}, {T("slnt"), FAT}, {T("wdth"), FAT}, {T("wght"), FAT}, {T("zzz~"), UNK}, {T("ab\x1f""c"), BAD} };
template <typename V> struct Mp { uint32_t has; V v[MAXT]; };
struct F { typedef BLFontFeatureSettings S; typedef BLFontFeatureSettingsView View; typedef uint32_t V; enum { N = NF, VALID = 10 }; static const Tag& tag(int i) { return ftags[i]; }
  static V any() { if (pick("small", 2)) return bsym_u8("value") & 15; V v = bsym_u32("value"); ASSUME(v > 15); return v; } static bool ok(int i, V v) { return v <= (ftags[i].k == BOOL ? 1u : 65535u); } static bool same(V a, V b) { return a == b; } static bool none(V v) { return v == 0xFFFFFFFFu; } };
struct G { typedef BLFontVariationSettings S; typedef BLFontVariationSettingsView View; typedef float V; enum { N = NV, VALID = 7 }; static const Tag& tag(int i) { return vtags[i]; }
  static V any() { uint32_t b = bsym_u32("value"); float f; __builtin_memcpy(&f, &b, 4); ASSUME(f == f && b != 0x80000000u); return f; } static bool ok(int, V v) { return v <= 65535.0f; } static bool same(V a, V b) { return a == b; } static bool none(V v) { return v != v; } };
template <class X> static void check(const typename X::S& s, const Mp<typename X::V>& m) {
  unsigned n = 0; bool bad = false;
  for (int i = 0; i < X::N; i++) { bool h = (m.has >> i) & 1; n += h; bad |= s.has_value(X::tag(i).t) != h; typename X::V g = s.get_value(X::tag(i).t); bad |= h ? !X::same(g, m.v[i]) : !X::none(g); }
  ASSERT(!bad, "has_value/get_value differ from the map");
  ASSERT(s.size() == n && s.is_empty() == (n == 0), "size differs from the map");
  typename X::View view; ASSERT(s.get_view(&view) == BL_SUCCESS && view.size == n, "view has the map's size"); unsigned k = 0; bad = false;
  for (int i = 0; i < X::N; i++) if ((m.has >> i) & 1) { bad |= view.data[k].tag != X::tag(i).t || !X::same(view.data[k].value, m.v[i]); k++; }
  ASSERT(!bad, "view lists exactly the map, ordered by tag");
}
template <class X> static BLResult set(typename X::S& s, Mp<typename X::V>& m, int i, typename X::V v) {
  BLResult r = s.set_value(X::tag(i).t, v);
  if (X::tag(i).k == BAD || !X::ok(i, v)) ASSERT(r == BL_ERROR_INVALID_VALUE, "an invalid tag or value is refused");
  else if (r == BL_SUCCESS) { m.has |= 1u << i; m.v[i] = v; } else { ASSERT(r == BL_ERROR_OUT_OF_MEMORY, "a valid tag/value pair is accepted"); REACH("oom"); }
  return r;
}
// prefix of concrete tags giving each representation: empty, inline (part full), inline full, dynamic, dynamic grown
template <class X> static void prefix(typename X::S& s, Mp<typename X::V>& m, int shape) {
  static const int pf[5][7] = {{-1}, {2, 5, 7, -1}, {8, 7, 1, 6, 4, 3, -1}, {4, 9, 2, -1}, {0, 1, 2, 3, 4, -1}};
  static const int pv[5][7] = {{-1}, {4, 2, -1}, {5, 1, 3, -1}, {4, 6, -1}, {0, 1, 2, 3, 5, -1}};
  for (const int* p = (int)X::N == NF ? pf[shape] : pv[shape]; *p >= 0; p++) { typename X::V v = typename X::V(bsym_u8("pv") & 1); ASSUME(set<X>(s, m, *p, v) == BL_SUCCESS); }
}
static void shrinkS(BLFontFeatureSettings& s) { (void)bl_font_feature_settings_shrink(&s); }
static void shrinkS(BLFontVariationSettings& s) { (void)bl_font_variation_settings_shrink(&s); }
template <class X> static void run(int steps, int nshape, int ops, int oom, int lo, int hi) {
  typedef typename X::S S; uint64_t live = bsym_mem_live();
  {
    S s, o; Mp<typename X::V> m, mo; m.has = mo.has = 0; for (int i = 0; i < MAXT; i++) m.v[i] = mo.v[i] = 0;
    prefix<X>(s, m, (int)pick("shape", (uint32_t)nshape)); if (pick("shared", 2)) { o = s; mo = m; }
    if (oom) bsym_fail_malloc(oom);
    for (int k = 0; k < steps; k++) {
      switch (pick("op", (uint32_t)ops)) {
        case 0: { int i = lo + (int)pick("t", (uint32_t)(hi - lo)); set<X>(s, m, i, X::any()); break; }
        case 1: { int i = lo + (int)pick("t", (uint32_t)(hi - lo)); BLResult r = s.remove_value(X::tag(i).t); if (r == BL_SUCCESS) m.has &= ~(1u << i); else ASSERT(r == BL_ERROR_OUT_OF_MEMORY, "remove succeeds"); break; }
        case 2: { BLResult r = s.clear(); ASSERT(r == BL_SUCCESS, "clear"); m.has = 0; break; }
        case 3: { o.assign(s); mo = m; break; }
        case 4: { o.assign(static_cast<S&&>(s)); mo = m; m.has = 0; break; }
        case 5: { shrinkS(s); break; }
        case 6: { S t(s); o.swap(t); mo = m; break; }
        case 7: { s.reset(); m.has = 0; break; }
        case 8: { s = s; break; }
      }
    }
    check<X>(s, m); check<X>(o, mo);
    bool eq = m.has == mo.has; for (int i = 0; i < X::N; i++) if ((m.has & mo.has) >> i & 1) eq &= X::same(m.v[i], mo.v[i]);
    ASSERT(s.equals(o) == eq && o.equals(s) == eq && s.equals(s), "equals is equality of the maps");
  }
  ASSERT(bsym_mem_live() == live, "all memory is released"); REACH("end");
}
ENTRY h_fontset_f1() { run<F>(1, 5, 9, 0, 0, NF); }
ENTRY h_fontset_f2a() { run<F>(2, 5, 2, 0, 0, 10); }
ENTRY h_fontset_f2b() { run<F>(2, 5, 8, 0, THOROUGH ? 0 : 3, THOROUGH ? 10 : 8); }
ENTRY h_fontset_foom() { run<F>(THOROUGH ? 2 : 1, 5, 6, 2, 0, 10); }
ENTRY h_fontset_v1() { run<G>(1, 5, 9, 0, 0, NV); }
ENTRY h_fontset_v2a() { run<G>(2, 5, 2, 0, 0, 7); }
ENTRY h_fontset_v2b() { run<G>(2, 5, 8, 0, THOROUGH ? 0 : 2, THOROUGH ? 7 : 6); }
ENTRY h_fontset_voom() { run<G>(THOROUGH ? 2 : 1, 5, 6, 2, 0, 7); }
// any 32-bit tag: accepted exactly when every character is printable ASCII
ENTRY h_fontset_tag() {
  BLTag t = bsym_u32("tag"); uint32_t v = bsym_u32("v"); ASSUME(v <= 1); bool valid = true; for (int i = 0; i < 4; i++) { uint32_t c = (t >> (i * 8)) & 255; valid &= c >= 32 && c <= 126; }
  if (pick("kind", 2)) { BLFontFeatureSettings s; if (pick("dyn", 2)) { s.set_value(T("AAAA"), 3); ASSUME(t != T("AAAA")); } bool ok = s.set_value(t, v) == BL_SUCCESS; ASSERT(ok == valid, "feature tag acceptance"); ASSERT(s.has_value(t) == valid, "stored exactly when accepted"); ASSERT(s.get_value(t) == (valid ? v : 0xFFFFFFFFu), "value of the tag"); }
  else { BLFontVariationSettings s; if (pick("dyn", 2)) { s.set_value(T("AAAA"), 3); ASSUME(t != T("AAAA")); } bool ok = s.set_value(t, (float)v) == BL_SUCCESS; ASSERT(ok == valid, "variation tag acceptance"); ASSERT(s.has_value(t) == valid, "stored exactly when accepted"); float g = s.get_value(t); ASSERT(valid ? g == (float)v : g != g, "value of the tag"); }
  REACH("end");
}
#if THOROUGH
ENTRY h_fontset_f3() { run<F>(3, 5, 2, 0, 1, 8); }
ENTRY h_fontset_v3() { run<G>(3, 5, 2, 0, 0, 6); }
#else
ENTRY h_fontset_f3() { run<F>(3, 3, 2, 0, 4, 8); }
ENTRY h_fontset_v3() { run<G>(3, 3, 2, 0, 1, 5); }
#endif
