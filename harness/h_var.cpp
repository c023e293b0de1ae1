// C22: BLVar - exact numeric conversions, equality, colours, ownership.
#include "bsym.h"
#include <blend2d/blend2d.h>
#include <string.h>
typedef uint64_t u64; typedef int64_t i64;
enum { N0, B, I, U, D };
struct Num { int t; u64 bits; };  // abstract numeric value
static u64 dbits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static double bdbl(u64 b) { double d; memcpy(&d, &b, 8); return d; }
// magnitude of |d| truncated to an integer; exact tells that nothing was lost; big: |d| >= 2^64 (or infinity)
struct Mag { u64 v; bool exact, big, neg, nan; };
static Mag mag(u64 b) {
  Mag m; u64 e = (b >> 52) & 0x7FF, f = b & 0xFFFFFFFFFFFFFull; m.neg = (b >> 63) != 0; m.nan = e == 0x7FF && f != 0; m.big = e >= 1023 + 64;
  if (e < 1023) { m.v = 0; m.exact = (b << 1) == 0; return m; }
  f |= u64(1) << 52; u64 s = e - 1023; m.exact = true;
  if (s <= 52) { u64 k = 52 - s; m.v = f >> k; m.exact = (m.v << k) == f; } else m.v = f << ((s - 52) & 15);
  if (m.big) m.v = ~u64(0); return m;
}
// expected conversion of a number to an integer in [-lo, hi]
static void expectInt(int t, u64 bits, u64 lo, u64 hi, u64* out, bool* ok, bool* nan) {
  *nan = false;
  if (t == N0) { *out = 0; *ok = true; return; }
  bool neg; u64 v; bool exact = true;
  if (t == D) { Mag m = mag(bits); if (m.nan) { *nan = true; *out = 0; *ok = false; return; } neg = m.neg; v = m.v; exact = m.exact && !m.big; }
  else { neg = t == I && (bits >> 63); v = neg ? 0 - bits : bits; }
  u64 lim = neg ? lo : hi; bool over = v > lim; if (neg && lo == 0 && !exact) over = true;
  *ok = exact && !over; *out = over ? (neg ? 0 - lo : hi) : neg ? 0 - v : v;
}
static void mk(BLVar& v, Num n, int w) {
  switch (n.t) { case N0: break; case B: v = BLVar(n.bits != 0); break;
    case I: if (w) { bl_var_assign_int32(&v, (int32_t)n.bits); } else v = BLVar((int64_t)n.bits); break;
    case U: if (w) { bl_var_assign_uint32(&v, (uint32_t)n.bits); } else v = BLVar((uint64_t)n.bits); break;
    case D: v = BLVar(bdbl(n.bits)); break; }
}
// every double / every 64-bit integer, split by exponent (the position of the highest bit)
static u64 anyDbl() {
  uint32_t k = pick("exp", 70); u64 e; if (k == 0) e = bsym_u16("e") & 511; else if (k == 1) e = 512 | (bsym_u16("e") & 511); else if (k == 2) e = 1088 + (bsym_u16("e") & 127); else if (k == 3) e = 1200 + range32("e", 0, 0x7FE - 1200); else if (k == 4) e = 0x7FF; else e = 1023 + k - 5;
  u64 b = (bsym_u64("mant") & 0xFFFFFFFFFFFFFull) | e << 52; return b | (u64)(bsym_u8("sign") & 1) << 63; }
static u64 anyInt() { uint32_t k = pick("top", 65); if (k == 0) return 0; u64 top = u64(1) << (k - 1); return top | (bsym_u64("low") & (top - 1)); }
static Num anyNum(int t, int w) { Num n; n.t = t; n.bits = 0; if (t == B) n.bits = bsym_u8("b") & 1; else if (t == I) n.bits = w ? (u64)(i64)(int32_t)bsym_u32("i") : bsym_u64("i"); else if (t == U) n.bits = w ? bsym_u32("u") : bsym_u64("u"); else if (t == D) n.bits = anyDbl(); return n; }
static Num anySplit(int t) { Num n; n.t = t; n.bits = anyInt(); if (t == I && pick("neg", 2)) { n.bits = 0 - n.bits; } return n; }
static void chk(BLResult r, u64 got, int t, u64 bits, u64 lo, u64 hi) {
  u64 want; bool ok, nan; expectInt(t, bits, lo, hi, &want, &ok, &nan);
  ASSERT(got == want, "converted value is exact, or saturated towards the source");
  ASSERT(r == (ok ? BL_SUCCESS : nan ? BL_ERROR_INVALID_CONVERSION : BL_ERROR_OVERFLOW), "success is reported exactly for lossless conversions");
}
static void toints(int t, int w, int target) {
  if (target == 5) w = 0;
  Num n = target == 5 && (t == I || t == U) ? anySplit(t) : anyNum(t, w); BLVar v; mk(v, n, w);
  ASSERT(v.type() == (t == N0 ? BL_OBJECT_TYPE_NULL : t == B ? BL_OBJECT_TYPE_BOOL : t == I ? BL_OBJECT_TYPE_INT64 : t == U ? BL_OBJECT_TYPE_UINT64 : BL_OBJECT_TYPE_DOUBLE), "type");
  switch (target) {
    case 0: { int32_t o = 7; BLResult r = v.to_int32(&o); chk(r, (u64)(i64)o, t, n.bits, u64(1) << 31, 0x7FFFFFFF); break; }
    case 1: { int64_t o = 7; BLResult r = v.to_int64(&o); chk(r, (u64)o, t, n.bits, u64(1) << 63, ~u64(0) >> 1); break; }
    case 2: { uint32_t o = 7; BLResult r = v.to_uint32(&o); chk(r, o, t, n.bits, 0, 0xFFFFFFFF); break; }
    case 3: { uint64_t o = 7; BLResult r = v.to_uint64(&o); chk(r, o, t, n.bits, 0, ~u64(0)); break; }
    case 4: { bool o = false; BLResult r = v.to_bool(&o); bool want = t == N0 ? false : t == D ? (n.bits << 1) != 0 && !mag(n.bits).nan : n.bits != 0; ASSERT(r == BL_SUCCESS && o == want, "truth value"); break; }
    case 5: { double o = 7; BLResult r = v.to_double(&o); if (t == D) { ASSERT(r == BL_SUCCESS && dbits(o) == n.bits, "the same double"); break; } if (t == N0) { ASSERT(r == BL_SUCCESS && o == 0, "null is zero"); break; }
      u64 ob = dbits(o); Mag m = mag(ob); bool neg = t == I && (n.bits >> 63); u64 a = neg ? 0 - n.bits : n.bits; bool exact = m.exact && !m.big && m.v == a; ASSERT(!exact || a == 0 || m.neg == neg, "sign");
      ASSERT(r == (exact ? BL_SUCCESS : BL_ERROR_OVERFLOW), "lossless or overflow"); u64 lb = a & 0x7FF; // an integer whose significant bits fit is exact
      if (a < (u64(1) << 53) || lb == 0) ASSERT(exact, "an integer that a double holds converts losslessly"); break; }
  }
  REACH("end");
}
ENTRY h_var_toi() { int t = (int)pick("t", 4); toints(t, (int)pick("w", 2), (int)pick("target", 6)); }
ENTRY h_var_tod() { toints(D, 0, (int)pick("target", 6)); }
// equality of numbers is equality of the values they stand for, whatever their types, and symmetric
static void eq(int ta, int tb) {
  bool mixed = tb == I || tb == U; Num a = ta == D && mixed ? Num{D, bsym_u64("d1")} : anyNum(ta, 0), b = ta == D && mixed ? anySplit(tb) : ta == D && tb == D ? Num{D, bsym_u64("d2")} : anyNum(tb, 0); BLVar va, vb; mk(va, a, 0); mk(vb, b, 0);
  bool want; auto num = [](Num n, bool* neg, u64* v, bool* nan, bool* whole) { *nan = false; *whole = true; *neg = false; *v = n.bits; if (n.t == I && (n.bits >> 63)) { *neg = true; *v = 0 - n.bits; } if (n.t == D) { Mag m = mag(n.bits); *nan = m.nan; *v = m.v; *neg = m.neg; *whole = m.exact && !m.big && !m.nan; } };
  if (ta == N0 || tb == N0) want = ta == tb;
  else if (ta == D && tb == D) { bool na = mag(a.bits).nan, nb = mag(b.bits).nan; want = (na && nb) || (!na && !nb && (a.bits == b.bits || ((a.bits | b.bits) << 1) == 0)); }
  else { bool n1, n2, x1, x2, w1, w2; u64 v1, v2; num(a, &n1, &v1, &x1, &w1); num(b, &n2, &v2, &x2, &w2); want = w1 && w2 && v1 == v2 && (n1 == n2 || v1 == 0); }
  bool e1 = bl_var_equals(&va, &vb), e2 = bl_var_equals(&vb, &va); ASSERT(e1 == want, "equal exactly when both stand for the same value"); ASSERT(e2 == want, "equality is symmetric");
  if (tb == B) ASSERT(bl_var_equals_bool(&va, b.bits != 0) == want, "equals bool"); if (tb == I) ASSERT(bl_var_equals_int64(&va, (i64)b.bits) == want, "equals int64"); if (tb == U) ASSERT(bl_var_equals_uint64(&va, b.bits) == want, "equals uint64"); if (tb == D) ASSERT(bl_var_equals_double(&va, bdbl(b.bits)) == want, "equals double"); if (tb == N0) ASSERT(bl_var_equals_null(&va) == want, "equals null");
  ASSERT(bl_var_strict_equals(&va, &va), "strictly equal to itself"); REACH("end");
}
ENTRY h_var_eqi() { eq((int)pick("a", 4), (int)pick("b", 4)); }
ENTRY h_var_eqd() { int o = (int)pick("o", 5); eq(D, o); }
// colours
static float anyF(const char* n) { uint32_t b = bsym_u32(n); float f; memcpy(&f, &b, 4); return f; }
ENTRY h_var_rgba() {
  switch (pick("k", 3)) {
    case 0: { uint32_t c = bsym_u32("c"); BLVar v; if (pick("assign", 2)) bl_var_assign_rgba32(&v, c); else v = BLVar(BLRgba32(c)); ASSERT(v.is_rgba32(), "type"); BLRgba32 o; ASSERT(v.to_rgba32(&o) == BL_SUCCESS && o.value == c, "colour back"); BLRgba64 w; ASSERT(v.to_rgba64(&w) == BL_SUCCESS && w.value == BLRgba64(BLRgba32(c)).value, "widened"); ASSERT(v.equals(BLRgba32(c)) && v.equals(w), "equal"); ASSERT(!v.equals(BLRgba32(c ^ 0x100)), "different colour"); int32_t x = 1; ASSERT(v.to_int32(&x) == BL_ERROR_INVALID_CONVERSION && x == 0, "not a number"); break; }
    case 1: { u64 c = bsym_u64("c"); BLVar v; if (pick("assign", 2)) bl_var_assign_rgba64(&v, c); else v = BLVar(BLRgba64(c)); ASSERT(v.is_rgba64(), "type"); BLRgba64 o; ASSERT(v.to_rgba64(&o) == BL_SUCCESS && o.value == c, "colour back"); BLRgba32 w; ASSERT(v.to_rgba32(&w) == BL_SUCCESS && w.value == BLRgba32(BLRgba64(c)).value, "narrowed"); ASSERT(v.equals(BLRgba64(c)) && v.equals(w) == (BLRgba64(w).value == c), "equal"); break; }
    case 2: { BLRgba c(anyF("r"), anyF("g"), anyF("b"), anyF("a")); uint32_t ab; memcpy(&ab, &c.a, 4); BLVar v; if (pick("assign", 2)) bl_var_assign_rgba(&v, &c); else { BLVar t(c); v = t; } ASSERT(v.is_rgba(), "a floating point colour is always a colour"); BLRgba o; ASSERT(v.to_rgba(&o) == BL_SUCCESS, "colour back"); ASSERT(memcmp(&o, &c, 12) == 0, "components"); uint32_t oa; memcpy(&oa, &o.a, 4); ASSERT(oa == ((ab >> 31) ? 0 : ab), "alpha (negative alpha is zero)"); BLVar u(v); ASSERT(u.equals(v) && bl_var_equals_rgba(&v, &o), "equal to its copy"); break; }
  }
  REACH("end");
}
// ownership: histories of assignments between variants and objects
struct M { int k; };
static bool same(const BLVar& v, int k) {
  switch (k) {
    case 0: return v.is_null(); case 1: { int64_t o; return v.type() == BL_OBJECT_TYPE_INT64 && v.to_int64(&o) == BL_SUCCESS && o == 41; }
    case 2: return v.is_string() && v.as<BLString>().equals("abc", 3); case 3: return v.is_string() && v.as<BLString>().equals("a string that does not fit inline", 33);
    case 4: return v.is_array() && v.as<BLArray<uint32_t>>().size() == 9 && v.as<BLArray<uint32_t>>()[8] == 8; case 5: return v.is_bit_set() && v.as<BLBitSet>().has_bit(100000) && v.as<BLBitSet>().cardinality() == 2; default: return v.is_bit_array() && v.as<BLBitArray>().size() == 300; }
}
static void fill(BLVar& v, int k) {
  switch (k) { case 0: v = BLVar(); break; case 1: v = BLVar(int64_t(41)); break; case 2: v = BLVar(BLString("abc")); break; case 3: { BLString s("a string that does not fit inline"); if (pick("move", 2)) v = static_cast<BLString&&>(s); else v = s; break; }
    case 4: { BLArray<uint32_t> a; for (uint32_t i = 0; i < 9; i++) a.append(i); v = a; break; } case 5: { BLBitSet b; b.add_bit(3); b.add_bit(100000); v = BLVar(b); break; } default: { BLBitArray b; b.resize(300); v = BLVar(static_cast<BLBitArray&&>(b)); break; } }
}
ENTRY h_var_own() {
  u64 live = bsym_mem_live();
  { BLVar v[2]; int k[2] = {0, 0};
    for (int s = 0; s < (THOROUGH ? 4 : 3); s++) { int i = (int)pick("i", 2), j = 1 - i;
      switch (pick("op", 8)) {
        case 0: { int c = 1 + (int)pick("c", 6); fill(v[i], c); k[i] = c; break; }
        case 1: v[i] = v[j]; k[i] = k[j]; break;
        case 2: v[i].assign(static_cast<BLVar&&>(v[j])); k[i] = k[j]; ASSERT(bl_var_get_type(&v[j]) == bl_var_get_type(&v[i]) || k[j] <= 1, "the source keeps its type"); v[j].reset(); k[j] = 0; break;
        case 3: { BLVar t(v[i]); ASSERT(bl_var_equals(&t, &v[i]), "a copy is equal"); v[j].swap(t); k[j] = k[i]; break; }
        case 4: v[i].reset(); k[i] = 0; break;
        case 5: { BLVar t(static_cast<BLVar&&>(v[i])); v[j] = static_cast<BLVar&&>(t); k[j] = k[i]; v[i].reset(); k[i] = 0; break; }
        case 6: bl_var_assign_weak(&v[i], &v[i]); bl_var_assign_move(&v[j], &v[j]); break;
        case 7: if (k[i] == 3) { v[i].as<BLString>().append('x'); BLVar t(v[i]); ASSERT(k[j] != 3 || same(v[j], 3), "the other copy is unchanged"); v[i].as<BLString>().truncate(33); } break;
      }
      for (int q = 0; q < 2; q++) ASSERT(same(v[q], k[q]), "a variant holds the value assigned last"); ASSERT(bl_var_equals(&v[0], &v[1]) == (k[0] == k[1]) && bl_var_equals(&v[1], &v[0]) == (k[0] == k[1]), "equality of boxed values"); bool bo; if (k[0] == 2) ASSERT(v[0].to_bool(&bo) == BL_SUCCESS && bo, "truth of a string");
    }
  }
  ASSERT(bsym_mem_live() == live, "released exactly once"); REACH("end");
}
