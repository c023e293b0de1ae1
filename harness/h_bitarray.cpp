// C07: BLBitArray against a bit vector model (symbolic contents of up to 160 bits held in five words).
#include "bsym.h"
#include <blend2d/blend2d.h>
static uint32_t rev(uint32_t x) { return __builtin_bitreverse32(x); }
static const uint32_t MAXW = 6;
struct M { uint32_t n; uint32_t w[MAXW]; };   // bit i = (w[i / 32] >> (i % 32)) & 1, everything at and above n is zero
static uint32_t lm(uint32_t n) { return n >= 32 ? ~0u : (1u << n) - 1; }
static uint32_t maskw(uint32_t i, uint32_t s, uint32_t e) { uint32_t lo = s > i * 32 ? (s - i * 32 > 32 ? 32 : s - i * 32) : 0, hi = e > i * 32 ? (e - i * 32 > 32 ? 32 : e - i * 32) : 0; return hi > lo ? lm(hi) & ~lm(lo) : 0; }
static void wordAt(const uint32_t* w, uint32_t nw, uint32_t pos, uint32_t* out) { for (uint32_t i = 0; i < MAXW; i++) out[i] = 0; for (uint32_t k = 0; k < nw; k++) { uint32_t p = pos + 32 * k, i = p / 32, sh = p % 32, v = rev(w[k]); if (i < MAXW) out[i] |= v << sh; if (sh && i + 1 < MAXW) out[i + 1] |= v >> (32 - sh); } }
static const uint32_t pos_[] = {0, 33, 64, 95, 96, 31, 32, 97, 127, 128};
static uint32_t P(const char* n) { return pos_[pick(n, THOROUGH ? 10 : 6)]; }
static void op(BLBitArray& a, M& m, BLBitArray& o, M& mo, int nops) {
  BLResult r = BL_SUCCESS; M x = m; bool valid = true; uint32_t w[2] = {0, 0}, t[MAXW];
  switch (pick("op", nops)) {
    case 0: { uint32_t n = P("n"); r = a.resize(n); x.n = n; for (uint32_t i = 0; i < MAXW; i++) x.w[i] &= maskw(i, 0, n); break; }
    case 1: { uint32_t s = P("s"), e = P("e"); r = a.fill_range(s, e); valid = s < e && s < m.n; if (e > m.n) e = m.n; for (uint32_t i = 0; i < MAXW; i++) x.w[i] |= maskw(i, s, e); break; }
    case 2: { uint32_t s = P("s"), e = P("e"); r = a.clear_range(s, e); valid = s < e && s < m.n; if (e > m.n) e = m.n; for (uint32_t i = 0; i < MAXW; i++) x.w[i] &= ~maskw(i, s, e); break; }
    case 3: { uint32_t b = P("b"); r = a.set_bit(b); valid = b < m.n; x.w[b / 32] |= 1u << (b % 32); break; }
    case 4: { uint32_t b = P("b"); r = a.clear_bit(b); valid = b < m.n; x.w[b / 32] &= ~(1u << (b % 32)); break; }
    case 5: { uint32_t b = P("b"); bool v = pick("v", 2); r = a.replace_bit(b, v); valid = b < m.n; x.w[b / 32] &= ~(1u << (b % 32)); x.w[b / 32] |= (uint32_t)v << (b % 32); break; }
    case 6: { bool v = pick("v", 2); ASSUME(m.n < 160); r = a.append_bit(v); x.w[m.n / 32] |= (uint32_t)v << (m.n % 32); x.n++; break; }
    case 7: case 8: case 9: case 10: case 11: break;
    case 12: { unsigned nw = pick("nw", 3); w[0] = bsym_u32("word"); w[1] = bsym_u32("word"); r = a.assign_words(w, nw); wordAt(w, nw, 0, x.w); x.n = nw * 32; break; }
    case 13: r = a.clear(); x = M{}; break;
    case 14: r = a.shrink(); break;
    case 15: { uint32_t n = P("n"); r = a.reserve(n); if (r == BL_SUCCESS) ASSERT(a.capacity() >= n, "reserve provides the capacity"); break; }
    case 16: r = o.assign(a); if (r == BL_SUCCESS) mo = m; break;
    case 17: { BLBitArray tmp(static_cast<BLBitArray&&>(a)); o = static_cast<BLBitArray&&>(tmp); mo = m; x = M{}; break; }
    case 18: { uint32_t n = P("n"); uint32_t* d = nullptr; r = a.replace_op(n, &d); x = M{}; x.n = n; if (r == BL_SUCCESS && n) { uint32_t last = (n - 1) / 32; w[0] = bsym_u32("word"); uint32_t v = w[0] & maskw(last, 0, n); d[last] = rev(v); x.w[last] = v; } break; }
    case 19: { unsigned nw = pick("nw", 3); ASSUME(m.n + nw * 32 <= MAXW * 32); w[0] = bsym_u32("word"); w[1] = bsym_u32("word"); r = a.append_words(w, nw); wordAt(w, nw, m.n, t); for (uint32_t i = 0; i < MAXW; i++) x.w[i] |= t[i]; x.n += nw * 32; break; }
    case 20: { uint32_t b = P("b"); unsigned nw = pick("nw", 3); w[0] = bsym_u32("word"); w[1] = bsym_u32("word"); r = a.replace_words(b, w, nw); valid = b < m.n; wordAt(w, nw, b, t); for (uint32_t i = 0; i < MAXW; i++) t[i] &= maskw(i, 0, m.n); for (uint32_t i = 0; i < MAXW; i++) x.w[i] = (x.w[i] & ~(maskw(i, b, b + nw * 32) & maskw(i, 0, m.n))) | t[i]; break; }
    case 21: { uint32_t b = P("b"); unsigned nw = pick("nw", 3); w[0] = bsym_u32("word"); w[1] = bsym_u32("word"); r = a.fill_words(b, w, nw); valid = b < m.n; wordAt(w, nw, b, t); for (uint32_t i = 0; i < MAXW; i++) t[i] &= maskw(i, 0, m.n); for (uint32_t i = 0; i < MAXW; i++) x.w[i] |= t[i]; break; }
    case 22: { uint32_t b = P("b"); unsigned nw = pick("nw", 3); w[0] = bsym_u32("word"); w[1] = bsym_u32("word"); r = a.clear_words(b, w, nw); valid = b < m.n; wordAt(w, nw, b, t); for (uint32_t i = 0; i < MAXW; i++) t[i] &= maskw(i, 0, m.n); for (uint32_t i = 0; i < MAXW; i++) x.w[i] &= ~t[i]; break; }
  }
  if (r == BL_SUCCESS) { ASSERT(valid, "an out-of-range bit index must be refused"); m = x; }
  else if (r == BL_ERROR_OUT_OF_MEMORY) REACH("oom");
  else ASSERT(!valid, "a valid operation must not be refused");
}
static uint32_t pc(uint32_t x) { return (uint32_t)__builtin_popcount(x); }
static void view(const BLBitArray& a, const M& m) {
  ASSERT(a.size() == m.n, "size differs from the model"); ASSERT(a.capacity() >= m.n, "capacity below size"); ASSERT(a.is_empty() == (m.n == 0), "is_empty differs");
  const uint32_t* d = a.data(); uint32_t nw = (m.n + 31) / 32, bad = 0; ASSERT(a.word_count() == nw, "word_count differs");
  for (uint32_t i = 0; i < nw; i++) bad |= rev(d[i]) ^ m.w[i];
  ASSERT(bad == 0, "content differs from the bit vector model");
}
static void query(const BLBitArray& a, const M& m, const BLBitArray& b, const M& mb, int k) {
  switch (k) {
    case 0: { uint32_t i = bsym_u32("i"), in = 0; for (uint32_t j = 0; j < MAXW; j++) if (i / 32 == j) in = (m.w[j] >> (i % 32)) & 1; ASSERT(a.has_bit(i) == (in != 0), "has_bit differs"); break; }
    case 1: { uint32_t c = 0; for (uint32_t j = 0; j < MAXW; j++) c += pc(m.w[j]); ASSERT(a.cardinality() == c, "cardinality differs"); break; }
    case 2: { uint32_t s = P("qs"), e = P("qe"), any = 0; ASSUME(s <= e); for (uint32_t j = 0; j < MAXW; j++) any |= m.w[j] & maskw(j, s, e); ASSERT(a.has_bits_in_range(s, e) == (any != 0), "has_bits_in_range differs"); break; }
    case 3: { uint32_t s = P("qs"), e = P("qe"), c = 0; ASSUME(s <= e); for (uint32_t j = 0; j < MAXW; j++) c += pc(m.w[j] & maskw(j, s, e)); ASSERT(a.cardinality_in_range(s, e) == c, "cardinality_in_range differs"); break; }
    case 4: { uint32_t df = m.n ^ mb.n, sub = 0, in = 0; for (uint32_t j = 0; j < MAXW; j++) { df |= m.w[j] ^ mb.w[j]; sub |= mb.w[j] & ~m.w[j]; in |= m.w[j] & mb.w[j]; }
      ASSERT(a.equals(b) == (df == 0), "equals differs"); int c = a.compare(b), d = b.compare(a); ASSERT((c == 0) == (df == 0), "compare zero exactly for equal"); ASSERT((c < 0) == (d > 0), "compare antisymmetric"); ASSERT(a.subsumes(b) == (sub == 0), "subsumes differs"); ASSERT(a.intersects(b) == (in != 0), "intersects differs"); break; }
    case 5: { uint32_t s = 0, e = 0, any = 0, lo = 0, hi = 0; for (uint32_t j = MAXW; j-- > 0;) if (m.w[j]) lo = j * 32 + (uint32_t)__builtin_ctz(m.w[j]); for (uint32_t j = 0; j < MAXW; j++) if (m.w[j]) { any = 1; hi = j * 32 + 32 - (uint32_t)__builtin_clz(m.w[j]); }
      bool ok = bl_bit_array_get_range(&a, &s, &e); ASSERT(ok == (any != 0), "get_range success differs"); if (any) ASSERT(s == lo && e == hi, "get_range is not tight"); break; }
  }
}
static void start(BLBitArray& a, M& m, const char* nm) { // n bits of symbolic content
  static const uint32_t ns[] = {0, 1, 32, 96, 97, 160, 33, 95, 128, 64}; uint32_t n = ns[pick(nm, THOROUGH ? 10 : 6)];
  m = M{}; uint32_t w[MAXW]; for (uint32_t i = 0; i < (n + 31) / 32; i++) w[i] = bsym_u32("init");
  ASSUME(a.assign_words(w, (n + 31) / 32) == BL_SUCCESS); ASSUME(a.resize(n) == BL_SUCCESS); m.n = n; for (uint32_t i = 0; i < (n + 31) / 32; i++) m.w[i] = rev(w[i]) & maskw(i, 0, n);
}
static void run(int steps, int lo, int hi, int k, int oom) {
  uint64_t live = bsym_mem_live();
  {
    BLBitArray a, b; M m{}, mb{}; start(a, m, "n0"); if (k == 4) start(b, mb, "n1"); else if (pick("share", 2)) { b = a; mb = m; }
    bsym_fail_malloc(oom); for (int i = 0; i < steps; i++) op(a, m, b, mb, 23); bsym_fail_malloc(0);
    view(a, m); view(b, mb); if (k >= 0) query(a, m, b, mb, k);
  }
  ASSERT(bsym_mem_live() == live, "memory leaked by bit array operations"); REACH("end");
}
ENTRY h_bitarray_1() { run(1, 0, 23, -1, 0); }
ENTRY h_bitarray_1oom() { run(1, 0, 23, -1, 1); }
ENTRY h_bitarray_2() { run(2, 0, 23, -1, 0); }
ENTRY h_bitarray_q0() { run(0, 0, 0, 0, 0); } ENTRY h_bitarray_q1() { run(0, 0, 0, 1, 0); } ENTRY h_bitarray_q2() { run(0, 0, 0, 2, 0); } ENTRY h_bitarray_q3() { run(0, 0, 0, 3, 0); } ENTRY h_bitarray_q4() { run(0, 0, 0, 4, 0); } ENTRY h_bitarray_q5() { run(0, 0, 0, 5, 0); }
