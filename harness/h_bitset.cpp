// C06: BLBitSet against a mathematical set. The universe is all 32-bit indexes; operations have symbolic end points inside two
// 64-bit windows (the gap between them is either fully covered or not), the probe is symbolic.
#include "bsym.h"
#include <blend2d/blend2d.h>
static uint32_t base0, base1;
struct M { uint64_t a, b; int mid; };            // membership of window 0, window 1 and the gap
struct P { int w; uint32_t o; uint32_t v() const { return (w ? base1 : base0) + o; } };
static uint32_t offN = 5; static bool touched, symOff; // symbolic offsets (one operation), or a case split over the word-boundary classes (longer histories, symbolic contents)
static P pos(const char* nm, uint32_t hi) { P p; p.w = (int)pick("w", 2); static const uint32_t c[] = {0, 33, 64, 63, 31, 32, 1, 14};
  if (symOff) p.o = range32(nm, 0, hi); else { p.o = c[pick(nm, offN)]; if (p.o > hi) p.o = 17; } return p; }
static uint64_t lowmask(uint32_t n) { return n >= 64 ? ~0ull : (1ull << n) - 1; } // bits [0,n)
static M rangeM(P s, P e) {                         // s <= e
  M m; m.a = s.w ? 0 : (e.w ? ~0ull : lowmask(e.o)) & ~lowmask(s.o); m.b = e.w ? lowmask(e.o) & ~(s.w ? lowmask(s.o) : 0ull) : 0; m.mid = !s.w && e.w; return m;
}
static uint32_t gapLen() { return base1 - base0 - 64; }
static bool hasM(const M& m, P p) { return ((p.w ? m.b : m.a) >> p.o) & 1; }
static void bases() {
  switch (pick("base", THOROUGH ? 5 : 4)) {
    case 0: base0 = 0; base1 = 64; break;
    case 1: base0 = 480; base1 = 480 + 1600; break;
    case 2: base0 = symOff ? 7 : 32; base1 = symOff ? 0xFFFFFFBFu : 0xFFFFFF80u; break;
    case 3: base0 = 128 * 5 - 32; base1 = base0 + 64; break;
    case 4: base0 = 992; base1 = 992 + 320; break;
  }
}
static void ord(P& s, P& e) { if (s.w > e.w) ASSUME(0); ASSUME(s.v() <= e.v()); }
static uint32_t rev(uint32_t x) { return __builtin_bitreverse32(x); } // documented layout: bit 0 of a word is its most significant bit
static uint64_t word64(uint32_t a, uint32_t b) { return (uint64_t)rev(a) | ((uint64_t)rev(b) << 32); }
static void mutate(BLBitSet& s, M& m, BLBitSet& o, M& mo, int nops) {
  BLResult r = BL_SUCCESS; M next = m;
  switch (pick("op", nops)) {
    case 0: { P p = pos("s", 64), q = pos("e", 64); ord(p, q); r = s.add_range(p.v(), q.v()); M x = rangeM(p, q); next.a |= x.a; next.b |= x.b; next.mid |= x.mid; break; }
    case 1: { P p = pos("s", 64), q = pos("e", 64); ord(p, q); r = s.clear_range(p.v(), q.v()); M x = rangeM(p, q); next.a &= ~x.a; next.b &= ~x.b; next.mid &= !x.mid; break; }
    case 2: { P p = pos("s", 63); r = s.add_bit(p.v()); (p.w ? next.b : next.a) |= 1ull << p.o; break; }
    case 3: { P p = pos("s", 63); r = s.clear_bit(p.v()); (p.w ? next.b : next.a) &= ~(1ull << p.o); break; }
    case 4: { P p = pos("s", 64), q = pos("e", 64); ord(p, q); r = s.chop(p.v(), q.v()); M x = rangeM(p, q); next.a &= x.a; next.b &= x.b; next.mid &= x.mid; break; }
    case 5: { P p = pos("s", 64), q = pos("e", 64); ord(p, q); r = s.assign_range(p.v(), q.v()); next = rangeM(p, q); break; }
    case 6: r = s.optimize(); break;
    case 7: r = s.shrink(); break;
    case 8: touched = true; r = o.assign(s); if (r == BL_SUCCESS) mo = m; break;
    case 9: touched = true; r = o.assign_deep(s); if (r == BL_SUCCESS) mo = m; break;
    case 10: r = s.clear(); next = M{0, 0, 0}; break;
    case 11: { touched = true; BLBitSet t(static_cast<BLBitSet&&>(s)); o = static_cast<BLBitSet&&>(t); mo = m; next = M{0, 0, 0}; break; }
    case 13: { uint32_t w[2]; w[0] = bsym_u32("word"); w[1] = bsym_u32("word"); unsigned win = pick("w", 2), n = 1 + pick("nw", 2); r = s.add_words((win ? base1 : base0) / 32, w, n); uint64_t v = word64(w[0], n > 1 ? w[1] : 0); (win ? next.b : next.a) |= v; break; }
    case 14: { uint32_t w[2]; w[0] = bsym_u32("word"); w[1] = bsym_u32("word"); unsigned win = pick("w", 2), n = 1 + pick("nw", 2); r = s.assign_words((win ? base1 : base0) / 32, w, n); uint64_t v = word64(w[0], n > 1 ? w[1] : 0); next = M{win ? 0 : v, win ? v : 0, 0}; break; }
    case 12: s.reset(); next = M{0, 0, 0}; break;
  }
  if (r == BL_SUCCESS) m = next; else { ASSERT(r == BL_ERROR_OUT_OF_MEMORY, "only an allocation failure may fail a valid operation"); REACH("oom"); }
}
static uint32_t pop(uint64_t x) { return (uint32_t)__builtin_popcountll(x); }
static uint64_t card(const M& m) { return (uint64_t)pop(m.a) + pop(m.b) + (m.mid ? gapLen() : 0); }
static const uint32_t offs[] = {0, 1, 13, 14, 16, 17, 30, 31, 32, 33, 34, 62, 63};
static void query(const BLBitSet& s, const M& m, const BLBitSet& o, const M& mo, int k) {
  switch (k) {
    case 0: { uint32_t bad = 0; for (uint32_t o : offs) { bad |= (uint32_t)s.has_bit(base0 + o) ^ (uint32_t)((m.a >> o) & 1); bad |= (uint32_t)s.has_bit(base1 + o) ^ (uint32_t)((m.b >> o) & 1); }
      const uint32_t gs[] = {base0 - 1, base0 + 64, base1 - 1, base1 + 64, 5000u, 127u, 128u, 0x80000000u}; for (uint32_t g : gs) { if (g == ~0u || g - base0 < 64 || g - base1 < 64) continue; bad |= (uint32_t)s.has_bit(g) ^ (uint32_t)(m.mid && g > base0 && g < base1); }
      ASSERT(bad == 0, "has_bit differs from the set model"); break; }
    case 1: { ASSERT(s.is_empty() == (m.a == 0 && m.b == 0 && (!m.mid || gapLen() == 0)), "is_empty differs"); ASSERT(s.cardinality() == (uint32_t)card(m), "cardinality differs"); break; }
    case 2: { uint32_t a = 0, b = 0; bool ok = s.get_range(&a, &b); bool ne = m.a || m.b || (m.mid && gapLen()); ASSERT(ok == ne, "get_range success differs from non-emptiness");
      if (ne) { uint32_t lo = m.a ? base0 + (uint32_t)__builtin_ctzll(m.a) : m.mid && gapLen() ? base0 + 64 : base1 + (uint32_t)__builtin_ctzll(m.b); uint32_t hi = m.b ? base1 + 64 - (uint32_t)__builtin_clzll(m.b) : m.mid && gapLen() ? base1 : base0 + 64 - (uint32_t)__builtin_clzll(m.a); ASSERT(a == lo && b == hi, "get_range is not the tight range"); } break; }
    case 3: { P p = pos("qs", 64), q = pos("qe", 64); ord(p, q); M x = rangeM(p, q); x.a &= m.a; x.b &= m.b; x.mid &= m.mid; ASSERT(s.has_bits_in_range(p.v(), q.v()) == (x.a || x.b || (x.mid && gapLen())), "has_bits_in_range differs"); break; }
    case 4: { P p = pos("qs", 64), q = pos("qe", 64); ord(p, q); M x = rangeM(p, q); x.a &= m.a; x.b &= m.b; x.mid &= m.mid; ASSERT(s.cardinality_in_range(p.v(), q.v()) == (uint32_t)card(x), "cardinality_in_range differs"); break; }
    case 5: { bool mid = (m.mid && gapLen()) == (mo.mid && gapLen()); bool eq = m.a == mo.a && m.b == mo.b && mid; ASSERT(s.equals(o) == eq, "equals differs from set equality"); int c = s.compare(o), d = o.compare(s); ASSERT((c == 0) == eq, "compare is zero exactly for equal sets"); ASSERT((c < 0) == (d > 0), "compare is antisymmetric"); break; }
    case 6: { bool sub = !(mo.a & ~m.a) && !(mo.b & ~m.b) && !(mo.mid && !m.mid && gapLen()); ASSERT(s.subsumes(o) == sub, "subsumes differs from set inclusion"); bool in = (m.a & mo.a) || (m.b & mo.b) || (m.mid && mo.mid && gapLen()); ASSERT(s.intersects(o) == in, "intersects differs"); break; }
  }
}
static void second(BLBitSet& o, M& mo) { // an independent second set
  mo = M{0, 0, 0};
  switch (pick("o2", 3)) { case 0: break; case 1: { P p = pos("os", 64), q = pos("oe", 64); ord(p, q); ASSUME(o.add_range(p.v(), q.v()) == BL_SUCCESS); mo = rangeM(p, q); break; }
    case 2: { uint32_t w[2] = {bsym_u32("ow"), bsym_u32("ow")}; o.add_words(base0 / 32, w, 2); mo.a = word64(w[0], w[1]); if (pick("o3", 2)) { o.add_words(base1 / 32, w, 1); mo.b = word64(w[0], 0); } break; } }
}
static void run(int steps, int nops, int k, int oom, bool pre, bool so = false) {
  symOff = so; uint64_t live = bsym_mem_live(); touched = false; bases(); offN = steps > 1 ? (THOROUGH ? 5 : 3) : (THOROUGH ? 8 : 5);
  {
    BLBitSet s, o; M m{0, 0, 0}, mo{0, 0, 0};
    if (k >= 5) second(o, mo);
    if (pre) { // a dynamic, dense starting point: symbolic words in both windows, optionally shared or with the gap filled
      uint32_t w[4]; for (int i = 0; i < 4; i++) w[i] = bsym_u32("w0");
      ASSUME(s.add_words(base0 / 32, w, 2) == BL_SUCCESS); ASSUME(s.add_words(base1 / 32, w + 2, 2) == BL_SUCCESS); m.a = word64(w[0], w[1]); m.b = word64(w[2], w[3]);
      unsigned sh = pick("shape", k >= 5 ? 2 : 3); if (sh == 1) { s.add_range(base0 + 64, base1); m.mid = 1; } if (sh == 2) { o = s; mo = m; touched = true; } }
    bsym_fail_malloc(oom);
    for (int i = 0; i < steps; i++) mutate(s, m, o, mo, nops);
    bsym_fail_malloc(0);
    query(s, m, o, mo, k);
    if (k == 0 && touched) query(o, mo, s, m, 0);
  }
  ASSERT(bsym_mem_live() == live, "memory leaked by bit set operations");
  REACH("end");
}
ENTRY h_bitset_sym() { run(1, 6, 0, 0, false, true); }
#define Q(N) ENTRY h_bitset_q##N() { run(1, 13, N, 0, false); } ENTRY h_bitset_d##N() { run(1, 15, N, 0, true); } ENTRY h_bitset_e##N() { run(2, 15, N, 0, false); } ENTRY h_bitset_f##N() { run(2, 15, N, 0, true); }
Q(0) Q(1) Q(2) Q(3) Q(4) Q(5) Q(6)
ENTRY h_bitset_oom() { run(1, 15, 0, 1, true); }
// Histories of range operations over a table of boundaries (segment and word aligned or not). The model is the membership of every elementary interval;
// membership is checked for an arbitrary 32-bit index, the other queries on every table boundary.
static const uint32_t T[] = {0, 5, 32, 128, 133, 256, 384, 512, 640, 1024, 1061, 2560, 3840, 3968, 4096, 0xFFFFFF80u, 0xFFFFFFFFu}; enum { TN = sizeof(T) / sizeof(T[0]) };
static void splits(int steps, uint32_t first) {
  uint64_t live = bsym_mem_live();
  {
    BLBitSet s, c; bool in[TN] = {}, inC[TN] = {}; bool shared = false;
    uint32_t kind = first; // an initial long range, in segments
    if (kind == 0) { s.add_range(5, 4096); for (int i = 1; i < 14; i++) in[i] = true; }
    if (kind == 1) { s.add_range(0, 4096); s.add_range(0xFFFFFF80u, 0xFFFFFFFFu); for (int i = 0; i < 14; i++) in[i] = true; in[15] = true; }
    if (kind == 2) { s.add_range(32, 256); s.add_range(512, 2560); for (int i = 2; i < 5; i++) in[i] = true; for (int i = 7; i < 11; i++) in[i] = true; }
    for (int k = 0; k < steps; k++) {
      uint32_t op = pick("op", 4), a, b; bool narrow = steps > 1 && !THOROUGH; static const uint8_t N0[] = {1, 3, 5, 8, 10, 12, 14};
      if (narrow) { uint32_t i = pick("a", 7), j = pick("b", 7); a = N0[i]; b = N0[j]; } else { a = pick("a", TN); b = pick("b", TN); }
      if (a >= b) ASSUME(0); if (k == 0 && pick("share", 2)) { c = s; shared = true; for (int i = 0; i < TN; i++) inC[i] = in[i]; }
      BLResult r = op == 0 ? s.clear_range(T[a], T[b]) : op == 1 ? s.add_range(T[a], T[b]) : op == 2 ? s.chop(T[a], T[b]) : s.assign_range(T[a], T[b]);
      ASSERT(r == BL_SUCCESS, "range operation succeeds");
      for (uint32_t i = 0; i + 1 < TN; i++) { bool inside = i >= a && i < b; in[i] = op == 0 ? in[i] && !inside : op == 1 ? in[i] || inside : op == 2 ? in[i] && inside : inside; }
    }
    uint32_t x = bsym_u32("x"); bool mx = false, mc = false; for (uint32_t i = 0; i + 1 < TN; i++) { bool h = x >= T[i] && x < T[i + 1]; mx |= h & in[i]; mc |= h & inC[i]; }
    ASSERT(s.has_bit(x) == mx, "membership of an arbitrary index differs from the model"); if (shared) ASSERT(c.has_bit(x) == mc, "a copy changed");
    uint32_t total = 0, lo = ~0u, hi = 0; for (uint32_t i = 0; i + 1 < TN; i++) if (in[i]) { total += T[i + 1] - T[i]; if (lo == ~0u) lo = T[i]; hi = T[i + 1]; }
    ASSERT(s.cardinality() == total, "cardinality differs"); ASSERT(s.is_empty() == (total == 0), "is_empty differs"); uint32_t ga, gb; bool g = s.get_range(&ga, &gb); ASSERT(g == (total != 0) && (!g || (ga == lo && gb == hi)), "get_range differs");
    for (uint32_t i = 0; i + 1 < TN; i += 2) { uint32_t n = 0; for (uint32_t j = i; j + 1 < TN; j++) { if (in[j]) n += T[j + 1] - T[j]; if (j % 3 == i % 3) { ASSERT(s.cardinality_in_range(T[i], T[j + 1]) == n, "cardinality_in_range differs"); ASSERT(s.has_bits_in_range(T[i], T[j + 1]) == (n != 0), "has_bits_in_range differs"); } } }
  }
  ASSERT(bsym_mem_live() == live, "memory leaked by bit set operations"); REACH("end");
}
ENTRY h_bitset_s1a() { splits(1, 0); } ENTRY h_bitset_s1b() { splits(1, 1); } ENTRY h_bitset_s1c() { splits(1, 2); } ENTRY h_bitset_s2a() { splits(2, 0); } ENTRY h_bitset_s2b() { splits(2, 1); } ENTRY h_bitset_s2c() { splits(2, 2); }
