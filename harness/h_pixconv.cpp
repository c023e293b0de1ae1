// C02: pixel format conversion. The oracle decodes and encodes pixels from the definition of a format (component sizes and shifts of a pixel value in its byte order).
#include <blend2d/blend2d.h>
#include <stdlib.h>
#include <string.h>
#include "bsym.h"
typedef uint32_t u32; typedef uint8_t u8; typedef uint64_t u64;
enum : u32 { RGB = BL_FORMAT_FLAG_RGB, A = BL_FORMAT_FLAG_ALPHA, L = BL_FORMAT_FLAG_LUM, P = BL_FORMAT_FLAG_PREMULTIPLIED, BE = BL_FORMAT_FLAG_BYTE_SWAP, IDX = BL_FORMAT_FLAG_INDEXED };
struct Fm { u32 depth, flags; u8 sz[4], sh[4]; };
static const Fm FM[] = {
  { 32, RGB | A | P, {8,8,8,8}, {16,8,0,24} }, // 0 PRGB32
  { 32, RGB | A, {8,8,8,8}, {16,8,0,24} },     // 1 ARGB32
  { 32, RGB, {8,8,8,0}, {16,8,0,0} },          // 2 XRGB32
  { 8, A, {0,0,0,8}, {0,0,0,0} },              // 3 A8
  { 8, L, {8,8,8,0}, {0,0,0,0} },              // 4 L8
  { 32, RGB | A | BE, {8,8,8,8}, {16,8,0,24} },// 5 BE ARGB32
  { 32, RGB | A | P | BE, {8,8,8,8}, {16,8,0,24} },
  { 32, RGB | BE, {8,8,8,0}, {16,8,0,0} },
  { 32, RGB | A, {8,8,8,8}, {0,8,16,24} },     // 8 ABGR32
  { 32, RGB | A | P, {8,8,8,8}, {0,8,16,24} },
  { 32, RGB, {8,8,8,0}, {0,8,16,0} },
  { 24, RGB, {8,8,8,0}, {16,8,0,0} },          // 11
  { 24, RGB, {8,8,8,0}, {0,8,16,0} },
  { 24, RGB | A, {6,6,6,6}, {18,12,6,0} },
  { 24, RGB | A | P | BE, {6,6,6,6}, {12,6,0,18} },
  { 16, RGB, {5,6,5,0}, {11,5,0,0} },          // 15
  { 16, RGB | BE, {5,6,5,0}, {11,5,0,0} },
  { 16, RGB, {5,5,5,0}, {10,5,0,0} },
  { 16, RGB | A, {4,4,4,4}, {8,4,0,12} },      // 18
  { 16, RGB | A | BE, {4,4,4,4}, {8,4,0,12} },
  { 16, RGB | A | P, {4,4,4,4}, {12,8,4,0} },
  { 16, RGB | A | P, {5,5,5,1}, {10,5,0,15} },
  { 32, RGB | A, {10,10,10,2}, {20,10,0,30} }, // 22
  { 32, RGB | A | BE, {10,10,10,2}, {0,10,20,30} },
  { 32, RGB | A | P, {9,9,9,5}, {23,14,5,0} },
  { 32, RGB | A | P, {8,8,8,8}, {0,24,16,8} }, // 25 alpha in the middle
  { 32, RGB | A, {8,8,8,8}, {0,24,16,8} },
  { 16, L | A, {8,8,8,8}, {0,0,0,8} },         // 27 LA
  { 16, L | BE, {16,16,16,0}, {0,0,0,0} },
  { 32, L | A, {16,16,16,16}, {0,0,0,16} },
  { 16, RGB, {3,7,2,0}, {13,4,1,0} },          // 30 odd sizes
};
enum { NFM = sizeof(FM) / sizeof(FM[0]) };
static BLFormatInfo info(const Fm& f) { BLFormatInfo fi{}; fi.init(f.depth, BLFormatFlags(f.flags), f.sz, f.sh); return fi; }
static u32 load(const u8* p, u32 depth, bool be) { u32 n = depth / 8, v = 0; for (u32 i = 0; i < n; i++) v |= u32(p[i]) << (be ? (n - 1 - i) * 8 : i * 8); return v; }
static u32 comp(const Fm& f, u32 v, u32 i) { return (v >> f.sh[i]) & ((1u << f.sz[i]) - 1); }
static u32 to8(u32 c, u32 n) { if (n >= 8) return c >> (n - 8); u32 r = 0; int s = 8; while (s > 0) { s -= (int)n; r |= s >= 0 ? c << s : c >> -s; } return r; } // bit replication
static u32 div255(u32 x) { x += 128; return (x + (x >> 8)) >> 8; }
enum Kind { KX, KS, KP };
static Kind kind(u32 flags) { return !(flags & A) ? KX : flags & P ? KP : KS; }
// Checks a destination pixel against a source pixel given as 8-bit components `c` (r,g,b,a) of kind `sk`.
static void check_px(const Fm& d, const u8* dp, const u32* c, Kind sk, bool src_rgb) {
  Kind dk = kind(d.flags); u32 v = load(dp, d.depth, (d.flags & BE) != 0), a = sk == KX ? 255 : c[3];
  if (d.flags & A) { u32 n = d.sz[3]; ASSERT(comp(d, v, 3) == (n <= 8 ? a >> (8 - n) : (a * 0x101) >> (16 - n)), "alpha of a converted pixel"); }
  else if (d.depth == 32 && d.flags == RGB && d.sz[0] == 8 && d.sh[0] == 16) { u32 rgb = (0xFFu << d.sh[0]) | (0xFFu << d.sh[1]) | (0xFFu << d.sh[2]); ASSERT((v | rgb) == 0xFFFFFFFFu, "the unused byte of a 32-bit pixel is filled with ones"); }
  if (!(d.flags & (RGB | L))) return;
  for (u32 i = 0; i < 3; i++) {
    u32 n = d.sz[i], got = comp(d, v, i);
    if (!src_rgb) { u32 want = dk == KS ? 255 : a; ASSERT(got == (n <= 8 ? want >> (8 - n) : (want * 0x101) >> (16 - n)), "color from an alpha mask"); continue; }
    if (sk == KP && dk == KS) { // unpremultiply
      if (n == 8) { u32 x = got * a, y = c[i] * 255; ASSERT(c[i] > a || a == 0 || (2 * x <= 2 * y + a && 2 * y <= 2 * x + a), "unpremultiplied component is correctly rounded"); ASSERT(a != 0 || c[i] != 0 || got == 0, "unpremultiplied transparent black is black"); }
      else if (n < 8) { u32 k = 8 - n, lo = got << k, hi = lo + (1u << k) - 1; ASSERT(c[i] > a || a == 0 || (2 * lo * a <= 2 * c[i] * 255 + a && 2 * c[i] * 255 <= 2 * hi * a + a), "unpremultiplied component"); }
      continue;
    }
    u32 w = sk == KS && dk != KS ? div255(c[i] * a) : c[i];
    ASSERT(got == (n <= 8 ? w >> (8 - n) : (w * 0x101) >> (16 - n)), "color of a converted pixel");
  }
}
static void decode(const Fm& s, const u8* p, u32* c) { u32 v = load(p, s.depth, (s.flags & BE) != 0); for (u32 i = 0; i < 4; i++) c[i] = s.sz[i] ? to8(comp(s, v, i), s.sz[i]) : 0; }
static void run(const Fm& d, const Fm& s, u32 w, u32 h, u32 dmis, u32 smis, u32 gap, int dpad, int spad, bool must, u32 lo = 0, u32 hi = 0xFFFFFFFF) {
  BLPixelConverter pc; BLResult r = pc.create(info(d), info(s));
  if (must) ASSERT(r == BL_SUCCESS, "a supported conversion can be created"); if (r != BL_SUCCESS) { REACH("refused"); return; }
  u32 db = d.depth / 8, sb = s.depth / 8; size_t ds = w * db + gap + dpad, ss = w * sb + spad;
  u8 *db0 = (u8*)malloc(ds * h + dmis), *sb0 = (u8*)malloc(ss * h + smis), *dp = db0 + dmis, *sp = sb0 + smis;
  memset(db0, 0x5A, ds * h + dmis); memset(sb0, 0x33, ss * h + smis); if (kind(s.flags) == KP) memset(sb0, 0xFF, ss * h + smis); bool un = kind(s.flags) == KP && kind(d.flags) == KS;
  if (un) { // division: one pixel at a time, case split over its alpha
    u32 x = lo ? lo : w < 2 ? 0 : pick("x", 2) * (w - 1 - w % 4 / 2), y = h - 1, n = s.sz[3]; static const u8 AQ[] = { 0, 1, 2, 3, 85, 127, 128, 200, 254, 255 };
    u32 a = n < 8 ? pick("a", 1u << n) : THOROUGH || w == 1 ? pick("a", 256) : AQ[pick("a", 10)], v = a << s.sh[3];
    for (u32 i = 0; i < 3; i++) { u32 c = bsym_u32("c") & ((1u << s.sz[i]) - 1); ASSUME(to8(c, s.sz[i]) <= to8(a, n)); v |= c << s.sh[i]; } // a valid premultiplied pixel
    for (u32 i = 0; i < sb; i++) sp[y * ss + x * sb + i] = u8(v >> ((s.flags & BE) ? (sb - 1 - i) * 8 : i * 8));
  } else
  for (u32 y = 0; y < h; y++) for (u32 x = lo; x < w && x < hi; x++) bsym_make_symbolic(sp + y * ss + x * sb, sb, "px");
  BLPixelConverterOptions o{}; o.gap = gap;
  ASSERT(pc.convert_rect(dp, ds, sp, ss, w, h, gap ? &o : nullptr) == BL_SUCCESS, "conversion succeeds"); REACH("converted");
  for (u32 y = 0; y < h; y++) {
    for (u32 x = 0; x < w; x++) { u32 c[4]; decode(s, sp + y * ss + x * sb, c); if (&d == &s) { u32 v0 = load(sp + y * ss + x * sb, s.depth, (s.flags & BE) != 0), v1 = load(dp + y * ds + x * db, s.depth, (s.flags & BE) != 0); for (u32 i = 0; i < 4; i++) if (s.sz[i]) ASSERT(comp(s, v0, i) == comp(s, v1, i), "a copy is exact"); continue; } if ((d.flags & L) && (s.flags & RGB)) continue; /* luminance of a color is not defined */ check_px(d, dp + y * ds + x * db, c, kind(s.flags), (s.flags & (RGB | L)) != 0); }
    for (u32 i = 0; i < gap; i++) ASSERT(dp[y * ds + w * db + i] == 0, "the gap is zeroed");
    for (int i = 0; i < dpad; i++) ASSERT(dp[y * ds + w * db + gap + i] == 0x5A, "bytes past the row are preserved");
  }
  free(db0); free(sb0); REACH("end");
}
// Native formats: every pair, widths around the vector sizes.
static void nat(u32 si) {
  u32 di = pick("d", 4); static const u32 W[] = { 1, 6, 21, 35, 2, 11, 67 }; u32 w = W[pick("w", THOROUGH ? 7 : 4)], v = pick("v", THOROUGH ? 4 : 2);
  run(FM[di], FM[si], w, 2, v == 1 ? 3 : v == 2 ? 4 : 0, v == 1 ? 1 : v == 3 ? 8 : 0, v == 1 ? 5 : 0, v ? 3 : 0, v ? 2 : 0, di != 3 || (si != 2 && si != 4));
}
ENTRY h_pixconv_nat0() { nat(0); } ENTRY h_pixconv_nat1() { nat(1); } ENTRY h_pixconv_nat2() { nat(2); } ENTRY h_pixconv_nat3() { nat(3); } ENTRY h_pixconv_nat4() { nat(4); }
static bool canon(const Fm& f) { return (f.flags & RGB) && f.depth > 8; }
ENTRY h_pixconv_from() { u32 di = pick("d", 4), si = 5 + pick("s", NFM - 5), v = pick("v", 2); run(FM[di], FM[si], v ? 5 : 2, 1 + v, v, v, v, v, v, di < 3 && canon(FM[si])); }
ENTRY h_pixconv_to() { u32 si = pick("s", 4), di = 5 + pick("d", NFM - 5), v = pick("v", 2); run(FM[di], FM[si], v ? 5 : 2, 1 + v, v, v, v, v, v, si < 3 && canon(FM[di])); }
static void ff(u32 k, u32 n) { u32 di = 5 + pick("d", NFM - 5); u32 cnt = (NFM - 5 + n - 1) / n, j = k * cnt + pick("s", cnt); if (j >= NFM - 5) { REACH("end"); return; } run(FM[di], FM[5 + j], 2, 1, 0, 0, 0, 1, 1, false); }
ENTRY h_pixconv_ff0() { ff(0, 3); } ENTRY h_pixconv_ff1() { ff(1, 3); } ENTRY h_pixconv_ff2() { ff(2, 3); }
// Conversions in several parts through the intermediate buffer: long rows, many rows.
ENTRY h_pixconv_multi() {
  static const u8 PD[] = { 15, 18, 13, 22 }, PS[] = { 11, 19, 18, 16 }; u32 k = pick("pair", 4), v = pick("v", 3); const Fm &d = FM[PD[k]], &s = FM[PS[k]];
  if (v == 0) run(d, s, 1030, 2, 0, 0, pick("gap", 2) * 7, 3, 3, true, 766, 771); else if (v == 1) run(d, s, 260, 4, 0, 0, 2, 3, 3, true, 258, 260); else run(d, s, 3, 300, 0, 0, 1, 1, 0, true, 2, 3);
}
// Indexed sources.
static void idx(u32 bits) {
  static const u8 DI[] = { 0, 1, 2, 3, 15, 18, 11, 20, 9, 16 }; const Fm& d = FM[DI[pick("d", 10)]]; u32 pk = pick("pal", 3); // palette: RGB, RGBA straight, RGBA premultiplied
  u64 live0 = bsym_mem_live(); u32 n = 1u << bits, flags = pick("cf", bits == 8 ? 3 : 1); u32* pal = (u32*)malloc(n * 4), pc0[256];
  for (u32 i = 0; i < n; i++) pal[i] = 0x40102030u + i * 0x00030507u; static const u8 E8[] = { 0, 1, 128, 255 }; u32 ns = bits == 1 ? 2 : bits == 8 ? (THOROUGH ? 4 : 2) : 3;
  for (u32 k = 0; k < ns; k++) { u32 i = bits == 8 ? E8[k] : bits == 1 ? k : (k * (n - 1) / 2); bsym_make_symbolic(&pal[i], 4, "pal"); }
  if (pk == 2) for (u32 i = 0; i < n; i++) pal[i] = (i & 1) ? pal[i] | 0xFF000000u : (pal[i] & 0x007F7F7Fu) | 0x80000000u; // valid premultiplied colors
  memcpy(pc0, pal, n * 4); Fm s = { 32, pk == 0 ? RGB : pk == 1 ? RGB | A : RGB | A | P, {8,8,8,u8(pk ? 8 : 0)}, {16,8,0,u8(pk ? 24 : 0)} };
  BLFormatInfo fi{}; fi.depth = bits; fi.flags = BLFormatFlags(IDX | s.flags); fi.palette = (BLRgba32*)pal;
  u32 w = bits == 8 ? 3 : bits == 1 ? (pick("w", 2) ? 11 : 8) : bits == 2 ? 7 : 5, h = 2, sb = (w * bits + 7) / 8, db = d.depth / 8, xp = pick("x", w), yp = (xp + pk) & 1, gap = (xp ^ pk) & 2; size_t ss = sb + 1, ds = w * db + gap + 2;
  u8 *sp = (u8*)malloc(ss * h), *dp = (u8*)malloc(ds * h); memset(sp, 0, ss * h); memset(dp, 0x5A, ds * h);
  for (u32 y = 0; y < h; y++) for (u32 i = 0; i < sb; i++) { if (bits != 8) sp[y * ss + i] = bsym_u8("idx"); else sp[y * ss + i] = y ? u8(100 + i) : E8[i + 1 < ns ? i + 1 : 0]; }
  {
    BLPixelConverter pc; BLResult r = pc.create(info(d), fi, BLPixelConverterCreateFlags(flags == 0 ? 0 : flags == 1 ? BL_PIXEL_CONVERTER_CREATE_FLAG_DONT_COPY_PALETTE : BL_PIXEL_CONVERTER_CREATE_FLAG_DONT_COPY_PALETTE | BL_PIXEL_CONVERTER_CREATE_FLAG_ALTERABLE_PALETTE));
    if (pk == 0 && d.flags == A) { free(pal); free(sp); free(dp); REACH("refused"); return; } // an alpha mask from an opaque palette is not defined
    ASSERT(r == BL_SUCCESS, "an indexed conversion can be created");
    if (flags < 2) for (u32 i = 0; i < n; i++) ASSERT(pal[i] == pc0[i], "the palette is not altered without permission");
    if (flags == 0) { memset(pal, 0xEE, n * 4); } // a copied palette can be discarded
    BLPixelConverter pc2(pc); pc.reset(); BLPixelConverterOptions o{}; o.gap = gap;
    ASSERT(pc2.convert_rect(dp, ds, sp, ss, w, h, &o) == BL_SUCCESS, "conversion succeeds");
  }
  for (u32 y = 0; y < h; y++) {
    if (y == yp) {
      u32 bit = xp * bits; u32 ix = (sp[y * ss + bit / 8] >> (8 - bits - bit % 8)) & (n - 1); if (bits != 8) ix = (u32)bsym_enumerate(ix);
      u32 c[4]; for (u32 i = 0; i < 4; i++) c[i] = s.sz[i] ? (pc0[ix] >> s.sh[i]) & 255 : 0; check_px(d, dp + y * ds + xp * db, c, kind(s.flags), true);
    }
    for (u32 i = 0; i < gap; i++) ASSERT(dp[y * ds + w * db + i] == 0, "the gap is zeroed");
    ASSERT(dp[y * ds + w * db + gap] == 0x5A && dp[y * ds + w * db + gap + 1] == 0x5A, "bytes past the row are preserved");
  }
  free(pal); free(sp); free(dp); ASSERT(bsym_mem_live() == live0, "all memory is released"); REACH("end");
}
ENTRY h_pixconv_i1() { idx(1); } ENTRY h_pixconv_i2() { idx(2); } ENTRY h_pixconv_i4() { idx(4); } ENTRY h_pixconv_i8() { idx(8); }
// Format validation: accepted exactly when well formed, and then it still denotes the same pixels.
static void sanitize(bool lum) {
  static const u32 DP[] = { 16, 24, 32, 8, 64 }; u32 di = pick("depth", THOROUGH ? 5 : 3); Fm f{}; f.depth = DP[di];
  u32 fl = lum ? (pick("a", 2) ? L | A : L) : (pick("a", 2) ? RGB | A : RGB), ord = pick("be", 2); f.flags = fl | (ord ? BE : 0) | (THOROUGH && pick("p", 2) ? P : 0);
  static const u8 Z[][4] = { {8,8,8,8}, {5,6,5,1}, {10,10,10,2}, {4,4,4,4}, {16,16,16,16} }; u32 zi = pick("sizes", 5), odd = pick("odd", 4);
  for (u32 i = 0; i < 4; i++) { f.sz[i] = i == odd ? (u8)pick("size", 18) : i == 3 && !(fl & A) ? 0 : Z[zi][i]; f.sh[i] = (u8)range32("shift", 0, 32); }
  bool ok = f.depth != 64, used[4] = { true, true, true, (fl & A) != 0 }, over = false; u64 m = 0; 
  for (u32 i = 0; i < 4; i++) {
    u32 z = f.sz[i], s = f.sh[i]; if (!used[i]) { if (z || s) ok = false; continue; }
    if (!z || z > 16 || z + s > f.depth) ok = false; u64 k = ((u64(1) << z) - 1) << s; if (m & k) { over = true; if (i == 3) ok = false; } m |= k;
  }
  if (over != lum) ok = false; if (lum && (f.sz[0] != f.sz[1] || f.sz[1] != f.sz[2] || f.sh[0] != f.sh[1] || f.sh[1] != f.sh[2])) ok = false;
  BLFormatInfo fi = info(f); BLResult r = bl_format_info_sanitize(&fi);
  ASSERT((r == BL_SUCCESS) == ok, "a pixel format is accepted exactly when its components fit, do not overlap and match its flags");
  if (r != BL_SUCCESS) { REACH("rejected"); return; }
  u32 b = bsym_u8("bit"), nb = f.depth / 8; auto where = [&](u32 bit, bool be) { u32 k = bit >> 3; return (be ? nb - 1 - k : k) * 8 + (bit & 7); }; // position of a bit of the pixel value in memory
  ASSERT(fi.depth == f.depth, "depth is kept"); u64 all = 0; bool ba = true;
  for (u32 i = 0; i < 4; i++) { u32 z = f.sz[i]; ASSERT(fi.sizes[i] == z, "sizes are kept"); if (!used[i]) continue; ASSERT(fi.shifts[i] + z <= f.depth, "the component stays inside of the pixel"); if (z != 8 || (fi.shifts[i] & 7)) ba = false; all |= ((u64(1) << z) - 1) << fi.shifts[i];
    ASSERT(b >= z || where(f.sh[i] + b, ord != 0) == where(fi.shifts[i] + b, (fi.flags & BE) != 0), "a normalized format denotes the same component values"); }
  ASSERT(((fi.flags & BL_FORMAT_FLAG_BYTE_ALIGNED) != 0) == ba, "byte aligned flag"); ASSERT(((fi.flags & BL_FORMAT_FLAG_UNDEFINED_BITS) != 0) == (all != (u64(1) << f.depth) - 1), "undefined bits flag");
  REACH("accepted");
}
ENTRY h_pixconv_san() { sanitize(false); } ENTRY h_pixconv_sanl() { sanitize(true); }
// Life cycle with allocation failures.
ENTRY h_pixconv_oom() {
  u64 live0 = bsym_mem_live();
  u32 k = pick("k", 3); BLRgba32 pal[256]; for (u32 i = 0; i < 256; i++) pal[i] = BLRgba32(0xFF000000u + i); BLFormatInfo fi{}; fi.depth = 8; fi.flags = BLFormatFlags(IDX | RGB); fi.palette = pal;
  { BLPixelConverter a, b; ASSERT(a.create(info(FM[0]), info(FM[2])) == BL_SUCCESS, "create"); bsym_fail_malloc(1);
    BLResult r = k == 0 ? a.create(info(FM[0]), fi) : k == 1 ? a.create(info(FM[15]), info(FM[19])) : b.create(info(FM[18]), info(FM[11])); bsym_fail_malloc(0);
    u8 s[4], d[4] = { 9, 9, 9, 9 }; symbolic(s, "s"); if (k == 0 && r == BL_SUCCESS) s[0] = 200;
    BLPixelConverter& c = k < 2 ? a : b; BLPixelConverter e(c); a = e; b = a; e.reset();
    if (r != BL_SUCCESS) { ASSERT(r == BL_ERROR_OUT_OF_MEMORY, "error code"); REACH("oom"); }
    BLResult q = b.convert_span(d, s, 1);
    if (r != BL_SUCCESS) { if (k < 2) { ASSERT(q == BL_SUCCESS, "still works"); for (u32 i = 0; i < 3; i++) ASSERT(d[i] == s[i], "a failed creation leaves the converter as it was"); ASSERT(d[3] == 0xFF, "opaque"); } else ASSERT(q == BL_ERROR_NOT_INITIALIZED, "an uninitialized converter reports it"); }
    else { ASSERT(q == BL_SUCCESS, "convert"); if (k == 0) ASSERT(d[0] == 200 && d[1] == 0 && d[2] == 0 && d[3] == 255, "palette color"); REACH("ok"); } }
  ASSERT(bsym_mem_live() == live0, "all memory is released"); REACH("end");
}
