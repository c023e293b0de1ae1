// C11 checksums, C12 PNG row filters.
#include <blend2d/blend2d.h>
#include <blend2d/compression/checksum_p.h>
#include <blend2d/codec/pngops_p.h>
#include <stdlib.h>
#include <string.h>
#include "bsym.h"
typedef uint32_t u32; typedef uint8_t u8;
// --- PNG filters. p holds h rows of 1 filter byte + n bytes; the specification relates every decoded byte to already decoded ones.
static u8 paeth_png(int a, int b, int c) { int x = b - c, y = a - c, z = x + y, pa = x < 0 ? -x : x, pb = y < 0 ? -y : y, pc = z < 0 ? -z : z; return u8(pa <= pb && pa <= pc ? a : pb <= pc ? b : c); } // |p-a|, |p-b|, |p-c| with p = a+b-c
static u8 paeth(int a, int b, int c) { int hi = a > b ? a : b, lo = a < b ? a : b, t = 3 * c - (a + b); return u8(lo < t ? (t < hi ? c : lo) : hi); }
ENTRY h_codecops_paeth() { u32 c = pick("c", 256); u8 a = bsym_u8("a"), b = bsym_u8("b"); ASSERT(paeth_png(a, b, (int)c) == paeth(a, b, (int)c), "the two forms of the Paeth predictor agree"); REACH("end"); }
static void filter(u32 bpp, bool ref) {
  static const u32 WQ[] = { 1, 2, 5, 0, 0 }; u32 wi = pick("w", THOROUGH ? 5 : 4), w = wi < 3 ? WQ[wi] : wi == 3 ? (bpp == 1 ? 53 : 48 / bpp + 1) : (bpp == 1 ? 117 : 112 / bpp + 1);
  u32 n = w * bpp, h = 2, bpl = n + 1, mis = wi < 3 ? 0 : pick("misalign", THOROUGH ? 4 : 2) * 5;
  u8* base = (u8*)malloc(mis + bpl * h); u8* p = base + mis; u8 raw[2][128];
  u32 f0 = pick("f0", 6), f1 = pick("f1", 6);
  for (u32 y = 0; y < h; y++) { bsym_make_symbolic(raw[y], n, "px"); memcpy(p + y * bpl + 1, raw[y], n); u32 f = y ? f1 : f0; p[y * bpl] = u8(f == 5 ? 77 : f); }
  bl::Png::Ops::FunctionTable rt; bl::Png::Ops::init_func_table_ref(rt);
  BLResult r = (ref ? rt : bl::Png::Ops::func_table).inverse_filter[bpp](p, bpp, bpl, h);
  ASSERT(r == BL_SUCCESS, "filter result");
  for (u32 y = 0; y < h; y++) {
    u32 f = y ? f1 : f0; const u8* q = p + y * bpl + 1; const u8* u = y ? q - bpl : nullptr;
    for (u32 i = 0; i < n; i++) {
      u32 a = i >= bpp ? q[i - bpp] : 0, b = u ? u[i] : 0, c = u && i >= bpp ? u[i - bpp] : 0; u8 pred = f == 1 ? u8(a) : f == 2 ? u8(b) : f == 3 ? u8((a + b) >> 1) : f == 4 ? paeth((int)a, (int)b, (int)c) : 0;
      ASSERT(q[i] == u8(raw[y][i] + pred), "a decoded byte equals the raw byte plus its predictor");
    }
  }
  free(base); REACH("end");
}
#define F(b) ENTRY h_codecops_f##b() { filter(b, false); } ENTRY h_codecops_r##b() { filter(b, true); }
F(1) F(2) F(3) F(4) F(6) F(8)
// --- checksums
static u32 crc_bits(u32 c, u8 b) { c ^= b; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1))); return c; }
ENTRY h_codecops_crc() { // one byte from an arbitrary state, then the whole-buffer recurrence
  u32 s = bsym_u32("state"); u8 b = bsym_u8("b"); using namespace bl::Compression::Checksum;
  ASSERT(crc32_update_ref(s, &b, 1) == crc_bits(s, b), "a CRC-32 step equals the polynomial division");
  u8 d[8]; bsym_make_symbolic(d, 8, "d"); u32 n = pick("n", 9), c = 0xFFFFFFFFu; u8* e = (u8*)malloc(n ? n : 1); memcpy(e, d, n);
  for (u32 i = 0; i < n; i++) c = crc32_update_ref(c, d + i, 1);
  ASSERT(crc32(e, n) == ~c, "CRC-32 of a buffer is the fold of its bytes"); free(e); REACH("end");
}
// Arbitrary bytes at interesting positions of buffers of every interesting length (block and unroll boundaries), other bytes fixed.
static void adler(const u32* N, u32 cnt, bool two) {
  u32 n = N[pick("n", cnt)], mis = pick("misalign", THOROUGH ? 8 : 2) * (THOROUGH ? 2 : 7), fill = THOROUGH ? pick("fill", 2) : mis & 1;
  u8* base = (u8*)malloc(n + mis + 1); u8* d = base + mis; for (u32 i = 0; i < n; i++) d[i] = fill ? 0xFF : u8(i * 37 + 11);
  const u32 pos[] = { 0, 1, 16, 17, 30, 33, n / 2, n ? n - 1 : 0 }; u32 k = pick("i", two ? 8 : 3), i = two ? pos[k] : k == 0 ? 0 : k == 1 ? n / 2 : n - 1, j = two ? (i + 21) % (n + 1) : n;
  if (i < n) d[i] = bsym_u8("b0"); if (THOROUGH && j < n && j != i) d[j] = bsym_u8("b1");
  u32 s1 = 1, s2 = 0; for (u32 k = 0; k < n; k++) { s1 += d[k]; s2 += s1; if ((k & 1023) == 1023) { s1 %= 65521; s2 %= 65521; } } s1 %= 65521; s2 %= 65521;
  u32 got = bl::Compression::Checksum::adler32(d, n); ASSERT((got & 0xFFFF) == s1, "Adler-32 low half"); ASSERT(got >> 16 == s2, "Adler-32 high half");
  if (THOROUGH || two) { u32 g2 = bl::Compression::Checksum::adler32_update_ref(1, d, n); ASSERT((g2 & 0xFFFF) == s1 && g2 >> 16 == s2, "portable Adler-32"); }
  free(base); REACH("end");
}
static const u32 NS[] = { 0, 1, 15, 31, 32, 33, 63, 64, 79, 97 }, NB[] = { 5552, 5553, 5600, 8200, 11200 };
ENTRY h_codecops_adler_s() { adler(NS, 10, true); }
ENTRY h_codecops_adler_b() { adler(NB, THOROUGH ? 5 : 3, false); }
