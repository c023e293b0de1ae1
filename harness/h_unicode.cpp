// C03: Unicode text. The reference decoder/encoder below is written from the Unicode standard (well-formed UTF-8/16/32).
#include <blend2d/blend2d.h>
#include <blend2d/unicode/unicode_p.h>
#include <stdlib.h>
#include <string.h>
#include "bsym.h"
typedef uint32_t u32; typedef uint8_t u8;
enum { L1 = BL_TEXT_ENCODING_LATIN1, U8 = BL_TEXT_ENCODING_UTF8, U16 = BL_TEXT_ENCODING_UTF16, U32 = BL_TEXT_ENCODING_UTF32 };
// Decodes one character of s[0..n). Returns its size in bytes, 0 if malformed (or truncated when *trunc).
static bool lenient = false; // the glyph buffer accepts lone surrogates
static size_t ref_next(u32 enc, const u8* s, size_t n, u32* out, bool* trunc) {
  *trunc = false;
  if (enc == L1) { *out = s[0]; return 1; }
  if (enc == U32) { if (n < 4) { *trunc = true; return 0; } u32 c = s[0] | s[1] << 8 | s[2] << 16 | u32(s[3]) << 24; *out = c; return c <= 0x10FFFF && (lenient || !(c >= 0xD800 && c <= 0xDFFF)) ? 4 : 0; }
  if (enc == U16) { if (n < 2) { *trunc = true; return 0; } u32 c = s[0] | s[1] << 8; if (c < 0xD800 || c > 0xDFFF) { *out = c; return 2; } if (c >= 0xDC00) { *out = c; return lenient ? 2 : 0; } if (n < 4) { *trunc = true; *out = c; return lenient ? 2 : 0; } u32 d = s[2] | s[3] << 8; if (d < 0xDC00 || d > 0xDFFF) { *out = c; return lenient ? 2 : 0; } *out = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00); return 4; }
  u32 c = s[0]; if (c < 0x80) { *out = c; return 1; } if (c < 0xC2 || c > 0xF4) return 0;
  size_t k = c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; u32 v = c & (k == 2 ? 0x1F : k == 3 ? 0x0F : 0x07);
  if (n < k) { *trunc = true; return 0; }
  for (size_t i = 1; i < k; i++) { if ((s[i] & 0xC0) != 0x80) return 0; v = v << 6 | (s[i] & 0x3F); }
  if (k == 3 && (v < 0x800 || (!lenient && v >= 0xD800 && v <= 0xDFFF))) return 0; if (k == 4 && (v < 0x10000 || v > 0x10FFFF)) return 0;
  *out = v; return k;
}
static size_t ref_put(u32 enc, u32 c, u8* d) {
  if (enc == U32) { for (int i = 0; i < 4; i++) d[i] = u8(c >> (8 * i)); return 4; }
  if (enc == U16) { if (c < 0x10000) { d[0] = u8(c); d[1] = u8(c >> 8); return 2; } c -= 0x10000; u32 h = 0xD800 + (c >> 10), l = 0xDC00 + (c & 0x3FF); d[0] = u8(h); d[1] = u8(h >> 8); d[2] = u8(l); d[3] = u8(l >> 8); return 4; }
  if (c < 0x80) { d[0] = u8(c); return 1; } if (c < 0x800) { d[0] = u8(0xC0 | c >> 6); d[1] = u8(0x80 | (c & 63)); return 2; }
  if (c < 0x10000) { d[0] = u8(0xE0 | c >> 12); d[1] = u8(0x80 | (c >> 6 & 63)); d[2] = u8(0x80 | (c & 63)); return 3; }
  d[0] = u8(0xF0 | c >> 18); d[1] = u8(0x80 | (c >> 12 & 63)); d[2] = u8(0x80 | (c >> 6 & 63)); d[3] = u8(0x80 | (c & 63)); return 4;
}
static size_t maxsrc(u32 e) { return e == U8 ? (THOROUGH ? 8 : 6) : e == U16 ? (THOROUGH ? 10 : 7) : e == U32 ? (THOROUGH ? 17 : 9) : 5; }
static void validate(u32 enc) {
  size_t n = pick("n", (u32)maxsrc(enc) + 1); u8* s = (u8*)malloc(n ? n : 1); bsym_make_symbolic(s, n, "s");
  bl::Unicode::ValidationState st; BLResult r = bl::Unicode::bl_validate_unicode(s, n, BLTextEncoding(enc), st);
  size_t i = 0, i8 = 0, i16 = 0, i32 = 0; u32 c; bool tr = false; size_t k = 1; u8 tmp[4];
  while (i < n && (k = ref_next(enc, s + i, n - i, &c, &tr)) != 0) { i += k; i8 += ref_put(U8, c, tmp); i16 += ref_put(U16, c, tmp) / 2; i32++; }
  ASSERT((r == BL_SUCCESS) == (i == n), "text validates exactly when it is well formed");
  if (i == n) REACH("valid"); else { REACH("invalid"); ASSERT(r == BL_ERROR_INVALID_STRING || r == BL_ERROR_DATA_TRUNCATED, "an invalid text is reported as such"); if (!tr) ASSERT(r == BL_ERROR_INVALID_STRING || enc == U8, "malformed text is not reported as truncated"); }
  ASSERT(st.utf8_index == i8 && st.utf16_index == i16 && st.utf32_index == i32, "the indexes count the valid prefix");
  free(s); REACH("end");
}
static void convert(u32 de, u32 se) {
  size_t n = pick("n", (u32)maxsrc(se) + 1); u8* s = (u8*)malloc(n ? n : 1); bsym_make_symbolic(s, n, "s");
  size_t cap = pick("cap", THOROUGH ? 13 : 9); u8* d = (u8*)malloc(cap ? cap : 1); memset(d, 0xEE, cap ? cap : 1);
  bl::Unicode::ConversionState st; BLResult r = bl::Unicode::convert_unicode(d, cap, de, s, n, se, st);
  size_t unit = de == U16 ? 2 : de == U32 ? 4 : 1, room = cap / unit * unit;
  ASSERT(st.src_index <= n && st.dst_index <= cap, "positions stay within the buffers");
  u8 exp[96]; size_t i = 0, o = 0; u32 c = 0; bool tr = false, full = false; size_t k = 1;
  while (i < n) { k = ref_next(se, s + i, n - i, &c, &tr); if (!k) break; u8 t[4]; size_t w = de == L1 ? 1 : ref_put(de, c, t); if (de == L1) t[0] = u8(c); if (o + w > room) { full = true; break; } for (size_t j = 0; j < w; j++) exp[o + j] = t[j]; i += k; o += w; }
  ASSERT((r == BL_SUCCESS) == (i == n), "conversion succeeds exactly when the text is well formed and fits");
  if (full) REACH("full"); if (i == n) REACH("ok");
  if (r == BL_SUCCESS || de != se) {
    ASSERT(st.src_index == i, "everything that is valid and fits is consumed"); ASSERT(st.dst_index == o, "everything that is valid and fits is produced");
    bool same = true; for (size_t j = 0; j < o; j++) same &= d[j] == exp[j]; ASSERT(same, "the produced text encodes the same characters");
  } else { // same encoding: a prefix of valid characters is copied
    ASSERT(st.src_index == st.dst_index && st.src_index <= i, "a valid prefix is consumed"); bool same = true; for (size_t j = 0; j < st.dst_index && j < o; j++) same &= d[j] == exp[j]; ASSERT(same, "the produced prefix encodes the same characters");
    ASSERT(i - st.src_index < 4, "the valid prefix is not cut short");
  }
  for (size_t j = o; j < cap; j++) ASSERT(d[j] == 0xEE || r != BL_SUCCESS || j < o, "bytes after the produced text are untouched");
  free(s); free(d); REACH("end");
}
ENTRY h_unicode_validate1() { validate(L1); } ENTRY h_unicode_validate8() { validate(U8); } ENTRY h_unicode_validate16() { validate(U16); } ENTRY h_unicode_validate32() { validate(U32); }
#define CV(n, d, s) ENTRY h_unicode_##n() { convert(d, s); }
CV(8_1, U8, L1) CV(8_8, U8, U8) CV(8_16, U8, U16) CV(8_32, U8, U32) CV(16_1, U16, L1) CV(16_8, U16, U8) CV(16_16, U16, U16) CV(16_32, U16, U32) CV(32_1, U32, L1) CV(32_8, U32, U8) CV(32_16, U32, U16) CV(32_32, U32, U32) CV(1_1, L1, L1)
// Glyph buffer: text of every encoding becomes code points, every malformed unit becomes one replacement character and is reported.
static void text(u32 enc) { lenient = true;
  size_t units = pick("n", enc == U8 ? 5 : 4), sz = enc == U16 ? 2 : enc == U32 ? 4 : 1, n = units * sz; u8* s = (u8*)malloc(n ? n : 1); bsym_make_symbolic(s, n, "s"); bool z = pick("zero_terminated", 2);
  if (z) { u8* t = (u8*)malloc(n + sz); memcpy(t, s, n); memset(t + n, 0, sz); free(s); s = t; for (size_t i = 0; i < units; i++) { u32 v = 0; for (size_t j = 0; j < sz; j++) v |= s[i * sz + j]; ASSUME(v != 0); } }
  { BLGlyphBuffer gb; if (pick("used", 2)) gb.set_utf8_text("some older text", 15); bsym_fail_malloc(1);
    BLResult r = bl_glyph_buffer_set_text(&gb, s, z ? SIZE_MAX : units, BLTextEncoding(enc)); bsym_fail_malloc(0);
    if (r != BL_SUCCESS) { ASSERT(r == BL_ERROR_OUT_OF_MEMORY, "only memory"); REACH("oom"); free(s); return; }
    size_t i = 0, o = 0; bool bad = false; const u32* ct = gb.content(); const BLGlyphInfo* inf = gb.info_data();
    while (i < n) { u32 c; bool tr; size_t k = ref_next(enc, s + i, n - i, &c, &tr); if (!k && enc == U16 && n - i >= 2) { k = 0; } size_t cl = i / sz; if (!k) { c = 0xFFFD; k = sz; bad = true; }
      ASSERT(o < gb.size(), "no character is lost"); ASSERT(ct[o] == c, "decoded character"); ASSERT(inf[o].cluster == cl, "cluster is the index of the first unit"); i += k; o++; }
    ASSERT(gb.size() == o, "number of characters"); ASSERT(!!(gb.flags() & BL_GLYPH_RUN_FLAG_INVALID_TEXT) == bad, "malformed text is reported"); ASSERT(!!(gb.flags() & BL_GLYPH_RUN_FLAG_UCS4_CONTENT) == (o != 0), "content is marked as text"); if (bad) REACH("bad"); else REACH("good");
  }
  free(s); REACH("end");
}
ENTRY h_unicode_text1() { text(L1); } ENTRY h_unicode_text8() { text(U8); } ENTRY h_unicode_text16() { text(U16); } ENTRY h_unicode_text32() { text(U32); }
ENTRY h_unicode_glyphs() {
  uint64_t live = bsym_mem_live();
  { u32 n = pick("n", 4); u32 g[4]; uint16_t h[12]; bsym_make_symbolic(g, 16, "g"); bsym_make_symbolic(h, 24, "h"); BLGlyphBuffer gb; u32 mode = pick("mode", 3); size_t adv = mode == 1 ? 2 + 2 * pick("adv", 3) : 4 + 4 * pick("adv", 2);
    if (pick("used", 2)) gb.set_utf8_text("older", 5);
    u32* ge = (u32*)malloc(n * 4 ? n * 4 : 1); memcpy(ge, g, n * 4);
    bsym_fail_malloc(1); BLResult r = mode == 0 ? gb.set_glyphs(ge, n) : mode == 1 ? gb.set_glyphs_from_struct(h, n, 2, (intptr_t)adv) : gb.set_glyphs_from_struct(h, n > 3 ? 3 : n, 4, (intptr_t)adv); bsym_fail_malloc(0);
    if (r == BL_SUCCESS) { ASSERT(gb.size() == n, "glyph count"); for (u32 i = 0; i < n; i++) { u32 w = mode == 0 ? g[i] : mode == 1 ? *(const uint16_t*)((const u8*)h + i * adv) : *(const u32*)((const u8*)h + i * adv); ASSERT(gb.content()[i] == w, "glyph id"); ASSERT(gb.info_data()[i].cluster == i, "cluster"); } ASSERT(!gb.has_text(), "glyphs, not text"); REACH("set"); } else { ASSERT(r == BL_ERROR_OUT_OF_MEMORY, "only memory"); REACH("oom"); }
    gb.clear(); ASSERT(gb.size() == 0, "cleared"); free(ge); }
  ASSERT(bsym_mem_live() == live, "no leak"); REACH("end");
}
