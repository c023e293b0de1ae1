// C28: BLGlyphBuffer - text and glyph content, clusters, flags, placement, ownership.
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/glyphbuffer_p.h>
#include "bsym.h"
#include <blend2d/blend2d.h>
#include <string.h>
typedef uint8_t u8; typedef uint64_t u64;
struct Ref { uint32_t cp[1100], cl[1100]; size_t n; bool bad; };
// a lone surrogate is passed through in every encoding, everything else ill-formed becomes U+FFFD unit by unit
static void decode8(const u8* p, size_t n, Ref& r) {
  r.n = 0; r.bad = false; size_t i = 0;
  while (i < n) {
    uint32_t c = p[i], len = c < 0x80 ? 1 : c < 0xC2 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF5 ? 4 : 0; bool ok = len != 0 && i + len <= n; uint32_t cp = len == 1 ? c : len == 2 ? c & 31 : len == 3 ? c & 15 : c & 7;
    if (ok) for (uint32_t k = 1; k < len; k++) { ok &= (p[i + k] & 0xC0) == 0x80; cp = cp << 6 | (p[i + k] & 0x3F); }
    if (ok && len == 3) ok = cp >= 0x800; if (ok && len == 4) ok = cp >= 0x10000 && cp <= 0x10FFFF;
    r.cl[r.n] = (uint32_t)i; r.cp[r.n++] = ok ? cp : 0xFFFD; r.bad |= !ok; i += ok ? len : 1;
  }
}
static void decode16(const uint16_t* p, size_t n, Ref& r) {
  r.n = 0; r.bad = false; size_t i = 0;
  while (i < n) { uint32_t c = p[i]; bool hi = c >= 0xD800 && c < 0xDC00, lo = c >= 0xDC00 && c < 0xE000; r.cl[r.n] = (uint32_t)i;
    if (hi && i + 1 < n && p[i + 1] >= 0xDC00 && p[i + 1] < 0xE000) { r.cp[r.n++] = 0x10000 + ((c & 0x3FF) << 10) + (p[i + 1] & 0x3FF); i += 2; continue; }
    r.cp[r.n++] = c; i++; (void)lo; }
}
static void decode32(const uint32_t* p, size_t n, Ref& r) { r.n = n; r.bad = false; for (size_t i = 0; i < n; i++) { bool b = p[i] > 0x10FFFF; r.cp[i] = b ? 0xFFFD : p[i]; r.cl[i] = (uint32_t)i; r.bad |= b; } }
static void check(BLGlyphBuffer& g, const Ref& r, bool text) {
  ASSERT(g.size() == r.n, "number of elements"); const BLGlyphRun& run = g.glyph_run(); bool bad = false;
  for (size_t i = 0; i < r.n; i++) { bad |= g.content()[i] != r.cp[i] || g.info_data()[i].cluster != r.cl[i]; }
  ASSERT(!bad, "content and clusters"); ASSERT(g.has_text() == (text && r.n > 0) && g.has_glyphs() == !g.has_text(), "text/glyph state"); ASSERT(g.has_invalid_chars() == (text && r.bad), "invalid text is flagged");
  ASSERT(g.placement_data() == nullptr && run.placement_type == BL_GLYPH_PLACEMENT_TYPE_NONE, "new content is not positioned"); ASSERT(run.size == r.n && run.glyph_data == g.content() && (r.n == 0 || run.glyph_advance == 4), "glyph run describes the content");
  BLGlyphRunIterator it(run); size_t k = 0; while (!it.at_end()) { ASSERT(it.glyph_id() == r.cp[k], "iterator"); k++; it.advance(); if (k > 4) break; }
}
static BLResult setAny(BLGlyphBuffer& g, int enc, size_t n, Ref& r, bool nul) {
  size_t sz = nul ? SIZE_MAX : n;
  switch (enc) {
    case 0: { char t[8]; bsym_make_symbolic(t, n, "t"); t[n] = 0; if (nul) for (size_t i = 0; i < n; i++) ASSUME(t[i] != 0); r.n = n; r.bad = false; for (size_t i = 0; i < n; i++) { r.cp[i] = (u8)t[i]; r.cl[i] = (uint32_t)i; } BLResult x = g.set_latin1_text(t, sz); memset(t, 1, 8); return x; }
    case 1: { u8 t[8]; bsym_make_symbolic(t, n, "t"); t[n] = 0; if (nul) for (size_t i = 0; i < n; i++) ASSUME(t[i] != 0); decode8(t, n, r); BLResult x = g.set_utf8_text(t, sz); memset(t, 1, 8); return x; }
    case 2: { uint16_t t[8]; bsym_make_symbolic(t, n * 2, "t"); t[n] = 0; if (nul) for (size_t i = 0; i < n; i++) ASSUME(t[i] != 0); decode16(t, n, r); BLResult x = g.set_utf16_text(t, sz); memset(t, 1, 16); return x; }
    case 3: { uint32_t t[8]; bsym_make_symbolic(t, n * 4, "t"); t[n] = 0; if (nul) for (size_t i = 0; i < n; i++) ASSUME(t[i] != 0); decode32(t, n, r); BLResult x = pick("wchar", 2) ? g.set_wchar_text((const wchar_t*)t, sz) : g.set_utf32_text(t, sz); memset(t, 1, 32); return x; }
    case 4: { uint32_t t[8]; bsym_make_symbolic(t, n * 4, "t"); r.n = n; r.bad = false; for (size_t i = 0; i < n; i++) { r.cp[i] = t[i]; r.cl[i] = (uint32_t)i; } return g.set_glyphs(t, n); }
    default: { struct S { uint32_t a; uint16_t id, b; uint32_t id4; } t[8]; bsym_make_symbolic(t, n * sizeof(S), "t"); r.n = n; r.bad = false; bool w = pick("wide", 2), rev = n > 0 && pick("rev", 2);
      for (size_t i = 0; i < n; i++) { size_t q = rev ? n - 1 - i : i; r.cp[i] = w ? t[q].id4 : t[q].id; r.cl[i] = (uint32_t)i; } S* s = rev ? t + n - 1 : t; intptr_t adv = rev ? -(intptr_t)sizeof(S) : (intptr_t)sizeof(S); return g.set_glyphs_from_struct(w ? (const void*)&s->id4 : (const void*)&s->id, n, w ? 4 : 2, adv); }
  }
}
static Ref R0, R1;
ENTRY h_glyphbuf_set() { u64 live = bsym_mem_live(); { BLGlyphBuffer g; int enc = (int)pick("enc", 6); size_t n = pick("n", enc == 1 ? (THOROUGH ? 6 : 5) : 4); ASSERT(setAny(g, enc, n, R0, enc < 4 && n < 4 && pick("nul", 2)) == BL_SUCCESS, "accepted"); check(g, R0, enc < 4); } ASSERT(bsym_mem_live() == live, "released"); REACH("end"); }
// stands for shaping: the text became glyphs that have been positioned
static void shape(BLGlyphBuffer& g) { BLGlyphBufferPrivateImpl* d = bl_glyph_buffer_get_impl(&g); if (!d->size) return; if (d->ensure_placement() != BL_SUCCESS) return; d->flags = (d->flags & ~BL_GLYPH_RUN_FLAG_UCS4_CONTENT) | BL_GLYPH_BUFFER_GLYPH_ADVANCES; d->glyph_run.placement_type = BL_GLYPH_PLACEMENT_TYPE_ADVANCE_OFFSET; for (size_t i = 0; i < d->size; i++) d->placement_data[i].advance.reset(int(i), 0); }
static void hist(int steps, int fail) {
  u64 live = bsym_mem_live();
  {
    BLGlyphBuffer g, o; Ref* r = &R0; Ref* ro = &R1; r->n = ro->n = 0; r->bad = ro->bad = false; bool t = false, to = false, shaped = false, so = false; if (fail) bsym_fail_malloc(fail);
    for (int k = 0; k < steps; k++) {
      switch (pick("op", 7)) {
        case 0: { int enc = (int)pick("enc", 3) * 2; static Ref T; BLResult x = setAny(g, enc, 1 + pick("n", 2), T, false); if (x == BL_SUCCESS) { *r = T; t = enc < 4; shaped = false; } else { ASSERT(fail && x == BL_ERROR_OUT_OF_MEMORY, "fails only when memory is exhausted"); REACH("oom"); } break; }
        case 1: { static uint32_t ids[1000]; static const int S[] = {256, 257, 1000}; size_t n = S[pick("big", 3)]; for (size_t i = 0; i < n; i++) ids[i] = (uint32_t)(i * 3); ids[n - 1] = bsym_u32("last"); BLResult x = g.set_glyphs(ids, n); if (x == BL_SUCCESS) { r->n = n; r->bad = false; for (size_t i = 0; i < n; i++) { r->cp[i] = ids[i]; r->cl[i] = (uint32_t)i; } t = shaped = false; } else ASSERT(fail && x == BL_ERROR_OUT_OF_MEMORY, "fails only when memory is exhausted"); break; }
        case 2: if (!fail) { shape(g); shaped = r->n > 0; t = t && !shaped; } break;
        case 3: if (pick("reset", 2)) g.reset(); else ASSERT(g.clear() == BL_SUCCESS, "clear"); r->n = 0; r->bad = false; shaped = t = false; break;
        case 4: { BLGlyphBuffer x(static_cast<BLGlyphBuffer&&>(g)); ASSERT(g.is_empty(), "moved-from buffer is empty"); bl_glyph_buffer_destroy(&o); bl_glyph_buffer_init_move(&o, &x); Ref* q = ro; ro = r; r = q; r->n = 0; r->bad = false; to = t; so = shaped; t = shaped = false; break; }
        case 5: { uint32_t id = 1; int w = (int)pick("bad", 4); BLResult x = w == 0 ? g.set_glyphs(&id, size_t(1) << 32) : w == 1 ? g.set_glyphs_from_struct(&id, 1, 3, 4) : w == 2 ? g.set_text("a", 1, BLTextEncoding(77)) : g.set_text("a", (size_t(1) << 62) + 1, BL_TEXT_ENCODING_UTF32); ASSERT(x != BL_SUCCESS, "impossible input is refused"); break; }
        case 6: { BLGlyphBuffer x; x.set_latin1_text("q"); break; }
      }
    }
    if (shaped) { ASSERT(g.size() == r->n && g.placement_data() != nullptr && g.has_glyphs(), "positioned"); } else check(g, *r, t);
    if (so) ASSERT(o.size() == ro->n && o.placement_data() != nullptr, "positioned"); else check(o, *ro, to);
  }
  ASSERT(bsym_mem_live() == live, "released exactly once"); REACH("end");
}
ENTRY h_glyphbuf_hist() { hist(THOROUGH ? 4 : 3, 0); }
ENTRY h_glyphbuf_oom() { hist(THOROUGH ? 3 : 2, 2); }
