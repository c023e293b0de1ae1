// C08/C09: image decoders against reference decoders, robustness, lossless round trips.
#include "bsym.h"
#include <blend2d/blend2d.h>
#include <string.h>
typedef uint8_t u8; typedef uint64_t u64;
static uint32_t pre(uint32_t p) { uint32_t a = p >> 24, r = 0; for (int s = 0; s < 24; s += 8) { uint32_t x = ((p >> s) & 0xFF) * a + 128; r |= (((x + (x >> 8)) >> 8) & 0xFF) << s; } return r | a << 24; }
static uint32_t px(const BLImageData& d, int x, int y) { uint32_t v; memcpy(&v, (const u8*)d.pixel_data + y * d.stride + x * 4, 4); return v; }
static BLResult decode(const char* name, const u8* p, size_t n, BLImage& img, bool early = false) {
  BLImageCodec c; ASSERT(c.find_by_name(name) == BL_SUCCESS, "codec present"); BLImageDecoder d; ASSERT(c.create_decoder(&d) == BL_SUCCESS, "decoder"); BLImageInfo info;
  if (early) { BLResult r = d.read_info(info, p, n); if (r != BL_SUCCESS) return r; ASSERT(info.size.w > 0 && info.size.h > 0, "image size"); }
  return d.read_frame(img, p, n);
}
static u8* exact(const u8* p, size_t n) { u8* q = (u8*)__builtin_malloc(n ? n : 1); memcpy(q, p, n); return q; } // heap copy: reads beyond the end are detected
// ---- QOI
static size_t qoiHdr(u8* p, uint32_t w, uint32_t h, int ch) { u8 t[14] = {'q', 'o', 'i', 'f', 0, 0, 0, (u8)w, 0, 0, 0, (u8)h, (u8)ch, 0}; memcpy(p, t, 14); return 14; }
struct Q { uint32_t r, g, b, a; };
static uint32_t qh(Q q) { return (q.r * 3 + q.g * 5 + q.b * 7 + q.a * 11) & 63; }
// reference decoder of `n` operations; returns the number of pixels produced
static int qoiRef(const u8* s, const u8* end, int total, Q* out) {
  Q t[64]; memset(t, 0, sizeof(t)); Q p{0, 0, 0, 255}; int k = 0;
  while (k < total) {
    if (end - s < 1) return -1; u8 c = *s++; int run = 1;
    if (c == 0xFE) { p.r = s[0]; p.g = s[1]; p.b = s[2]; s += 3; }
    else if (c == 0xFF) { p.r = s[0]; p.g = s[1]; p.b = s[2]; p.a = s[3]; s += 4; }
    else if (c < 64) p = t[c];
    else if (c < 128) { p.r = (p.r + (c >> 4 & 3) - 2) & 255; p.g = (p.g + (c >> 2 & 3) - 2) & 255; p.b = (p.b + (c & 3) - 2) & 255; }
    else if (c < 192) { uint32_t dg = (c & 63) - 32u, d = *s++; p.r = (p.r + dg + (d >> 4) - 8) & 255; p.g = (p.g + dg) & 255; p.b = (p.b + dg + (d & 15) - 8) & 255; }
    else run = (c & 63) + 1;
    t[qh(p)] = p; while (run-- && k < total) out[k++] = p;
  }
  return (int)(end - s);
}
static uint32_t qpack(Q q, int ch) { uint32_t v = q.a << 24 | q.r << 16 | q.g << 8 | q.b; return ch == 4 ? pre(v) : v | 0xFF000000u; }
// every sequence of operations; an index refers to a pixel seen before (or to a colour whose slot is free) by construction of valid streams
static int gSym, gByte, gCtr; static u8 cst(int k, u8 v) { static const u8 C[] = {0, 255, 17, 128, 3, 250, 64, 99, 200, 1, 31, 16}; if (k == gSym && gByte-- == 0) return bsym_u8("c"); u8 x = C[gCtr++ % 12]; return x ^ v; }
ENTRY h_imgcodec_qoi() {
  uint32_t w = 1 + pick("w", 2), h = 1 + pick("h", 2); int ch = 3 + (int)pick("ch", 2); int total = (int)(w * h); u8 b[64]; size_t n = qoiHdr(b, w, h, ch); int k = 0, pixels = 0; int ops = THOROUGH ? 4 : 3; gSym = (int)pick("sym", (uint32_t)ops); gCtr = 0; gByte = (int)pick("byte", 4);
  while (pixels < total) { if (k == ops) { b[n++] = 0xC0 | 5; pixels = total; break; }
    switch (pick("op", 6)) {
      case 0: b[n++] = 0xFE; for (int i = 0; i < 3; i++) b[n++] = cst(k, 0); pixels++; break;
      case 1: b[n++] = 0xFF; for (int i = 0; i < 4; i++) b[n++] = cst(k, 5); pixels++; break;
      case 2: b[n++] = 0x40 | (cst(k, 9) & 63); pixels++; break;
      case 3: b[n++] = 0x80 | (cst(k, 2) & 63); b[n++] = cst(k, 1); pixels++; break;
      case 4: { uint32_t r = pick("run", 2) * 2; b[n++] = (u8)(0xC0 | r); pixels += (int)r + 1; break; }
      case 5: { // index of the hash of an earlier pixel, or slot 0
        Q o[16]; if (!pixels) { b[n++] = 0; pixels++; break; } qoiRef(b + 14, b + n, pixels > total ? total : pixels, o); b[n++] = (u8)qh(o[pick("back", (uint32_t)pixels)]); pixels++; break; }
    } k++; }
  static const u8 fin[8] = {0, 0, 0, 0, 0, 0, 0, 1}; memcpy(b + n, fin, 8); n += 8; Q o[16]; qoiRef(b + 14, b + n, total, o);
  u8* q = exact(b, n); BLImage img; ASSERT(decode("QOI", q, n, img, true) == BL_SUCCESS, "a valid image is decoded"); ASSERT(img.width() == (int)w && img.height() == (int)h && img.format() == (ch == 4 ? BL_FORMAT_PRGB32 : BL_FORMAT_XRGB32), "size and format"); BLImageData d; img.get_data(&d);
  for (int y = 0, i = 0; y < (int)h; y++) for (int x = 0; x < (int)w; x++, i++) ASSERT(px(d, x, y) == qpack(o[i], ch), "pixel");
  __builtin_free(q); REACH("end");
}
// arbitrary bytes, any truncation: an error or an image, never an access outside of the data
ENTRY h_imgcodec_qoiany() {
  u8 b[14 + 17]; uint32_t cut = pick("cut", 18); size_t n = 14 + cut; if (pick("hdr", 2)) { bsym_make_symbolic(b, 14, "h"); b[0] = 'q'; b[1] = 'o'; b[2] = 'i'; b[3] = 'f'; if (pick("small", 2)) { b[4] = b[5] = b[6] = b[8] = b[9] = b[10] = 0; b[7] &= 3; b[11] &= 3; } else { b[5] &= 1; b[9] &= 1; ASSUME(b[4] >= 1 || b[8] >= 1); } n = cut < 15 ? cut : 14; } else { uint32_t w = 1 + pick("w", 2); qoiHdr(b, w, 2, 3 + (int)pick("ch", 2)); bsym_make_symbolic(b + 14, 17, "d"); }
  u8* q = exact(b, n); BLImage img; BLResult r = decode("QOI", q, n, img, pick("info", 2)); if (r == BL_SUCCESS) { ASSERT(img.width() > 0 && n >= 14 + 1 + 8, "an image needs data"); REACH("ok"); } else REACH("refused"); __builtin_free(q); REACH("end");
}
// ---- lossless round trips
// the last two pixels are fresh, copies of an earlier one, or close to the previous one; PRGB32 pixels have one symbolic component
static uint32_t gPrev[8]; static bool gPng;
static void mkpix(u8* p, BLFormat f, int i, int total) {
  if (f == BL_FORMAT_A8) { p[0] = i >= 2 && i < total - 1 ? 7 : bsym_u8("a"); return; }
  uint32_t v = 0, mode = i ? pick("mode", i == total - 1 ? 3 : 2) : 1 + pick("mode", 2);
  if (mode == 0) v = gPrev[pick("which", (uint32_t)i)];
  else if (mode == 1 && f == BL_FORMAT_XRGB32) { uint32_t sh = 8 * pick("chan", 3); v = (0xFF204060u & ~(255u << sh)) | (uint32_t)(i == gSym ? bsym_u8("p") : (u8)(0x30 + 9 * i)) << sh; }
  else if (mode == 2 && f == BL_FORMAT_XRGB32) v = 0xFF000000u;
  else { static const u8 A[] = {255, 0, 128, 1, 77}; uint32_t a = A[pick("alpha", gPng && !THOROUGH ? 3 : 5)], c = gPng && i != gSym ? a / 3 : bsym_u8("c"); if (a < 255) ASSUME(c <= a); uint32_t s = gPng && i != gSym ? 0 : 8 * pick("chan", 3); v = (a / 2) * 0x010101u; v = (v & ~(255u << s)) | c << s | a << 24; }
  gPrev[i] = v; memcpy(p, &v, 4);
}
static void rt(const char* codec, BLFormat f, int w, int h) {
  gPng = codec[0] == 'P'; gSym = (int)pick("sympix", (uint32_t)(w * h)); BLImage img; ASSERT(img.create(w, h, f) == BL_SUCCESS, "create"); BLImageData d; img.make_mutable(&d); int bpp = f == BL_FORMAT_A8 ? 1 : 4;
  for (int y = 0, i = 0; y < h; y++) for (int x = 0; x < w; x++, i++) mkpix((u8*)d.pixel_data + y * d.stride + x * bpp, f, i, w * h);
  BLImageCodec c; ASSERT(c.find_by_name(codec) == BL_SUCCESS, "codec"); BLArray<uint8_t> out; BLResult r = img.write_to_data(out, c); ASSERT(r == BL_SUCCESS, "encoded"); u8* q = exact(out.data(), out.size()); BLImage back; ASSERT(decode(codec, q, out.size(), back) == BL_SUCCESS, "decoded"); ASSERT(back.width() == w && back.height() == h, "size"); BLImageData e; back.get_data(&e);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const u8* s = (const u8*)d.pixel_data + y * d.stride + x * bpp; uint32_t want; if (bpp == 1) want = back.format() == BL_FORMAT_A8 ? *s : back.format() == BL_FORMAT_XRGB32 || codec[0] == 'P' ? 0xFF000000u | *s * 0x010101u : *s * 0x01010101u; else { memcpy(&want, s, 4); if (f == BL_FORMAT_XRGB32) want |= 0xFF000000u; } uint32_t got; if (back.format() == BL_FORMAT_A8) got = ((const u8*)e.pixel_data)[y * e.stride + x]; else { got = px(e, x, y); if (back.format() == BL_FORMAT_XRGB32) got |= 0xFF000000u; } ASSERT(got == want, "every pixel survives"); }
  __builtin_free(q); REACH("end");
}
ENTRY h_imgcodec_rtqx() { int w = 1 + (int)pick("w", 3); rt("QOI", BL_FORMAT_XRGB32, w, w == 1 ? 3 : 1); }
ENTRY h_imgcodec_rtqp() { int w = 1 + (int)pick("w", 2); rt("QOI", BL_FORMAT_PRGB32, w, w == 1 ? 2 : 1); }
ENTRY h_imgcodec_rtqa() { int w = 1 + (int)pick("w", 3); rt("QOI", BL_FORMAT_A8, w, w == 1 ? 3 : 1); }
ENTRY h_imgcodec_rtbx() { rt("BMP", BL_FORMAT_XRGB32, 1 + (int)pick("w", 3), 1 + (int)pick("h", 2)); }
ENTRY h_imgcodec_rtbp() { rt("BMP", BL_FORMAT_PRGB32, 1 + (int)pick("w", 2), 1); }
ENTRY h_imgcodec_rtba() { rt("BMP", BL_FORMAT_A8, 1 + (int)pick("w", 3), 2); }
ENTRY h_imgcodec_rtpx() { int w = 1 + (int)pick("w", 2); rt("PNG", BL_FORMAT_XRGB32, w, w == 1 ? 2 : 1); }
ENTRY h_imgcodec_rtpp() { int w = 1 + (int)pick("w", THOROUGH ? 2 : 1); rt("PNG", BL_FORMAT_PRGB32, w, THOROUGH && w == 1 ? 2 : 1); }
ENTRY h_imgcodec_rtpa() { int w = 1 + (int)pick("w", 3); rt("PNG", BL_FORMAT_A8, w, w == 1 ? 3 : 1); }
// ---- PNG (zlib stored blocks)
struct W { u8* b; size_t n; void u(u8 v) { b[n++] = v; } void be(uint32_t v) { u((u8)(v >> 24)); u((u8)(v >> 16)); u((u8)(v >> 8)); u((u8)v); } void tag(const char* t) { for (int i = 0; i < 4; i++) u((u8)t[i]); } void mem(const u8* p, size_t k) { memcpy(b + n, p, k); n += k; } };
static void chunk(W& o, const char* t, const u8* p, size_t k) { o.be((uint32_t)k); o.tag(t); o.mem(p, k); o.be(0); }
static void ihdr(W& o, uint32_t w, uint32_t h, int depth, int ct, int il) { static const u8 sig[8] = {0x89, 'P', 'N', 'G', 13, 10, 26, 10}; o.mem(sig, 8); u8 t[13] = {(u8)(w >> 24), (u8)(w >> 16), (u8)(w >> 8), (u8)w, (u8)(h >> 24), (u8)(h >> 16), (u8)(h >> 8), (u8)h, (u8)depth, (u8)ct, 0, 0, (u8)il}; chunk(o, "IHDR", t, 13); }
static const u8 A7[7][4] = {{0, 0, 3, 3}, {4, 0, 3, 3}, {0, 4, 2, 3}, {2, 0, 2, 2}, {0, 2, 1, 2}, {1, 0, 1, 1}, {0, 1, 0, 1}};
static int samples(int ct) { return ct == 2 ? 3 : ct == 4 ? 2 : ct == 6 ? 4 : 1; }
// position of the first bit of pixel x,y in the raw (unfiltered) data, and the total size
static int rawPos(int x, int y, int w, int h, int bits, int il, int* total) {
  int off = 0, res = -1; for (int p = 0; p < (il ? 7 : 1); p++) { int xo = il ? A7[p][0] : 0, yo = il ? A7[p][1] : 0, xp = il ? A7[p][2] : 0, yp = il ? A7[p][3] : 0;
    int pw = w > xo ? ((w - xo - 1) >> xp) + 1 : 0, ph = h > yo ? ((h - yo - 1) >> yp) + 1 : 0; if (!pw || !ph) continue; int bpl = 1 + (pw * bits + 7) / 8;
    if (x >= xo && y >= yo && !((x - xo) & ((1 << xp) - 1)) && !((y - yo) & ((1 << yp) - 1)) && res < 0) res = (off + ((y - yo) >> yp) * bpl + 1) * 8 + ((x - xo) >> xp) * bits;
    off += bpl * ph; } if (total) *total = off; return res;
}
enum { kSplit = 1, kTrns = 2, kExtra = 4 };
static void png(int ct, int depth, int il, int w, int h, int flags) {
  static u8 out[8192], raw[4096], z[4200]; int total, bits = depth * samples(ct); rawPos(0, 0, w, h, bits, il, &total); memset(raw, 0, sizeof(raw));
  static const u8 A[] = {255, 128, 0, 1, 77}; int k = 0;
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int pos = rawPos(x, y, w, h, bits, il, 0); u8* p = raw + pos / 8; if (ct == 2) for (int i = 0; i < 3; i++) p[i] = bsym_u8("c"); else if (ct == 4) { p[0] = bsym_u8("c"); p[1] = A[(x + y * 2) % 5]; } else if (ct == 6) { for (int i = 0; i < 3; i++) p[i] = bsym_u8("c"); p[3] = A[(x + y * 2) % 5]; } else if (!(pos & 7)) *p = bsym_u8("c"); k++; }
  W o{out, 0}; ihdr(o, (uint32_t)w, (uint32_t)h, depth, ct, il); if (flags & kExtra) chunk(o, "tIME", raw, 7);
  uint32_t pal[256]; for (auto& c : pal) c = 0xFF000000u; int np = 0; static u8 pl[768], tr[256]; int nt = 0; uint32_t key = ~0u;
  if (ct == 3) { np = 1 << depth; if (depth > 1) np -= depth; for (int i = 0; i < np; i++) for (int c = 0; c < 3; c++) pl[i * 3 + c] = (u8)(i * 37 + c * 91 + 13); chunk(o, "PLTE", pl, (size_t)np * 3); if (flags & kTrns) { nt = np > 3 ? np - 2 : 1; for (int i = 0; i < nt; i++) tr[i] = A[i % 5]; chunk(o, "tRNS", tr, (size_t)nt); } for (int i = 0; i < np; i++) pal[i] = pre((uint32_t)(i < nt ? tr[i] : 255) << 24 | pl[i * 3] << 16 | pl[i * 3 + 1] << 8 | pl[i * 3 + 2]); }
  if (ct == 0 && (flags & kTrns)) { key = depth == 1 ? pick("key", 2) : depth == 2 ? 2 : depth == 4 ? 11 : 0xA5; u8 t[2] = {0, (u8)key}; chunk(o, "tRNS", t, 2); }
  z[0] = 0x78; z[1] = 1; z[2] = 1; z[3] = (u8)total; z[4] = (u8)(total >> 8); z[5] = (u8)~z[3]; z[6] = (u8)~z[4]; memcpy(z + 7, raw, (size_t)total); size_t zn = 7 + (size_t)total; z[zn++] = 0; z[zn++] = 0; z[zn++] = 0; z[zn++] = 0;
  if (flags & kSplit) { size_t at = pick("split", 10); if (at > 7) at = at == 8 ? 7 + (size_t)total / 2 : zn - 1; chunk(o, "IDAT", z, at); if (pick("empty", 2)) chunk(o, "IDAT", z, 0); chunk(o, "IDAT", z + at, zn - at); } else chunk(o, "IDAT", z, zn);
  chunk(o, "IEND", z, 0);
  u8* q = exact(out, o.n); BLImage img; ASSERT(decode("PNG", q, o.n, img, true) == BL_SUCCESS, "a valid image is decoded"); ASSERT(img.width() == w && img.height() == h && img.format() == (ct == 2 ? BL_FORMAT_XRGB32 : BL_FORMAT_PRGB32), "size and format"); BLImageData d; img.get_data(&d);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int pos = rawPos(x, y, w, h, bits, il, 0); const u8* p = raw + pos / 8; uint32_t want;
    if (ct == 2) want = 0xFF000000u | p[0] << 16 | p[1] << 8 | p[2]; else if (ct == 4) want = pre((uint32_t)p[1] << 24 | p[0] * 0x010101u); else if (ct == 6) want = pre((uint32_t)p[3] << 24 | p[0] << 16 | p[1] << 8 | p[2]);
    else { uint32_t v = (*p >> (8 - depth - (pos & 7))) & ((1u << depth) - 1); if (ct == 3) want = pal[v]; else { want = 0xFF000000u | (v * (depth == 1 ? 255u : depth == 2 ? 0x55u : depth == 4 ? 0x11u : 1u)) * 0x010101u; if (v == key) want = 0; } }
    uint32_t got = px(d, x, y); if (ct == 2) got |= 0xFF000000u; ASSERT(got == want, "pixel"); }
  __builtin_free(q); REACH("end");
}
static const u8 WB[] = {1, 2, 3, 4, 5, 8, 9, 16, 17, 18, 31, 33, 37};
static void pngbits(int depth) { int il = 1; int w = WB[pick("w", depth == 1 ? 13 : depth == 2 ? 10 : 9)], h = 1 + (int)pick("h", 9); if (h > 5 && w > 9) ASSUME(w == 17); png(0, depth, il, w, h, 0); }
ENTRY h_imgcodec_png1() { pngbits(1); }
ENTRY h_imgcodec_png2() { pngbits(2); }
ENTRY h_imgcodec_png4() { pngbits(4); }
ENTRY h_imgcodec_pngpal() { int depth = 1 << pick("depth", 4), il = (int)pick("il", 2), w = WB[pick("w", THOROUGH ? 11 : 6)], h = 1 + (int)pick("h", THOROUGH ? 9 : 3); png(3, depth, il, w, h, (int)pick("trns", 2) * kTrns); }
ENTRY h_imgcodec_pnggray() { int depth = 1 << pick("depth", 4), il = (int)pick("il", 2), w = WB[pick("w", 7)], h = 1 + (int)pick("h", 3) * 2; if (depth < 8) ASSUME(!il); png(0, depth, il, w, h, (int)pick("trns", 2) * kTrns); }
static void pngrgb(int ct) { int il = (int)pick("il", 2), w = WB[pick("w", 6)], h = 1 + (int)pick("h", 9); if (!il && h > 2) ASSUME(0); png(ct, 8, il, w, h, kExtra); }
ENTRY h_imgcodec_pngrgb() { pngrgb(2); }
ENTRY h_imgcodec_pngla() { pngrgb(4); }
ENTRY h_imgcodec_pngrgba() { pngrgb(6); }
ENTRY h_imgcodec_pngsplit() { static const u8 C[] = {2, 3, 6}; int ct = C[pick("ct", 3)]; png(ct, ct == 3 ? 4 : 8, (int)pick("il", 2), 3, 3, kSplit | kExtra); }
// header and chunk fields of any value: refused or decoded, never an access outside of the data or the image
ENTRY h_imgcodec_pngsize() {
  static u8 out[512], z[64]; int il = (int)pick("il", 2), big = (int)pick("big", 3); uint32_t w = big ? bsym_u32("w") : 1 + pick("w", 4), h = big ? bsym_u32("h") : 1 + pick("h", 3); int ct = pick("rgba", 2) ? 6 : 0, depth = ct ? 8 : 1 << pick("depth", 4), total = ct ? 10 : 4;
  if (big) { uint32_t bpl = ((w * (uint32_t)depth + 7) / 8) * (ct ? 4u : 1u) + 1; if (big == 1) { il = 0; ASSUME(bpl * h == (uint32_t)total && w < 0x80000000u && w && h < 0x80000000u && h); } else ASSUME(w == 0 || h == 0 || w >= 0x80000000u || h >= 0x80000000u); }
  W o{out, 0}; ihdr(o, w, h, depth, ct, il); z[0] = 0x78; z[1] = 1; z[2] = 1; z[3] = (u8)total; z[4] = 0; z[5] = (u8)~z[3]; z[6] = 255; memset(z + 7, 0, 40); chunk(o, "IDAT", z, 7 + (size_t)total + 4); chunk(o, "IEND", z, 0);
  u8* q = exact(out, o.n); BLImage img; BLResult r = decode("PNG", q, o.n, img, pick("info", 2)); if (r == BL_SUCCESS) { ASSERT(img.width() == (int)w && img.height() == (int)h, "size"); REACH("ok"); } else REACH("refused"); __builtin_free(q); REACH("end");
}
// any order of chunks, each with any advertised size and any content
ENTRY h_imgcodec_pngchunks() {
  static u8 out[512]; static const char* T[] = {"PLTE", "tRNS", "IDAT", "IEND", "IHDR", "acTL", "fcTL", "fdAT", "CgBI", "abCd"}; W o{out, 0}; static const u8 CT[] = {0, 2, 3, 4, 6}; int ct = CT[pick("ct", 5)]; ihdr(o, 2, 1, 8, ct, (int)pick("il", 2));
  int n = 1 + (int)pick("n", THOROUGH ? 3 : 2); for (int i = 0; i < n; i++) { int t = (int)pick("tag", 10); u8 c[32]; memset(c, 0, 32); size_t k; switch (t) { case 0: k = (size_t)pick("psz", 3) * 3; bsym_make_symbolic(c, k, "p"); break; case 1: k = pick("tsz", 7); bsym_make_symbolic(c, k, "t"); break; case 5: k = 8; bsym_make_symbolic(c, 4, "a"); break; case 6: k = 26; bsym_make_symbolic(c + 4, 16, "f"); bsym_make_symbolic(c + 24, 2, "g"); break; case 2: case 7: { size_t s = t == 7 ? 4 : 0; c[s] = 0x78; c[s + 1] = 1; c[s + 2] = 1; int tot = 1 + 2 * samples(ct); c[s + 3] = (u8)tot; c[s + 5] = (u8)~tot; c[s + 6] = 255; bsym_make_symbolic(c + s + 8, (size_t)tot - 1, "px"); k = s + 7 + (size_t)tot; break; } default: k = pick("sz", 2) * 4; } size_t at = o.n; chunk(o, T[t], c, k); if (i == n - 1) switch (pick("lie", 3)) { case 1: { uint32_t v = bsym_u32("len"); ASSUME(v > k); for (int b = 0; b < 4; b++) out[at + b] = (u8)(v >> (24 - 8 * b)); break; } case 2: { size_t cut = pick("cut", (uint32_t)(o.n - at)); o.n = at + cut; break; } default: break; } }
  u8* q = exact(out, o.n); BLImage img; BLImageCodec c; c.find_by_name("PNG"); BLImageDecoder d; c.create_decoder(&d); BLResult r = d.read_frame(img, q, o.n); if (r == BL_SUCCESS) { ASSERT(img.width() == 2 && img.height() == 1, "size"); BLImageData dd; img.get_data(&dd); uint32_t s = 0; for (int i = 0; i < 2; i++) s |= px(dd, i, 0); ASSERT((s | 1) != 0, "no pixel is undefined"); d.read_frame(img, q, o.n); REACH("ok"); } else REACH("refused"); __builtin_free(q); REACH("end");
}
// ---- BMP
static void le(u8* p, uint32_t v, int n) { for (int i = 0; i < n; i++) p[i] = (u8)(v >> (8 * i)); }
static size_t bmpHdr(u8* b, uint32_t hs, int w, int h, int depth, uint32_t comp, uint32_t isz, const uint32_t* m, int nm) {
  memset(b, 0, 14 + 124); b[0] = 'B'; b[1] = 'M'; u8* i = b + 14; le(i, hs, 4); if (hs == 12) { le(i + 4, (uint32_t)w, 2); le(i + 6, (uint32_t)h, 2); le(i + 8, 1, 2); le(i + 10, (uint32_t)depth, 2); return 26; }
  le(i + 4, (uint32_t)w, 4); le(i + 8, (uint32_t)h, 4); le(i + 12, 1, 2); le(i + 14, (uint32_t)depth, 2); le(i + 16, comp, 4); le(i + 20, isz, 4); for (int k = 0; k < nm; k++) le(i + 40 + 4 * k, m[k], 4); size_t n = 14 + hs; if (hs == 40) n += (size_t)nm * 4; return n;
}
static uint32_t comp8(uint32_t v, uint32_t m) { if (!m) return 0; uint32_t s = (uint32_t)__builtin_ctz(m), bits = (uint32_t)__builtin_popcount(m); v = (v & m) >> s; return bits == 8 ? v : bits == 5 ? v << 3 | v >> 2 : bits == 6 ? v << 2 | v >> 4 : bits == 4 ? v * 17 : v * 255; }
ENTRY h_imgcodec_bmp() {
  static u8 b[2048]; static const uint32_t HS[] = {12, 40, 52, 56, 108, 124}; static const u8 D[] = {1, 4, 8, 16, 24, 32}; uint32_t hs = HS[pick("hs", 6)]; int depth = D[pick("depth", 6)]; int w = depth == 1 ? 1 + (int)pick("w", 3) * 5 : 1 + (int)pick("w", 5), h = 1 + (int)pick("h", 2); bool down = hs != 12 && pick("down", 2);
  static const uint32_t M16[][4] = {{0x7C00, 0x3E0, 0x1F, 0}, {0xF800, 0x7E0, 0x1F, 0}, {0x7C00, 0x3E0, 0x1F, 0x8000}, {0xF, 0xF0, 0xF00, 0}}, M32[][4] = {{0xFF0000, 0xFF00, 0xFF, 0}, {0xFF0000, 0xFF00, 0xFF, 0xFF000000}, {0xFF, 0xFF00, 0xFF0000, 0xFF000000}, {0xFF000000, 0xFF0000, 0xFF00, 0}};
  const uint32_t* m = depth == 16 ? M16[0] : M32[0]; uint32_t comp = 0; int nm = hs == 52 ? 3 : hs > 52 ? 4 : 0; if (depth == 16 || depth == 32) { uint32_t k = hs >= 40 ? pick("masks", 4) : 0; m = depth == 16 ? M16[k] : M32[k]; if (hs == 40) { if (k) { comp = m[3] ? 6 : 3; nm = m[3] ? 4 : 3; } } else if (hs == 52 && m[3]) ASSUME(0); else if (hs > 40) comp = 3; if (hs == 56 && k == 2 && depth == 16) ASSUME(0); }
  if (hs == 40 && nm == 4 && !m[3]) ASSUME(0);
  size_t stride = (size_t)((w * depth + 31) / 32) * 4, isz = stride * (size_t)h; size_t n = bmpHdr(b, hs, w, down ? -h : h, depth, comp, pick("isz", 2) ? (uint32_t)isz : 0, m, nm);
  uint32_t pal[256]; for (auto& c : pal) c = 0xFF000000u; if (depth <= 8) { int np = 1 << depth; if (pick("short", 2)) np = np > 2 ? np - 3 : 1; for (int i = 0; i < np; i++) { u8 e[4] = {(u8)(i * 29 + 7), (u8)(i * 53 + 1), (u8)(i * 11 + 99), (u8)(i * 3)}; size_t es = hs == 12 ? 3 : 4; memcpy(b + n, e, es); n += es; pal[i] = 0xFF000000u | e[2] << 16 | e[1] << 8 | e[0]; } } else n += pick("gap", 2) * 8;
  if (depth <= 8 || hs != 12) {} le(b + 10, (uint32_t)n, 4); u8* raw = b + n; memset(raw, 0xA5, isz); for (int y = 0; y < h; y++) for (int k = 0; k < (w * depth + 7) / 8; k++) raw[(size_t)y * stride + (size_t)k] = depth <= 8 || depth == 24 ? bsym_u8("c") : depth == 16 ? (u8)bsym_u8("c") : (k & 3) == (m[3] ? 3 : 4) ? (u8)(k * 31 + 64) : bsym_u8("c"); n += isz;
  u8* q = exact(b, n); BLImage img; ASSERT(decode("BMP", q, n, img, true) == BL_SUCCESS, "a valid image is decoded"); bool alpha = depth > 8 && m[3]; ASSERT(img.width() == w && img.height() == h && img.format() == (alpha ? BL_FORMAT_PRGB32 : BL_FORMAT_XRGB32), "size and format"); BLImageData d; img.get_data(&d);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const u8* r = raw + (size_t)(down ? y : h - 1 - y) * stride; uint32_t want, got = px(d, x, y); if (depth <= 8) { int pos = x * depth; want = pal[(r[pos / 8] >> (8 - depth - (pos & 7))) & ((1 << depth) - 1)]; } else { uint32_t v = 0; for (int k = 0; k < depth / 8; k++) v |= (uint32_t)r[x * (depth / 8) + k] << (8 * k); want = (alpha ? comp8(v, m[3]) : 255u) << 24 | comp8(v, m[0]) << 16 | comp8(v, m[1]) << 8 | comp8(v, m[2]); }
    if (!alpha) got |= 0xFF000000u; if (alpha && depth == 16) ASSERT(got >> 24 == want >> 24, "alpha"); else ASSERT(got == want, "pixel"); }
  __builtin_free(q); REACH("end");
}
static void rle(int depth) {
  static u8 b[512]; int w = 2 + (int)pick("w", 3), h = 1 + (int)pick("h", 2); bool down = pick("down", 2); uint32_t pal[256]; for (auto& c : pal) c = 0xFF000000u; size_t n = bmpHdr(b, 40, w, down ? -h : h, depth, depth == 8 ? 1 : 2, 0, 0, 0); for (int i = 0; i < 16; i++) { u8 e[4] = {(u8)(i * 29 + 7), (u8)(i * 53 + 1), (u8)(i * 11 + 99), 0}; memcpy(b + n, e, 4); n += 4; pal[i] = 0xFF000000u | e[2] << 16 | e[1] << 8 | e[0]; } le(b + 10, (uint32_t)n, 4); size_t s0 = n;
  static uint32_t ref[8 * 8]; memset(ref, 0, sizeof(ref)); int x = 0, y = 0; bool done = false; int ops = THOROUGH ? 6 : 4;
  for (int k = 0; k < ops && !done; k++) switch (x < w ? pick("op", 5) : 2 + pick("op", 2)) {
    case 0: { int c = 1 + (int)pick("run", (uint32_t)(w - x)); u8 v = bsym_u8("v"); if (depth == 8) v &= 15; b[n++] = (u8)c; b[n++] = v; for (int i = 0; i < c; i++) ref[y * 8 + x++] = pal[depth == 8 ? v : i & 1 ? v & 15 : v >> 4]; break; }
    case 1: { if (w - x < 3) { ASSUME(0); } int c = 3 + (int)pick("abs", (uint32_t)(w - x - 2)); b[n++] = 0; b[n++] = (u8)c; if (depth == 8) { for (int i = 0; i < c; i++) { u8 v = bsym_u8("v") & 15; b[n++] = v; ref[y * 8 + x++] = pal[v]; } if (c & 1) b[n++] = 0x5A; } else { u8 v = 0; for (int i = 0; i < ((c + 3) & ~3); i++) { if (!(i & 1)) b[n++] = v = bsym_u8("v"); if (i < c) ref[y * 8 + x++] = pal[i & 1 ? v & 15 : v >> 4]; } } break; }
    case 2: b[n++] = 0; b[n++] = 0; x = 0; if (++y == h) done = true; break;
    case 3: b[n++] = 0; b[n++] = 1; done = true; break;
    case 4: { int dx = (int)pick("dx", (uint32_t)(w - x + 1)), dy = (int)pick("dy", (uint32_t)(h - y)); b[n++] = 0; b[n++] = 2; b[n++] = (u8)dx; b[n++] = (u8)dy; x += dx; y += dy; break; }
  }
  if (!done) { b[n++] = 0; b[n++] = 1; } le(b + 34, (uint32_t)(n - s0), 4); u8* q = exact(b, n); BLImage img; ASSERT(decode("BMP", q, n, img, true) == BL_SUCCESS, "a valid image is decoded"); BLImageData d; img.get_data(&d);
  for (int yy = 0; yy < h; yy++) for (int xx = 0; xx < w; xx++) ASSERT(((px(d, xx, down ? yy : h - 1 - yy) ^ ref[yy * 8 + xx]) & 0xFFFFFF) == 0, "pixel");
  __builtin_free(q); REACH("end");
}
ENTRY h_imgcodec_bmprle4() { rle(4); }
ENTRY h_imgcodec_bmprle8() { rle(8); }
static uint32_t dim(int n) { uint32_t k = pick("dim", 8); if (k < 6) return k * k; uint32_t v = n == 2 ? bsym_u16("d") : bsym_u32("d"); if (k == 6) v |= n == 2 ? 0x8000u : 0x80000000u; else { v &= n == 2 ? 0x7FFFu : 0x7FFFFFFFu; ASSUME(v >= 128); } return v; }
static void bmpany(int kind) {
  static u8 b[256]; size_t n; if (kind < 2) { static const int WS[] = {1, 3, 64}; int w = WS[pick("w", 3)], h = 1 + (int)pick("h", 2); n = bmpHdr(b, 40, w, pick("down", 2) ? -h : h, kind ? 8 : 4, kind ? 1 : 2, 0, 0, 0); le(b + 10, (uint32_t)n, 4); int k = 2 + (int)pick("bytes", THOROUGH ? 7 : kind ? 4 : 5); bsym_make_symbolic(b + n, (size_t)k, "r"); if (w == 64) for (int i = 0; i < k; i++) b[n + (size_t)i] = (u8)((b[n + (size_t)i] & 3) | (u8)((int8_t)b[n + (size_t)i] >> 7 & 0xFC)); le(b + 34, (uint32_t)k, 4); n += (size_t)k; }
  else { static const u8 D[] = {1, 8, 16, 24, 32, 7}; uint32_t hs = pick("os2", 2) ? 12 : 40; int depth = D[pick("depth", 6)]; n = bmpHdr(b, hs, 0, 0, depth, 0, 0, 0, 0); if (kind == 2) { uint32_t wh = pick("dim", 4); if (hs == 12) { le(b + 18, wh & 1 ? dim(2) : 2u, 2); le(b + 20, wh & 2 ? dim(2) : 2u, 2); } else { le(b + 18, wh & 1 ? dim(4) : 2u, 4); le(b + 22, wh & 2 ? dim(4) : 2u, 4); } b[10] = (u8)n; } else { b[18] = 2; b[hs == 12 ? 20 : 22] = 2; uint32_t which = pick("field", 4); if (which == 0) symbolic(b[10], "off"); else if (which == 1) { le(b + 10, bsym_u32("off"), 4); } else { b[10] = (u8)n; if (hs == 40) { if (which == 2) le(b + 30, bsym_u32("comp"), 4); else le(b + 34, bsym_u32("isz"), 4); } } } n += 4 * pick("data", kind == 2 ? 3 : 6); }
  u8* q = exact(b, n); BLImage img; BLResult r = decode("BMP", q, n, img, pick("info", 2)); if (r == BL_SUCCESS) { ASSERT(img.width() > 0 && img.height() > 0, "size"); BLImageData d; img.get_data(&d); uint32_t s = 0; for (int y = 0; y < img.height(); y++) for (int x = 0; x < img.width(); x++) s |= px(d, x, y); ASSERT((s | 1) != 0, "no pixel is undefined"); REACH("ok"); } else REACH("refused"); __builtin_free(q); REACH("end");
}
ENTRY h_imgcodec_bmpr4any() { bmpany(0); }
ENTRY h_imgcodec_bmpr8any() { bmpany(1); }
ENTRY h_imgcodec_bmpdim() { bmpany(2); }
ENTRY h_imgcodec_bmpfld() { bmpany(3); }
