#include <blend2d/blend2d.h>
#include "bsym.h"
typedef uint32_t u32; typedef uint8_t u8;
static inline u32 div255(u32 x) { x += 128; return (x + (x >> 8)) >> 8; }
static inline u32 mul(u32 p, u32 m) { u32 r = 0; for (int i = 0; i < 32; i += 8) r |= div255(((p >> i) & 255) * m) << i; return r; }
static inline u32 premul(u32 c) { u32 a = c >> 24, r = a << 24; for (int i = 0; i < 24; i += 8) r |= div255(((c >> i) & 255) * a) << i; return r; }
static inline u32 over(u32 d, u32 s) { u32 ia = 255 - (s >> 24), r = 0; for (int i = 0; i < 32; i += 8) r |= ((((s >> i) & 255) + div255(((d >> i) & 255) * ia)) & 255) << i; return r; }
static inline u32 lerp(u32 d, u32 s, u32 m) { u32 r = 0; for (int i = 0; i < 32; i += 8) r |= div255(((d >> i) & 255) * (255 - m) + ((s >> i) & 255) * m) << i; return r; }
static inline bool valid_pm(u32 p) { u32 a = p >> 24; return ((p & 255) <= a) & (((p >> 8) & 255) <= a) & (((p >> 16) & 255) <= a); }
// Reference: result of compositing premultiplied source `s` (already carrying nothing but the source color) with coverage `m`.
// op: 0 src-over, 1 src-copy, 2 clear
static u32 spec32(u32 op, bool xrgb, u32 d, u32 s, u32 m) {
  if (op == 0 && (s >> 24) == 255) op = 1; // an opaque source: a single interpolation, rounded once
  if (op == 0) { if (xrgb) { d |= 0xFF000000u; } s = m == 255 ? s : mul(s, m); return over(d, s); }
  if (op == 2) s = 0;
  return m == 255 ? s : lerp(d, s, m);
}
static u32 spec8(u32 op, u32 d, u32 sa, u32 m) {
  if (op == 0) { sa = div255(sa * m); return sa + div255(d * (255 - sa)); }
  if (op == 2) sa = 0;
  return div255(d * (255 - m) + sa * m);
}
enum { W = 4, H = 2 };
struct Img { u32 data[W * H + 2]; };
static void mk(BLImage& im, void* p, BLFormat f) { ASSERT(im.create_from_data(W, H, f, p, f == BL_FORMAT_A8 ? W : W * 4) == BL_SUCCESS, "create_from_data"); }

static BLCompOp OPS[3] = { BL_COMP_OP_SRC_OVER, BL_COMP_OP_SRC_COPY, BL_COMP_OP_CLEAR };

// kind: 0 fill_rect solid, 1 fill_mask solid, 2 blit PRGB32, 3 blit XRGB32, 4 blit A8, 5 clear_rect, 6 fill_all
// The alpha channels that scale other channels are case split over all 256 values, every other channel is symbolic.
static u32 color_in(bool pm, const char* n, bool geom, u32 kind) {
  if (geom) return pm ? 0x90604020u : 0x90C08040u;
  static const u8 AS[] = { 1, 128, 254, 255 };
  u32 a = pm || kind != 1 || THOROUGH ? pick("alpha", 256) : AS[pick("alpha", sizeof(AS))], c0 = bsym_u8("c0"), c1 = bsym_u8("c1"), c2 = bsym_u8("c2"), c = c0 | c1 << 8 | c2 << 16 | (a << 24); if (pm) { ASSUME(c0 <= a); ASSUME(c1 <= a); ASSUME(c2 <= a); } return c;
}
static u32 d_in() { u32 b = bsym_u8("db"), g = bsym_u8("dg"), r = bsym_u8("dr"), a = bsym_u8("da"); return b | g << 8 | r << 16 | a << 24; }
static u8 alpha_in(const char* n, bool geom) { return geom ? u8(0xA3) : u8(pick(n, 256)); }
static void render32(BLFormat f, u32 kind, u32 op, bool geom) {
  bool xrgb = f == BL_FORMAT_XRGB32; u32 dst[W * H], old[W * H], src[W * H]; u8 msk[W * H]; u32 col = 0; u32 px = 1, py = 1, pw = 2; if (geom) { px = pick("px", W); py = pick("py", H); pw = pick("pw", W - px) + 1; }
  for (u32 i = 0; i < W * H; i++) { dst[i] = old[i] = 0x55667788u ^ (i * 0x01010101u & 0x0F0F0F0Fu) | (xrgb ? 0xFF000000u : 0x80000000u); src[i] = 0x80402010u; msk[i] = 200; }
  u32 k = py * W + px;                       // the symbolic pixel
  if (!geom) dst[k] = d_in(); if (xrgb) dst[k] |= 0xFF000000u; old[k] = dst[k]; for (u32 sh = 0; sh < 24; sh += 8) ASSUME(((dst[k] >> sh) & 255) <= dst[k] >> 24);
  if (kind == 0 || kind == 1 || kind == 6) col = color_in(false, "color", geom, kind);
  u32 sk = 0;                                // index of the source/mask pixel that lands on k (areas start at 0)
  if (kind == 2 || kind == 3 || kind == 4) { sk = 0; }
  if (kind == 1) msk[sk] = alpha_in("m", geom);
  u8 a8[W * H]; for (u32 i = 0; i < W * H; i++) a8[i] = 0x66;
  if (kind == 2 || kind == 3) { src[sk] = kind == 2 ? color_in(true, "s", geom, kind) : geom ? 0x00123456u : bsym_u32("s"); }
  if (kind == 4) a8[sk] = alpha_in("s", geom);
  {
    BLImage im, si; mk(im, dst, f); BLContext ctx; ASSERT(ctx.begin(im) == BL_SUCCESS, "begin");
    if (op != 0) ctx.set_comp_op(OPS[op]);
    BLResult r = BL_SUCCESS;
    if (kind == 0) r = ctx.fill_rect(BLRectI(px, py, pw, 1), BLRgba32(col));
    if (kind == 1) { mk(si, msk, BL_FORMAT_A8); r = ctx.fill_mask(BLPointI(px, py), si, BLRectI(0, 0, pw, 1), BLRgba32(col)); }
    if (kind == 2 || kind == 3) { mk(si, src, kind == 2 ? BL_FORMAT_PRGB32 : BL_FORMAT_XRGB32); r = ctx.blit_image(BLPointI(px, py), si, BLRectI(0, 0, pw, 1)); }
    if (kind == 4) { mk(si, a8, BL_FORMAT_A8); r = ctx.blit_image(BLPointI(px, py), si, BLRectI(0, 0, pw, 1)); }
    if (kind == 5) r = ctx.clear_rect(BLRectI(px, py, pw, 1));
    if (kind == 6) r = ctx.fill_all(BLRgba32(col));
    ASSERT(r == BL_SUCCESS, "render call succeeds"); ASSERT(ctx.end() == BL_SUCCESS, "end");
  }
  u32 s = 0, m = 255, o = op;
  if (kind == 0 || kind == 1 || kind == 6) s = premul(col);
  if (kind == 1) m = msk[sk];
  if (kind == 2) s = src[sk]; if (kind == 3) s = src[sk] | 0xFF000000u; if (kind == 4) s = u32(a8[sk]) * 0x01010101u;
  if (kind == 5) o = 2;
  u32 want = spec32(o, xrgb, old[k], s, m), mask = xrgb ? 0x00FFFFFFu : 0xFFFFFFFFu;
  for (u32 sh = 0; sh < (xrgb ? 24u : 32u); sh += 8) ASSERT(((dst[k] >> sh) & 255) == ((want >> sh) & 255), "pixel channel equals the compositing formula");
  if (!xrgb) for (u32 sh = 0; sh < 24; sh += 8) ASSERT(((dst[k] >> sh) & 255) <= dst[k] >> 24, "result is a valid premultiplied pixel");
  else if (!(kind == 5 || op == 2)) { /* the undefined byte is not compared */ }
  for (u32 i = 0; i < W * H; i++) { bool in = kind == 6 || (i >= k && i < k + pw); if (!in) ASSERT(dst[i] == old[i], "pixels outside of the area are untouched"); }
  if (kind != 6) for (u32 i = k + 1; i < k + pw; i++) { u32 sv = kind == 2 ? 0x80402010u : kind == 3 ? 0xFF402010u : kind == 4 ? 0x66666666u : s, mm = kind == 1 ? 200u : 255u; ASSERT(((dst[i] ^ spec32(o, xrgb, old[i], sv, mm)) & mask) == 0, "following pixels of the span"); }
  REACH("end");
}
static void render8(u32 kind, u32 op, bool geom) {
  u8 dst[W * H], old[W * H], msk[W * H], a8[W * H]; u32 src[W * H], col = 0; u32 px = 1, py = 1, pw = 2; if (geom) { px = pick("px", W); py = pick("py", H); pw = pick("pw", W - px) + 1; }
  for (u32 i = 0; i < W * H; i++) { dst[i] = old[i] = u8(i * 37 + 5); src[i] = 0x80402010u; msk[i] = 200; a8[i] = 0x66; }
  u32 k = py * W + px; if (!geom) dst[k] = old[k] = bsym_u8("d");
  if (kind == 0 || kind == 1 || kind == 6) col = color_in(false, "color", geom, kind);
  if (kind == 1) msk[0] = alpha_in("m", geom); if (kind == 2 || kind == 3) { src[0] = kind == 2 ? color_in(true, "s", geom, kind) : geom ? 0x00123456u : bsym_u32("s"); } if (kind == 4) a8[0] = alpha_in("s", geom);
  { BLImage im, si; mk(im, dst, BL_FORMAT_A8); BLContext ctx; ASSERT(ctx.begin(im) == BL_SUCCESS, "begin"); if (op) ctx.set_comp_op(OPS[op]); BLResult r = BL_SUCCESS;
    if (kind == 0) r = ctx.fill_rect(BLRectI(px, py, pw, 1), BLRgba32(col));
    if (kind == 1) { mk(si, msk, BL_FORMAT_A8); r = ctx.fill_mask(BLPointI(px, py), si, BLRectI(0, 0, pw, 1), BLRgba32(col)); }
    if (kind == 2 || kind == 3) { mk(si, src, kind == 2 ? BL_FORMAT_PRGB32 : BL_FORMAT_XRGB32); r = ctx.blit_image(BLPointI(px, py), si, BLRectI(0, 0, pw, 1)); }
    if (kind == 4) { mk(si, a8, BL_FORMAT_A8); r = ctx.blit_image(BLPointI(px, py), si, BLRectI(0, 0, pw, 1)); }
    if (kind == 5) r = ctx.clear_rect(BLRectI(px, py, pw, 1)); if (kind == 6) r = ctx.fill_all(BLRgba32(col));
    ASSERT(r == BL_SUCCESS, "render call succeeds"); ASSERT(ctx.end() == BL_SUCCESS, "end"); }
  u32 sa = kind == 2 ? src[0] >> 24 : kind == 3 ? 255 : kind == 4 ? a8[0] : kind == 5 ? 0 : col >> 24, o = kind == 5 ? 2 : op, m = kind == 1 ? msk[0] : 255;
  ASSERT(dst[k] == spec8(o, old[k], sa, m), "alpha equals the compositing formula");
  for (u32 i = 0; i < W * H; i++) { bool in = kind == 6 || (i >= k && i < k + pw); if (!in) ASSERT(dst[i] == old[i], "pixels outside of the area are untouched"); }
  if (kind != 6) for (u32 i = k + 1; i < k + pw; i++) { u32 sv = kind == 2 ? 0x80u : kind == 3 ? 255u : kind == 4 ? 0x66u : sa, mm = kind == 1 ? 200u : 255u; ASSERT(dst[i] == spec8(o, old[i], sv, mm), "following pixels of the span"); }
  REACH("end");
}
#define E(n, f, k, K) ENTRY h_render_##n##_##k() { if (f == BL_FORMAT_A8) render8(K, K == 5 ? 0 : pick("op", 3), false); else render32(f, K, K == 5 ? 0 : pick("op", 3), false); }
#define ALL(n, f) E(n, f, fill, 0) E(n, f, mask, 1) E(n, f, blitp, 2) E(n, f, blitx, 3) E(n, f, blita, 4) E(n, f, clear, 5) E(n, f, all, 6)
ALL(p, BL_FORMAT_PRGB32) ALL(x, BL_FORMAT_XRGB32) ALL(a, BL_FORMAT_A8)
ENTRY h_render_geom() { u32 f = pick("format", 3), k = pick("kind", 7), op = pick("op", 3); if (f == 2) render8(k, k == 5 ? 0 : op, true); else render32(f ? BL_FORMAT_XRGB32 : BL_FORMAT_PRGB32, k, k == 5 ? 0 : op, true); }

// Every operator: either it is rejected and nothing changes, or the pixel is within one unit of the operator's definition.
// Porter-Duff: R = S*fs + D*fd with factors out of {0, 1, Sa, Da, 1-Sa, 1-Da}; the blend modes share the alpha of src-over.
static u32 fac(u32 k, u32 sa, u32 da) { switch (k) { case 0: return 0; case 1: return 255; case 2: return sa; case 3: return da; case 4: return 255 - sa; default: return 255 - da; } }
static const u8 PD[12][2] = { {1,4}, {1,0}, {3,0}, {5,0}, {3,4}, {5,1}, {0,1}, {0,2}, {0,4}, {5,2}, {5,4}, {0,0} };
static void near(u32 got, u32 n255, const char* m) { ASSERT(got * 255 + 255 >= n255 && got * 255 <= n255 + 255, m); }
ENTRY h_render_ops() {
  u32 f = pick("format", 3), op = pick("op", 29), sk = pick("source", 4), k = 1; static const u8 AS[] = { 0, 1, 128, 255 };
  u32 dst[W * H], old[W * H], src[W * H]; u8* d8 = (u8*)dst; static const u8 DA[] = { 0, 100, 255 };
  for (u32 i = 0; i < W * H; i++) { dst[i] = f == 1 ? 0xFF102030u : 0x90102030u; src[i] = 0; }
  u32 da = f == 1 ? 255 : DA[pick("da", 3)], dc = bsym_u8("dc"); ASSUME(dc <= da);
  if (f == 2) d8[k] = u8(da); else dst[k] = da << 24 | dc << 16 | da << 8;
  for (u32 i = 0; i < W * H; i++) old[i] = dst[i];
  u32 sa = sk == 2 ? 255 : AS[pick("sa", 4)], sc = bsym_u8("sc"); if (sk != 0) ASSUME(sc <= sa); src[0] = sa << 24 | sc << 16; u8 a8[W * H] = { u8(sa) };
  u32 s = sk == 0 ? premul(src[0]) : sk == 3 ? sa * 0x01010101u : src[0]; if (sk == 2) src[0] = pick("x", 2) ? src[0] & 0xFFFFFFu : src[0];
  BLResult r, r2; {
    BLImage im, si; mk(im, dst, f == 0 ? BL_FORMAT_PRGB32 : f == 1 ? BL_FORMAT_XRGB32 : BL_FORMAT_A8); BLContext ctx; ctx.begin(im); ASSERT(ctx.set_comp_op(BLCompOp(op)) == BL_SUCCESS, "set_comp_op");
    if (sk == 0) r = ctx.fill_rect(BLRectI(k, 0, 1, 1), BLRgba32(src[0]));
    else { if (sk == 3) mk(si, a8, BL_FORMAT_A8); else mk(si, src, sk == 1 ? BL_FORMAT_PRGB32 : BL_FORMAT_XRGB32); r = ctx.blit_image(BLPointI(k, 0), si, BLRectI(0, 0, 1, 1)); }
    r2 = ctx.end();
  }
  if (r != BL_SUCCESS) { ASSERT(r == BL_ERROR_NOT_IMPLEMENTED, "unsupported operators are reported"); REACH("unsupported"); for (u32 i = 0; i < W * H; i++) ASSERT(dst[i] == old[i], "an unsupported operator changes nothing"); return; }
  u32 na = 0, nc = 0; bool color = true;
  if (op < 12) { u32 fs = fac(PD[op][0], s >> 24, da), fd = fac(PD[op][1], s >> 24, da); na = (s >> 24) * fs + da * fd; nc = ((s >> 16) & 255) * fs + dc * fd; }
  else if (op == BL_COMP_OP_PLUS) { na = (s >> 24) + da; na = (na > 255 ? 255 : na) * 255; nc = ((s >> 16) & 255) + dc; nc = (nc > 255 ? 255 : nc) * 255; }
  else if (op == BL_COMP_OP_MODULATE) { na = (s >> 24) * da; nc = ((s >> 16) & 255) * dc; }
  else { na = (s >> 24) * 255 + da * (255 - (s >> 24)); color = false; }
  if (f == 2) near(d8[k], na, "alpha of the operator"); else { if (f == 0) near(dst[k] >> 24, na, "alpha of the operator"); if (color) near((dst[k] >> 16) & 255, nc, "color of the operator"); }
  for (u32 i = 0; i < W * H; i++) if (f == 2 ? i * 4 > k + 3 : i != k) ASSERT(dst[i] == old[i], "other pixels"); if (f == 2) { u8* o8 = (u8*)old; for (u32 i = 0; i < 4; i++) if (i != k) ASSERT(d8[i] == o8[i], "other alpha pixels"); }
  REACH("end");
}
