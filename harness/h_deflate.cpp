// C13: DEFLATE decoding against a reference, for every way the input is cut into pieces; C10: arbitrary streams.
#include "bsym.h"
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/runtime_p.h>
#include <blend2d/compression/deflatedecoder_p.h>
#include <blend2d/compression/deflateencoder_p.h>
#include <string.h>
typedef uint8_t u8;
using namespace bl::Compression::Deflate;
static const uint16_t LB[] = {3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258}, DB[] = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577};
static const u8 LE[] = {0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0}, DE[] = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
// ---- reference bit writer and Huffman coder (code lengths are concrete)
static u8 gBuf[4096]; static size_t gBits;
static void put(uint32_t v, int n) { for (int i = 0; i < n; i++, gBits++) gBuf[gBits >> 3] |= (u8)(((v >> i) & 1) << (gBits & 7)); }
struct Code { u8 len[288]; uint16_t code[288]; int n; };
static void canon(Code& c) { uint32_t cnt[16] = {0}, next[16]; for (int i = 0; i < c.n; i++) cnt[c.len[i]]++; cnt[0] = 0; uint32_t k = 0; for (int b = 1; b < 16; b++) { k = (k + cnt[b - 1]) << 1; next[b] = k; } for (int i = 0; i < c.n; i++) if (c.len[i]) c.code[i] = (uint16_t)next[c.len[i]]++; }
static void putc_(const Code& c, int s) { for (int i = c.len[s] - 1; i >= 0; i--) put((c.code[s] >> i) & 1u, 1); }
static Code L, D;
static u8 gOut[70000]; static size_t gN;
static void lit(uint32_t v) { putc_(L, (int)v); gOut[gN++] = (u8)v; }
static void match(int ls, uint32_t le, int ds, uint32_t de) { putc_(L, 257 + ls); put(le, LE[ls]); putc_(D, ds); put(de, DE[ds]); uint32_t n = LB[ls] + le, d = DB[ds] + de; for (uint32_t i = 0; i < n; i++, gN++) gOut[gN] = gOut[gN - d]; }
static void statics() { L.n = 288; for (int i = 0; i < 288; i++) L.len[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8; D.n = 30; for (int i = 0; i < 30; i++) D.len[i] = 5; canon(L); canon(D); }
enum { SM = THOROUGH ? 31 : 7 };
static void symLit() { // a literal of the static code with symbolic value
  uint32_t v = bsym_u8("lit"); if (pick("hi", 2)) { v = 144 + (v & SM); uint32_t c = 0x190 + v - 144; for (int i = 8; i >= 0; i--) put((c >> i) & 1, 1); } else { v &= SM; uint32_t c = 0x30 + v; for (int i = 7; i >= 0; i--) put((c >> i) & 1, 1); } gOut[gN++] = (u8)v; }
static void run(int pieces, size_t lo = 0, size_t step = 1, size_t cap = 0) {
  const u8* p = gBuf; size_t n = (gBits + 7) / 8; static Decoder d; d.init(FormatType::kRaw); BLArray<u8> out; if (cap) out.reserve(cap); BLResult r = BL_SUCCESS; size_t at = 0; for (int i = 0; i < pieces; i++) { size_t end = i == pieces - 1 ? n : lo + step * pick("piece", (uint32_t)((n - lo + step - 1) / step)); u8* q = (u8*)__builtin_malloc(end - at ? end - at : 1); memcpy(q, p + at, end - at); r = d.decode(out, BLDataView{q, end - at}); __builtin_free(q); if (i < pieces - 1) ASSERT(r == BL_ERROR_DATA_TRUNCATED, "more input is asked for"); at = end; }
  ASSERT(r == BL_SUCCESS, "decoded"); ASSERT(out.size() == gN, "size"); const u8* o = out.data(); for (size_t i = 0; i < gN; i++) ASSERT(o[i] == gOut[i], "content");
}

static void stored(int fin, int n) { put((uint32_t)fin, 1); put(0, 2); gBits = (gBits + 7) & ~7ull; put((uint32_t)n, 16); put((uint32_t)n ^ 0xFFFF, 16); for (int i = 0; i < n; i++) { u8 v = bsym_u8("s"); gBuf[gBits >> 3] = v; gBits += 8; gOut[gN++] = v; } }
static void body(int maxOps, bool sym) { static const u8 LS[] = {0, 7, 8, 13, 28}, DS[] = {0, 1, 3, 4, 6}; int n = (int)pick("n", (uint32_t)maxOps + 1); for (int i = 0; i < n; i++) { uint32_t k = gN ? pick("op", 3) : 0; if (k == 0) { if (sym) symLit(); else lit(pick("lit", 2) ? 201 : 'b'); } else if (k == 1) { int ds = gN > 12 ? 6 : gN > 6 ? 4 : gN > 4 ? 3 : gN > 1 ? 1 : 0; match(LS[pick("ls", 5)], 0, ds, 0); } else { int ls = 8 + (int)pick("lx", 2) * 8; uint32_t le = (uint32_t)bsym_enumerate(bsym_u8("le") & ((1u << LE[ls]) - 1)); match(ls, le, 0, 0); } } }
ENTRY h_deflate_static() { bl_runtime_init(); statics(); put(1, 1); put(1, 2); lit('a'); body(2, true); putc_(L, 256); run(1 + (int)pick("cut", 2)); REACH("end"); }
ENTRY h_deflate_blocks() { bl_runtime_init(); statics(); int nb = 2 + (int)pick("nb", 2); for (int i = 0; i < nb; i++) { int fin = i == nb - 1; switch (pick("type", 3)) { case 0: stored(fin, (int)pick("len", 4) * 3); break; case 1: put((uint32_t)fin, 1); put(1, 2); lit(300 % 256 + (uint32_t)i); if (gN > 1 && pick("m", 2)) match(0, 0, 1, 0); putc_(L, 256); break; default: put((uint32_t)fin, 1); put(1, 2); putc_(L, 256); } } run(1 + (int)pick("cut", 2)); REACH("end"); }
// enough input and output around the operations for the fast loop; long distances
ENTRY h_deflate_fast() { bl_runtime_init(); statics(); put(1, 1); put(1, 2); int pre = 8 + (int)pick("pre", 4) * 13; for (int i = 0; i < pre; i++) lit((uint32_t)(i * 37 % 256)); symLit(); uint32_t dk = pick("d", 8); for (int k = 0; k < 2; k++) { static const u8 DS[] = {0, 1, 2, 3, 4, 5, 6, 7}; static const u8 LS[] = {0, 2, 5, 9, 13, 17, 22, 28}; int ls = LS[k ? 1 : pick("ls", 8)]; int ds = DS[dk]; if (ds >= 6 && gN < 14) ds = 2; match(ls, LE[ls] ? (1u << LE[ls]) - 1 : 0, ds, DE[ds] ? 1 : 0); if (pick("between", 2)) symLit(); } int post = (int)pick("post", 3) * 11; for (int i = 0; i < post; i++) lit((uint32_t)(i * 91 % 256)); putc_(L, 256); run(1, 0, 1, pick("cap", 2) ? 2048 : 0); REACH("end"); }
// ---- dynamic codes
static const u8 PO[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
static void dynHdr(int hl, int hd, bool rle) {
  static Code P; P.n = 19; for (int i = 0; i < 19; i++) P.len[i] = i < 13 ? 4 : 5; canon(P); put((uint32_t)hl - 257, 5); put((uint32_t)hd - 1, 5); put(15, 4); for (int i = 0; i < 19; i++) put(P.len[PO[i]], 3);
  u8 s[320]; int n = 0; for (int i = 0; i < hl; i++) s[n++] = L.len[i]; for (int i = 0; i < hd; i++) s[n++] = D.len[i];
  for (int i = 0; i < n;) { int k = 1; while (i + k < n && s[i + k] == s[i]) k++; if (rle && s[i] == 0 && k >= 3) { if (k > 138) k = 138; if (k < 11) { putc_(P, 17); put((uint32_t)k - 3, 3); } else { putc_(P, 18); put((uint32_t)k - 11, 7); } i += k; } else if (rle && i && s[i - 1] == s[i] && k >= 3) { if (k > 6) k = 6; putc_(P, 16); put((uint32_t)k - 3, 2); i += k; } else { putc_(P, s[i]); i++; } }
}
static int profile(int k) { memset(L.len, 0, sizeof(L.len)); memset(D.len, 0, sizeof(D.len)); L.n = 286; D.n = 30; switch (k) {
    case 0: { static const uint16_t S[] = {'a', 'b', 256, 257, 201, 258, 259, 265, 273, 274, 277, 285, 0, 255, 264, 270}; for (int i = 0; i < 16; i++) L.len[S[i]] = (u8)(i < 15 ? i + 1 : 15); for (int i = 0; i < 16; i++) D.len[i] = (u8)(i < 15 ? 15 - i : 15); D.len[0] = 15; D.len[15] = 1; for (int i = 1; i < 15; i++) D.len[i] = (u8)(16 - i); break; } // up to 15 bits, sub-tables
    case 1: for (int i = 0; i < 286; i++) L.len[i] = i < 226 ? 8 : 9; L.len[284] = L.len[285] = 9; { /* 226*2+60 = 512 */ } D.len[0] = 1; break; // single distance code
    case 2: L.len['a'] = L.len['b'] = L.len[201] = 2; L.len[256] = 2; break; // no distance code
    case 3: L.len['a'] = 1; L.len['b'] = 3; L.len[201] = 3; L.len[256] = 4; L.len[257] = 5; L.len[285] = 6; L.len[264] = 6; L.len[265] = 4; L.len[273] = 4; D.len[0] = D.len[3] = 2; D.len[1] = 2; D.len[4] = 3; D.len[6] = 3; break;
  } canon(L); canon(D); return k; }
static void dynBody(int k, int maxOps) { static const int LS0[] = {0, 7, 8, 16, 28}, LS1[] = {0, 1, 28}, LS3[] = {0, 0, 8, 16, 28}; int n = (int)pick("n", (uint32_t)maxOps) + 1; lit('a'); if (k != 2 && pick("warm", 2)) for (int i = 0; i < 12; i++) lit(i & 1 ? 'a' : 'b'); for (int i = 0; i < n; i++) { if (k == 2 || pick("op", 2)) { static const u8 V[] = {'a', 'b', 201}; lit(V[pick("v", 3)]); } else { int ls = k == 0 ? LS0[pick("ls", 5)] : k == 1 ? LS1[pick("ls", 3)] : LS3[pick("ls", 5)]; uint32_t le = LE[ls] ? (uint32_t)bsym_enumerate(bsym_u8("le") & 1) : 0; int ds = 0; uint32_t de = 0; if (k == 0 || k == 3) { ds = gN > 12 ? (int)pick("far", 2) * 6 : gN > 4 ? (int)pick("far", 2) * 3 : 0; if (ds == 6) de = pick("de", 2) * 2; } match(ls, le, ds, de); } } putc_(L, 256); }
static void dyn(int k) { bl_runtime_init(); profile(k); put(1, 1); put(2, 2); dynHdr(286, k == 0 || k == 3 ? 16 : 1 + (int)pick("hd", 2), k ? pick("rle", 2) : true); dynBody(k, 2); run(1); REACH("end"); }
ENTRY h_deflate_dyn0() { dyn(0); }
ENTRY h_deflate_dyn1() { dyn(1); }
ENTRY h_deflate_dyn2() { dyn(2); }
ENTRY h_deflate_dyn3() { dyn(3); }
ENTRY h_deflate_dyncut() { bl_runtime_init(); int k = (int)pick("profile", 2) * 3; profile(k); put(1, 1); put(2, 2); dynHdr(286, 16, true); lit('a'); lit('b'); match(0, 0, 0, 0); match(28, 0, 1, 0); lit(201); putc_(L, 256); run(2 + (int)(THOROUGH && pick("three", 2))); REACH("end"); }
// blocks of different codes following each other (stale tables)
ENTRY h_deflate_mix() { bl_runtime_init(); int nb = 2 + (THOROUGH ? (int)pick("nb", 2) : 0); for (int i = 0; i < nb; i++) { put(i == nb - 1, 1); uint32_t t = pick("type", 5); if (t == 4) { statics(); put(1, 2); lit('a'); lit(201); match(0, 0, 0, 0); putc_(L, 256); } else { profile((int)t); put(2, 2); dynHdr(286, 16, true); lit('a'); lit(201); if (t != 2) match(0, 0, 0, 0); putc_(L, 256); } } run(1); REACH("end"); }

// ---- malformed streams: an error, or bytes; never an access outside of the buffers
static BLResult feed(BLArray<u8>& out, bool small) { size_t n = (gBits + 7) / 8; static Decoder d; d.init(FormatType::kRaw, small ? DecoderOptions::kNeverReallocOutputBuffer : DecoderOptions::kNone); if (small) out.reserve(8); u8* q = (u8*)__builtin_malloc(n ? n : 1); memcpy(q, gBuf, n); BLResult r = d.decode(out, BLDataView{q, n}); __builtin_free(q); return r; }
ENTRY h_deflate_any() { bl_runtime_init(); int t = (int)pick("type", 3); put(1, 1); if (t == 0) { put(0, 2); gBits = 8; for (int i = 0; i < 6; i++, gBits += 8) gBuf[gBits >> 3] = bsym_u8("b"); gBuf[1] = (u8)((gBuf[1] & 7) | (pick("big", 2) ? 0xF8 : 0)); gBuf[2] = gBuf[1] & 8 ? 0xFF : 0; } else if (t == 1) { put(1, 2); int pre = (int)pick("pre", 2); statics(); for (int i = 0; i < pre; i++) lit('a'); put((uint32_t)bsym_enumerate(bsym_u8("b")), 8); put((uint32_t)bsym_enumerate(bsym_u8("b") & (THOROUGH ? 255 : 15)), 8); } else { put(2, 2); uint32_t v = bsym_u16("c"); put(v & 7, 3); put(0, 2); put(v >> 3 & 3, 2); put(0, 3); put(v >> 5 & 3, 4); for (int i = 0; i < 7; i++) put(pick("pl", 2) * (1u + (uint32_t)i % 3), 3); put(0, 16); put(pick("tail", 2) ? 0xFFFFFFFFu : 0, 32); }
  BLArray<u8> out; BLResult r = feed(out, pick("small", 2)); ASSERT(r == BL_SUCCESS || r == BL_ERROR_DATA_TRUNCATED || r == BL_ERROR_DECOMPRESSION_FAILED || r == BL_ERROR_OUT_OF_MEMORY || r == BL_ERROR_INVALID_DATA, "result"); uint32_t x = 0; for (size_t i = 0; i < out.size(); i++) x |= out[i]; ASSERT(x < 256, "no byte is undefined"); if (r == BL_SUCCESS) REACH("ok"); else REACH("refused"); REACH("end"); }
// one code length altered to any value: refused unless the code is still complete (or a single distance code)
ENTRY h_deflate_code() { bl_runtime_init(); int k = (int)pick("profile", 4); profile(k); static const uint16_t S[] = {'a', 'b', 256, 257, 0, 285, 201, 17}; bool dist = pick("dist", 2); int i = dist ? (int)pick("sym", 17) % 16 : S[pick("sym", 8)]; u8* l = dist ? &D.len[i] : &L.len[i]; *l = (u8)bsym_enumerate(bsym_u8("len") & 15);
  uint32_t kl = 0, kd = 0, nd = 0, nl = 0; for (int j = 0; j < 286; j++) if (L.len[j]) { kl += 1u << (15 - L.len[j]); nl++; } for (int j = 0; j < 16; j++) if (D.len[j]) { kd += 1u << (15 - D.len[j]); nd++; }
  bool ok = (kl == 32768 || (nl == 1 && kl == 16384)) && (kd == 32768 || nd == 0 || (nd == 1 && kd == 16384)) && L.len[256]; canon(L); canon(D); put(1, 1); put(2, 2); dynHdr(286, 16, true); if (L.len['a'] && ok) lit('a'); if (L.len[256]) putc_(L, 256); else put(0, 15); put(0, 32); BLArray<u8> out; BLResult r = feed(out, false); if (ok) { ASSERT(r == BL_SUCCESS && out.size() == gN && (!gN || out[0] == 'a'), "decoded"); REACH("ok"); } else { ASSERT(r != BL_SUCCESS, "an invalid code is refused"); REACH("refused"); } REACH("end"); }
// compress, then decompress
ENTRY h_deflate_enc() {
  bl_runtime_init(); static const int LV[] = {0, 1, 2, 4, 5, 7, 8, 9, 10, 12}; int lv = LV[pick("level", 10)]; static const int NS[] = {1, 2, 20, 60, 100, 300}; int n = NS[pick("n", THOROUGH ? 6 : 5)]; static u8 in[304]; int kind = (int)pick("kind", 3); for (int i = 0; i < n; i++) in[i] = kind == 0 ? 'a' : kind == 1 ? (u8)(i % 7 * 31) : (u8)(i * i * 7 + (i >> 3)); in[n / 2] = (u8)bsym_enumerate(bsym_u8("b") & (THOROUGH ? 255 : 1)); if (n > 20) in[n - 3] = (u8)(in[n / 2] + pick("end", 2));
  bool zlib = pick("zlib", 2), app = pick("append", 2); FormatType f = zlib ? FormatType::kZlib : FormatType::kRaw; Encoder e; ASSERT(e.init(f, (uint32_t)lv) == BL_SUCCESS, "init"); BLArray<u8> out; if (app) { out.append(7); out.append(9); } ASSERT(e.compress(out, app ? BL_MODIFY_OP_APPEND_GROW : BL_MODIFY_OP_ASSIGN_FIT, BLDataView{in, (size_t)n}) == BL_SUCCESS, "compressed"); size_t at = app ? 2 : 0; ASSERT(out.size() > at && out.size() <= at + e.minimum_output_buffer_size((size_t)n), "size"); const u8* o = out.data(); if (app) ASSERT(o[0] == 7 && o[1] == 9, "kept");
  size_t m = out.size() - at; u8* q = (u8*)__builtin_malloc(m); memcpy(q, o + at, m); if (zlib) { ASSERT(m > 6 && (q[0] & 15) == 8 && (q[0] * 256u + q[1]) % 31 == 0 && !(q[1] & 32), "zlib header"); uint32_t a = 1, b = 0; for (int i = 0; i < n; i++) { a = (a + in[i]) % 65521; b = (b + a) % 65521; } ASSERT(q[m - 4] == (u8)(b >> 8) && q[m - 3] == (u8)b && q[m - 2] == (u8)(a >> 8) && q[m - 1] == (u8)a, "Adler-32"); }
  static Decoder d; d.init(f); BLArray<u8> back; ASSERT(d.decode(back, BLDataView{q, m}) == BL_SUCCESS, "decompressed"); ASSERT(back.size() == (size_t)n && memcmp(back.data(), in, (size_t)n) == 0, "same bytes"); __builtin_free(q); REACH("end"); }
