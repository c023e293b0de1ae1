#include "expr.h"
#include <map>
#include <functional>

std::vector<SymInfo> gSyms;
uint64_t gNumExprs = 0;
static std::unordered_map<std::string, uint32_t> gSymByName;
static std::vector<Expr*> gTab(1 << 20, nullptr);
static size_t gTabCount = 0;
static uint32_t gEpoch = 1;

// ---- symbol sets -----------------------------------------------------------------------------------------------
struct SSHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003u + x; return h; } };
static std::unordered_map<std::vector<uint32_t>, SymSet*, SSHash> gSets;
static std::unordered_map<uint64_t, SymSet*> gUnionCache;
static SymSet* internSet(std::vector<uint32_t>&& v) {
  auto it = gSets.find(v);
  if (it != gSets.end()) return it->second;
  SymSet* s = new SymSet{v, (uint32_t)gSets.size()};
  gSets.emplace(s->v, s);
  return s;
}
SymSet* symUnion(SymSet* a, SymSet* b) {
  static SymSet* empty = internSet({});
  if (!a) a = empty; if (!b) b = empty;
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  if (a->id > b->id) std::swap(a, b);
  uint64_t key = ((uint64_t)a->id << 32) | b->id;
  auto it = gUnionCache.find(key);
  if (it != gUnionCache.end()) return it->second;
  std::vector<uint32_t> r; r.reserve(a->v.size() + b->v.size());
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  SymSet* s = internSet(std::move(r));
  gUnionCache[key] = s;
  return s;
}

// ---- hash consing ----------------------------------------------------------------------------------------------
static inline uint64_t hmix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33; return h; }
static inline uint64_t hashNode(uint8_t k, uint8_t w, Expr* a, Expr* b, Expr* c, uint64_t v) {
  uint64_t h = k * 131u + w;
  h = hmix(h ^ (a ? a->id * 0x9E3779B97F4A7C15ull : 0));
  h = hmix(h ^ (b ? b->id * 0xC2B2AE3D27D4EB4Full : 0) ^ (c ? c->id * 0x165667B19E3779F9ull : 0) ^ v);
  return h;
}
static void grow() {
  std::vector<Expr*> n(gTab.size() * 2, nullptr);
  for (Expr* e : gTab) while (e) { Expr* nx = e->next; size_t i = hashNode(e->kind, e->w, e->a, e->b, e->c, e->val) & (n.size() - 1); e->next = n[i]; n[i] = e; e = nx; }
  gTab.swap(n);
}
static char* gArena = nullptr; static size_t gArenaLeft = 0;
static Expr* allocExpr() {
  if (gArenaLeft < sizeof(Expr)) { gArenaLeft = 4 << 20; gArena = (char*)malloc(gArenaLeft); }
  Expr* e = (Expr*)gArena; gArena += sizeof(Expr); gArenaLeft -= sizeof(Expr); memset(e, 0, sizeof(Expr)); return e;
}

static void computeKnown(Expr* e) {
  uint64_t m = maskw(e->w);
  uint64_t kz = 0, ko = 0, lo = 0, hi = m;
  Expr *a = e->a, *b = e->b, *c = e->c;
  switch (e->kind) {
    case K_CONST: ko = e->val; kz = ~e->val & m; lo = hi = e->val; break;
    case K_AND: kz = a->kz | b->kz; ko = a->ko & b->ko; hi = std::min(a->hi, b->hi); break;
    case K_OR: kz = a->kz & b->kz; ko = a->ko | b->ko; lo = std::max(a->lo, b->lo); break;
    case K_XOR: kz = (a->kz & b->kz) | (a->ko & b->ko); ko = (a->kz & b->ko) | (a->ko & b->kz); break;
    case K_ITE: kz = b->kz & c->kz; ko = b->ko & c->ko; lo = std::min(b->lo, c->lo); hi = std::max(b->hi, c->hi); break;
    case K_ZEXT: kz = a->kz | (m & ~maskw(a->w)); ko = a->ko; lo = a->lo; hi = a->hi; break;
    case K_SEXT: {
      uint64_t sb = 1ull << (a->w - 1), up = m & ~maskw(a->w);
      kz = a->kz | ((a->kz & sb) ? up : 0); ko = a->ko | ((a->ko & sb) ? up : 0); break;
    }
    case K_CONCAT: kz = (a->kz << b->w) | b->kz; ko = (a->ko << b->w) | b->ko; lo = (a->lo << b->w) | b->lo; hi = (a->hi << b->w) | b->hi; break;
    case K_EXTRACT: kz = (a->kz >> e->val) & m; ko = (a->ko >> e->val) & m; if (e->val + e->w == a->w || (a->hi >> e->val) <= m) { lo = a->lo >> e->val; hi = a->hi >> e->val; } break;
    case K_ADD: {
      unsigned __int128 s = (unsigned __int128)a->hi + b->hi;
      if (s <= m) { lo = a->lo + b->lo; hi = (uint64_t)s; }
      // trailing known zeros
      { uint64_t tz = ~(a->kz & b->kz); unsigned n = tz ? __builtin_ctzll(tz) : 64; kz |= n >= 64 ? m : (maskw(n) & m); }
      break;
    }
    case K_SUB: if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; }
      { uint64_t tz = ~(a->kz & b->kz); unsigned n = tz ? __builtin_ctzll(tz) : 64; kz |= n >= 64 ? m : (maskw(n) & m); } break;
    case K_MUL: {
      unsigned __int128 s = (unsigned __int128)a->hi * b->hi;
      if (s <= m) { lo = a->lo * b->lo; hi = (uint64_t)s; }
      unsigned na = ~a->kz ? __builtin_ctzll(~a->kz) : 64, nb = ~b->kz ? __builtin_ctzll(~b->kz) : 64; unsigned n = std::min(64u, na + nb); kz |= maskw(n) & m;
      break;
    }
    case K_UDIV: if (b->lo) { lo = a->lo / b->hi; hi = a->hi / b->lo; } break;
    case K_UREM: if (b->lo) { hi = std::min(a->hi, b->hi - 1); if (a->hi < b->lo) lo = a->lo; } break;
    case K_LSHR: hi = a->hi; if (isC(b) && b->val < e->w) { lo = a->lo >> b->val; hi = a->hi >> b->val; } else { hi = b->lo >= 64 ? 0 : a->hi >> b->lo; } break;
    case K_SHL: { if (b->hi < 64 && (unsigned)__builtin_clzll(a->hi | 1) - (64 - e->w) > b->hi) { hi = a->hi << b->hi; lo = a->lo << b->lo; } unsigned na = ~a->kz ? __builtin_ctzll(~a->kz) : 64; uint64_t n = std::min<uint64_t>(64, na + b->lo); kz |= maskw(n) & m; break; }
    default: break;
  }
  kz &= m; ko &= m;
  // combine
  if (lo < ko) lo = ko;
  if (hi > (m & ~kz)) hi = m & ~kz;
  if (hi != m || e->kind == K_CONST) { // leading zeros from hi
    unsigned lz = hi ? (unsigned)__builtin_clzll(hi) : 64; uint64_t z = lz >= 64 ? ~0ull : ~(~0ull >> lz); kz |= z & m;
  }
  if (lo == hi && e->kind != K_CONST) { ko = lo; kz = ~lo & m; }
  e->kz = kz; e->ko = ko; e->lo = lo; e->hi = hi;
}

static Expr* intern(K k, unsigned w, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, uint64_t val = 0) {
  uint64_t h = hashNode(k, w, a, b, c, val);
  size_t i = h & (gTab.size() - 1);
  for (Expr* e = gTab[i]; e; e = e->next)
    if (e->kind == k && e->w == w && e->a == a && e->b == b && e->c == c && e->val == val) return e;
  if (gTabCount > gTab.size()) { grow(); i = h & (gTab.size() - 1); }
  Expr* e = allocExpr();
  e->kind = k; e->w = w; e->a = a; e->b = b; e->c = c; e->val = val; e->id = (uint32_t)++gNumExprs;
  e->hasMul = (k >= K_MUL && k <= K_SREM) || (a && a->hasMul) || (b && b->hasMul) || (c && c->hasMul);
  e->hasFP = (k >= K_FADD) || (a && a->hasFP) || (b && b->hasFP) || (c && c->hasFP);
  uint64_t sz = 1 + (a ? a->size : 0) + (uint64_t)(b ? b->size : 0) + (c ? c->size : 0); e->size = sz > 1000000000u ? 1000000000u : (uint32_t)sz;
  if (k == K_SYM) e->syms = internSet({(uint32_t)val});
  else if (k == K_CONST) e->syms = symUnion(nullptr, nullptr);
  else { e->syms = a->syms; if (b) e->syms = symUnion(e->syms, b->syms); if (c) e->syms = symUnion(e->syms, c->syms); }
  computeKnown(e);
  e->next = gTab[i]; gTab[i] = e; gTabCount++;
  return e;
}

Expr* mkConst(uint64_t v, unsigned w) {
  v &= maskw(w);
  static Expr* small[65][257];
  if (v <= 256) { Expr*& s = small[w][v]; if (!s) s = intern(K_CONST, w, nullptr, nullptr, nullptr, v); return s; }
  return intern(K_CONST, w, nullptr, nullptr, nullptr, v);
}
Expr* mkSym(const std::string& name, unsigned w) {
  std::string key = name + ":" + std::to_string(w);
  auto it = gSymByName.find(key);
  if (it != gSymByName.end()) return gSyms[it->second].e;
  uint32_t id = (uint32_t)gSyms.size();
  gSyms.push_back({name, w, nullptr});
  Expr* e = intern(K_SYM, w, nullptr, nullptr, nullptr, id);
  gSyms[id].e = e; gSymByName[key] = id;
  return e;
}
static inline Expr* fin(Expr* e) { // fold to const when the range collapsed
  if (e->kind != K_CONST && e->lo == e->hi) return mkConst(e->lo, e->w);
  return e;
}
Expr* mkNot(Expr* e) { return mkBin(K_XOR, e, mkConst(~0ull, e->w)); }

// upper bound of x mod 2^L
static uint64_t lowMax(Expr* x, unsigned L, int d = 8) {
  if (L >= x->w) L = x->w;
  uint64_t lm = maskw(L), r = ~x->kz & lm; if (x->hi <= lm) r = std::min(r, x->hi);
  if (d <= 0 || r == 0) return r;
  switch (x->kind) {
    case K_CONST: return x->val & lm;
    case K_ADD: { unsigned __int128 s = (unsigned __int128)lowMax(x->a, L, d - 1) + lowMax(x->b, L, d - 1); return s <= r ? (uint64_t)s : r; }
    case K_MUL: { unsigned __int128 s = (unsigned __int128)lowMax(x->a, L, d - 1) * lowMax(x->b, L, d - 1); return s <= r ? (uint64_t)s : r; }
    case K_ZEXT: return std::min(r, lowMax(x->a, L, d - 1));
    case K_CONCAT: { unsigned bw = x->b->w; if (L <= bw) return std::min(r, lowMax(x->b, L, d - 1)); return std::min(r, (lowMax(x->a, L - bw, d - 1) << bw) | lowMax(x->b, bw, d - 1)); }
    case K_EXTRACT: return x->val == 0 ? std::min(r, lowMax(x->a, L, d - 1)) : r;
    default: return r;
  }
}
// ---- extract / concat / ext -------------------------------------------------------------------------------------
Expr* mkExtract(Expr* e, unsigned off, unsigned w) {
  if (off == 0 && w == e->w) return e;
  switch (e->kind) {
    case K_CONST: return mkConst(e->val >> off, w);
    case K_EXTRACT: return mkExtract(e->a, off + (unsigned)e->val, w);
    case K_CONCAT: {
      unsigned lw = e->b->w;
      if (off >= lw) return mkExtract(e->a, off - lw, w);
      if (off + w <= lw) return mkExtract(e->b, off, w);
      return mkConcat(mkExtract(e->a, 0, off + w - lw), mkExtract(e->b, off, lw - off));
    }
    case K_ZEXT:
      if (off >= e->a->w) return mkConst(0, w);
      if (off + w <= e->a->w) return mkExtract(e->a, off, w);
      return mkZExt(mkExtract(e->a, off, e->a->w - off), w);
    case K_SEXT:
      if (off + w <= e->a->w) return mkExtract(e->a, off, w);
      if (off < e->a->w) return mkSExt(mkExtract(e->a, off, e->a->w - off), w);
      return mkSExt(mkExtract(e->a, e->a->w - 1, 1), w);
    case K_AND: case K_OR: case K_XOR:
      return mkBin((K)e->kind, mkExtract(e->a, off, w), mkExtract(e->b, off, w));
    case K_ADD: case K_SUB: case K_MUL:
      if (off == 0) return mkBin((K)e->kind, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
      if (off + w < e->w) return mkExtract(mkExtract(e, 0, off + w), off, w);
      // lane split: drop low bits that can not carry into the extracted ones
      for (unsigned L = off; L >= 8; L = (L - 1) & ~7u) {
        uint64_t lm = maskw(L); uint64_t ah = lowMax(e->a, L), bh = lowMax(e->b, L); bool ok = false;
        if (e->kind == K_ADD) ok = (unsigned __int128)ah + bh <= lm;
        else if (e->kind == K_SUB) { uint64_t al = e->a->ko & lm; ok = al >= bh; }
        else { if ((~e->a->kz & maskw(e->w)) > lm && (unsigned __int128)ah * e->b->hi <= lm) ok = true; else if ((~e->b->kz & maskw(e->w)) > lm && (unsigned __int128)bh * e->a->hi <= lm) { Expr* r = mkBin(K_MUL, mkExtract(e->b, L, e->w - L), mkExtract(e->a, 0, e->w - L)); return mkExtract(r, off - L, w); }
          if (ok) { Expr* r = mkBin(K_MUL, mkExtract(e->a, L, e->w - L), mkExtract(e->b, 0, e->w - L)); return mkExtract(r, off - L, w); } continue; }
        if (ok) return mkExtract(mkBin((K)e->kind, mkExtract(e->a, L, e->w - L), mkExtract(e->b, L, e->w - L)), off - L, w);
      }
      break;
    case K_ITE:
      if (isC(e->b) || isC(e->c) || (e->b->kind != K_ITE && e->c->kind != K_ITE && e->size < 64))
        return mkIte(e->a, mkExtract(e->b, off, w), mkExtract(e->c, off, w));
      break;
    default: break;
  }
  uint64_t m = maskw(w) << off;
  if (((e->kz | e->ko) & m) == m) return mkConst(e->ko >> off, w);
  if ((e->kz >> (off + w - 1)) & 1) { unsigned n = w; while (n && ((e->kz >> (off + n - 1)) & 1)) n--; return mkZExt(mkExtract(e, off, n), w); }
  return fin(intern(K_EXTRACT, w, e, nullptr, nullptr, off));
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
  if (hi->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w)
    return mkExtract(lo->a, (unsigned)lo->val, w);
  // e[w-1..k] ++ ... where lo is a whole expr: extract(x,k..) ++ x?  only if lo == Extract handled above; also lo is 'x' truncated via ZEXT forms.
  if (hi->kind == K_EXTRACT && lo->kind == K_CONCAT && lo->a->kind == K_EXTRACT && lo->a->a == hi->a && hi->val == lo->a->val + lo->a->w)
    return mkConcat(mkExtract(hi->a, (unsigned)lo->a->val, hi->w + lo->a->w), lo->b);
  if (hi->kind == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo)); // right-assoc
  if (hi->kind == K_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  if (isC(hi) && lo->kind == K_CONCAT && isC(lo->a)) return mkConcat(mkConst((hi->val << lo->a->w) | lo->a->val, hi->w + lo->a->w), lo->b);
  // sext recognition: all-hi bits equal the sign -> leave to solver.
  if (hi->kind == K_ITE && lo->kind == K_ITE && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (hi->kind == K_EXTRACT && hi->a->kind == K_SEXT && false) {}
  return fin(intern(K_CONCAT, w, hi, lo));
}
Expr* mkZExt(Expr* e, unsigned w) {
  if (e->w == w) return e;
  if (isC(e)) return mkConst(e->val, w);
  if (e->kind == K_ZEXT) return mkZExt(e->a, w);
  if (e->kind == K_ITE && isC(e->b) && isC(e->c)) return mkIte(e->a, mkConst(e->b->val, w), mkConst(e->c->val, w));
  return fin(intern(K_ZEXT, w, e));
}
Expr* mkSExt(Expr* e, unsigned w) {
  if (e->w == w) return e;
  if (isC(e)) return mkConst((uint64_t)sextw(e->val, e->w), w);
  if (e->kz >> (e->w - 1) & 1) return mkZExt(e, w);
  if (e->kind == K_SEXT) return mkSExt(e->a, w);
  if (e->kind == K_ITE && isC(e->b) && isC(e->c)) return mkIte(e->a, mkConst((uint64_t)sextw(e->b->val, e->w), w), mkConst((uint64_t)sextw(e->c->val, e->w), w));
  return fin(intern(K_SEXT, w, e));
}

// ---- ite --------------------------------------------------------------------------------------------------------
static Expr* notInner(Expr* c) { // returns x when c == !x
  if (c->w == 1 && c->kind == K_XOR && isC(c->b) && c->b->val == 1) return c->a;
  return nullptr;
}
Expr* mkIte(Expr* c, Expr* t, Expr* f) {
  if (isC(c)) return c->val ? t : f;
  if (t == f) return t;
  if (Expr* n = notInner(c)) return mkIte(n, f, t);
  if (t->w == 1) {
    if (isC(t)) return t->val ? mkBin(K_OR, c, f) : mkBin(K_AND, mkNot(c), f);
    if (isC(f)) return f->val ? mkBin(K_OR, mkNot(c), t) : mkBin(K_AND, c, t);
    if (t == c) return mkBin(K_OR, c, f);
    if (f == c) return mkBin(K_AND, c, t);
  }
  if (c->kind == K_EQ && ((c->a == f && c->b == t) || (c->b == f && c->a == t))) return f; // x == y ? y : x
  if (t->kind == K_ITE && t->a == c) return mkIte(c, t->b, f);
  if (f->kind == K_ITE && f->a == c) return mkIte(c, t, f->c);
  // ite(c, ite(d,x,y), y) -> ite(c&d, x, y) ; ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
  if (t->kind == K_ITE && t->c == f) return mkIte(mkBin(K_AND, c, t->a), t->b, f);
  if (f->kind == K_ITE && f->b == t) return mkIte(mkBin(K_OR, c, f->a), t, f->c);
  if (t->kind == K_ZEXT && f->kind == K_ZEXT && t->a->w == f->a->w) return mkZExt(mkIte(c, t->a, f->a), t->w);
  return fin(intern(K_ITE, t->w, c, t, f));
}

// ---- binary ops -------------------------------------------------------------------------------------------------
static inline bool commut(K k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR; }

Expr* mkBin(K k, Expr* a, Expr* b) {
  unsigned w = a->w; uint64_t m = maskw(w);
  if (isC(a) && isC(b)) {
    if ((k == K_UDIV || k == K_UREM || k == K_SDIV || k == K_SREM) && b->val == 0) return intern(k, w, a, b);
    return mkConst(evalOp(k, w, w, a->val, b->val, 0, 0), w);
  }
  if (commut(k)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
  bool cb = isC(b); uint64_t bv = cb ? b->val : 0;
  switch (k) {
    case K_ADD:
      if (cb) {
        if (bv == 0) return a;
        if (!(bv & 1)) { unsigned n = __builtin_ctzll(bv); if ((((a->kz | a->ko) & m) >> n) == (m >> n)) return mkConcat(mkConst((a->ko >> n) + (bv >> n), w - n), mkExtract(a, 0, n)); } // upper part known
        if (a->kind == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->val + bv, w));
        if (a->kind == K_SUB && isC(a->a)) return mkBin(K_SUB, mkConst(a->a->val + bv, w), a->b);
        if (a->kind == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->val + bv, w), mkConst(a->c->val + bv, w));
        if (a->kind == K_ITE && (isC(a->b) || isC(a->c)) && a->size < 40) return mkIte(a->a, mkBin(K_ADD, a->b, b), mkBin(K_ADD, a->c, b));
      }
      if (a->kind == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
      if (b->kind == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
      if (w == 1) return mkBin(K_XOR, a, b);
      if (a->kind == K_SUB && a->b == b) return a->a;
      if (b->kind == K_SUB && b->b == a) return b->a;
      if (((~a->kz & m) & (~b->kz & m)) == 0) return mkBin(K_OR, a, b);
      break;
    case K_SUB:
      if (a == b) return mkConst(0, w);
      if (cb) return mkBin(K_ADD, a, mkConst(0 - bv, w));
      if (a->kind == K_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
      if (b->kind == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkConst(0 - b->b->val, w));
      if (a->kind == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
      if (b->kind == K_ADD) { if (b->a == a) return mkBin(K_SUB, mkConst(0, w), b->b); if (b->b == a) return mkBin(K_SUB, mkConst(0, w), b->a); }
      if (b->kind == K_SUB && isC(b->a) && b->a->val == 0) return mkBin(K_ADD, a, b->b);
      if (w == 1) return mkBin(K_XOR, a, b);
      break;
    case K_MUL:
      if (cb) {
        if (bv == 0) return b;
        if (bv == 1) return a;
        if ((bv & (bv - 1)) == 0) return mkBin(K_SHL, a, mkConst(__builtin_ctzll(bv), w));
        if (a->kind == K_MUL && isC(a->b)) return mkBin(K_MUL, a->a, mkConst(a->b->val * bv, w));
        if (a->kind == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->val * bv, w), mkConst(a->c->val * bv, w));
      }
      if (w == 1) return mkBin(K_AND, a, b);
      break;
    case K_UDIV:
      if (cb && bv && (bv & (bv - 1)) == 0) return mkBin(K_LSHR, a, mkConst(__builtin_ctzll(bv), w));
      if (a->hi < b->lo) return mkConst(0, w);
      break;
    case K_UREM:
      if (cb && bv && (bv & (bv - 1)) == 0) return mkBin(K_AND, a, mkConst(bv - 1, w));
      if (a->hi < b->lo) return a;
      break;
    case K_SDIV: case K_SREM:
      if (((a->kz >> (w - 1)) & 1) && ((b->kz >> (w - 1)) & 1)) return mkBin(k == K_SDIV ? K_UDIV : K_UREM, a, b);
      break;
    case K_AND:
      if (a == b) return a;
      if (cb) {
        if ((bv & ~a->kz) == 0) return mkConst(0, w);
        if ((~bv & m & ~a->kz) == 0) return a;
        if (a->kind == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkConst(a->b->val & bv, w));
        if (a->kind == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->val & bv, w), mkConst(a->c->val & bv, w));
        // contiguous mask -> concat(0, extract, 0)
        unsigned tz = __builtin_ctzll(bv); uint64_t s = bv >> tz;
        if ((s & (s + 1)) == 0 && w > 1) {
          unsigned n = __builtin_popcountll(s);
          Expr* x = mkExtract(a, tz, n);
          if (tz) x = mkConcat(x, mkConst(0, tz));
          return mkZExt(x, w);
        }
        if (w > 8) { // a few runs of ones -> concatenation of the pieces
          unsigned runs = __builtin_popcountll(bv & ~(bv << 1));
          if (runs <= 4) {
            Expr* r = nullptr; unsigned p = 0;
            while (p < w) { bool one = (bv >> p) & 1; unsigned q = p; while (q < w && (((bv >> q) & 1) != 0) == one) q++; Expr* x = one ? mkExtract(a, p, q - p) : mkConst(0, q - p); r = r ? mkConcat(x, r) : x; p = q; }
            return r;
          }
        }
        if (a->kind == K_OR || a->kind == K_XOR) { // distribute when one side vanishes
          if ((bv & ~a->b->kz) == 0) return mkBin(K_AND, a->a, b);
          if ((bv & ~a->a->kz) == 0) return mkBin(K_AND, a->b, b);
        }
      }
      if (w == 1) {
        if (notInner(a) == b || notInner(b) == a) return mkConst(0, 1);
        if (b->kind == K_AND && (b->a == a || b->b == a)) return b;
        if (a->kind == K_AND && (a->a == b || a->b == b)) return a;
        if (a->kind == K_OR && (a->a == b || a->b == b)) return b;
        if (b->kind == K_OR && (b->a == a || b->b == a)) return a;
      }
      break;
    case K_OR:
      if (a == b) return a;
      if (cb) {
        if (bv == 0) return a;
        if ((~bv & m & ~a->ko) == 0 && bv == m) return b;
        if ((bv & ~a->ko) == 0) return a;
        if (a->kind == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->val | bv, w), mkConst(a->c->val | bv, w));
        if (a->kind == K_OR && isC(a->b)) return mkBin(K_OR, a->a, mkConst(a->b->val | bv, w));
      }
      if (w == 1) {
        if (notInner(a) == b || notInner(b) == a) return mkConst(1, 1);
        if (b->kind == K_OR && (b->a == a || b->b == a)) return b;
        if (a->kind == K_OR && (a->a == b || a->b == b)) return a;
        if (a->kind == K_AND && (a->a == b || a->b == b)) return b;
        if (b->kind == K_AND && (b->a == a || b->b == a)) return a;
        // (c & x) | c' handled by solver
        if (Expr* na = notInner(a)) { if (b->kind == K_AND) { if (b->a == na) return mkBin(K_OR, a, b->b); if (b->b == na) return mkBin(K_OR, a, b->a); } }
        if (Expr* nb = notInner(b)) { if (a->kind == K_AND) { if (a->a == nb) return mkBin(K_OR, b, a->b); if (a->b == nb) return mkBin(K_OR, b, a->a); } }
        if (a->kind == K_AND && b->kind == K_AND) { // (c&x)|(!c&x) -> x
          Expr* aa[2] = {a->a, a->b}; Expr* bb[2] = {b->a, b->b};
          for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
            if (aa[i] == bb[j] && (notInner(aa[1 - i]) == bb[1 - j] || notInner(bb[1 - j]) == aa[1 - i])) return aa[i];
        }
      } else {
        // disjoint pieces -> concat. Find a split point where 'x' only has bits below and 'y' only above.
        uint64_t na = ~a->kz & m, nb = ~b->kz & m;
        if ((na & nb) == 0 && na && nb) {
          Expr *l = a, *h = b; uint64_t nl = na, nh = nb;
          if (nl > nh) { std::swap(l, h); std::swap(nl, nh); }
          unsigned split = __builtin_ctzll(nh);
          if (nl < (1ull << split)) {
            return mkConcat(mkExtract(h, split, w - split), mkExtract(l, 0, split));
          }
          // byte interleaved (e.g. 0x00FF00FF | 0xFF00FF00): split piecewise when both are concat-like
          if (w <= 64 && (h->kind == K_CONCAT || h->kind == K_ZEXT) && (l->kind == K_CONCAT || l->kind == K_ZEXT)) {
            unsigned sp = 0; // lowest boundary in either
            unsigned b1 = l->kind == K_CONCAT ? l->b->w : l->a->w, b2 = h->kind == K_CONCAT ? h->b->w : h->a->w;
            sp = std::min(b1, b2);
            if (sp < w) return mkConcat(mkBin(K_OR, mkExtract(a, sp, w - sp), mkExtract(b, sp, w - sp)), mkBin(K_OR, mkExtract(a, 0, sp), mkExtract(b, 0, sp)));
          }
        }
      }
      break;
    case K_XOR:
      if (a == b) return mkConst(0, w);
      if (cb) {
        if (bv == 0) return a;
        if (a->kind == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkConst(a->b->val ^ bv, w));
        if (a->kind == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->val ^ bv, w), mkConst(a->c->val ^ bv, w));
        if (w == 1 && bv == 1) {
          if (a->kind == K_ULT) return mkCmp(K_ULE, a->b, a->a);
          if (a->kind == K_ULE) return mkCmp(K_ULT, a->b, a->a);
          if (a->kind == K_SLT) return mkCmp(K_SLE, a->b, a->a);
          if (a->kind == K_SLE) return mkCmp(K_SLT, a->b, a->a);
        }
        if (bv == m && w > 1) {
          if (a->kind == K_CONCAT) return mkConcat(mkNot(a->a), mkNot(a->b));
          if (a->kind == K_SEXT) return mkSExt(mkNot(a->a), w);
        }
      }
      { Expr *na = nullptr, *nb = nullptr; // !x ^ !y -> x ^ y for bools
        if (w == 1 && !cb && (na = notInner(a)) && (nb = notInner(b))) return mkBin(K_XOR, na, nb); }
      break;
    case K_SHL:
      if (cb) {
        if (bv == 0) return a;
        if (bv >= w) return mkConst(0, w);
        return mkConcat(mkExtract(a, 0, w - (unsigned)bv), mkConst(0, (unsigned)bv));
      }
      if (isC(a) && a->val == 0) return a;
      if (b->kind == K_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
      break;
    case K_LSHR:
      if (cb) {
        if (bv == 0) return a;
        if (bv >= w) return mkConst(0, w);
        return mkZExt(mkExtract(a, (unsigned)bv, w - (unsigned)bv), w);
      }
      if (isC(a) && a->val == 0) return a;
      if (b->kind == K_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
      break;
    case K_ASHR:
      if (cb) {
        if (bv == 0) return a;
        if (bv >= w) bv = w - 1;
        return mkSExt(mkExtract(a, (unsigned)bv, w - (unsigned)bv), w);
      }
      if ((a->kz >> (w - 1)) & 1) return mkBin(K_LSHR, a, b);
      break;
    default: break;
  }
  return fin(intern(k, w, a, b));
}

// Linear normal form of a - b modulo 2^w: leaves with coefficients; nodes are expanded in decreasing id order so that shared
// subterms are expanded once. Returns false if the budget is exceeded.
static bool linearize(Expr* e, uint64_t c0, std::map<Expr*, uint64_t>& leaves, uint64_t& k, int& budget, std::map<std::pair<uint32_t, Expr*>, uint64_t, std::greater<std::pair<uint32_t, Expr*>>>& q) {
  unsigned w = e->w; uint64_t m = maskw(w); q[{e->id, e}] += c0;
  while (!q.empty()) {
    auto it = q.begin(); Expr* x = it->first.second; uint64_t c = it->second & m; q.erase(it); if (!c) continue; if (--budget < 0) return false;
    auto push = [&](Expr* y, uint64_t cc) { q[{y->id, y}] += cc; };
    switch (x->kind) {
      case K_CONST: k += c * x->val; break;
      case K_ADD: push(x->a, c); push(x->b, c); break;
      case K_SUB: push(x->a, c); push(x->b, 0 - c); break;
      case K_MUL: if (isC(x->b)) push(x->a, c * x->b->val); else leaves[x] += c; break;
      case K_SHL: if (isC(x->b) && x->b->val < w) push(x->a, c << x->b->val); else leaves[x] += c; break;
      case K_OR: if (((~x->a->kz & m) & (~x->b->kz & m)) == 0) { push(x->a, c); push(x->b, c); } else leaves[x] += c; break;
      case K_XOR: if (isC(x->b) && x->b->val == m) { push(x->a, 0 - c); k -= c; } else leaves[x] += c; break;
      case K_CONCAT: if (isC(x->b)) { k += c * x->b->val; push(mkZExt(x->a, w), c << x->b->w); } else { push(mkZExt(x->b, w), c); push(mkZExt(x->a, w), c << x->b->w); } break;
      case K_ZEXT: { Expr* y = x->a; uint64_t my = maskw(y->w);
        if (y->kind == K_ADD && y->a->hi <= my - y->b->hi) { push(mkZExt(y->a, w), c); push(mkZExt(y->b, w), c); }
        else if (y->kind == K_MUL && isC(y->b) && y->b->val && y->a->hi <= my / y->b->val) push(mkZExt(y->a, w), c * y->b->val);
        else if (y->kind == K_SHL && isC(y->b) && y->b->val < y->w && y->a->hi <= (my >> y->b->val)) push(mkZExt(y->a, w), c << y->b->val);
        else if (y->kind == K_CONCAT) { push(mkZExt(y->b, w), c); push(mkZExt(y->a, w), c << y->b->w); }
        else leaves[x] += c; break; }
      default: leaves[x] += c;
    }
  }
  return true;
}
Expr* mkCmp(K k, Expr* a, Expr* b) {
  unsigned w = a->w; uint64_t m = maskw(w);
  if (isC(a) && isC(b)) return mkConst(evalOp(k, 1, w, a->val, b->val, 0, 0), 1);
  if (a == b) return mkConst(k == K_EQ || k == K_ULE || k == K_SLE, 1);
  if (k == K_EQ) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if ((a->kz & b->ko) || (a->ko & b->kz)) return mkConst(0, 1);
    if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
    if (w == 1) {
      if (isC(b)) return b->val ? a : mkNot(a);
      return mkNot(mkBin(K_XOR, a, b));
    }
    if (isC(b)) {
      uint64_t bv = b->val;
      switch (a->kind) {
        case K_ADD: if (isC(a->b)) return mkCmp(K_EQ, a->a, mkConst(bv - a->b->val, w)); break;
        case K_SUB: if (isC(a->a)) return mkCmp(K_EQ, a->b, mkConst(a->a->val - bv, w)); if (bv == 0) return mkCmp(K_EQ, a->a, a->b); break;
        case K_XOR: if (isC(a->b)) return mkCmp(K_EQ, a->a, mkConst(bv ^ a->b->val, w)); if (bv == 0) return mkCmp(K_EQ, a->a, a->b); break;
        case K_ZEXT: return mkCmp(K_EQ, a->a, mkConst(bv, a->a->w));
        case K_SEXT: if ((uint64_t)sextw(bv, a->a->w) % 1 == 0 && ((uint64_t)sextw(bv & maskw(a->a->w), a->a->w) & m) == bv) return mkCmp(K_EQ, a->a, mkConst(bv, a->a->w)); return mkConst(0, 1);
        case K_CONCAT: return mkBin(K_AND, mkCmp(K_EQ, a->a, mkConst(bv >> a->b->w, a->a->w)), mkCmp(K_EQ, a->b, mkConst(bv, a->b->w)));
        case K_ITE:
          if (isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->val == bv, 1), mkConst(a->c->val == bv, 1));
          if (isC(a->b) && a->b->val != bv) return mkBin(K_AND, mkNot(a->a), mkCmp(K_EQ, a->c, b));
          if (isC(a->c) && a->c->val != bv) return mkBin(K_AND, a->a, mkCmp(K_EQ, a->b, b));
          if (isC(a->b)) return mkBin(K_OR, a->a, mkCmp(K_EQ, a->c, b));
          if (isC(a->c)) return mkBin(K_OR, mkNot(a->a), mkCmp(K_EQ, a->b, b));
          break;
        default: break;
      }
    } else {
      if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->w == b->a->w) return mkCmp(K_EQ, a->a, b->a);
      if (a->kind == K_SEXT && b->kind == K_SEXT && a->a->w == b->a->w) return mkCmp(K_EQ, a->a, b->a);
      if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->b->w == b->b->w) return mkBin(K_AND, mkCmp(K_EQ, a->a, b->a), mkCmp(K_EQ, a->b, b->b));
      if (a->kind == K_ADD && b->kind == K_ADD) { if (a->b == b->b) return mkCmp(K_EQ, a->a, b->a); if (a->a == b->a) return mkCmp(K_EQ, a->b, b->b); }
      if (a->kind == K_UREM && b->kind == K_UREM && a->b == b->b && isC(a->b)) { Expr* q = mkCmp(K_EQ, a->a, b->a); if (isTrue(q)) return q; }
      auto lin = [](Expr* e) { return e->kind == K_ADD || e->kind == K_SUB || (e->kind == K_MUL && isC(e->b)) || e->kind == K_SHL || (e->kind == K_ZEXT && e->a->kind == K_ADD); };
      if (lin(a) || lin(b)) {
        std::map<Expr*, uint64_t> L; uint64_t k0 = 0; int bud = 4000; std::map<std::pair<uint32_t, Expr*>, uint64_t, std::greater<std::pair<uint32_t, Expr*>>> q; q[{b->id, b}] -= 1;
        if (linearize(a, 1, L, k0, bud, q)) {
          k0 &= m; for (auto it = L.begin(); it != L.end();) if ((it->second & m) == 0) it = L.erase(it); else ++it;
          if (L.empty()) return mkConst(k0 == 0, 1);
          if (L.size() == 1) { Expr* x = L.begin()->first; uint64_t c = L.begin()->second & m; if (c == 1) return mkCmp(K_EQ, x, mkConst(0 - k0, w)); if (c == m) return mkCmp(K_EQ, x, mkConst(k0, w)); }
          if (L.size() == 2) { auto i = L.begin(), j = std::next(i); Expr *x = i->first, *y = j->first; uint64_t c = i->second & m, d = j->second & m; if (c == m && d == 1) { std::swap(x, y); std::swap(c, d); } if (c == 1 && d == m && k0 == 0 && (x != a || y != b) && (x != b || y != a)) return mkCmp(K_EQ, x, y); }
        }
      }
      if (a->kind == K_ADD && (a->a == b || a->b == b)) return mkCmp(K_EQ, a->a == b ? a->b : a->a, mkConst(0, w));
      if (b->kind == K_ADD && (b->a == a || b->b == a)) return mkCmp(K_EQ, b->a == a ? b->b : b->a, mkConst(0, w));
    }
    return fin(intern(K_EQ, 1, a, b));
  }
  if (k == K_ULT) {
    if (a->hi < b->lo) return mkConst(1, 1);
    if (a->lo >= b->hi) return mkConst(0, 1);
    if (isC(b) && b->val == 1) return mkCmp(K_EQ, a, mkConst(0, w));
    if (isC(a) && a->val == 0) return mkNot(mkCmp(K_EQ, b, a));
    if (isC(b) && b->val == m) return mkNot(mkCmp(K_EQ, a, b));
  } else if (k == K_ULE) {
    if (a->hi <= b->lo) return mkConst(1, 1);
    if (a->lo > b->hi) return mkConst(0, 1);
    if (isC(b)) return mkCmp(K_ULT, a, mkConst(b->val + 1, w));   // b != max because a->hi<=b->lo handled
    if (isC(a)) return mkCmp(K_ULT, mkConst(a->val - 1, w), b);
  } else {
    uint64_t sb = 1ull << (w - 1);
    bool an = a->ko & sb, ap = a->kz & sb, bn = b->ko & sb, bp = b->kz & sb;
    if (an && bp) return mkConst(1, 1);
    if (ap && bn) return mkConst(0, 1);
    if ((an && bn) || (ap && bp)) return mkCmp(k == K_SLT ? K_ULT : K_ULE, a, b);
    if (k == K_SLE && isC(b)) { if (b->val == (m >> 1)) return mkConst(1, 1); return mkCmp(K_SLT, a, mkConst(b->val + 1, w)); }
    if (k == K_SLE && isC(a)) { if (a->val == sb) return mkConst(1, 1); return mkCmp(K_SLT, mkConst(a->val - 1, w), b); }
    if (k == K_SLT && isC(b) && b->val == 0) return mkExtract(a, w - 1, 1);
    if (k == K_SLT && isC(a) && a->val == m) return mkNot(mkExtract(b, w - 1, 1));
    if (k == K_SLT && isC(b) && b->val == sb) return mkConst(0, 1);
    if (k == K_SLT && isC(a) && a->val == (m >> 1)) return mkConst(0, 1);
    if (a->kind == K_SEXT && b->kind == K_SEXT && a->a->w == b->a->w) return mkCmp(k, a->a, b->a);
    if (a->kind == K_SEXT && isC(b)) {
      int64_t v = sextw(b->val, w); int64_t mx = (int64_t)(maskw(a->a->w) >> 1), mn = -mx - 1;
      if (v >= mn && v <= mx) return mkCmp(k, a->a, mkConst((uint64_t)v, a->a->w));
      return mkConst(v > mx, 1);
    }
    if (b->kind == K_SEXT && isC(a)) {
      int64_t v = sextw(a->val, w); int64_t mx = (int64_t)(maskw(b->a->w) >> 1), mn = -mx - 1;
      if (v >= mn && v <= mx) return mkCmp(k, mkConst((uint64_t)v, b->a->w), b->a);
      return mkConst(v < mn, 1);
    }
  }
  if (k == K_ULT || k == K_ULE) {
    if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->w == b->a->w) return mkCmp(k, a->a, b->a);
    if (a->kind == K_ZEXT && isC(b) && b->val <= maskw(a->a->w)) return mkCmp(k, a->a, mkConst(b->val, a->a->w));
    if (b->kind == K_ZEXT && isC(a) && a->val <= maskw(b->a->w)) return mkCmp(k, mkConst(a->val, b->a->w), b->a);
  }
  if (isC(b) && a->kind == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->c, b));
  if (isC(a) && b->kind == K_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->c));
  return fin(intern(k, 1, a, b));
}

// ---- floating point ---------------------------------------------------------------------------------------------
static inline double b2d(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t d2b(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline float b2f(uint64_t v) { uint32_t u = (uint32_t)v; float d; memcpy(&d, &u, 4); return d; }
static inline uint64_t f2b(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

static uint64_t toInt(double d, unsigned w, bool sgn) { // x86 cvtt semantics
  if (w > 32 || (!sgn && w == 32)) {
    if (!sgn && w == 64) {
      if (d >= 9223372036854775808.0) { double e = d - 9223372036854775808.0; uint64_t r = (e >= 9223372036854775808.0 || std::isnan(e)) ? 0x8000000000000000ull : (uint64_t)(int64_t)e; return r ^ 0x8000000000000000ull; }
    }
    if (std::isnan(d) || d >= 9223372036854775808.0 || d < -9223372036854775808.0) return 0x8000000000000000ull & maskw(w);
    return (uint64_t)(int64_t)d & maskw(w);
  }
  double t = std::trunc(d);
  if (std::isnan(d) || t > 2147483647.0 || t < -2147483648.0) return 0x80000000ull & maskw(w);
  return (uint64_t)(int64_t)(int32_t)t & maskw(w);
}

uint64_t evalOp(K k, unsigned w, unsigned wa, uint64_t a, uint64_t b, uint64_t c, uint64_t val, unsigned wb) {
  uint64_t m = maskw(w);
  switch (k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? (a / b) : m;
    case K_UREM: return b ? (a % b) : a;
    case K_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case K_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return (a ^ b) & m;
    case K_SHL: return b >= w ? 0 : (a << b) & m;
    case K_LSHR: return b >= w ? 0 : (a >> b);
    case K_ASHR: { unsigned s = b >= w ? w - 1 : (unsigned)b; return (uint64_t)(sextw(a, w) >> s) & m; }
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sextw(a, wa) < sextw(b, wa);
    case K_SLE: return sextw(a, wa) <= sextw(b, wa);
    case K_ITE: return a ? b : c;
    case K_CONCAT: return ((a << wb) | b) & m;
    case K_EXTRACT: return (a >> val) & m;
    case K_ZEXT: return a;
    case K_SEXT: return (uint64_t)sextw(a, wa) & m;
    case K_FADD: return w == 64 ? d2b(b2d(a) + b2d(b)) : f2b(b2f(a) + b2f(b));
    case K_FSUB: return w == 64 ? d2b(b2d(a) - b2d(b)) : f2b(b2f(a) - b2f(b));
    case K_FMUL: return w == 64 ? d2b(b2d(a) * b2d(b)) : f2b(b2f(a) * b2f(b));
    case K_FDIV: return w == 64 ? d2b(b2d(a) / b2d(b)) : f2b(b2f(a) / b2f(b));
    case K_FREM: return w == 64 ? d2b(std::fmod(b2d(a), b2d(b))) : f2b(std::fmod(b2f(a), b2f(b)));
    case K_FSQRT: return w == 64 ? d2b(std::sqrt(b2d(a))) : f2b(std::sqrt(b2f(a)));
    case K_FMA: return w == 64 ? d2b(std::fma(b2d(a), b2d(b), b2d(c))) : f2b(std::fma(b2f(a), b2f(b), b2f(c)));
    case K_FLT: return wa == 64 ? b2d(a) < b2d(b) : b2f(a) < b2f(b);
    case K_FLE: return wa == 64 ? b2d(a) <= b2d(b) : b2f(a) <= b2f(b);
    case K_FEQ: return wa == 64 ? b2d(a) == b2d(b) : b2f(a) == b2f(b);
    case K_F2SI: return toInt(wa == 64 ? b2d(a) : (double)b2f(a), w, true);
    case K_F2UI: return toInt(wa == 64 ? b2d(a) : (double)b2f(a), w, false);
    case K_SI2F: { int64_t s = sextw(a, wa); return w == 64 ? d2b((double)s) : f2b((float)s); }
    case K_UI2F: return w == 64 ? d2b((double)a) : f2b((float)a);
    case K_FEXT: return d2b((double)b2f(a));
    case K_FTRUNC: return f2b((float)b2d(a));
    case K_FRINT: {
      auto r = [&](double d) { switch (val) { case 0: return std::nearbyint(d); case 1: return std::floor(d); case 2: return std::ceil(d); case 3: return std::trunc(d); default: return std::round(d); } };
      return w == 64 ? d2b(r(b2d(a))) : f2b((float)r((double)b2f(a)));
    }
    default: fprintf(stderr, "evalOp: bad kind %d\n", k); abort();
  }
}
Expr* mkF(K k, unsigned w, Expr* a, Expr* b, Expr* c, uint64_t val) {
  if (isC(a) && (!b || isC(b)) && (!c || isC(c))) return mkConst(evalOp(k, w, a->w, a->val, b ? b->val : 0, c ? c->val : 0, val), w);
  if ((k == K_FADD || k == K_FMUL || k == K_FEQ) && a->id > b->id) std::swap(a, b);
  if (k == K_SI2F && ((a->kz >> (a->w - 1)) & 1)) k = K_UI2F;
  if (k == K_UI2F && a->kind == K_ZEXT) a = a->a;
  if (k == K_UI2F && !isC(a)) { // normalise the width by leading zeros so that equal values meet
    unsigned need = a->hi ? 64 - __builtin_clzll(a->hi) : 1; if (need < a->w) a = mkExtract(a, 0, need);
    if (isC(a)) return mkConst(evalOp(k, w, a->w, a->val, 0, 0, val), w);
  }
  if ((k == K_F2SI || k == K_F2UI || k == K_FRINT) && (a->kind == K_UI2F || a->kind == K_SI2F)) {
    // exact integer -> float -> integer round trips
    unsigned mant = a->w == 64 ? 53 : 24;
    if (a->kind == K_UI2F && a->a->w <= mant) { if (k == K_FRINT) return a; if (a->a->w < w || (k == K_F2UI && a->a->w <= w)) return mkZExt(a->a, w); }
    if (a->kind == K_SI2F && a->a->w <= mant) { if (k == K_FRINT) return a; if (k == K_F2SI && a->a->w <= w) return mkSExt(a->a, w); }
  }
  if (k == K_FEXT && a->kind == K_UI2F && a->a->w <= 24) return mkF(K_UI2F, w, a->a);
  if (k == K_FEXT && a->kind == K_SI2F && a->a->w <= 24) return mkF(K_SI2F, w, a->a);
  if (k == K_FTRUNC && a->kind == K_FEXT) return a->a; // NaN payload aside
  if (k == K_FTRUNC && a->kind == K_UI2F && a->a->w <= 24) return mkF(K_UI2F, w, a->a);
  return fin(intern(k, w, a, b, c, val));
}

// ---- evaluation -------------------------------------------------------------------------------------------------
void evalBegin() { if (++gEpoch == 0) gEpoch = 1; }
uint64_t evalExpr(Expr* e, const Model& m) {
  if (e->kind == K_CONST) return e->val;
  if (e->evalEpoch == gEpoch) return e->evalV;
  uint64_t r;
  if (e->kind == K_SYM) r = m.get((uint32_t)e->val) & maskw(e->w);
  else if (e->kind == K_ITE) r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m);
  else {
    uint64_t a = evalExpr(e->a, m), b = e->b ? evalExpr(e->b, m) : 0, c = e->c ? evalExpr(e->c, m) : 0;
    r = evalOp((K)e->kind, e->w, e->a->w, a, b, c, e->val, e->b ? e->b->w : 0);
  }
  e->evalEpoch = gEpoch; e->evalV = r;
  return r;
}

static const char* kn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fsqrt","fma","flt","fle","feq","f2si","f2ui","si2f","ui2f","fext","ftrunc","frint"};
std::string exprStr(Expr* e, int d) {
  if (!e) return "null";
  if (isC(e)) { char b[40]; snprintf(b, 40, "0x%llx:%d", (unsigned long long)e->val, e->w); return b; }
  if (e->kind == K_SYM) return gSyms[e->val].name;
  if (d == 0) return "..";
  std::string s = std::string("(") + kn[e->kind];
  if (e->kind == K_EXTRACT) s += "@" + std::to_string(e->val);
  s += ":" + std::to_string(e->w);
  for (Expr* x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}
