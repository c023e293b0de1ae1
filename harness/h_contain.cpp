// C26: internal containers and algorithms (ordered tree, list, hash map, bit array, sorting and searching).
#include <blend2d/core/api-build_p.h>
#include <blend2d/support/arenaallocator_p.h>
#include <blend2d/support/arenatree_p.h>
#include <blend2d/support/arenalist_p.h>
#include <blend2d/support/arenahashmap_p.h>
#include <blend2d/support/arenabitarray_p.h>
#include <blend2d/support/algorithm_p.h>
#include <stdlib.h>
#include "bsym.h"
typedef uint8_t u8; typedef uint32_t u32;
// --- ordered tree: keys symbolic and distinct; the structure is compared with the set of inserted nodes
struct TN : public bl::ArenaTreeNode<TN> { u8 key; static bool dec(bool b) { return bsym_enumerate(b) != 0; } bool operator<(const TN& o) const { return dec(key < o.key); } bool operator>(const TN& o) const { return dec(key > o.key); } bool operator<(u32 k) const { return dec(key < k); } bool operator>(u32 k) const { return dec(key > k); } };
static int height(TN* n, int lo, int hi, int& cnt, bool& bad) { // black height; order and colour rules
  if (!n) return 1; int k = n->key; bad |= k <= lo || k >= hi; cnt++; TN *l = n->left(), *r = n->right(); if (n->is_red()) bad |= (l && l->is_red()) || (r && r->is_red());
  int a = height(l, lo, k, cnt, bad), b = height(r, k, hi, cnt, bad); bad |= a != b; return a + !n->is_red();
}
static void tcheck(bl::ArenaTree<TN>& t, TN* n, u32 has, int cnt, int N) {
  int c = 0; bool bad = false; height(t.root(), -1, 256, c, bad); ASSERT(!bad, "the tree is ordered and balanced"); ASSERT(c == cnt, "the tree holds exactly the inserted nodes"); ASSERT(t.is_empty() == (cnt == 0), "is_empty"); ASSERT(!t.root() || !t.root()->is_red(), "black root");
  for (int i = 0; i < N; i++) { TN* f = t.get(u32(n[i].key)); ASSERT(f == ((has >> i) & 1 ? &n[i] : nullptr), "lookup finds exactly the inserted keys"); }
}
ENTRY h_contain_tree() { // insertion order: every order of N keys (the solver decides which comparisons are possible)
  enum { N = THOROUGH ? 6 : 5 }; TN n[N]; bl::ArenaTree<TN> t; for (int i = 0; i < N; i++) { n[i].key = bsym_u8("key"); for (int j = 0; j < i; j++) ASSUME(n[i].key != n[j].key); }
  u32 has = 0; int cnt = 0; for (int i = 0; i < N; i++) { t.insert(&n[i]); has |= 1u << i; cnt++; } tcheck(t, n, has, cnt, N);
  u32 k = pick("remove", N); t.remove(&n[k]); has &= ~(1u << k); cnt--; tcheck(t, n, has, cnt, N); REACH("end");
}
ENTRY h_contain_treehist() { // longer histories: ascending/descending/mixed prefix, then removals of any nodes and re-insertion
  enum { N = THOROUGH ? 16 : 12 }; TN n[N]; bl::ArenaTree<TN> t; u32 shape = pick("shape", 4); for (int i = 0; i < N; i++) n[i].key = (u8)(shape == 0 ? i : shape == 1 ? N - i : shape == 2 ? (i * 7) % 17 : (i & 1) ? 100 - i : 100 + i);
  u32 has = 0; int cnt = 0; for (int i = 0; i < N; i++) { t.insert(&n[i]); has |= 1u << i; cnt++; } tcheck(t, n, has, cnt, N);
  for (int r = 0; r < (THOROUGH ? 4 : 3); r++) { u32 k = pick("node", N); if ((has >> k) & 1) { t.remove(&n[k]); n[k]._tree_nodes[0] = n[k]._tree_nodes[1] = 0; has &= ~(1u << k); cnt--; } else { t.insert(&n[k]); has |= 1u << k; cnt++; } tcheck(t, n, has, cnt, N); }
  REACH("end");
}
ENTRY h_contain_treedrain() { // remove everything in any of several orders
  enum { N = 10 }; TN n[N]; bl::ArenaTree<TN> t; u32 shape = pick("shape", 3), a = 1 + 2 * pick("step", 5), b = pick("start", N); for (int i = 0; i < N; i++) n[i].key = (u8)(shape == 0 ? i : shape == 1 ? N - i : (i * 7) % 11);
  u32 has = 0; int cnt = 0; for (int i = 0; i < N; i++) { t.insert(&n[i]); has |= 1u << i; cnt++; }
  for (int i = 0; cnt; i++) { u32 k = (b + (u32)i * a) % N; if (a == 5 && i >= 2) k = (u32)__builtin_ctz(has); if (!((has >> k) & 1)) k = 31 - (u32)__builtin_clz(has); t.remove(&n[k]); has &= ~(1u << k); cnt--; tcheck(t, n, has, cnt, N); } REACH("end");
}
// --- list
struct LN : public bl::ArenaListNode<LN> { int id; };
ENTRY h_contain_list() {
  enum { N = 5 }; LN n[N]; bl::ArenaList<LN> l; int seq[N], c = 0; u32 in = 0; for (int i = 0; i < N; i++) n[i].id = i;
  for (int s = 0; s < (THOROUGH ? 6 : 5); s++) {
    u32 op = pick("op", 7); int fr = 0; while (fr < N && ((in >> fr) & 1)) fr++;
    if (op < 2) { if (fr == N) continue; if (op) { l.append(&n[fr]); seq[c] = fr; } else { l.prepend(&n[fr]); for (int i = c; i > 0; i--) seq[i] = seq[i - 1]; seq[0] = fr; } c++; in |= 1u << fr; }
    else if (op < 4) { if (fr == N || !c) continue; int k = (int)pick("ref", (u32)c); int at = op == 2 ? k + 1 : k; if (op == 2) l.insert_after(&n[seq[k]], &n[fr]); else l.insert_before(&n[seq[k]], &n[fr]); for (int i = c; i > at; i--) seq[i] = seq[i - 1]; seq[at] = fr; c++; in |= 1u << fr; }
    else { if (!c) continue; int k = op == 4 ? 0 : op == 5 ? c - 1 : (int)pick("node", (u32)c); LN* x = op == 4 ? l.pop_first() : op == 5 ? l.pop() : l.unlink(&n[seq[k]]); ASSERT(x == &n[seq[k]], "the removed node"); in &= ~(1u << seq[k]); for (int i = k; i + 1 < c; i++) seq[i] = seq[i + 1]; c--; }
    ASSERT(l.is_empty() == (c == 0), "is_empty"); LN* f = l.first(); for (int i = 0; i < c; i++, f = f->next()) ASSERT(f == &n[seq[i]] && f->has_prev() == (i > 0), "forward order"); ASSERT(!f, "forward end"); f = l.last(); for (int i = c; i-- > 0; f = f->prev()) ASSERT(f == &n[seq[i]] && f->has_next() == (i + 1 < c), "backward order"); ASSERT(!f, "backward end");
  }
  REACH("end");
}
// --- hash map: hash codes symbolic, with growth over the embedded buckets and the first primes, failing allocations included
struct HN : public bl::ArenaHashMapNode { u32 id; HN() : ArenaHashMapNode(0) {} };
struct HK { u32 h, id; u32 hash_code() const { return h; } bool matches(const HN* n) const { return n->id == id; } };
static void hash(int N, int nsym, int rem, int oom, u32 dom = 30) {
  bl::ArenaAllocator za(8192); { bl::ArenaHashMap<HN> m(&za); static HN n[64]; if (oom) bsym_fail_malloc(oom);
  for (int i = 0; i < N; i++) { n[i].id = (u32)i; n[i]._hash_code = i >= N - nsym ? (u32)bsym_enumerate(range32("hash", 0, dom)) * 2654435761u : (u32)i * 2654435761u; m.insert(&n[i]); }
  u32 gone = ~0u; if (rem) { gone = (u32)(N - nsym) + pick("remove", (u32)nsym); ASSERT(m.remove(&n[gone]), "removing an inserted node succeeds"); ASSERT(!m.remove(&n[gone]), "removing it again fails"); }
  ASSERT(m.size() == (size_t)(N - (rem ? 1 : 0)), "size");
  for (int i = N - nsym - 2 < 0 ? 0 : N - nsym - 2; i < N; i++) { HN* f = m.get(HK{n[i]._hash_code, (u32)i}); ASSERT(f == ((u32)i == gone ? nullptr : &n[i]), "lookup finds exactly the inserted nodes"); }
  u32 seen = 0; m.for_each([&](HN* x) { seen++; }); ASSERT(seen == m.size(), "iteration visits every node once"); m.reset(); ASSERT(m.is_empty(), "reset"); }
  REACH("end");
}
ENTRY h_contain_hash1() { hash(1, 1, 0, 0); }
ENTRY h_contain_hash2() { hash(2, 2, 1, 0); }
ENTRY h_contain_hash3() { hash(12, 1, 1, 0); }
ENTRY h_contain_hash4() { hash(THOROUGH ? 42 : 30, 1, 1, 0); }
ENTRY h_contain_hashoom() { hash(14, 1, 1, 1); }
// bucket index: below the number of buckets for every hash code and every table size reachable
ENTRY h_contain_mod() {
  bl::ArenaAllocator za(65536); bl::ArenaHashMap<HN> m(&za); static HN n[64]; u32 g = pick("grow", 7), target = g == 0 ? 0 : g == 1 ? 2 : g == 2 ? 12 : g == 3 ? 30 : g == 4 ? 40 : g == 5 ? 56 : 60; for (u32 i = 0; i < target; i++) { n[i]._hash_code = i * 40503u; m.insert(&n[i]); }
  static const u32 hi[] = {0xFFFF, 0, 0x8000, 0x1234}; u32 h = hi[pick("hi", THOROUGH ? 4 : 2)] << 16 | bsym_u16("h"); u32 r = m._calc_mod(h); ASSERT(r < m._bucket_count, "bucket index is within the table"); REACH("end");
}
// --- bit array
static void fillw(bl::ArenaBitArray<u32>& a, u32 n, u8* m) { for (u32 w = 0; w * 32 < n; w++) { u32 x = bsym_u32("word"); if (n - w * 32 < 32) x &= ~(~0u >> (n - w * 32)); a.data()[w] = x; for (u32 i = w * 32; i < n && i < w * 32 + 32; i++) m[i] = (u8)((x >> (31 - i % 32)) & 1); } }
static void bits(u32 n0, u32 n1) {
  bl::ArenaAllocator za(1024); bl::ArenaBitArray<u32> a, b, c; u8 m[160], q[160]; ASSUME(a.resize(&za, n0) == BL_SUCCESS); fillw(a, n0, m);
  u32 n = n0; u32 op = pick("op", 8);
  switch (op) {
    case 0: { bool v = pick("v", 2); ASSUME(a.resize(&za, n1, v) == BL_SUCCESS); for (u32 i = n; i < n1; i++) m[i] = v; n = n1; break; }
    case 1: { static const u32 e[] = {0, 1, 31, 32, 33, 63, 64, 65, 94}; u32 s = e[pick("s", 9)], t = e[pick("e", 9)]; ASSUME(s <= t && t <= n); bool f = pick("fill", 2); if (f) a.fill_bits(s, t - s); else a.clear_bits(s, t - s); for (u32 i = s; i < t; i++) m[i] = f; break; }
    case 2: a.fill_all(); for (u32 i = 0; i < n; i++) m[i] = 1; break;
    case 3: a.clear_all(); for (u32 i = 0; i < n; i++) m[i] = 0; break;
    case 7: { u32 k = pick("k", 3) * (n - 1) / 2; if (pick("set", 2)) { a.set_bit(k); m[k] = 1; } else { a.clear_bit(k); m[k] = 0; } break; }
    default: { ASSUME(b.resize(&za, n1) == BL_SUCCESS); fillw(b, n1, q); if (op == 4) a.and_(b); else if (op == 5) a.or_(b); else a.and_not(b);
      for (u32 i = 0; i < n; i++) { u8 o = i < n1 ? q[i] : (u8)0; m[i] = op == 4 ? m[i] & o : op == 5 ? m[i] | o : m[i] & (o ^ 1); } break; }
  }
  ASSERT(a.size() == n, "size"); u8 bad = 0; for (u32 i = 0; i < n; i++) bad |= (u8)a.bit_at(i) ^ m[i]; ASSERT(!bad, "bits differ from the model");
  ASSUME(c.resize(&za, n) == BL_SUCCESS); for (u32 w = 0; w * 32 < n; w++) { u32 x = 0; for (u32 i = w * 32; i < n && i < w * 32 + 32; i++) x |= (u32)m[i] << (31 - i % 32); c.data()[w] = x; } ASSERT(a == c, "equal bit arrays compare equal"); REACH("end");
}
ENTRY h_contain_bits1() { static const u32 s[] = {1, 31, 32, 33, 7}; bits(s[pick("n", 5)], s[pick("n1", 5)]); }
ENTRY h_contain_bits2() { static const u32 s[] = {64, 40, 65, 95}; bits(s[pick("n", THOROUGH ? 4 : 2)], s[pick("n1", 4)]); }
// --- algorithms
template <class F> static void sorted(int N, u32 dom, F f) { u8 a[16], o[16]; for (int i = 0; i < N; i++) a[i] = o[i] = (u8)range32("e", 0, dom); f(a, (size_t)N); for (int i = 1; i < N; i++) ASSERT(a[i - 1] <= a[i], "sorted"); u8 v = (u8)range32("probe", 0, dom); u32 x = 0, y = 0; for (int i = 0; i < N; i++) { x += a[i] == v; y += o[i] == v; } ASSERT(x == y, "a permutation of the input"); REACH("end"); }
ENTRY h_contain_isort() { sorted(THOROUGH ? 6 : 5, 255, [](u8* p, size_t n) { bl::insertion_sort(p, n); }); }
ENTRY h_contain_qsort8() { sorted(8, THOROUGH ? 3 : 2, [](u8* p, size_t n) { bl::quick_sort(p, n); }); }
ENTRY h_contain_qsort10() { sorted(THOROUGH ? 12 : 10, 1, [](u8* p, size_t n) { bl::quick_sort(p, n); }); }
ENTRY h_contain_search() {
  enum { N = 7 }; u8 a[N + 1]; u32 n = pick("n", N + 1); for (u32 i = 0; i < n; i++) { a[i] = bsym_u8("e"); if (i) ASSUME(a[i - 1] <= a[i]); } u8 v = bsym_u8("v"); u32 lt = 0, le = 0; for (u32 i = 0; i < n; i++) { lt += a[i] < v; le += a[i] <= v; }
  ASSERT(bl::lower_bound(a, n, v) == lt, "lower bound"); size_t k = bl::binary_search(a, n, v); ASSERT(lt == le ? k == SIZE_MAX : (k == le - 1), "binary search finds the last equal element"); ASSERT(bl::binary_search_closest_first(a, n, v) == lt, "first not less"); ASSERT(n == 0 || bl::binary_search_closest_last(a, n, v) == (le ? le - 1 : 0), "last not greater"); REACH("end");
}
