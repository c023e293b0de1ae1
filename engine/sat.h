// Small CDCL SAT solver (two watched literals with blockers, 1-UIP learning with minimisation, VSIDS, phase saving, Luby restarts).
// Decides the small bit-blasted queries in process; larger or harder ones go to z3 / kissat / cvc5.
#pragma once
#include <vector>
#include <cstdint>
#include <algorithm>
struct Sat {
  struct W { int cref, blk; };
  int nv; std::vector<int> ar; std::vector<std::vector<W>> ws; std::vector<int8_t> val; std::vector<int> lvl, rsn, trail, lim, heap, hpos; std::vector<double> act; std::vector<int8_t> ph, seen; double inc = 1; size_t qh = 0; bool bad = false; uint64_t conflicts = 0, props = 0;
  static int L(int x) { return x > 0 ? 2 * x : -2 * x + 1; }
  int8_t V(int l) const { int8_t v = val[l >> 1]; return (l & 1) ? -v : v; }
  explicit Sat(int n) : nv(n), ws(2 * n + 2), val(n + 1, 0), lvl(n + 1, 0), rsn(n + 1, -1), hpos(n + 1, -1), act(n + 1, 0), ph(n + 1, -1), seen(n + 1, 0) { ar.reserve(1 << 14); }
  // heap
  void up(int i) { int x = heap[i]; while (i && act[heap[(i - 1) / 2]] < act[x]) { heap[i] = heap[(i - 1) / 2]; hpos[heap[i]] = i; i = (i - 1) / 2; } heap[i] = x; hpos[x] = i; }
  void down(int i) { int x = heap[i], n = (int)heap.size(); for (;;) { int c = 2 * i + 1; if (c >= n) break; if (c + 1 < n && act[heap[c + 1]] > act[heap[c]]) c++; if (act[heap[c]] <= act[x]) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = x; hpos[x] = i; }
  void ins(int v) { if (hpos[v] < 0) { heap.push_back(v); hpos[v] = (int)heap.size() - 1; up(hpos[v]); } }
  int pop() { int v = heap[0]; hpos[v] = -1; int l = heap.back(); heap.pop_back(); if (!heap.empty()) { heap[0] = l; hpos[l] = 0; down(0); } return v; }
  void bump(int v) { if ((act[v] += inc) > 1e100) { for (auto& a : act) a *= 1e-100; inc *= 1e-100; } if (hpos[v] >= 0) up(hpos[v]); }
  void enq(int l, int r) { int v = l >> 1; val[v] = (l & 1) ? -1 : 1; lvl[v] = (int)lim.size(); rsn[v] = r; trail.push_back(l); }
  int store(const std::vector<int>& c) { int r = (int)ar.size(); ar.push_back((int)c.size()); for (int l : c) ar.push_back(l); return r; }
  void attach(int r) { ws[ar[r + 1] ^ 1].push_back({r, ar[r + 2]}); ws[ar[r + 2] ^ 1].push_back({r, ar[r + 1]}); }
  void addClause(const int* b, const int* e) { // DIMACS literals, level 0 only
    if (bad) return; std::vector<int> c; for (; b != e; b++) { int l = L(*b); if (V(l) > 0) return; if (V(l) < 0) continue; bool dup = false; for (int x : c) { if (x == l) dup = true; if (x == (l ^ 1)) return; } if (!dup) c.push_back(l); }
    if (c.empty()) { bad = true; return; } if (c.size() == 1) { enq(c[0], -1); if (prop() >= 0) bad = true; return; } attach(store(c));
  }
  int prop() {
    while (qh < trail.size()) {
      int p = trail[qh++]; auto& w = ws[p]; size_t i = 0, j = 0, n = w.size(); props++;
      while (i < n) {
        W x = w[i]; if (V(x.blk) > 0) { w[j++] = w[i++]; continue; }
        int* c = &ar[x.cref]; int sz = c[0]; c++; int np = p ^ 1; if (c[0] == np) { c[0] = c[1]; c[1] = np; } i++;
        W nw = {x.cref, c[0]}; if (V(c[0]) > 0) { w[j++] = nw; continue; }
        bool f = false; for (int k = 2; k < sz; k++) if (V(c[k]) >= 0) { c[1] = c[k]; c[k] = np; ws[c[1] ^ 1].push_back(nw); f = true; break; }
        if (f) continue;
        w[j++] = nw; if (V(c[0]) < 0) { while (i < n) w[j++] = w[i++]; w.resize(j); qh = trail.size(); return x.cref; }
        enq(c[0], x.cref);
      }
      w.resize(j);
    }
    return -1;
  }
  void back(int l) { if ((int)lim.size() <= l) return; for (size_t i = trail.size(); i > (size_t)lim[l];) { int v = trail[--i] >> 1; ph[v] = val[v]; val[v] = 0; rsn[v] = -1; ins(v); } trail.resize(lim[l]); lim.resize(l); qh = trail.size(); }
  static double luby(int i) { int k = 1; while ((1 << k) - 1 < i + 1) k++; while ((1 << k) - 1 != i + 1) { i -= (1 << (k - 1)) - 1; k = 1; while ((1 << k) - 1 < i + 1) k++; } return (double)(1 << (k - 1)); }
  int solve(uint64_t maxConf) { // 1 sat, 0 unsat, -1 gave up
    if (bad) return 0; if (prop() >= 0) return 0; for (int v = 1; v <= nv; v++) if (!val[v]) ins(v);
    int rs = 0; uint64_t left = (uint64_t)(64 * luby(0)); std::vector<int> lr;
    for (;;) {
      int cf = prop();
      if (cf >= 0) {
        if (lim.empty()) return 0; if (++conflicts > maxConf) return -1;
        lr.assign(1, 0); int cnt = 0, p = -1; size_t idx = trail.size(); std::vector<int> clr; int r = cf;
        do { int* c = &ar[r]; int sz = c[0]; c++; for (int k = 0; k < sz; k++) { int q = c[k]; if (q == p) continue; int v = q >> 1; if (seen[v] || !lvl[v]) continue; seen[v] = 1; clr.push_back(v); bump(v); if (lvl[v] == (int)lim.size()) cnt++; else lr.push_back(q); }
          while (!seen[trail[--idx] >> 1]) {} p = trail[idx]; r = rsn[p >> 1]; seen[p >> 1] = 0; cnt--; } while (cnt > 0);
        lr[0] = p ^ 1;
        size_t j = 1; for (size_t i = 1; i < lr.size(); i++) { int rr = rsn[lr[i] >> 1]; bool red = rr >= 0; if (red) { int* c = &ar[rr]; int sz = c[0]; for (int k = 1; k <= sz; k++) { int v = c[k] >> 1; if (v != (lr[i] >> 1) && lvl[v] && !seen[v]) { red = false; break; } } } if (!red) lr[j++] = lr[i]; } 
        lr.resize(j); for (int v : clr) seen[v] = 0;
        int bl = 0; if (lr.size() > 1) { size_t m = 1; for (size_t i = 2; i < lr.size(); i++) if (lvl[lr[i] >> 1] > lvl[lr[m] >> 1]) m = i; std::swap(lr[1], lr[m]); bl = lvl[lr[1] >> 1]; }
        back(bl); if (lr.size() == 1) enq(lr[0], -1); else { int c = store(lr); attach(c); enq(lr[0], c); }
        inc /= 0.95; if (left) left--;
      } else if (!left) { back(0); left = (uint64_t)(64 * luby(++rs)); }
      else { int v = 0; while (!heap.empty()) { int x = pop(); if (!val[x]) { v = x; break; } } if (!v) return 1; lim.push_back((int)trail.size()); enq(ph[v] > 0 ? 2 * v : 2 * v + 1, -1); }
    }
  }
};
