// C27: scratch memory. Arena allocator (regions, states) and the allocator of zeroed memory.
#include <blend2d/core/api-build_p.h>
#include <blend2d/support/arenaallocator_p.h>
#include <blend2d/support/zeroallocator_p.h>
#include <blend2d/blend2d.h>
#include <string.h>
#include <stdlib.h>
#include "bsym.h"
typedef uint8_t u8;
struct R { u8* p; size_t n; bool live; };
static bool disjoint(const R& a, const R& b) { uintptr_t x = (uintptr_t)a.p, y = (uintptr_t)b.p; return x + a.n <= y || y + b.n <= x; }
static void checkAll(R* r, int n, const char*) { for (int i = 0; i < n; i++) if (r[i].live) for (int j = 0; j < i; j++) if (r[j].live) ASSERT(disjoint(r[i], r[j]), "two live regions of an arena overlap"); }
static size_t anySize(bl::ArenaAllocator& a, int cls) {
  switch (cls) { case 0: return range32("size", 0, 200); case 1: return a.remaining_size(); case 2: { size_t q = a.remaining_size(), k = range32("slack", 1, 20); return q >= k ? q - k : 0; } case 3: return a.remaining_size() + 1; case 4: return range32("size", 1500, 1600); case 5: return 2019; default: return SIZE_MAX - 10; }
}
// write: regions are written to (bounds of the real memory); otherwise sizes are symbolic and only addresses are compared
static void arena(int steps, bool write, bool stat, int fail) {
  uint64_t live = bsym_mem_live();
  {
    alignas(16) u8 buf[600]; R r[8]; int n = 0; static const size_t al[] = {1, 8, 64, 16};
    bl::ArenaAllocator a(1024, size_t(1) << (pick("align", THOROUGH ? 3 : 2) * 3), stat ? (void*)buf : nullptr, stat ? sizeof(buf) : 0);
    bl::ArenaAllocator::StatePtr st = nullptr; int saved = -1; if (fail) bsym_fail_malloc(fail);
    for (int k = 0; k < steps; k++) {
      switch (pick("op", 6)) {
        case 0: case 1: {
          int cls = (int)pick("cls", 7); size_t sz = anySize(a, cls); if (write) sz = cls == 0 ? (size_t)pick("sz", 3) * 60 + 1 : cls == 2 ? (a.remaining_size() >= 9 ? a.remaining_size() - 9 : 0) : cls == 4 ? 1550 : sz; size_t g = al[pick("alignment", THOROUGH ? 4 : 3)];
          void* p = g == 1 ? a.alloc(sz) : a.alloc(sz, g);
          if (!p) { ASSERT(cls == 6 || fail, "an allocation fails only when memory is exhausted"); REACH("fail"); break; }
          ASSERT(cls != 6, "an impossible size is refused"); ASSERT((uintptr_t)p % g == 0, "requested alignment"); ASSERT((u8*)p + sz <= a.end() && (u8*)p + sz <= a.ptr(), "a region ends within its block");
          r[n] = R{(u8*)p, sz, true}; if (write && cls < 6) memset(p, 0x5A, sz); n++; break; }
        case 2: if (saved < 0) { st = a.save_state(); saved = n; } break;
        case 3: if (saved >= 0) { a.restore_state(st); for (int i = saved; i < n; i++) r[i].live = false; saved = -1; } break;
        case 4: if (pick("reset", 2)) a.reset(); else a.clear(); for (int i = 0; i < n; i++) r[i].live = false; saved = -1; break;
        case 5: { size_t want = 1 + (size_t)pick("want", 2) * 500; if (a.ensure(want) == BL_SUCCESS) ASSERT(a.remaining_size() >= want, "ensure() provides the requested room"); else ASSERT(fail, "ensure() fails only when memory is exhausted"); break; }
      }
      checkAll(r, n, "");
    }
  }
  ASSERT(bsym_mem_live() == live, "all blocks are released"); REACH("end");
}
ENTRY h_alloc_arena() { arena(THOROUGH ? 4 : 3, false, pick("static", 2), 0); }
ENTRY h_alloc_arenaw() { arena(THOROUGH ? 4 : 3, true, pick("static", 2), 0); }
ENTRY h_alloc_arenaoom() { arena(THOROUGH ? 3 : 2, true, pick("static", 2), 2); }
// zeroed memory
static void zero(int steps, int fail) {
  BLRuntime::cleanup(BL_RUNTIME_CLEANUP_EVERYTHING); static const size_t Z[] = {1, 300 * 1024, 1024 * 1024, 3000, 2500 * 1024, 700 * 1024}; enum { NZ = 6 };
  uint64_t live = bsym_mem_live(); R r[8]; int n = 0; bool oom = false; if (fail) bsym_fail_malloc(fail);
  auto fresh = [&](void* p, size_t want, size_t got) {
    if (!p) { ASSERT(got == 0, "a failed allocation reports no size"); ASSERT(fail, "fails only when memory is exhausted"); oom = true; return false; }
    ASSERT(got >= want, "at least the requested size"); ASSERT((uintptr_t)p % 64 == 0, "aligned to 64 bytes"); u8* q = (u8*)p; u8 acc = q[0] | q[got - 1] | q[got / 2] | q[1] | q[got / 3]; ASSERT(acc == 0, "memory is zeroed"); q[0] = q[got - 1] = q[got / 2] = 1; return true; };
  auto wipe = [&](R& x) { x.p[0] = x.p[x.n - 1] = x.p[x.n / 2] = 0; };
  for (int k = 0; k < steps; k++) {
    uint32_t ops = NZ + 1; for (int i = 0; i < n; i++) ops += r[i].live; uint32_t o = pick("op", ops);
    if (o < NZ) { size_t got = 77; void* p = bl_zero_allocator_alloc(Z[o], &got); if (fresh(p, Z[o], got)) r[n++] = R{(u8*)p, got, true}; }
    else if (o == NZ) { size_t got = 5; size_t bad = pick("bad", 2) ? 0 : size_t(3) << 30; ASSERT(bl_zero_allocator_alloc(bad, &got) == nullptr && got == 0, "impossible sizes are refused"); }
    else { int i = 0; for (o -= NZ + 1; ; i++) if (r[i].live && o-- == 0) break;
      if (pick("resize", 2)) { wipe(r[i]); size_t want = Z[pick("z", 3) * 2], got = 77; void* p = bl_zero_allocator_resize(r[i].p, r[i].n, want, &got); if (fresh(p, want, got)) r[i] = R{(u8*)p, got, true}; else r[i].live = false; }
      else { wipe(r[i]); bl_zero_allocator_release(r[i].p, r[i].n); r[i].live = false; } }
    for (int i = 0; i < n; i++) if (r[i].live) for (int j = 0; j < i; j++) if (r[j].live) ASSERT(disjoint(r[i], r[j]), "two live zeroed regions overlap");
  }
  BLRuntimeResourceInfo ri; BLRuntime::query_resource_info(&ri); size_t used = 0; for (int i = 0; i < n; i++) if (r[i].live) used += (r[i].n + 1023) & ~size_t(1023); ASSERT(ri.zm_used == used, "the reported use is the sum of live regions");
  for (int i = 0; i < n; i++) if (r[i].live) { ASSERT(r[i].p[0] == 1 && r[i].p[r[i].n - 1] == 1 && r[i].p[r[i].n / 2] == 1, "contents of a live region are kept"); wipe(r[i]); bl_zero_allocator_release(r[i].p, r[i].n); }
  BLRuntime::cleanup(BL_RUNTIME_CLEANUP_ZEROED_POOL); ASSERT(bsym_mem_live() == live, "cleanup returns all unused blocks"); if (oom) REACH("oom"); REACH("end");
}
ENTRY h_alloc_zero() { zero(THOROUGH ? 5 : 4, 0); }
ENTRY h_alloc_zerooom() { zero(THOROUGH ? 4 : 3, 2); }
// many small and large requests after a fixed fragmentation: the search window of a block
ENTRY h_alloc_frag() {
  enum { N = 8 }; R r[N + 4]; size_t g = 100 * 1024; for (int i = 0; i < N; i++) { size_t got = 0; u8* p = (u8*)bl_zero_allocator_alloc(g + (size_t)(i & 1) * 5000, &got); ASSERT(p != nullptr, "alloc"); p[0] = 1; r[i] = R{p, got, true}; }
  uint32_t m = bsym_u8("mask"); int n = N; for (int i = 0; i < N; i++) if ((m >> i) & 1) { r[i].p[0] = 0; bl_zero_allocator_release(r[i].p, r[i].n); r[i].live = false; }
  static const size_t Z[] = {50 * 1024, 105 * 1024, 210 * 1024, 320 * 1024};
  for (int k = 0; k < (THOROUGH ? 4 : 3); k++) { size_t want = Z[pick("z", 4)], got = 0; u8* p = (u8*)bl_zero_allocator_alloc(want, &got); ASSERT(p && got >= want && !p[0] && !p[got - 1], "zeroed region"); p[0] = p[got - 1] = 1; r[n++] = R{p, got, true}; for (int i = 0; i < n - 1; i++) if (r[i].live) ASSERT(disjoint(r[i], r[n - 1]), "two live zeroed regions overlap"); }
  for (int i = 0; i < n; i++) if (r[i].live) { ASSERT(r[i].p[0] == 1, "contents of a live region are kept"); r[i].p[0] = r[i].p[r[i].n - 1] = 0; bl_zero_allocator_release(r[i].p, r[i].n); } REACH("end");
}
