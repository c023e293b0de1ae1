// Native replay runtime: runs a harness entry against the real code with the recorded inputs.
#include "../harness/bsym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <map>
#include <string>
#include <unistd.h>
static std::map<std::string, uint64_t>* gIn; static std::map<std::string, int>* gCtr; static int gFail = 0; static long gLive = 0; static int gFailOcc = 0; static bool gVerbose = false; static int gFill = 0xA5;
static uint64_t get(const char* n) { int k = (*gCtr)[n]++; std::string s = std::string(n) + "#" + std::to_string(k); auto it = gIn->find(s); uint64_t v = it == gIn->end() ? 0 : it->second; if (gVerbose) printf("input %s = 0x%llx\n", s.c_str(), (unsigned long long)v); return v; }
extern "C" {
uint8_t bsym_u8(const char* n) { return (uint8_t)get(n); }
uint16_t bsym_u16(const char* n) { return (uint16_t)get(n); }
uint32_t bsym_u32(const char* n) { return (uint32_t)get(n); }
uint64_t bsym_u64(const char* n) { return get(n); }
void bsym_make_symbolic(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)get(nm); }
uint64_t bsym_range(const char* n, uint64_t lo, uint64_t hi) { if (lo == hi) return lo; return lo + get(n); }
void bsym_assume(int c) { if (!(c & 1)) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(42); } }
void bsym_assert(int c, const char* m) { if (!(c & 1)) { printf("ASSERT-FAILED %s\n", m); fflush(stdout); _exit(43); } }
void bsym_reach(const char* l) { printf("REACH %s\n", l); }
void bsym_fail_malloc(int n) { gFail = n; }
uint64_t bsym_pick(const char* n, uint64_t k) { return k <= 1 ? 0 : get(n); }
uint64_t bsym_enumerate(uint64_t x) { return x; }
void bsym_set_merge(int) {}
uint64_t bsym_mem_live(void) { return (uint64_t)gLive; }
int bsym_is_symbolic(void) { return 0; }
void bsym_trace(const char* l, uint64_t v) { if (gVerbose) printf("trace %s = 0x%llx\n", l, (unsigned long long)v); }
void bsym_preempt(int) {}
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
static bool failNow() {
  if (gFail <= 0) return false; char b[32]; snprintf(b, 32, "mallocfail"); int f = gFail; gFail = 0; uint64_t v = get(b); gFail = f; if (v & 1) { gFail--; return true; } return false;
}
void* __wrap_malloc(size_t n) { if (failNow()) return nullptr; void* p = n > (1ull << 28) ? nullptr : __real_malloc(n); if (p) { gLive++; memset(p, gFill, n); } return p; }
void* __wrap_calloc(size_t a, size_t b) { if (failNow()) return nullptr; void* p = __real_calloc(a, b); if (p) gLive++; return p; }
void* __wrap_realloc(void* q, size_t n) { if (failNow()) return nullptr; void* p = __real_realloc(q, n); if (p && !q) gLive++; return p; }
void __wrap_free(void* p) { if (p) gLive--; __real_free(p); }
}
int main(int argc, char** argv) { // replay ENTRY INPUTS [-v]
  gIn = new std::map<std::string, uint64_t>(); gCtr = new std::map<std::string, int>(); if (argc > 3) gVerbose = true;
  if (const char* e = getenv("BSYM_FILL")) gFill = atoi(e);
  FILE* f = fopen(argv[2], "r"); char line[1024]; if (f) { while (fgets(line, sizeof line, f)) { char* e = strrchr(line, ' '); if (!e) continue; *e = 0; (*gIn)[line] = strtoull(e + 1, nullptr, 0); } fclose(f); }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
  fn(); printf("DONE\n"); fflush(stdout); _exit(0);
}
