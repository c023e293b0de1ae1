// Harness API. Under bsym the functions below are interpreted; natively (replay) they read the recorded inputs.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint8_t bsym_u8(const char* name);
uint16_t bsym_u16(const char* name);
uint32_t bsym_u32(const char* name);
uint64_t bsym_u64(const char* name);
void bsym_make_symbolic(void* p, size_t n, const char* name);
uint64_t bsym_range(const char* name, uint64_t lo, uint64_t hi);   // lo <= x <= hi
void bsym_assume(int c);
void bsym_assert(int c, const char* msg);
void bsym_reach(const char* label);       // vacuity witness: the runner requires that it was reached
void bsym_fail_malloc(int n);             // up to n of the following allocations may fail (symbolic choice)
uint64_t bsym_pick(const char* name, uint64_t n);          // input in [0,n), explored by forking (case split)
uint64_t bsym_enumerate(uint64_t x);      // concretise by forking over every feasible value
void bsym_set_merge(int on);              // state merging at post-dominators
uint64_t bsym_mem_live(void);             // live heap blocks
int bsym_is_symbolic(void);
void bsym_trace(const char* label, uint64_t v);
void bsym_preempt(int n);
}
#define ASSUME(c) bsym_assume((c) ? 1 : 0)
#define ASSERT(c, m) bsym_assert((c) ? 1 : 0, m)
#define REACH(l) bsym_reach(l)
#define ENTRY extern "C" __attribute__((noinline, used)) void
template <typename T> static inline void symbolic(T& x, const char* name) { bsym_make_symbolic(&x, sizeof(T), name); }
static inline uint32_t pick(const char* name, uint32_t n) { return (uint32_t)bsym_pick(name, n); } // forks
static inline uint32_t range32(const char* name, uint32_t lo, uint32_t hi) { return (uint32_t)bsym_range(name, lo, hi); }
