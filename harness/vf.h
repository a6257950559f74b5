// Harness interface. Encoded: ll2c/prelude.h give these their meaning.
// Native replay (-DVF_NATIVE): replay.cpp gives them their meaning.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint8_t  vf_u8();   // arbitrary values: the symbolic inputs
uint16_t vf_u16();
uint32_t vf_u32();
uint64_t vf_u64();
void* vf_alloc(uint64_t n); // heap object of exactly n bytes
void  vf_free(void* p);
void  vf_assume(bool c);
void  vf_assert(bool c, const char *what); // the property
void  vf_cover(bool c, const char *what);  // must be reachable (vacuity witness)
uint64_t vf_mk100(uint64_t q, uint8_t a, uint8_t b); // 100*q+10*a+b (see prelude.h)
uint64_t vf_guar_align(void *p); // alignment the allocator guarantees for this block
uint64_t vf_address(void *p); // address modulo any alignment
uint64_t vf_param(unsigned i); // case-split parameter, a constant per query
}
static inline bool vf_bool() { return vf_u8() & 1; }
static inline char vf_char() { return (char)vf_u8(); }
static inline void vf_fill(char *p, size_t n) { for(size_t i = 0; i < n; ++i) p[i] = (char)vf_u8(); }
static inline char* vf_buf(size_t n) { char *p = (char*)vf_alloc(n); vf_fill(p, n); return p; }
static inline size_t vf_upto(size_t n) { size_t v = (size_t)vf_u64(); vf_assume(v <= n); return v; }
