// Harness API. In the symbolic engine these are built in; natively (replay) rt/native.cpp provides them.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vp_nd(unsigned bits);               // arbitrary value of that many bits
void vp_nd_bytes(void* p, uint64_t n);       // fill with arbitrary bytes
void vp_assume(bool c);
void vp_check(bool c, const char* id);       // the property
void vp_fail(const char* id);
void vp_cover(const char* id);               // reachability witness
void vp_cover_if(bool c, const char* id);    // witness that c is satisfiable here (no fork)
void vp_observe(uint64_t v);                 // compared between the encoding and the real build
uint64_t vp_conc(uint64_t v);                // split into one path per feasible value
uint64_t vp_heap_live(void);                 // live heap blocks
int vp_symbolic(void);
bool vp_readable(const void* p, uint64_t n); // [p,p+n) lies in one live object (native: true)
void vp_yield(void);                         // preemption point
void vp_norace_(const void* p, uint64_t n);   // the object p points to takes no part in race detection (bookkeeping of the harness)
void vp_done(void);                          // end this path successfully
void vp_main(void);
}
template <class T> static inline void vp_norace(const T* p) { vp_norace_(p, sizeof(T)); }
static inline uint8_t vp_u8() { return (uint8_t)vp_nd(8); }
static inline uint16_t vp_u16() { return (uint16_t)vp_nd(16); }
static inline uint32_t vp_u32() { return (uint32_t)vp_nd(32); }
static inline int vp_i32() { return (int)(uint32_t)vp_nd(32); }
static inline uint64_t vp_u64() { return vp_nd(64); }
static inline int64_t vp_i64() { return (int64_t)vp_nd(64); }
static inline bool vp_bool() { return (vp_nd(8) & 1) != 0; }
static inline uint64_t vp_range(uint64_t lo, uint64_t hi) { uint64_t v = vp_nd(64); vp_assume((v >= lo) & (v <= hi)); return v; }
static inline unsigned vp_pick(unsigned n) { uint8_t v = (uint8_t)vp_nd(8); vp_assume(v < n); return v; } // arbitrary value in [0,n), branched on by the solver
static inline uint64_t vp_choose(uint64_t n) { return n < 2 ? 0 : vp_conc(vp_pick((unsigned)n)); } // ditto, one path each
// branch-free helper
static inline uint64_t vp_sel(bool c, uint64_t a, uint64_t b) { uint64_t m = (uint64_t)0 - (uint64_t)c; return (a & m) | (b & ~m); }
