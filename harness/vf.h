// Contract intrinsics. Interpreted by engine/cv (all inputs) and by vf_native.cpp (replay of one input).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vf_choose(uint64_t n);            // case split 0..n-1 (exhaustive)
uint8_t vf_sym8(); uint16_t vf_sym16(); uint32_t vf_sym32(); uint64_t vf_sym64();  // universally quantified inputs
void vf_assume(bool c);                    // requires
void vf_assert(bool c, const char* msg);   // ensures: one named obligation; "Pnn[,Pmm]: text"
void vf_cover(const char* msg);            // reachability (vacuity guard)
void vf_part();                            // partition point for parallel workers
void vf_note(const char* name, uint64_t v);
uint64_t vf_live();                        // live heap objects
uint64_t vf_allocs();                      // heap allocations so far
void vf_freeze_heap();                     // from now on no non-atomic write to any heap object now alive
void vf_freeze(const void* p);
void vf_unfreeze();
bool vf_is_live(const void* p);
uint64_t vf_ite(bool c, uint64_t a, uint64_t b);
uint64_t vf_concretize(uint64_t v);
[[noreturn]] void vf_kill();
bool vf_native();
void vf_spawn(void (*f)(void*), void* x);     // native replay under ThreadSanitizer: f(x) runs in another thread until vf_join; the verifier ignores both
void vf_join();
}
#define VF_UNIT(n) extern "C" void vf_unit_##n()
#define VF_ENSURES(c, m) vf_assert((c), m)
#define VF_REQUIRES(c) vf_assume(c)
static inline int choose(int n) { return static_cast<int>(vf_choose(static_cast<uint64_t>(n))); }
static inline int choose_in(int lo, int hi) { return lo + choose(hi - lo + 1); }
