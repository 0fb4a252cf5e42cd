// Native interpretation of the contract intrinsics: replays one recorded input (file given as argv[2]) or, with
// argv[2]="random" SEED SECONDS, samples inputs until an obligation fails (used only to find a concrete failing input).
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <vector>
#include <new>
#include <csetjmp>
#include <ctime>
#ifdef VF_TSAN
#include <thread>
#include <atomic>
static std::thread* other_;
static std::atomic<uint64_t> live_, allocs_;
#else
static uint64_t live_, allocs_;
#endif
static std::vector<uint64_t>* ins; static size_t pos; static bool rnd; static uint64_t seed; static std::vector<std::string>* rec;
struct Kill {}; struct Fail {};
static uint64_t rn() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; }
static uint64_t next(char k, uint64_t bound) {
    uint64_t v;
    if (rnd) { if (k == 'c') v = bound ? rn() % bound : 0; else { uint64_t r = rn(); switch (r & 3) { case 0: v = (r >> 8) % 8; break; case 1: v = (r >> 8) % 256; break; case 2: v = (uint64_t)(-(int64_t)((r >> 8) % 16)); break; default: v = rn(); } } }
    else { if (pos >= ins->size()) { fprintf(stderr, "replay: input exhausted\n"); _Exit(5); } v = (*ins)[pos++]; }
    if (rec) rec->push_back(std::string(1, k) + std::to_string(v));
    return v;
}
static thread_local int inrt = 0;
void* operator new(size_t n) { void* p = malloc(n); if (!inrt) { ++live_; ++allocs_; } return p; }
void operator delete(void* p) noexcept { if (p && !inrt) --live_; free(p); }
void operator delete(void* p, size_t) noexcept { if (p && !inrt) --live_; free(p); }
struct Rt { Rt() { ++inrt; } ~Rt() { --inrt; } };
static std::string curInputs() { std::string s; if (rec) for (auto& r : *rec) s += (s.empty() ? "" : " ") + r; return s; }
static FILE* lastf = nullptr;
extern "C" {
uint64_t vf_choose(uint64_t n) { Rt r; uint64_t v = next('c', n); if (n == 0 || v >= n) throw Kill{}; return v; }
uint8_t vf_sym8() { Rt r; return (uint8_t)next('s', 0); } uint16_t vf_sym16() { Rt r; return (uint16_t)next('s', 0); } uint32_t vf_sym32() { Rt r; return (uint32_t)next('s', 0); } uint64_t vf_sym64() { Rt r; return next('s', 0); }
void vf_assume(bool c) { Rt r; if (!c) { if (!rnd) { fprintf(stderr, "replay: assumption false\n"); _Exit(6); } throw Kill{}; } }
void vf_assert(bool c, const char* m) { Rt r; if (!c) { printf("FAILED %s\nINPUTS %s\n", m, curInputs().c_str()); fflush(stdout); _Exit(10); } }
void vf_cover(const char*) {} void vf_part() {} 
void vf_note(const char* n, uint64_t v) { if (!rnd) printf("NOTE %s=%lld\n", n, (long long)v); }
#ifdef VF_TSAN
uint64_t vf_live() { return 0; } uint64_t vf_allocs() { return 0; }  // the other thread allocates too
#else
uint64_t vf_live() { return live_; } uint64_t vf_allocs() { return allocs_; }
#endif
void vf_freeze_heap() {} void vf_freeze(const void*) {} void vf_unfreeze() {} bool vf_is_live(const void*) { return true; }
uint64_t vf_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; } uint64_t vf_concretize(uint64_t v) { return v; }
#ifdef VF_TSAN
void vf_spawn(void (*f)(void*), void* x) { Rt r; other_ = new std::thread([=] { Rt q; --inrt; f(x); ++inrt; }); } void vf_join() { Rt r; if (other_) { other_->join(); delete other_; other_ = nullptr; } }
#else
void vf_spawn(void (*)(void*), void*) {} void vf_join() {}
#endif
void vf_kill() { Rt r; throw Kill{}; } bool vf_native() { return true; }
}
int main(int argc, char** argv) {
    Rt* guard = new Rt; (void)guard;
    std::string u = std::string("vf_unit_") + argv[1]; auto f = (void (*)())dlsym(RTLD_DEFAULT, u.c_str()); if (!f) { fprintf(stderr, "no unit %s\n", argv[1]); return 7; }
    rec = new std::vector<std::string>;
    if (!strcmp(argv[2], "random")) {
        rnd = true; uint64_t s0 = strtoull(argv[3], 0, 10); double secs = atof(argv[4]); time_t t0 = time(0); uint64_t n = 0;
        // the current input is kept in a file so that a crash can be attributed to it
        const char* cur = argc > 5 ? argv[5] : nullptr;
        while (difftime(time(0), t0) < secs) {
            ++n; seed = s0 * 0x9E3779B97F4A7C15ull + n * 0xD1B54A32D192ED03ull; if (!seed) seed = 1; for (int i = 0; i < 8; ++i) rn(); rec->clear(); live_ = allocs_ = 0; int sv = inrt;
            if (cur) { lastf = fopen(cur, "w"); fprintf(lastf, "%llu %llu\n", (unsigned long long)s0, (unsigned long long)n); fclose(lastf); }
            inrt = 0; try { f(); inrt = sv; } catch (Kill&) { inrt = sv; } catch (...) { inrt = sv; printf("FAILED unexpected exception\nINPUTS %s\n", curInputs().c_str()); return 10; }
        }
        printf("RUNS %llu\n", (unsigned long long)n); return 0;
    }
    if (!strcmp(argv[2], "seed")) { // reproduce run N of SEED and print its inputs as far as it gets
        rnd = true; uint64_t s0 = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10); seed = s0 * 0x9E3779B97F4A7C15ull + n * 0xD1B54A32D192ED03ull; if (!seed) seed = 1; for (int i = 0; i < 8; ++i) rn();
        inrt = 0; try { f(); } catch (Kill&) {} return 0;
    }
    ins = new std::vector<uint64_t>; FILE* fp = fopen(argv[2], "r"); char tok[64]; while (fp && fscanf(fp, "%63s", tok) == 1) ins->push_back(strtoull(tok + 1, 0, 10)); if (fp) fclose(fp);
    inrt = 0;
    try { f(); } catch (Kill&) { inrt = 1; printf("KILLED\n"); return 6; } catch (...) { inrt = 1; printf("FAILED unexpected exception\n"); return 10; }
    inrt = 1; printf("PASSED\n"); return 0;
}
