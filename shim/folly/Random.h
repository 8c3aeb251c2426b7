#pragma once
#include <sys/random.h>
#include <cstdint>
namespace folly {
// Randomness comes from the simulator (getrandom is interposed).
struct Random {
    static uint64_t raw() { uint64_t v = 0; (void)!getrandom(&v, sizeof v, 0); return v; }
    static uint32_t rand32() { return (uint32_t)raw(); }
    static uint32_t rand32(uint32_t max) { return max == 0 ? 0 : (uint32_t)(raw() % max); }
    static uint32_t rand32(uint32_t lo, uint32_t hi) { return lo == hi ? 0 : lo + rand32(hi - lo); }
    static uint64_t rand64() { return raw(); }
    static uint64_t rand64(uint64_t max) { return max == 0 ? 0 : raw() % max; }
    static uint64_t rand64(uint64_t lo, uint64_t hi) { return lo == hi ? lo : lo + rand64(hi - lo); }
    static double randDouble01() { return (double)(raw() >> 11) / 9007199254740992.0; }
    static double randDouble(double lo, double hi) { return lo + (hi - lo) * randDouble01(); }
    static bool oneIn(uint32_t n) { return n && rand32(n) == 0; }
};
inline uint32_t randomNumberSeed() { return Random::rand32(); }
}
