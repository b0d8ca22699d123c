// The only source of randomness: every choice of a run is drawn from one of these, seeded from VERIF_SEED.
#pragma once
#include <cstdint>

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline uint64_t hashCombine(uint64_t h, uint64_t v) { return mix64(h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(mix64(seed ^ 0x5851f42d4c957f2dull)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    int below(int n) { return n <= 1 ? 0 : (int) (next() % (uint64_t) n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int percent) { return below(100) < percent; }
};
