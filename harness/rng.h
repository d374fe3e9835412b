// Deterministic random source: every case is a function of (seed, mode, index).
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>
#include <limits>
#include <initializer_list>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    static uint64_t mix(uint64_t z) {
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    static Rng forCase(uint64_t seed, std::string_view mode, uint64_t index) {
        uint64_t h = mix(seed + 0x9e3779b97f4a7c15ull);
        for (unsigned char c : mode) h = mix(h ^ c) + 0x9e3779b97f4a7c15ull;
        return Rng(mix(h ^ mix(index * 0x9e3779b97f4a7c15ull + 7)));
    }
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    // [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }

    int64_t small() { return range(-8, 16); }
    // boundary-heavy 64-bit value; never INT64_MIN when literal is set (no such literal in the text format)
    int64_t value(bool literal = false) {
        int64_t v;
        switch (below(11)) {
            case 0: case 1: case 2: v = small(); break;
            case 3: v = pick<int64_t>({0, 1, -1, 2, -2, 63, 64, 65}); break;
            case 4: v = pick<int64_t>({INT64_MAX, INT64_MIN, INT64_MIN + 1, INT64_MAX - 1, INT32_MAX, INT32_MIN, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1, (int64_t)UINT32_MAX, (int64_t)UINT32_MAX + 1}); break;
            case 5: v = (int64_t)(1ull << below(64)); break;
            case 6: v = (int64_t)((1ull << below(64)) + (uint64_t)range(-2, 2)); break;
            case 7: v = (int64_t)next(); break;
            case 8: v = (int64_t)(int32_t)next(); break;
            case 9: v = range(-1000, 1000); break;
            default: v = (int64_t)(next() >> below(64)); break;
        }
        if (literal && v == INT64_MIN) v = INT64_MAX;
        return v;
    }
};
