#pragma once
#include <cstdint>
#include <string>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9e3779b97f4a7c15ull + 0x632be59bd9b4e019ull)
    {
        next();
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // 0..n-1
    uint64_t below(uint64_t n)
    {
        return n ? next() % n : 0;
    }
    int range(int lo, int hi)
    {
        return lo + (int)below((uint64_t)(hi - lo + 1));
    }
    bool chance(int percent)
    {
        return (int)below(100) < percent;
    }
    template <class V> const typename V::value_type &pick(const V &v)
    {
        return v[below(v.size())];
    }
};

inline uint64_t mix64(uint64_t a, uint64_t b)
{
    Rng r(a ^ (b * 0xff51afd7ed558ccdull));
    return r.next();
}

inline uint64_t hash_str(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}
