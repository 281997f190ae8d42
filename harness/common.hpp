// Shared by the C++ harnesses: seeded generator, random graphs, reporting, scheduling noise.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <new>
#include <set>
#include <string>
#include <thread>
#include <unistd.h>
#include <utility>
#include <vector>

namespace vp {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class C> auto &pick(C &c) { return c[below((int)c.size())]; }
};

typedef std::vector<std::pair<int, int>> Edges;

inline Edges grid(int a, int b) {
    Edges e;
    for (int i = 0; i < a; i++)
        for (int j = 0; j < b; j++) {
            if (i + 1 < a) e.push_back({i * b + j, (i + 1) * b + j});
            if (j + 1 < b) e.push_back({i * b + j, i * b + j + 1});
        }
    return e;
}
inline Edges clique(int n) {
    Edges e;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++) e.push_back({i, j});
    return e;
}
inline Edges chimera(int m, int t) {
    Edges e;
    auto id = [&](int i, int j, int u, int k) { return ((i * m + j) * 2 + u) * t + k; };
    for (int i = 0; i < m; i++)
        for (int j = 0; j < m; j++) {
            for (int k = 0; k < t; k++)
                for (int l = 0; l < t; l++) e.push_back({id(i, j, 0, k), id(i, j, 1, l)});
            for (int k = 0; k < t; k++) {
                if (i + 1 < m) e.push_back({id(i, j, 0, k), id(i + 1, j, 0, k)});
                if (j + 1 < m) e.push_back({id(i, j, 1, k), id(i, j + 1, 1, k)});
            }
        }
    return e;
}
inline Edges gnp(Rng &r, int n, double p) {
    Edges e;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++)
            if (r.chance(p)) e.push_back({i, j});
    return e;
}
inline Edges cycle(int n) {
    Edges e;
    for (int i = 0; i < n; i++) e.push_back({i, (i + 1) % n});
    return e;
}
inline int nodes(const Edges &e) {
    int n = 0;
    for (auto &x : e) n = std::max(n, std::max(x.first, x.second) + 1);
    return n;
}
inline Edges source(Rng &r) {
    switch (r.below(5)) {
        case 0: return clique(r.range(2, 7));
        case 1: return cycle(r.range(3, 12));
        case 2: return grid(r.range(2, 4), r.range(2, 4));
        case 3: { Edges e = gnp(r, r.range(3, 10), .4); if (e.empty()) e.push_back({0, 1}); return e; }
        default: { Edges e; int n = r.range(2, 9); for (int i = 1; i <= n; i++) e.push_back({0, i}); return e; }
    }
}
inline Edges target(Rng &r) {
    Edges e;
    switch (r.below(4)) {
        case 0: e = chimera(r.range(1, 4), r.range(2, 4)); break;
        case 1: e = grid(r.range(2, 8), r.range(2, 8)); break;
        case 2: e = clique(r.range(2, 12)); break;
        default: e = gnp(r, r.range(6, 40), .2);
    }
    Edges f;
    for (auto &x : e)
        if (!r.chance(.04)) f.push_back(x);
    if (f.empty()) f.push_back({0, 1});
    return f;
}

inline void stat(const char *k, long long v) { printf("STAT %s %lld\n", k, v); }
inline void violation(long long i, const std::string &key, const std::string &msg) {
    std::string m;
    for (char c : msg) m += c == '\n' ? ' ' : c;
    printf("BAD %lld %s %s\n", i, key.c_str(), m.c_str());
    fflush(stdout);
}
inline uint64_t hash(uint64_t h, uint64_t x) { return (h ^ x) * 0x100000001b3ull + (h >> 29); }
}  // namespace vp
