// Helpers shared by the scenarios.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <map>
#include <set>
#include "system.h"

namespace scn {
using namespace sim;
using namespace pkt;

// is any of the properties in the space separated list the one being decided?
inline bool any(const char* props) {
    const size_t n = spec->prop.size();
    for (const char* p = props; *p;) {
        size_t k = 0; while (p[k] && p[k] != ' ') ++k;
        if (k == n && !spec->prop.compare(0, n, p, k)) return true;
        p += k; if (*p) ++p;
    }
    return false;
}
// the condition is required by each of the listed properties; it is reported under the one being decided
#define REQUIRE(props, cond, sig, ...) do { if (!(cond) && ::scn::any(props)) ::sim::violation(::sim::spec->prop.c_str(), sig, __VA_ARGS__); } while (0)

constexpr uint64_t MS = 1000000ull, SEC = 1000000000ull;

// Which faults a run may inject, and how often: every run draws its own mixture, so that both quiet runs and runs
// with a single kind of trouble occur.
struct Swarm {
    Rng& r;
    uint32_t base[5] = {1000, 5000, 20000, 100000, 300000};
    explicit Swarm(Rng& rr) : r(rr) {}
    uint32_t ppm() { return base[r.below(5)]; }
    bool group(int percent, std::initializer_list<int> kinds, int each = 50, uint32_t cap = 300000) {
        bool on = (int)r.below(100) < percent;
        for (int k : kinds) { bool x = (int)r.below(100) < each; uint32_t p = ppm(); if (on && x) rates.ppm[k] = std::min(p, cap); }
        return on;
    }
    void sched() {
        static const uint32_t step[] = {300, 1000, 5000, 20000};
        set_sched((uint32_t)r.below(2), step[r.below(4)]);
        static const uint32_t sp[] = {0, 5000, 50000, 200000, 400000};
        rates.ppm[K_SCHED] = sp[r.below(5)];
        rates.ppm[K_WAKE_ORDER] = r.coin() ? 200000 : 0;
        rates.ppm[K_APP] = 0;
        static const uint32_t lv[] = {3, 6, 9, 12, 12, 14};
        set_max_delay(lv[r.below(6)]);
    }
};

inline std::string strf(const char* f, ...) {
    char b[1200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
inline void mixshape(uint32_t v) { sh->shape = (sh->shape ^ v) * 16777619u; sh->shape ^= sh->shape >> 15; }
inline std::span<const uint8_t> sp(const Bytes& b) { return {b.data(), b.size()}; }

// damage real bytes
inline Bytes damage(Bytes b, Rng& r) {
    switch (r.below(9)) {
    case 0: if (!b.empty()) b.resize(r.below(b.size())); break;                                     // truncate
    case 1: b.resize(b.size() + 1 + r.below(64), (uint8_t)r.next()); break;                         // extend
    case 2: if (b.size() >= 4) { uint32_t w = (uint32_t)r.below(b.size() / 2 + 8); b[2] = w >> 8; b[3] = w; } break;  // lying size
    case 3: if (b.size() >= 4) { b[2] = 0xff; b[3] = 0xff; } break;
    case 4: { int n = 1 + (int)r.below(4); for (int i = 0; i < n && !b.empty(); ++i) b[r.below(std::min<size_t>(b.size(), 80))] ^= 1u << r.below(8); break; }
    case 5: { int n = 1 + (int)r.below(12); for (int i = 0; i < n && !b.empty(); ++i) b[r.below(b.size())] = (uint8_t)r.next(); break; }
    case 6: if (b.size() > 32) { size_t at = 16 + r.below(b.size() - 16); for (size_t i = at; i < b.size(); ++i) b[i] = 0xff; } break;   // everything announced
    case 7: if (b.size() > 8) { size_t at = 4 * r.below(b.size() / 4); b.erase(b.begin() + at, b.begin() + std::min(b.size(), at + 4 * (1 + r.below(3)))); } break;
    default: b.resize(r.below(40)); for (auto& x : b) x = (uint8_t)r.next();
    }
    return b;
}
} // namespace scn
