// Small helpers shared by scenarios.
#pragma once
#include "sim.h"
#include <exception>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <cstring>
#include <cmath>

namespace scn {
using sim::Rng;

// numbered operations, so that the driver can switch them off while minimising
struct Ops {
    int n = 0;
    int take() { int k = n++; sim::op_mark(k); return k; }
    bool next() { return sim::op_enabled(take()); }
};
// run one function per thread; joins all
inline void threads(const std::vector<std::function<void()>> &fs) {
    std::vector<std::thread> ts;
    for (auto &f : fs) ts.emplace_back(f);
    for (auto &t : ts) t.join();
}
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ull;
    return h;
}
}
