// A source of random bits which replays a script (then a filler), so that every outcome of a bit source can be enumerated.
#pragma once
#include "mc.h"
#include <geomc/random/Random.h>
struct Script : geom::Random {
    std::vector<uint32_t> q; size_t used = 0; uint32_t fill = 0; uint64_t limit = 100000;
    Script() {}
    explicit Script(std::vector<uint32_t> w) : q(w) {}
    uint32_t rand32() override { if (used > limit) throw std::runtime_error("the bit source is drawn from without end"); return used < q.size() ? q[used++] : (++used, fill); }
    void rseed(uint64_t) override {}
    void set(const std::vector<uint32_t>& w) { q = w; used = 0; _bitsleft = 0; }
};
