#pragma once
#include "hgv_sched.h"
#include "blocked_range.h"
#include "partitioner.h"
#include <stdexcept>
namespace tbb {
    template<typename Index, typename Function>
    void parallel_for(Index first, Index last, Index step, const Function &f) {
        if (step <= 0) throw std::invalid_argument("Step must be positive");
        if (first >= last) return;
        uint64_t n = (uint64_t) (last - first - Index(1)) / (uint64_t) step + 1;
        hgv_sched::run_range(n, [&](uint64_t a, uint64_t b) {
            for (uint64_t k = a; k < b; k++) f(Index(first + Index(k) * step));
        });
    }
    template<typename Index, typename Function, typename P>
    void parallel_for(Index first, Index last, Index step, const Function &f, const P &) { tbb::parallel_for(first, last, step, f); }
    template<typename Index, typename Function>
    void parallel_for(Index first, Index last, const Function &f) { tbb::parallel_for(first, last, Index(1), f); }
    template<typename Value, typename Body>
    void parallel_for(const blocked_range<Value> &range, const Body &body) {
        hgv_sched::run_range(range.size(), [&](uint64_t a, uint64_t b) { body(blocked_range<Value>(range.begin() + a, range.begin() + b, range.grainsize())); });
    }
    template<typename Value, typename Body, typename P>
    void parallel_for(const blocked_range<Value> &range, const Body &body, const P &) { tbb::parallel_for(range, body); }
    template<typename It, typename F>
    void parallel_for_each(It a, It b, const F &f) {
        std::vector<It> v;
        for (; a != b; ++a) v.push_back(a);
        hgv_sched::run_range(v.size(), [&](uint64_t x, uint64_t y) { for (; x < y; x++) f(*v[x]); });
    }
    template<typename F, typename G> void parallel_invoke(const F &f, const G &g) { hgv_sched::both(f, g); }
}
