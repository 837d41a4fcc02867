#pragma once
#include "parallel_for.h"
namespace tbb {
    template<typename V, typename T, typename F, typename R>
    T parallel_reduce(const blocked_range<V> &range, const T &identity, const F &f, const R &join) {
        uint64_t n = range.size(), k = std::max<uint64_t>(1, std::min<uint64_t>(n, 8));
        std::vector<T> part(k, identity);
        hgv_sched::run_range(k, [&](uint64_t a, uint64_t b) {
            for (; a < b; a++) part[a] = f(blocked_range<V>(range.begin() + n * a / k, range.begin() + n * (a + 1) / k), identity);
        });
        T res = identity;
        for (auto &p: part) res = join(res, p);
        return res;
    }
}
