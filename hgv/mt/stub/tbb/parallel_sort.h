#pragma once
#include "hgv_sched.h"
namespace tbb {
    namespace hgv_detail {
        // quick sort, unstable on purpose, the two halves in parallel
        template<typename It, typename Compare>
        void psort(It a, It b, const Compare &comp, int depth) {
            auto n = b - a;
            if (n <= 500 || depth > 60) { std::sort(a, b, comp); return; }
            auto r = hgv_sched::fresh();
            auto pick = [&] { return a + (typename std::iterator_traits<It>::difference_type) r.below((uint64_t) n); };
            It x = pick(), y = pick(), z = pick();
            It m = comp(*x, *y) ? (comp(*y, *z) ? y : comp(*x, *z) ? z : x) : (comp(*x, *z) ? x : comp(*y, *z) ? z : y);
            std::iter_swap(a, m);
            It lo = a + 1, hi = b;
            while (true) {
                while (lo < hi && comp(*lo, *a)) ++lo;
                while (lo < hi && comp(*a, *(hi - 1))) --hi;
                if (lo >= hi) break;
                --hi;
                if (lo < hi) { std::iter_swap(lo, hi); ++lo; }
            }
            std::iter_swap(a, lo - 1);
            hgv_sched::both([&] { psort(a, lo - 1, comp, depth + 1); }, [&] { psort(lo, b, comp, depth + 1); });
        }
    }
    template<typename It, typename Compare>
    void parallel_sort(It a, It b, const Compare &comp) { hgv_detail::psort(a, b, comp, 0); }
    template<typename It>
    void parallel_sort(It a, It b) { parallel_sort(a, b, std::less<typename std::iterator_traits<It>::value_type>()); }
}
