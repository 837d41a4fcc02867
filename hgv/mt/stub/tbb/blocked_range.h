#pragma once
#include <cstddef>
namespace tbb {
    struct split {};
    template<typename V>
    class blocked_range {
        V b, e; std::size_t g;
    public:
        using const_iterator = V;
        blocked_range(V begin, V end, std::size_t grain = 1) : b(begin), e(end), g(grain) {}
        V begin() const { return b; }
        V end() const { return e; }
        std::size_t size() const { return b < e ? (std::size_t) (e - b) : 0; }
        std::size_t grainsize() const { return g; }
        bool empty() const { return !(b < e); }
    };
}
