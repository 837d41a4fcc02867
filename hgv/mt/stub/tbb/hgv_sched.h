// Scheduler behind the stand-in for the classic TBB interface.  (The TBB of this machine no longer has tbb::task, which
// higra's parallel stable sort needs, and would not be instrumented anyway.)
// It gives each region of parallel execution the freedom TBB's contract gives it: iterations are dealt to threads in blocks,
// round robin, or at random, in random order; spawned tasks run at once on a thread of their own or later on the same thread.
// It adds no synchronisation besides fork, join and task reference counts (everything else is relaxed atomics), so that
// ThreadSanitizer sees every pair of accesses that TBB would leave unordered.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <functional>
#include <iterator>
#include <mutex>
#include <new>
#include <sched.h>
#include <thread>
#include <time.h>
#include <utility>
#include <vector>

namespace hgv_sched {
    struct stats_t {
        std::atomic<uint64_t> regions{0}, parallel_regions{0}, chunks{0}, iterations{0}, threads{0}, tasks{0}, stolen{0}, ticket{0}, live{0}, streams{0}, migrations{0}, order{0};
    };
    inline stats_t &stats() { static stats_t *s = new stats_t(); return *s; }
    inline std::atomic<uint64_t> &seed() { static std::atomic<uint64_t> s{12345}; return s; }
    inline std::atomic<int> &num_threads() { static std::atomic<int> n{getenv("HGV_THREADS") ? atoi(getenv("HGV_THREADS")) : 4}; return n; }
    struct rng_t {
        uint64_t s;
        uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    };
    inline rng_t fresh() { return rng_t{seed().load(std::memory_order_relaxed) * 1000003u + stats().streams.fetch_add(1, std::memory_order_relaxed) * 7919u}; }
    inline rng_t &tl_rng() { thread_local rng_t r = fresh(); return r; }
    inline void delay(rng_t &r) {
        uint64_t k = r.below(16);
        if (k < 2) sched_yield();
        else if (k == 2) { timespec t{0, (long) r.below(40000)}; nanosleep(&t, nullptr); }
    }
    // records in which order chunks really started, and on which thread
    inline void observe(uint64_t thread, uint64_t what) {
        auto &s = stats();
        uint64_t t = s.ticket.fetch_add(1, std::memory_order_relaxed);
        uint64_t h = (t * 0x9e3779b97f4a7c15ull) ^ (what * 0xc2b2ae3d27d4eb4full) ^ (thread * 0x165667b19e3779f9ull);
        h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
        s.order.fetch_xor(h, std::memory_order_relaxed);
        s.chunks.fetch_add(1, std::memory_order_relaxed);
    }

    // run body(k0, k1) over [0, n) on the configured number of threads
    template<typename F>
    void run_range(uint64_t n, const F &body) {
        auto &s = stats();
        s.regions.fetch_add(1, std::memory_order_relaxed);
        s.iterations.fetch_add(n, std::memory_order_relaxed);
        if (n == 0) return;
        rng_t r = fresh();
        uint64_t nt = (uint64_t) std::max(1, num_threads().load(std::memory_order_relaxed));
        nt = std::min(nt, n);
        std::vector<std::vector<std::pair<uint64_t, uint64_t>>> lists(nt);
        uint64_t mode = r.below(5);
        uint64_t chunk = mode == 0 ? (n + nt - 1) / nt : mode == 1 ? 1 : mode == 2 ? 1 + r.below(7) : mode == 3 ? 1 + r.below(n) : 1 + n / (nt * 4);
        if (n / chunk > 4000) chunk = n / 4000 + 1;
        uint64_t c = 0;
        for (uint64_t i = 0; i < n; i += chunk, c++)
            lists[mode == 2 || mode == 3 ? r.below(nt) : c % nt].push_back({i, std::min(n, i + chunk)});
        for (auto &l: lists)
            if (mode != 0 && r.below(2))
                for (uint64_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[r.below(i)]);
        std::vector<std::exception_ptr> err(nt);
        auto work = [&](uint64_t t) {
            rng_t q{r.s + t * 7907u};
            try {
                for (auto &x: lists[t]) {
                    if (q.below(8) == 0) delay(q);
                    observe(t, x.first);
                    body(x.first, x.second);
                }
            } catch (...) { err[t] = std::current_exception(); }
        };
        if (nt == 1) work(0);
        else {
            s.parallel_regions.fetch_add(1, std::memory_order_relaxed);
            s.threads.fetch_add(nt - 1, std::memory_order_relaxed);
            std::vector<std::thread> ts;
            for (uint64_t t = 1; t < nt; t++) ts.emplace_back(work, t);
            work(0);
            for (auto &t: ts) t.join();
        }
        for (auto &e: err) if (e) std::rethrow_exception(e);
    }
    // run f and g, maybe at the same time
    template<typename F, typename G>
    void both(const F &f, const G &g) {
        rng_t r = fresh();
        auto &s = stats();
        if (num_threads().load(std::memory_order_relaxed) > 1 && s.live.load(std::memory_order_relaxed) < 64 && r.below(4)) {
            s.parallel_regions.fetch_add(1, std::memory_order_relaxed);
            s.threads.fetch_add(1, std::memory_order_relaxed);
            s.live.fetch_add(1, std::memory_order_relaxed);
            std::exception_ptr e;
            std::thread t([&] { rng_t q{r.s + 1}; delay(q); observe(1, 1); try { g(); } catch (...) { e = std::current_exception(); } });
            try { observe(0, 0); f(); } catch (...) { t.join(); throw; }
            t.join();
            s.live.fetch_sub(1, std::memory_order_relaxed);
            if (e) std::rethrow_exception(e);
        } else if (r.below(2)) { f(); g(); }
        else { g(); f(); }
    }
}
