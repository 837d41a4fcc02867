// Runs higra's parallelised operations on generated inputs and prints one digest per case.
// usage: mt SEED LO HI [THREADS SCHEDULE_SEED]
// Compiled twice: with HG_USE_TBB (stand-in scheduler, ThreadSanitizer) and without (the sequential reference).
// Output: "case <i> <kind> <size> <digest> <ok|text of what a direct check of the specification found>"
#include "higra/accumulator/tree_accumulator.hpp"
#include "higra/algo/graph_core.hpp"
#include "higra/algo/graph_weights.hpp"
#include "higra/algo/tree.hpp"
#include "higra/algo/watershed.hpp"
#include "higra/graph.hpp"
#include "higra/hierarchy/component_tree.hpp"
#include "higra/hierarchy/hierarchy_core.hpp"
#include "higra/image/graph_image.hpp"
#include "higra/sorting.hpp"
#include "higra/structure/lca_fast.hpp"
#include <cstdio>
#include <map>
#include <numeric>
#include <set>
#ifdef HG_USE_TBB
#include "tbb/hgv_sched.h"
#endif
using namespace hg;

struct R {
    uint64_t s;
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    int64_t in(int64_t a, int64_t b) { return a + (int64_t) (next() % (uint64_t) (b - a + 1)); }
    double unit() { return (double) (next() >> 11) / 9007199254740992.0; }
    bool p(double x) { return unit() < x; }
};
static uint64_t H;
static std::string bad;
static void mix(uint64_t v) { H ^= v; H *= 0x100000001b3ull; H ^= H >> 29; }
static void mixd(double d) { if (d == 0) d = 0; uint64_t u; memcpy(&u, &d, 8); mix(u); }
template<typename A> static void mixa(const A &a) { mix(a.size()); for (auto x: a) mixd((double) x); }
static void ck(bool c, const char *m) { if (!c && bad.empty()) bad = m; }

static size_t pick_size(R &r) {
    switch (r.in(0, 9)) {
        case 0: return r.in(0, 3);
        case 1: return r.in(4, 60);
        case 2: return r.in(490, 510);
        case 3: return r.in(1990, 2010);
        case 4: return r.in(999, 1003);
        case 5: case 6: return r.in(500, 3000);
        case 7: return r.in(3000, 9000);
        default: return r.in(60, 600);
    }
}
// keys of one of several shapes
template<typename T> static std::vector<T> keys(R &r, size_t n) {
    std::vector<T> v(n);
    int k = r.in(0, 6), m = r.in(2, 9);
    for (size_t i = 0; i < n; i++) {
        switch (k) {
            case 0: v[i] = (T) r.in(0, 1000000); break;
            case 1: v[i] = (T) r.in(0, m); break;
            case 2: v[i] = (T) 3; break;
            case 3: v[i] = (T) (i / m); break;
            case 4: v[i] = (T) ((n - i) / m); break;
            case 5: v[i] = (T) (i < n / 2 ? i : n - i); break;
            default: v[i] = (T) (r.p(0.02) ? r.in(0, 1000) : (int64_t) i); break;
        }
        if (std::is_floating_point<T>::value && k == 0) v[i] += (T) r.unit();
        if (std::is_signed<T>::value && k != 2 && m % 2) v[i] = -v[i];
    }
    return v;
}
template<typename T> static void t_sort(R &r, size_t n) {
    auto v = keys<T>(r, n);
    array_1d<T> a = xt::adapt(v, {n});
    bool greater = r.p(0.3);
    auto ref = v;
    if (greater) std::sort(ref.begin(), ref.end(), std::greater<T>()); else std::sort(ref.begin(), ref.end());
    int how = r.in(0, 3);
    if (how == 0) { if (greater) hg::sort(a, std::greater<T>()); else hg::sort(a); }
    else if (how == 1) { if (greater) hg::stable_sort(a, std::greater<T>()); else hg::stable_sort(a); }
    else if (how == 2) { hg::sort(v.begin(), v.end(), [greater](T x, T y) { return greater ? y < x : x < y; }); std::copy(v.begin(), v.end(), a.begin()); }
    else { hg::stable_sort(v.begin(), v.end(), [greater](T x, T y) { return greater ? y < x : x < y; }); std::copy(v.begin(), v.end(), a.begin()); }
    ck(std::equal(ref.begin(), ref.end(), a.begin()), "array not sorted");
    mixa(a);
}
struct rec { // owns memory: lost, doubled or destroyed elements show
    int key; int id; std::string tag;
};
static void t_stable_records(R &r, size_t n) {
    std::vector<rec> v(n);
    auto k = keys<int>(r, n);
    for (size_t i = 0; i < n; i++) v[i] = rec{k[i], (int) i, "a tag that does not fit in the small buffer " + std::to_string(i)};
    auto ref = v;
    auto comp = [](const rec &a, const rec &b) { return a.key < b.key; };
    std::stable_sort(ref.begin(), ref.end(), comp);
    hg::stable_sort(v.begin(), v.end(), comp);
    for (size_t i = 0; i < n; i++) {
        ck(v[i].id == ref[i].id && v[i].key == ref[i].key && v[i].tag == ref[i].tag, "stable sort of records");
        mix(v[i].id);
    }
}
template<typename T> static void t_argsort(R &r, size_t n) {
    bool d2 = r.p(0.4), stable = r.p(0.6), greater = r.p(0.3);
    size_t dim = d2 ? r.in(1, 4) : 1;
    auto v = keys<T>(r, n * dim);
    if (d2) for (size_t i = 0; i < n; i++) for (size_t k = 0; k + 1 < dim; k++) v[i * dim + k] = v[(i % 5) * dim + k]; // equal prefixes
    array_1d<index_t> res;
    auto go = [&](const auto &a) {
        if (stable) { if (greater) res = stable_arg_sort(a, std::greater<T>()); else res = stable_arg_sort(a); }
        else { if (greater) res = arg_sort(a, std::greater<T>()); else res = arg_sort(a); }
    };
    if (d2) { array_2d<T> a = xt::adapt(v, {n, dim}); go(a); }
    else { array_1d<T> a = xt::adapt(v, {n}); go(a); }
    auto less = [&](index_t i, index_t j) {
        for (size_t k = 0; k < dim; k++) {
            T x = v[i * dim + k], y = v[j * dim + k];
            if (x != y) return greater ? y < x : x < y;
        }
        return false;
    };
    std::vector<char> seen(n, 0);
    ck(res.size() == n, "arg sort size");
    for (size_t i = 0; i < res.size(); i++) {
        bool in = res(i) >= 0 && (size_t) res(i) < n;
        ck(in && !seen[res(i)], "arg sort is not a permutation");
        if (!in) return;
        seen[res(i)] = 1;
        if (i) {
            ck(!less(res(i), res(i - 1)), "arg sort not ordered");
            if (stable && !less(res(i - 1), res(i))) ck(res(i - 1) < res(i), "arg sort not stable");
        }
        if (stable) mix(res(i));
        else for (size_t k = 0; k < dim; k++) mixd((double) v[res(i) * dim + k]);
    }
}
static void t_parfor(R &r, size_t n) {
    index_t a = r.in(-50, 50), b = a + (index_t) n, st = r.in(1, r.p(0.5) ? 1 : 7);
    if (r.p(0.1)) b = a - r.in(0, 3);
    std::vector<int> cnt(n + 60, 0);
    std::vector<double> out(n + 60, 0);
    hg::parfor(a, b, [&cnt, &out, a](index_t i) { cnt[i - a]++; out[i - a] = std::sqrt((double) (i - a)) * 3; }, st);
    for (index_t i = a; i < b + 7; i++) {
        int want = i < b && (i - a) % st == 0 ? 1 : 0;
        if (i - a < (index_t) cnt.size() && i >= a) { ck(cnt[i - a] == want, "parfor does not visit each index once"); mixd(out[i - a]); }
    }
}
template<typename Q, typename... A> static void rmq_go(R &r, const array_1d<index_t> &v, A... args) {
    Q q(v, args...);
    index_t n = v.size();
    for (int k = 0; k < 120; k++) {
        index_t l = r.in(0, n - 2), e = std::min<index_t>(n, l + 1 + (k % 3 ? r.in(0, 8) : r.in(0, n)));
        if (e <= l) e = l + 1;
        if (std::is_same<Q, range_minimum_query_internal::rmq_sparse_table_block<index_t>>::value && e >= n) e = n - 1;
        if (e <= l) continue;
        index_t m = q.query(l, e);
        index_t best = *std::min_element(v.begin() + l, v.begin() + e);
        bool block = std::is_same<Q, range_minimum_query_internal::rmq_sparse_table_block<index_t>>::value;
        if (block) best = std::min(best, *std::min_element(v.begin() + l, v.begin() + e + 1)); // reported as closed interval below if so
        ck(m >= l && m <= e, "rmq out of the interval");
        if (m >= 0 && m < n) { ck(v(m) == best || v(m) == *std::min_element(v.begin() + l, v.begin() + e), "rmq is not a minimum"); mixd(v(m)); }
    }
}
static void t_rmq(R &r, size_t n) {
    n = std::max<size_t>(n, 3);
    array_1d<index_t> v = array_1d<index_t>::from_shape({n});
    index_t cur = r.in(0, 20);
    int k = r.in(0, 2);
    for (size_t i = 0; i < n; i++) { v(i) = k == 0 ? (cur += (r.p(0.5) ? 1 : -1)) : k == 1 ? r.in(0, 1000000) : r.in(0, 4); }
    if (r.p(0.4)) rmq_go<range_minimum_query_internal::rmq_sparse_table<index_t>>(r, v);
    else rmq_go<range_minimum_query_internal::rmq_sparse_table_block<index_t>>(r, v, (size_t) (r.p(0.3) ? r.in(1, 5) : r.p(0.5) ? r.in(5, 200) : r.in(200, 3000)));
}
static tree make_tree(R &r, size_t leaves) {
    int k = r.in(0, 4);
    std::vector<index_t> par;
    leaves = std::max<size_t>(leaves, 1);
    // merge adjacent groups of live roots until one is left
    std::vector<index_t> live(leaves);
    std::iota(live.begin(), live.end(), 0);
    par.resize(leaves, 0);
    if (leaves == 1) { array_1d<index_t> p{1, 1}; return tree(p); }
    while (live.size() > 1) {
        size_t g = k == 0 ? 2 : k == 1 ? 2 : k == 2 ? (size_t) r.in(1, 4) : k == 3 ? (size_t) r.in(2, 40) : 3;
        if (k == 2 && g == 1 && par.size() > 3 * leaves) g = 2;
        g = std::min(g, live.size());
        size_t at = k == 1 ? 0 : (size_t) r.in(0, live.size() - g);
        index_t node = par.size();
        par.push_back(node);
        for (size_t i = 0; i < g; i++) par[live[at + i]] = node;
        if (k == 1) { live.erase(live.begin(), live.begin() + g); live.insert(live.begin(), node); if (live.size() == 1) break; }
        else { live[at] = node; live.erase(live.begin() + at + 1, live.begin() + at + g); }
    }
    array_1d<index_t> p = xt::adapt(par, {par.size()});
    return tree(p);
}
static index_t naive_lca(const tree &t, index_t a, index_t b) {
    while (a != b) { if (a < b) a = t.parents()(a); else b = t.parents()(b); }
    return a;
}
template<typename L, typename T> static void lca_go(R &r, const L &l, const tree &t, size_t q) {
    index_t n = num_vertices(t);
    array_1d<T> a = array_1d<T>::from_shape({q}), b = array_1d<T>::from_shape({q});
    for (size_t i = 0; i < q; i++) { a(i) = (T) r.in(0, n - 1); b(i) = r.p(0.1) ? a(i) : (T) r.in(0, n - 1); }
    auto res = l.lca(a, b);
    std::vector<std::pair<index_t, index_t>> pairs;
    for (size_t i = 0; i < q; i++) pairs.push_back({(index_t) a(i), (index_t) b(i)});
    auto res2 = l.lca(pairs);
    ck(res.size() == q && res2.size() == q, "lca size");
    size_t ckn = std::min<size_t>(q, 200);
    for (size_t i = 0; i < q; i++) {
        ck(res(i) == res2(i), "lca of pairs and of arrays differ");
        if (i < ckn) ck(res(i) == naive_lca(t, a(i), b(i)), "lca is wrong");
        mix(res(i));
    }
    ugraph g(t.num_leaves());
    size_t m = std::min<size_t>(q, 300);
    for (size_t i = 0; i < m; i++) add_edge(r.in(0, num_leaves(t) - 1), r.in(0, num_leaves(t) - 1), g);
    auto res3 = l.lca(edge_iterator(g));
    for (size_t i = 0; i < m; i++) {
        auto e = edge_from_index(i, g);
        ck(res3(i) == naive_lca(t, source(e, g), target(e, g)), "lca of edges is wrong");
        mix(res3(i));
    }
}
static void t_lca(R &r, size_t n) {
    auto t = make_tree(r, n / 2 + 1);
    size_t q = pick_size(r) / 2 + 1;
    if (r.p(0.4)) {
        lca_sparse_table l(t);
        lca_go<lca_sparse_table, int>(r, l, t, q);
        auto l2 = lca_sparse_table::make_from_state(l.get_state());
        lca_go<lca_sparse_table, unsigned long long>(r, l2, t, q);
    } else {
        lca_sparse_table_block l(t, (size_t) (r.p(0.3) ? r.in(1, 5) : r.p(0.5) ? r.in(5, 200) : r.in(200, 3000)));
        lca_go<lca_sparse_table_block, long long>(r, l, t, q);
        auto l2 = lca_sparse_table_block::make_from_state(l.get_state());
        lca_go<lca_sparse_table_block, unsigned int>(r, l2, t, q);
    }
}
template<typename G> static void weights_on(R &r, const G &g, size_t nv) {
    using T = double;
    size_t dim = r.p(0.5) ? 0 : r.in(1, 4);
    std::vector<T> v(nv * std::max<size_t>(dim, 1));
    for (auto &x: v) x = (T) r.in(-50, 50) / 4;
    static const weight_functions scal[] = {weight_functions::mean, weight_functions::min, weight_functions::max, weight_functions::L0, weight_functions::L1,
                                            weight_functions::L2, weight_functions::L_infinity, weight_functions::L2_squared, weight_functions::source, weight_functions::target};
    static const weight_functions vec[] = {weight_functions::L0, weight_functions::L1, weight_functions::L2, weight_functions::L_infinity, weight_functions::L2_squared};
    array_1d<double> w;
    auto f = dim ? vec[r.in(0, 4)] : scal[r.in(0, 9)];
    if (dim) {
        if (r.p(0.5)) { array_2d<T> a = xt::adapt(v, {nv, dim}); w = weight_graph(g, a, f); }
        else { array_nd<T> a = xt::adapt(v, std::vector<size_t>{nv, dim}); w = weight_graph(g, a, f); }
    } else {
        if (r.p(0.5)) { array_1d<T> a = xt::adapt(v, {nv}); w = weight_graph(g, a, f); }
        else { array_nd<T> a = xt::adapt(v, std::vector<size_t>{nv}); w = weight_graph(g, a, f); }
    }
    mixa(w);
    std::function<int(index_t, index_t)> fun = [](index_t a, index_t b) -> int { return (int) (a * 3 - b); };
    auto w2 = weight_graph<int>(g, std::function<int(typename G::vertex_descriptor, typename G::vertex_descriptor)>(fun));
    mixa(w2);
}
static void t_weights(R &r, size_t n) {
    if (r.p(0.3)) {
        auto t = make_tree(r, n / 2 + 1);
        weights_on(r, t, num_vertices(t));
        return;
    }
    size_t nv = std::max<size_t>(1, n / 2);
    ugraph g(nv);
    for (size_t i = 0; i < n; i++) {
        index_t a = r.in(0, nv - 1), b = r.p(0.05) ? a : r.in(0, nv - 1);
        add_edge(a, b, g);
    }
    for (size_t i = 0; i < n / 50; i++) remove_edge(r.in(0, n - 1), g);
    weights_on(r, g, nv);
}
static ugraph grid(R &r, size_t n, size_t &h, size_t &w) {
    h = (size_t) r.in(1, 1 + (index_t) std::sqrt((double) n / 2 + 1));
    w = std::max<size_t>(1, n / 2 / h);
    return r.p(0.5) ? get_4_adjacency_graph({(index_t) h, (index_t) w}) : get_8_adjacency_graph({(index_t) h, (index_t) w});
}
static void t_hierarchy(R &r, size_t n) {
    n = std::max<size_t>(n, 4);
    size_t h, w;
    auto g = grid(r, n, h, w);
    if (num_edges(g) == 0) return;
    auto k = keys<double>(r, num_edges(g));
    array_1d<double> ew = xt::adapt(k, {k.size()});
    switch (r.in(0, 3)) {
        case 0: {
            auto b = bpt_canonical(g, ew);
            mixa(b.tree.parents()); mixa(b.altitudes); mixa(b.mst_edge_map);
            lca_fast l(b.tree);
            auto anc = l.lca(edge_iterator(g));
            for (auto x: anc) mixd(b.altitudes(x));
            break;
        }
        case 1: {
            auto q = quasi_flat_zone_hierarchy(g, ew);
            mixa(q.tree.parents()); mixa(q.altitudes);
            break;
        }
        case 2: {
            auto l = labelisation_watershed(g, ew);
            mixa(l);
            break;
        }
        default: {
            auto kv = keys<float>(r, h * w);
            array_1d<float> vw = xt::adapt(kv, {kv.size()});
            bool mx = r.p(0.5);
            auto t = mx ? component_tree_max_tree(g, vw) : component_tree_min_tree(g, vw);
            mixa(t.tree.parents()); mixa(t.altitudes);
            auto t2 = make_tree(r, n / 2 + 1);
            array_1d<double> alt = xt::zeros<double>({num_vertices(t2)});
            for (index_t i = 0; i < (index_t) num_vertices(t2) - 1; i++) alt(t2.parents()(i)) = std::max(alt(t2.parents()(i)), alt(i) + (double) r.in(1, 3));
            auto s = sort_hierarchy_with_altitudes(t2, alt);
            mixa(s.tree.parents()); mixa(s.node_map);
        }
    }
}
int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], nullptr, 10);
    int lo = atoi(argv[2]), hi = atoi(argv[3]);
#ifdef HG_USE_TBB
    if (argc > 4) hgv_sched::num_threads().store(atoi(argv[4]));
#endif
    static const char *names[] = {"sort", "records", "argsort", "parfor", "rmq", "lca", "weights", "hierarchy"};
    for (int i = lo; i < hi; i++) {
#ifdef HG_USE_TBB
        hgv_sched::seed().store(argc > 5 ? strtoull(argv[5], nullptr, 10) * 65537u + i : i);
        fprintf(stderr, "@case %d\n", i);
#endif
        R r{seed * 1000003u + i * 7919u};
        r.next();
        H = 0xcbf29ce484222325ull;
        bad.clear();
        int kind = i % 8;
        size_t n = pick_size(r);
        try {
            switch (kind) {
                case 0: switch (r.in(0, 4)) { case 0: t_sort<double>(r, n); break; case 1: t_sort<int64_t>(r, n); break; case 2: t_sort<uint8_t>(r, n); break; case 3: t_sort<float>(r, n); break; default: t_sort<int16_t>(r, n); } break;
                case 1: t_stable_records(r, n); break;
                case 2: switch (r.in(0, 3)) { case 0: t_argsort<double>(r, n); break; case 1: t_argsort<int32_t>(r, n); break; case 2: t_argsort<uint8_t>(r, n); break; default: t_argsort<float>(r, n); } break;
                case 3: t_parfor(r, n); break;
                case 4: t_rmq(r, n); break;
                case 5: t_lca(r, n); break;
                case 6: t_weights(r, n); break;
                default: t_hierarchy(r, n);
            }
        } catch (const std::exception &e) { bad = std::string("exception: ") + e.what(); }
        printf("case %d %s %zu %016llx %s\n", i, names[kind], n, (unsigned long long) H, bad.empty() ? "ok" : bad.c_str());
        fflush(stdout);
    }
#ifdef HG_USE_TBB
    while (hgv_sched::stats().live.load()) sched_yield();
    auto &s = hgv_sched::stats();
    printf("stats regions=%llu parallel_regions=%llu chunks=%llu iterations=%llu threads=%llu tasks=%llu stolen=%llu order=%016llx\n",
           (unsigned long long) s.regions, (unsigned long long) s.parallel_regions, (unsigned long long) s.chunks, (unsigned long long) s.iterations,
           (unsigned long long) s.threads, (unsigned long long) s.tasks, (unsigned long long) s.stolen, (unsigned long long) s.order);
#endif
    return 0;
}
