// histories of operations on higra's C++ structures, each compared with a model of its abstract type
#include "native.hpp"
#include "higra/graph.hpp"
#include "higra/sorting.hpp"
#include "higra/structure/fibonacci_heap.hpp"
#include "higra/structure/lca_fast.hpp"
#include "higra/structure/regular_graph.hpp"
#include "higra/structure/unionfind.hpp"
#include "higra/structure/details/light_axis_view.hpp"
#include "higra/io/pnm_io.hpp"
#include <memory>
using namespace hg;
using std::vector;

// ---------------------------------------------------------------- priority queues
template<typename V> struct val;
template<> struct val<double> { static double make(R &r, int m) { return r.p(0.03) ? (r.p(0.5) ? INFINITY : -INFINITY) : (double) r.in(-m, m) / 4; } static double lower(R &r, double v) { return std::isinf(v) ? -INFINITY : v - r.in(0, 9) / 4.0; } static double upper(R &r, double v) { return std::isinf(v) ? INFINITY : v + r.in(0, 9) / 4.0; } };
template<> struct val<std::pair<int, int>> { using P = std::pair<int, int>; static P make(R &r, int m) { return {(int) r.in(-m, m), (int) r.in(0, 2)}; } static P lower(R &r, P v) { return {v.first - (int) r.in(0, 3), v.second}; } static P upper(R &r, P v) { return {v.first + (int) r.in(0, 3), v.second}; } };
template<> struct val<std::string> { using S = std::string; static S key(int64_t k) { char b[64]; snprintf(b, 64, "a rather long key, so that it owns memory %08ld", (long) (k + 1000000)); return b; }
    static S make(R &r, int m) { return key(r.in(-m, m)); } static int64_t num(const S &v) { return atol(v.c_str() + v.size() - 8) - 1000000; } static S lower(R &r, S v) { return key(num(v) - r.in(0, 3)); } static S upper(R &r, S v) { return key(num(v) + r.in(0, 3)); } };

template<typename V> static void heap_history(R &r, const char *name) {
    using heap = fibonacci_heap<V>;
    using handle = typename heap::value_handle;
    struct model { std::map<handle, V> m; std::multiset<V> s;
        void add(handle h, const V &v) { m.emplace(h, v); s.insert(v); }
        void del(handle h) { auto it = m.find(h); s.erase(s.find(it->second)); m.erase(it); }
        void set(handle h, const V &v) { del(h); add(h, v); } };
    kind = name;
    vector<std::unique_ptr<heap>> hs;
    vector<model> ms;
    for (int i = 0; i < 3; i++) { hs.emplace_back(new heap()); ms.emplace_back(); }
    int m = (int) r.in(1, 40), steps = (int) r.in(5, r.p(0.2) ? 1500 : 160);
    double grow = 0.3 + 0.5 * r.unit();
    for (int t = 0; t < steps && bad.empty(); t++) {
        size_t k = r.in(0, 2);
        heap &h = *hs[k];
        model &o = ms[k];
        auto any = [&]() { auto it = o.m.begin(); std::advance(it, r.in(0, (int64_t) o.m.size() - 1)); return it->first; };
        int op = r.p(grow) ? 0 : (int) r.in(1, 14);
        mix(op);
        if (op == 0 || o.m.empty()) {
            V v = val<V>::make(r, m);
            auto x = h.push(v);
            ck(!o.m.count(x), "handle", "push returned a live handle");
            ck(x->get_value() == v, "value", "pushed value lost");
            o.add(x, v);
        } else if (op <= 4) { // extract the minimum
            auto x = h.top();
            if (!ck(o.m.count(x), "top", "top is not a live handle")) return;
            ck(o.m.at(x) == *o.s.begin(), "minimum", "top is not the smallest value");
            o.del(x);
            h.pop();
        } else if (op == 5 || op == 6) {
            auto x = any();
            o.del(x);
            h.erase(x);
        } else if (op == 7 || op == 8) {
            auto x = any();
            V v = val<V>::lower(r, o.m.at(x));
            h.decrease(x, v);
            o.set(x, v);
        } else if (op == 9) {
            auto x = any();
            V v = val<V>::upper(r, o.m.at(x));
            h.increase(x, v);
            o.set(x, v);
        } else if (op == 10) {
            auto x = any();
            V v = val<V>::make(r, m);
            h.update(x, v);
            o.set(x, v);
        } else if (op == 11 || op == 12) { // merge
            size_t k2 = (k + 1 + r.in(0, 1)) % 3;
            h.merge(*hs[k2]);
            for (auto &e: ms[k2].m) o.add(e.first, e.second);
            ms[k2] = model();
        } else if (op == 13) {
            if (r.p(0.3)) { h.clear(); o = model(); }
        } else { // move
            if (r.p(0.5)) {
                std::unique_ptr<heap> n(new heap(std::move(h)));
                ck(h.empty() && h.size() == 0, "moved-from", "a moved heap is not empty");
                hs[k] = std::move(n);
            } else {
                size_t k2 = (k + 1) % 3;
                heap &ret = (*hs[k2] = std::move(h));
                ck(&ret == hs[k2].get(), "assignment", "move assignment does not return its object");
                ms[k2] = std::move(o);
                o = model();
                ck(h.empty() && h.size() == 0, "moved-from", "a moved heap is not empty");
            }
        }
        for (int i = 0; i < 3; i++) {
            ck(hs[i]->size() == ms[i].m.size(), "size", s(hs[i]->size()) + " for " + s(ms[i].m.size()));
            ck(hs[i]->empty() == ms[i].m.empty(), "empty");
            if (bad.empty() && !ms[i].m.empty()) {
                auto x = hs[i]->top();
                ck(ms[i].m.count(x) && ms[i].m.at(x) == *ms[i].s.begin() && x->get_value() == *ms[i].s.begin(), "minimum", "top is not the smallest value");
            }
        }
        if (r.p(0.1))
            for (auto &e: ms[k].m) ck(e.first->get_value() == e.second, "value", "a stored value changed");
    }
    for (int i = 0; i < 3 && bad.empty(); i++) { // drain in order
        vector<V> got;
        while (!hs[i]->empty() && got.size() <= ms[i].s.size()) { got.push_back(hs[i]->top()->get_value()); hs[i]->pop(); }
        ck(got == vector<V>(ms[i].s.begin(), ms[i].s.end()), "order", "values do not come out in order");
        mix(got.size());
    }
}
static void f_heap(R &r) {
    switch (r.in(0, 2)) {
        case 0: return heap_history<double>(r, "double");
        case 1: return heap_history<std::pair<int, int>>(r, "pair");
        default: return heap_history<std::string>(r, "string");
    }
}

// ---------------------------------------------------------------- disjoint sets
static void f_sets(R &r) {
    size_t n = r.in(0, 40);
    union_find u(n);
    vector<int> lab;
    for (size_t i = 0; i < n; i++) lab.push_back((int) i);
    int steps = (int) r.in(1, 200), next = (int) n;
    kind = "sets";
    for (int t = 0; t < steps && bad.empty(); t++) {
        int op = (int) r.in(0, 9);
        mix(op);
        if (op == 0 || lab.empty()) {
            auto i = u.make_set();
            ck(i == (index_t) lab.size(), "make_set", "new set has the wrong index");
            lab.push_back(next++);
        } else if (op <= 4) {
            index_t a = r.in(0, lab.size() - 1), b = r.in(0, lab.size() - 1);
            auto ca = u.find(a), cb = u.find(b);
            ck((ca == cb) == (lab[a] == lab[b]), "find", "sets wrongly joined or split");
            if (ca != cb) {
                auto c = u.link(ca, cb);
                ck(c == ca || c == cb, "link", "link returned neither canonical element");
                ck(u.find(a) == c && u.find(b) == c, "link", "linked elements have another canonical element");
                int l = lab[b], l2 = lab[a];
                for (auto &x: lab) if (x == l) x = l2;
            }
        } else {
            index_t a = r.in(0, lab.size() - 1), b = r.in(0, lab.size() - 1);
            ck((u.find(a) == u.find(b)) == (lab[a] == lab[b]), "find", "sets wrongly joined or split");
            ck(u.find(u.find(a)) == u.find(a), "find", "canonical element is not its own");
            ck(lab[u.find(a)] == lab[a], "find", "canonical element outside of the set");
        }
    }
}

// ---------------------------------------------------------------- graphs with both storages
template<typename S> static void check_graph(const undirected_graph<S> &g, const vector<std::pair<index_t, index_t>> &es, size_t nv) {
    ck(num_vertices(g) == nv, "vertices");
    ck(num_edges(g) == es.size(), "edges");
    if (!bad.empty()) return;
    index_t i = 0;
    for (auto e: edge_iterator(g)) {
        ck(e.index == i && e.source == es[i].first && e.target == es[i].second, "edge list", s(i));
        i++;
    }
    ck(i == (index_t) es.size(), "edge list", "length");
    auto so = g.sources(), ta = g.targets();
    for (size_t k = 0; k < es.size(); k++) {
        ck(so(k) == es[k].first && ta(k) == es[k].second, "sources", s(k));
        auto &e = edge_from_index(k, g);
        ck(source(e, g) == es[k].first && target(e, g) == es[k].second && index(e, g) == (index_t) k, "edge from index", s(k));
    }
    index_t nbv = 0;
    for (auto v: vertex_iterator(g)) {
        ck(v == nbv++, "vertex list");
        std::multiset<std::pair<index_t, index_t>> want, o, in;
        std::multiset<index_t> wa, a;
        for (size_t k = 0; k < es.size(); k++) {
            if (es[k].first == v) { want.insert({(index_t) k, es[k].second}); wa.insert(es[k].second); }
            else if (es[k].second == v) { want.insert({(index_t) k, es[k].first}); wa.insert(es[k].first); }
        }
        for (auto e: out_edge_iterator(v, g)) { ck(e.source == v, "out edge source"); o.insert({e.index, e.target}); }
        for (auto e: in_edge_iterator(v, g)) { ck(e.target == v, "in edge target"); in.insert({e.index, e.source}); }
        for (auto x: adjacent_vertex_iterator(v, g)) a.insert(x);
        ck(o == want, "out edges", s(v));
        ck(in == want, "in edges", s(v));
        ck(a == wa, "adjacent vertices", s(v));
        ck(degree(v, g) == want.size() && in_degree(v, g) == want.size() && out_degree(v, g) == want.size(), "degree", s(v));
    }
    ck(nbv == (index_t) nv, "vertex list", "length");
}
template<typename S> static void graph_history(R &r) {
    size_t nv = r.in(0, 8);
    std::unique_ptr<undirected_graph<S>> g(new undirected_graph<S>(nv, r.in(0, 5), r.in(0, 3)));
    vector<std::pair<index_t, index_t>> es;
    int steps = (int) r.in(1, 60);
    for (int t = 0; t < steps && bad.empty(); t++) {
        int op = (int) r.in(0, 9);
        mix(op);
        auto norm = [](index_t a, index_t b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); };
        if (op <= 4 && nv) {
            index_t a = r.in(0, nv - 1), b = r.p(0.15) ? a : r.in(0, nv - 1);
            auto e = r.p(0.5) ? add_edge(a, b, *g) : g->add_edge(std::make_pair(a, b));
            es.push_back(norm(a, b));
            ck(e.index == (index_t) es.size() - 1 && e.source == es.back().first && e.target == es.back().second, "add_edge");
        } else if (op == 5 && !es.empty()) {
            index_t e = r.in(0, es.size() - 1);
            remove_edge(e, *g);
            es[e] = {invalid_index, invalid_index};
        } else if (op == 6 && !es.empty()) {
            index_t e = r.in(0, es.size() - 1), a = r.in(0, nv - 1), b = r.p(0.2) ? es[e].first : r.in(0, nv - 1);
            if (b == invalid_index) b = a;
            set_edge(e, a, b, *g);
            es[e] = norm(a, b);
        } else if (op == 7) {
            ck(add_vertex(*g) == (index_t) nv, "add_vertex");
            nv++;
        } else if (op == 8) {
            size_t k = r.in(0, 3);
            add_vertices(k, *g);
            nv += k;
        } else if (op == 9) { // copies are independent and survive the original
            std::unique_ptr<undirected_graph<S>> c;
            if (r.p(0.5)) c.reset(new undirected_graph<S>(*g));
            else { c.reset(new undirected_graph<S>(3)); *c = *g; }
            if (nv) { g->add_edge(0, nv - 1); g->add_vertex(); }
            if (!es.empty()) g->remove_edge(r.in(0, es.size() - 1));
            if (r.p(0.3)) { undirected_graph<S> mv(std::move(*c)); c.reset(new undirected_graph<S>()); *c = std::move(mv); }
            g = std::move(c);
        }
        if (r.p(0.5) || t == steps - 1) check_graph(*g, es, nv);
    }
}
static void f_graph(R &r) {
    if (r.p(0.5)) { kind = "list"; graph_history<vecS>(r); }
    else { kind = "hash"; graph_history<hash_setS>(r); }
}

// ---------------------------------------------------------------- implicit grid graphs
template<int D> static void grid(R &r) {
    using emb = embedding_grid<D>;
    using pt = point<index_t, D>;
    std::array<index_t, D> sh;
    vector<index_t> shape;
    size_t n = 1;
    for (int d = 0; d < D; d++) { sh[d] = r.in(1, D == 1 ? 12 : D == 2 ? 7 : 4); shape.push_back(sh[d]); n *= sh[d]; }
    emb e(shape);
    std::vector<pt> nb;
    int k = (int) r.in(0, 6);
    for (int i = 0; i < k; i++) { pt p; for (int d = 0; d < D; d++) p(d) = r.in(-2, 2) * (r.p(0.15) ? 2 : 1); nb.push_back(p); }
    std::unique_ptr<regular_graph<emb>> g0(new regular_graph<emb>(e, nb)), g;
    if (r.p(0.5)) { g.reset(new regular_graph<emb>(*g0)); g0.reset(); } else g = std::move(g0); // copies survive the original
    ck(num_vertices(*g) == n, "vertices");
    index_t v = 0;
    for (auto x: vertex_iterator(*g)) {
        ck(x == v, "vertex list");
        std::array<index_t, D> c;
        index_t rem = v;
        for (int d = D - 1; d >= 0; d--) { c[d] = rem % sh[d]; rem /= sh[d]; }
        vector<index_t> want, a, o, in;
        for (auto &p: nb) {
            bool inside = true;
            index_t l = 0;
            for (int d = 0; d < D; d++) { auto y = c[d] + p(d); if (y < 0 || y >= sh[d]) inside = false; l = l * sh[d] + y; }
            if (inside) want.push_back(l);
        }
        for (auto y: adjacent_vertex_iterator(v, *g)) a.push_back(y);
        for (auto y: out_edge_iterator(v, *g)) { ck(source(y, *g) == v, "out edge source"); o.push_back(target(y, *g)); }
        for (auto y: in_edge_iterator(v, *g)) { ck(target(y, *g) == v, "in edge target"); in.push_back(source(y, *g)); }
        ck(a == want, "adjacent vertices", s(v) + " " + str(a) + " for " + str(want));
        ck(o == want, "out edges", s(v));
        ck(in == want, "in edges", s(v));
        ck(degree(v, *g) == want.size() && in_degree(v, *g) == want.size() && out_degree(v, *g) == want.size(), "degree", s(v));
        v++;
        mix(want.size());
    }
    ck(v == (index_t) n, "vertex list", "length");
}
static void f_grid(R &r) {
    switch (r.in(1, 4)) {
        case 1: kind = "1d"; return grid<1>(r);
        case 2: kind = "2d"; return grid<2>(r);
        case 3: kind = "3d"; return grid<3>(r);
        default: kind = "4d"; return grid<4>(r);
    }
}

// ---------------------------------------------------------------- trees
static vector<index_t> random_parents(R &r, int maxn) {
    int nl = (int) r.in(1, maxn), ni = (int) r.in(nl == 1 ? 0 : 1, std::max(nl == 1 ? 0 : 1, nl - 1));
    if (nl == 1) ni = (int) r.in(0, 3);
    int n = nl + ni;
    vector<index_t> par(n);
    int style = (int) r.in(0, 2);
    // every internal node needs a child: node nl+i takes an unused lower node first
    vector<int> used(n, 0);
    for (int i = nl; i < n; i++) {
        vector<int> free;
        for (int j = 0; j < i; j++) if (!used[j]) free.push_back(j);
        int c = style == 1 ? free.back() : free[r.in(0, free.size() - 1)];
        used[c] = 1;
        par[c] = i;
    }
    for (int j = 0; j < n - 1; j++) if (!used[j]) { int lo = std::max(j + 1, nl); par[j] = style == 2 ? std::min(n - 1, lo + (int) r.in(0, 2)) : r.in(lo, n - 1); }
    par[n - 1] = n - 1;
    for (auto p: par) mix(p);
    return par;
}
static array_1d<index_t> arr(const vector<index_t> &v) { array_1d<index_t> a = array_1d<index_t>::from_shape({v.size()}); std::copy(v.begin(), v.end(), a.begin()); return a; }
static index_t lca_of(const vector<index_t> &p, index_t a, index_t b) { std::set<index_t> s; for (index_t x = a;; x = p[x]) { s.insert(x); if (p[x] == x) break; } for (index_t x = b;; x = p[x]) if (s.count(x)) return x; }

static void f_tree(R &r) {
    auto par = random_parents(r, (int) r.in(1, 14));
    index_t n = par.size();
    kind = n > 1 ? "tree" : "single";
    std::unique_ptr<hg::tree> t(new hg::tree(arr(par)));
    int how = (int) r.in(0, 3);
    t->compute_children();
    if (how == 1) t.reset(new hg::tree(hg::tree(*t)));
    if (how == 2) { std::unique_ptr<hg::tree> c(new hg::tree()); *c = *t; t = std::move(c); }
    if (how == 3) { t->clear_children(); t->clear_children(); t->compute_children(); t->compute_children(); }
    ck(num_vertices(*t) == (size_t) n && num_edges(*t) == (size_t) n - 1 && root(*t) == n - 1, "size");
    vector<vector<index_t>> ch(n);
    for (index_t i = 0; i < n - 1; i++) ch[par[i]].push_back(i);
    index_t nl = 0;
    while (nl < n && ch[nl].empty()) nl++;
    ck(num_leaves(*t) == (size_t) nl, "leaves");
    index_t k = 0;
    for (auto e: edge_iterator(*t)) { ck(source(e, *t) == k && target(e, *t) == par[k] && index(e, *t) == k, "edge list", s(k)); k++; }
    ck(k == n - 1, "edge list", "length");
    vector<index_t> lr, rl, lr0, rl0, lv;
    for (auto v: leaves_to_root_iterator(*t)) lr.push_back(v);
    for (auto v: root_to_leaves_iterator(*t)) rl.push_back(v);
    for (auto v: leaves_to_root_iterator(*t, leaves_it::exclude, root_it::exclude)) lr0.push_back(v);
    for (auto v: root_to_leaves_iterator(*t, leaves_it::exclude, root_it::exclude)) rl0.push_back(v);
    for (auto v: leaves_iterator(*t)) lv.push_back(v);
    vector<index_t> w(n), w0, wl;
    for (index_t i = 0; i < n; i++) { w[i] = i; if (i >= nl && i < n - 1) w0.push_back(i); if (i < nl) wl.push_back(i); }
    ck(lr == w, "leaves to root", str(lr));
    ck(lr0 == w0, "leaves to root", str(lr0));
    ck(lv == wl, "leaves", str(lv));
    std::reverse(w.begin(), w.end());
    std::reverse(w0.begin(), w0.end());
    ck(rl == w, "root to leaves", str(rl));
    ck(rl0 == w0, "root to leaves", str(rl0));
    auto st = t->sources();
    auto tt = t->targets();
    for (index_t i = 0; i < n - 1; i++) ck((index_t) st(i) == i && (index_t) tt(i) == par[i], "sources");
    array_1d<double> alt = array_1d<double>::from_shape({(size_t) n});
    for (index_t i = 0; i < n; i++) alt(i) = i < nl ? 0 : (double) r.in(0, 3);
    for (index_t i = 0; i < n - 1; i++) if (alt(par[i]) < alt(i)) alt(par[i]) = alt(i);
    for (index_t v = 0; v < n; v++) {
        vector<index_t> c, anc, wa;
        for (auto x: children_iterator(v, *t)) c.push_back(x);
        ck(c == ch[v], "children", s(v) + str(c));
        ck(num_children(v, *t) == ch[v].size() && is_leaf(v, *t) == ch[v].empty() && parent(v, *t) == par[v], "node", s(v));
        for (size_t i = 0; i < ch[v].size(); i++) ck(child(i, v, *t) == ch[v][i], "child", s(v));
        for (auto x: ancestors_iterator(v, *t)) anc.push_back(x);
        for (index_t x = v;; x = par[x]) { wa.push_back(x); if (par[x] == x) break; }
        ck(anc == wa, "ancestors", s(v) + str(anc));
        vector<index_t> adj, wadj = ch[v], oe, ie;
        if (v != n - 1) wadj.insert(wadj.begin(), par[v]);
        for (auto x: adjacent_vertex_iterator(v, *t)) adj.push_back(x);
        ck(adj == wadj, "adjacent vertices", s(v) + str(adj));
        for (auto e: out_edge_iterator(v, *t)) { ck(source(e, *t) == v && index(e, *t) == std::min(v, target(e, *t)), "out edge", s(v)); oe.push_back(target(e, *t)); }
        for (auto e: in_edge_iterator(v, *t)) { ck(target(e, *t) == v && index(e, *t) == std::min(v, source(e, *t)), "in edge", s(v)); ie.push_back(source(e, *t)); }
        ck(oe == wadj && ie == wadj, "tree edges", s(v));
        ck(degree(v, *t) == wadj.size() && in_degree(v, *t) == wadj.size() && out_degree(v, *t) == wadj.size(), "degree", s(v));
        double lam = (double) r.in(0, 4);
        index_t x = v;
        while (par[x] != x && alt(par[x]) < lam) x = par[x];
        ck(find_region(v, lam, alt, *t) == x, "find region");
        index_t b = r.in(0, n - 1);
        ck(lowest_common_ancestor(v, b, *t) == lca_of(par, v, b), "ancestor");
    }
}

// ---------------------------------------------------------------- lowest common ancestor tables: copies, moves, saved states
template<typename L, typename ...A> static void lca_history(R &r, A ...args) {
    auto par = random_parents(r, (int) r.in(1, 40));
    index_t n = par.size();
    auto check = [&](const L &l) {
        for (int i = 0; i < 25; i++) { index_t a = r.in(0, n - 1), b = r.in(0, n - 1); auto x = l.lca(a, b); ck(x == lca_of(par, a, b), "ancestor", s(a) + " " + s(b) + " gives " + s(x)); }
        ck(l.num_elements() == n, "elements");
        vector<index_t> a, b, w;
        for (int i = 0; i < 10; i++) { a.push_back(r.in(0, n - 1)); b.push_back(r.in(0, n - 1)); w.push_back(lca_of(par, a[i], b[i])); }
        auto x = l.lca(arr(a), arr(b));
        ck(std::equal(x.begin(), x.end(), w.begin()), "ancestors", "arrays");
        vector<std::pair<index_t, index_t>> pr;
        for (int i = 0; i < 10; i++) pr.push_back({a[i], b[i]});
        auto y = l.lca(pr);
        ck(std::equal(y.begin(), y.end(), w.begin()), "ancestors", "range of pairs");
    };
    std::unique_ptr<L> l;
    { hg::tree t(arr(par)); l.reset(new L(t, args...)); } // the tree may go
    check(*l);
    int steps = (int) r.in(1, 4);
    for (int i = 0; i < steps && bad.empty(); i++) {
        int op = (int) r.in(0, 4);
        mix(op);
        std::unique_ptr<L> c;
        if (op == 0) c.reset(new L(*l));
        else if (op == 1) c.reset(new L(std::move(*l)));
        else if (op == 2) { hg::tree t2(arr({2, 2, 2})); c.reset(new L(t2, args...)); *c = *l; }
        else if (op == 3) { hg::tree t2(arr({2, 2, 2})); c.reset(new L(t2, args...)); *c = std::move(*l); }
        else { auto st = l->get_state(); c.reset(new L(L::make_from_state(st))); }
        l = std::move(c); // the original is destroyed
        check(*l);
    }
}
static void f_lca(R &r) {
    if (r.p(0.4)) { kind = "table"; lca_history<lca_sparse_table>(r); }
    else { kind = "blocks"; size_t b = r.p(0.3) ? 1024 : r.in(1, 40); lca_history<lca_sparse_table_block>(r, b); }
}

// ---------------------------------------------------------------- iterators and views
static void f_iter(R &r) {
    if (r.p(0.6)) {
        kind = "range";
        index_t a = r.in(-20, 20), b = r.in(-20, 20), st = r.in(1, 5) * (r.p(0.4) ? -1 : 1);
        irange<index_t> ir(a, b, st);
        vector<index_t> w, g;
        for (index_t x = a; st > 0 ? x < b : x > b; x += st) w.push_back(x);
        for (auto x: ir) { g.push_back(x); if (g.size() > 100) break; }
        ck(g == w, "range", s(a) + " " + s(b) + " " + s(st) + ": " + str(g));
        ck(ir.end() - ir.begin() == (index_t) w.size(), "distance");
        mix(a); mix(b); mix(st);
        counting_iterator<index_t> c(a, st), d = c;
        index_t pos = 0;
        for (int i = 0; i < 20; i++) {
            switch (r.in(0, 4)) {
                case 0: { auto y = c++; ck(*y == a + pos * st, "post increment"); pos++; break; }
                case 1: { auto y = ++c; pos++; ck(*y == a + pos * st, "pre increment"); break; }
                case 2: { auto y = c--; ck(*y == a + pos * st, "post decrement"); pos--; break; }
                case 3: { auto y = --c; pos--; ck(*y == a + pos * st, "pre decrement"); break; }
                default: { index_t k = r.in(-9, 9); ck(*(c + k) == a + (pos + k) * st && *(k + c) == a + (pos + k) * st && c[k] == a + (pos + k) * st, "offset"); }
            }
            ck(*c == a + pos * st, "position");
            ck(c - d == pos && d - c == -pos, "distance");
            ck((c < d) == (pos < 0) && (c > d) == (pos > 0) && (c <= d) == (pos <= 0) && (c >= d) == (pos >= 0) && (c == d) == (pos == 0) && (c != d) == (pos != 0), "order");
        }
    } else if (r.p(0.5)) {
        kind = "view";
        size_t n = r.in(1, 6), k = r.in(1, 4), m = r.in(1, 3);
        array_nd<double> a = xt::zeros<double>({n, k, m}), b = xt::zeros<double>({n, k * m});
        vector<vector<double>> wa(n, vector<double>(k * m)), wb = wa;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < k * m; j++) { wa[i][j] = a(i, j / m, j % m) = (double) r.in(0, 99); wb[i][j] = b(i, j) = (double) r.in(0, 99); }
        auto va = make_light_axis_view<true>(a), vb = make_light_axis_view<true>(b);
        for (int t = 0; t < 12; t++) {
            size_t i = r.in(0, n - 1), j = r.in(0, n - 1);
            va.set_position(i);
            vb.set_position(j);
            switch (r.in(0, 3)) {
                case 0: va = vb; wa[i] = wb[j]; break;
                case 1: va.combine(vb, [](double x, double y) { return x + 2 * y; }); for (size_t q = 0; q < k * m; q++) wa[i][q] += 2 * wb[j][q]; break;
                case 2: { auto v2 = make_light_axis_view<true>(a, j); va = v2; wa[i] = wa[j]; break; }
                default: for (auto &x: va) x += 1; for (auto &x: wa[i]) x += 1;
            }
            for (size_t p = 0; p < n; p++) for (size_t q = 0; q < k * m; q++) ck(a(p, q / m, q % m) == wa[p][q] && b(p, q) == wb[p][q], "view", "elements differ");
        }
        mix(n); mix(k); mix(m);
    } else {
        kind = "scalar_view";
        size_t n = r.in(1, 6);
        array_1d<double> a = xt::zeros<double>({n});
        vector<double> w(n);
        for (size_t i = 0; i < n; i++) w[i] = a(i) = (double) r.in(0, 99);
        auto va = make_light_axis_view<false>(a), vb = make_light_axis_view<false>(a);
        const auto &cv = vb;
        for (int t = 0; t < 12; t++) {
            size_t i = r.in(0, n - 1), j = r.in(0, n - 1);
            va.set_position(i);
            vb.set_position(j);
            ck(cv.end() - cv.begin() == 1 && *cv.begin() == w[j], "view", "constant");
            switch (r.in(0, 2)) {
                case 0: va = vb; w[i] = w[j]; break;
                case 1: va.combine(vb, [](double x, double y) { return x + 2 * y; }); w[i] += 2 * w[j]; break;
                default: for (auto &x: va) x += 1; w[i] += 1;
            }
            for (size_t p = 0; p < n; p++) ck(a(p) == w[p], "view", "elements differ");
        }
        mix(n);
    }
}

// ---------------------------------------------------------------- image files
static void f_pnm(R &r) {
    size_t h = r.in(1, 6), w = r.in(1, 6);
    bool rgb = r.p(0.4);
    vector<size_t> shape{h, w};
    if (rgb) shape.push_back(3);
    array_nd<unsigned char> im = xt::zeros<unsigned char>(shape);
    int style = (int) r.in(0, 3);
    static const unsigned char special[] = {0, 9, 10, 13, 26, 32, 35, 80, 255};
    for (auto &x: im) x = style == 0 ? (unsigned char) r.in(0, 255) : style == 1 ? special[r.in(0, 8)] : style == 2 ? 35 : (unsigned char) r.in(0, 2);
    for (auto x: im) mix(x);
    std::string text;
    bool ascii = r.p(0.4), pbm = ascii && !rgb && r.p(0.4);
    if (pbm) for (auto &x: im) x = x & 1;
    kind = pbm ? "P1" : ascii ? (rgb ? "P3" : "P2") : (rgb ? "P6" : "P5");
    if (ascii) { // written by hand, with comments and any layout of the values
        std::ostringstream o;
        auto com = [&]() { while (r.p(0.25)) o << "# a comment " << r.in(0, 99) << "\n"; };
        o << kind << "\n"; com();
        o << w << (r.p(0.5) ? " " : "\n") << h << "\n"; com();
        if (!pbm) { o << 255 << "\n"; com(); }
        for (auto x: im) { o << (int) x; if (r.p(0.3)) { o << "\n"; com(); } else o << (r.p(0.2) ? "   " : " "); }
        text = o.str();
    } else {
        std::ostringstream o;
        pnm_io_internal::save_image_pnm(o, im);
        text = o.str();
        if (r.p(0.3)) { // a comment after the magic number
            auto p = text.find('\n');
            text.insert(p + 1, "# a comment\n");
        }
    }
    {
        std::istringstream in(text);
        auto res = pnm_io_internal::read_image_pnm(in);
        ck(res.dimension() == shape.size() && std::equal(shape.begin(), shape.end(), res.shape().begin()) && std::equal(res.begin(), res.end(), im.begin()), "image", "the image read is not the image written: first values " + s((int) *im.begin()) + " and " + (res.size() ? s((int) *res.begin()) : "none"));
    }
    if (!ascii) { // truncated data must be refused, never made up
        std::istringstream in(text.substr(0, text.size() - r.in(1, im.size())));
        bool thrown = false;
        try { pnm_io_internal::read_image_pnm(in); } catch (const std::runtime_error &) { thrown = true; }
        ck(thrown, "truncated", "a truncated file was read");
    }
}

// ---------------------------------------------------------------- sorting through the C++ interface
static void f_sort(R &r) {
    size_t n = r.in(0, 30);
    kind = "vectors";
    vector<std::pair<int, int>> v;
    for (size_t i = 0; i < n; i++) v.push_back({(int) r.in(0, 5), (int) i});
    auto by = [](const std::pair<int, int> &a, const std::pair<int, int> &b) { return a.first < b.first; };
    auto ref = v, st = v, un = v;
    std::stable_sort(ref.begin(), ref.end(), by);
    hg::stable_sort(st.begin(), st.end(), by);
    hg::sort(un.begin(), un.end(), by);
    ck(st == ref, "stable sort");
    ck(std::is_sorted(un.begin(), un.end(), by) && std::is_permutation(un.begin(), un.end(), v.begin()), "sort");
    array_1d<double> a = array_1d<double>::from_shape({n});
    for (size_t i = 0; i < n; i++) a(i) = v[i].first;
    auto as = hg::stable_arg_sort(a);
    auto au = hg::arg_sort(a);
    for (size_t i = 0; i < n; i++) { ck((size_t) as(i) == (size_t) ref[i].second, "stable arg sort"); ck(a(au(i)) == ref[i].first, "arg sort"); mix(as(i)); }
    auto greater = [](double x, double y) { return x > y; };
    auto ag = hg::stable_arg_sort(a, greater);
    auto rg = v;
    std::stable_sort(rg.begin(), rg.end(), [](const std::pair<int, int> &x, const std::pair<int, int> &y) { return x.first > y.first; });
    for (size_t i = 0; i < n; i++) ck((size_t) ag(i) == (size_t) rg[i].second, "stable arg sort", "other order");
    if (n > 2) { // parts of a container
        auto p1 = v, p2 = v;
        size_t lo = r.in(0, n - 1), hi = r.in(lo, n);
        hg::stable_sort(p1.begin() + lo, p1.begin() + hi, by);
        std::stable_sort(p2.begin() + lo, p2.begin() + hi, by);
        ck(p1 == p2, "stable sort", "part");
    }
}

int main(int argc, char **argv) {
    return native_main(argc, argv, {{"heap", f_heap}, {"sets", f_sets}, {"graph", f_graph}, {"grid", f_grid}, {"tree", f_tree}, {"lca", f_lca}, {"iter", f_iter}, {"pnm", f_pnm}, {"sort", f_sort}});
}
