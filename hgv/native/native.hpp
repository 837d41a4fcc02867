// shared by the native programs: usage PROG FAMILY SEED LO HI
// output: "case <i> <family> <kind> <digest> <events> <ok|key: text>"
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

struct R {
    uint64_t s;
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    int64_t in(int64_t a, int64_t b) { return a + (int64_t) (next() % (uint64_t) (b - a + 1)); }
    double unit() { return (double) (next() >> 11) / 9007199254740992.0; }
    bool p(double x) { return unit() < x; }
};
static uint64_t H;
static std::string bad, kind;
static long events;
static void mix(uint64_t v) { H ^= v; H *= 0x100000001b3ull; H ^= H >> 29; }
static bool ck(bool c, const char *key, const std::string &m = "") { events++; if (!c && bad.empty()) bad = std::string(key) + ": " + m; return c; }
template<typename A> static std::string str(const A &a) { std::ostringstream o; o << "["; int k = 0; for (auto &&x: a) { if (k++ > 60) { o << "..."; break; } o << x << " "; } o << "]"; return o.str(); }
static std::string s(double x) { std::ostringstream o; o << x; return o.str(); }

using fam_t = std::function<void(R &)>;
static int native_main(int argc, char **argv, const std::map<std::string, fam_t> &fams) {
    if (argc < 5) return 2;
    auto f = fams.find(argv[1]);
    if (f == fams.end()) return 2;
    long seed = atol(argv[2]), lo = atol(argv[3]), hi = atol(argv[4]);
    for (long i = lo; i < hi; i++) {
        R r{(uint64_t) seed * 0x9E3779B97F4A7C15ull + (uint64_t) i * 0xD1B54A32D192ED03ull};
        r.next();
        H = 1469598103934665603ull; bad.clear(); kind = "-"; events = 0;
        fprintf(stderr, "@case %ld\n", i);
        try { f->second(r); } catch (const std::exception &e) { ck(false, "exception", e.what()); }
        for (auto &ch: bad) if (ch == '\n') ch = ' ';
        printf("case %ld %s %s %016llx %ld %s\n", i, argv[1], kind.c_str(), (unsigned long long) H, events, bad.empty() ? "ok" : bad.c_str());
        fflush(stdout);
    }
    return 0;
}
