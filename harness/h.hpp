// common part of the concrete-replay harnesses (compiled against /repo's current sources, with -fno-access-control)
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <sstream>
#include <qpOASES.hpp>

namespace h {
struct Rng {
    unsigned long long s;
    explicit Rng(unsigned long long seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    unsigned long long next() { s += 0x9E3779B97F4A7C15ull; unsigned long long z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    long in(long lo, long hi) { return lo + (long)(next() % (unsigned long long)(hi - lo + 1)); }   // inclusive
    bool coin() { return next() & 1; }
    bool one_in(int n) { return next() % n == 0; }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
};
static long evals = 0;
static long nontriv = 0;
static std::set<unsigned long long> seen;
static std::string ctx;                      // description of the current case
static std::vector<std::string> samples;
inline std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline void fail(const char* file, int line, const std::string& msg) {
    printf("FAIL %s:%d %s | case: %s\n", file, line, msg.c_str(), ctx.c_str());
    fflush(stdout);
    _Exit(1);
}
inline unsigned long long hash(const std::string& s) { unsigned long long x = 1469598103934665603ull; for (unsigned char c : s) { x ^= c; x *= 1099511628211ull; } return x; }
// one evaluated case; desc identifies it
inline void evalcase(const std::string& desc, bool nontrivial = true) {
    ctx = desc; ++evals;
    if (nontrivial && seen.size() < 2000000 && seen.insert(hash(desc)).second) { ++nontriv; if (samples.size() < 3) samples.push_back(desc); }
}
inline void done() {
    printf("STAT evaluations=%ld distinct_nontrivial=%ld\n", evals, nontriv);
    for (auto& s : samples) printf("SAMPLE %s\n", s.substr(0, 600).c_str());
    fflush(stdout);
}
template <class V> std::string vec(const V& v) { std::ostringstream o; o.precision(17); o << "["; size_t i = 0; for (auto& x : v) o << (i++ ? "," : "") << x; o << "]"; return o.str(); }
template <class T> std::string arr(const T* v, long n) { std::ostringstream o; o.precision(17); o << "["; for (long i = 0; i < n; ++i) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
inline bool same(double a, double b) { return (a == b) || (std::isnan(a) && std::isnan(b)); }
inline bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
}
#define CHECK(c, ...) do { if (!(c)) h::fail(__FILE__, __LINE__, std::string(#c " : ") + h::fmt(__VA_ARGS__)); } while (0)
#define QUIET() do { getGlobalMessageHandler()->setErrorVisibilityStatus(VS_HIDDEN); getGlobalMessageHandler()->setWarningVisibilityStatus(VS_HIDDEN); getGlobalMessageHandler()->setInfoVisibilityStatus(VS_HIDDEN); } while (0)

static long g_scale = 1;
static void run(h::Rng& R);
int main(int argc, char** argv) {
    unsigned long long seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    g_scale = argc > 2 ? atol(argv[2]) : 1;
    setvbuf(stdout, 0, _IOLBF, 0);
    h::Rng R(seed);
    run(R);
    h::done();
    return 0;
}
