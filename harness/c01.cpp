// C01: index lists against a plain sequence
#include "h.hpp"
using namespace qpOASES;

struct Ref { std::vector<long> v; long cap; };

static void compare(Indexlist& L, const Ref& r) {
    CHECK(L.getLength() == (long)r.v.size(), "length %ld, expected %ld", (long)L.getLength(), (long)r.v.size());
    int_t* a = 0;
    CHECK(L.getNumberArray(&a) == SUCCESSFUL_RETURN, "getNumberArray");
    int_t* s = 0;
    CHECK(L.getISortArray(&s) == SUCCESSFUL_RETURN, "getISortArray");
    for (size_t i = 0; i < r.v.size(); ++i) {
        CHECK(a[i] == r.v[i], "number[%zu]=%ld expected %ld (%s)", i, (long)a[i], r.v[i], h::vec(r.v).c_str());
        CHECK(L.getNumber(i) == r.v[i], "getNumber(%zu)", i);
    }
    std::vector<char> hit(r.v.size(), 0);
    for (size_t i = 0; i < r.v.size(); ++i) {
        CHECK(s[i] >= 0 && s[i] < (long)r.v.size() && !hit[s[i]], "iSort[%zu]=%ld not a permutation", i, (long)s[i]);
        hit[s[i]] = 1;
        if (i) CHECK(a[s[i - 1]] < a[s[i]], "not ascending at %zu", i);
    }
    if (!r.v.empty()) CHECK(L.getLastNumber() == r.v.back(), "last");
    CHECK(L.getNumber(r.v.size()) < 0, "getNumber(length) must be an error, got %ld", (long)L.getNumber(r.v.size()));
    CHECK(L.getNumber(-1) < 0, "getNumber(-1)");
}

static void queries(Indexlist& L, const Ref& r, long lo, long hi) {
    for (long x = lo; x <= hi; ++x) {
        long p = -1;
        for (size_t i = 0; i < r.v.size(); ++i) if (r.v[i] == x) p = i;
        CHECK(L.getIndex(x) == p, "getIndex(%ld)=%ld expected %ld in %s", x, (long)L.getIndex(x), p, h::vec(r.v).c_str());
        CHECK((L.isMember(x) == BT_TRUE) == (p >= 0), "isMember(%ld)", x);
    }
}

static void add(Indexlist& L, Ref& r, long x) {
    returnValue e = L.addNumber(x);
    if ((long)r.v.size() >= r.cap) CHECK(e == RET_INDEXLIST_EXCEEDS_MAX_LENGTH, "full list accepted %ld", x);
    else { CHECK(e == SUCCESSFUL_RETURN, "add %ld -> %d", x, (int)e); r.v.push_back(x); }
}
static void rem(Indexlist& L, Ref& r, long x) {
    CHECK(L.removeNumber(x) == SUCCESSFUL_RETURN, "remove");
    auto it = std::find(r.v.begin(), r.v.end(), x);
    if (it != r.v.end()) r.v.erase(it);
}
static void swp(Indexlist& L, Ref& r, long a, long b) {
    auto i = std::find(r.v.begin(), r.v.end(), a), j = std::find(r.v.begin(), r.v.end(), b);
    returnValue e = L.swapNumbers(a, b);
    if (i == r.v.end() || j == r.v.end()) CHECK(e == RET_INDEXLIST_CORRUPTED, "swap(%ld,%ld) -> %d", a, b, (int)e);
    else { CHECK(e == SUCCESSFUL_RETURN, "swap(%ld,%ld) -> %d", a, b, (int)e); std::iter_swap(i, j); }
}

static void run(h::Rng& R) {
    QUIET();
    CHECK(Indexlist().init(-1) == RET_INVALID_ARGUMENTS, "negative size");
    { Indexlist L(3); CHECK(L.getNumberArray(0) == RET_INVALID_ARGUMENTS, "null"); }
    // every order of insertion of up to 5 numbers, every one removed, every pair swapped
    for (int base = -7; base <= 1; base += 4) for (int n = 0; n <= (base == -3 ? 6 : 5); ++n) {
        std::vector<long> p(n); for (int i = 0; i < n; ++i) p[i] = 2 * i + base;
        if (base == -3) for (int i = 0; i < n; ++i) p[i] = i < 3 ? i - 3 : i;
        do {
            for (int cap = std::max(0, n - 1); cap <= n + 1; ++cap) {
                h::evalcase(h::fmt("cap %d insert %s", cap, h::vec(p).c_str()), n > 0);
                Indexlist L(cap); Ref r; r.cap = cap;
                for (long x : p) { add(L, r, x); compare(L, r); }
                queries(L, r, base - 1, base + 2 * n);
                std::vector<long> all = r.v; all.push_back(base + 1); all.push_back(2 * n + 5); all.push_back(-13); if (n > 1) all.push_back(2);
                for (long x : all) { Indexlist C(L); Ref q = r; rem(C, q, x); compare(C, q); queries(C, q, base - 1, base + 2 * n); add(C, q, 1000); compare(C, q); }
                for (long x : all) for (long y : all) { Indexlist C; C = L; Ref q = r; swp(C, q, x, y); compare(C, q); queries(C, q, base - 1, base + 2 * n); }
                compare(L, r);
            }
        } while (std::next_permutation(p.begin(), p.end()));
    }
    // random histories, several lists and copies between them
    for (int t = 0; t < 1200 * g_scale; ++t) {
        int cap = R.in(0, 40);
        Indexlist L(cap), M; Ref r, q; r.cap = cap; q.cap = 0;
        std::string ops = h::fmt("cap %d:", cap);
        int steps = R.in(1, 120), lo = R.in(-30, 0), hi = lo + R.in(3, 50);
        for (int k = 0; k < steps; ++k) {
            long x = R.in(lo, hi), y = R.in(lo, hi);
            bool has = std::find(r.v.begin(), r.v.end(), x) != r.v.end();
            switch (R.in(0, 9)) {
                case 0: case 1: case 2: case 3: if (!has) { ops += h::fmt(" a%ld", x); h::ctx = ops; add(L, r, x); } break;
                case 4: case 5: ops += h::fmt(" r%ld", x); h::ctx = ops; rem(L, r, x); break;
                case 6: if (r.v.size() > 1) { x = r.v[R.in(0, r.v.size() - 1)]; y = r.v[R.in(0, r.v.size() - 1)]; } ops += h::fmt(" s%ld,%ld", x, y); h::ctx = ops; swp(L, r, x, y); break;
                case 7: ops += " M=L"; h::ctx = ops; M = L; q = r; break;
                case 8: ops += " L=M"; h::ctx = ops; L = M; r = q; break;
                case 9: if (R.one_in(8)) { int c2 = R.in(0, 40); ops += h::fmt(" init%d", c2); h::ctx = ops; CHECK(L.init(c2) == SUCCESSFUL_RETURN, "init"); r.v.clear(); r.cap = c2; }
                        else { ops += " copy"; h::ctx = ops; Indexlist C(L); Ref s = r; compare(C, s); if (!s.v.empty()) { rem(C, s, s.v[0]); compare(C, s); } compare(L, r); }
            }
            compare(L, r);
            compare(M, q);
            queries(L, r, x - 2, x + 2);
        }
        queries(L, r, lo - 2, hi + 2);
        h::evalcase(ops, steps > 5);
    }
}
