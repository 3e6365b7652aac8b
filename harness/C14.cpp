//@file bounds="ranges of 0..6 elements (thorough 0..9) with any contents and any searched value: 64-bit integers over all values, doubles over every bit pattern; forward (list-like) and random access ranges; long ranges (100 elements with ties, any value searched; 70 compared with any element changed); sorted ranges of 9, 16, 17 (thorough: 33) elements with any contents"
#include "vf.hpp"
#include <forward_list>
#include <edsp/algorithm.hpp>
namespace {
#ifdef VF_THOROUGH
constexpr int N = 9;
#else
constexpr int N = 6;
#endif
std::int64_t any64(const char* n) { return vf_int(n, INT64_MIN, INT64_MAX); }
// the elements around the searched range match anything that is looked for, so a read outside shows
template <typename T, typename G> void linear(G g) {
    int n = (int) vf_pick("n", 0, N);
    std::vector<T> x(n);
    for (auto& v : x) v = g("x");
    T value = g("value");
    auto it = edsp::linear_search(x.begin(), x.end(), value);
    auto idx = edsp::index_of(x.begin(), x.end(), value);
    std::ptrdiff_t p = it - x.begin();
    vf_assert(p >= 0 && p <= n, "the result is in the range");
    vf_assert(idx == (p == n ? -1 : (std::int32_t) p), "index_of agrees with linear_search");
    for (int i = 0; i < n; ++i) {
        if (i == p) vf_assert(x[i] == value, "the element found matches");
        if (i < p) vf_assert(!(x[i] == value), "no earlier element matches");
    }
}
template <typename T, typename G> void equal(G g) {
    int n = (int) vf_pick("n", 0, N), m = (int) vf_pick("m", 0, N);
    if (m > 3 && n != m) return;
    std::vector<T> x(n), y(m);
    for (auto& v : x) v = g("x");
    for (auto& v : y) v = g("y");
    bool e = edsp::equal(x.begin(), x.end(), y.begin(), y.end());
    bool want = n == m;
    for (int i = 0; i < n && i < m; ++i) want = want & (x[i] == y[i]);
    vf_assert(e == want, "equal exactly when all elements match");
}
}
H(c14_linear_integers) { linear<std::int64_t>(any64); }
//@ mode=fp
H(c14_linear_doubles) { linear<double>([](const char* n) { return vf_anydouble(n); }); }
H(c14_equal_integers) { equal<std::int64_t>(any64); }
//@ mode=fp
H(c14_equal_doubles) { equal<double>([](const char* n) { return vf_anydouble(n); }); }
H(c14_equal_predicate) {
    int n = (int) vf_pick("n", 0, 4);
    std::vector<double> x(n), y(n);
    vf_fill(x, "x", -100, 100);
    vf_fill(y, "y", -100, 100);
    double eps = vf_double("eps", 0, 10);
    auto close = [eps](double a, double b) { return a - b <= eps && b - a <= eps; };
    bool want = true;
    for (int i = 0; i < n; ++i) want = want & (x[i] - y[i] <= eps) & (y[i] - x[i] <= eps);
    vf_assert(edsp::equal(x.begin(), x.end(), y.begin(), y.end(), close) == want, "the predicate decides");
}
H(c14_binary) {
    int n = (int) vf_pick("n", 0, N);
    std::vector<std::int64_t> x(n);
    for (auto& v : x) v = any64("x");
    for (int i = 0; i + 1 < n; ++i) vf_assume(x[i] <= x[i + 1]);
    std::int64_t value = any64("value");
    auto it = edsp::binary_search(x.begin(), x.end(), value);
    std::ptrdiff_t p = it - x.begin();
    vf_assert(p >= 0 && p <= n, "the result is in the range");
    bool present = false;
    for (int i = 0; i < n; ++i) present = present | (x[i] == value);
    if (p == n) vf_assert(!present, "absent exactly when no element matches");
    else vf_assert(x[p] == value, "the element found matches");
}
H(c14_binary_doubles) {
    int n = (int) vf_pick("n", 0, N);
    std::vector<double> x(n);
    vf_fill(x, "x", -1e6, 1e6);
    for (int i = 0; i + 1 < n; ++i) vf_assume(x[i] <= x[i + 1]);
    double value = vf_double("value", -1e6, 1e6);
    auto it = edsp::binary_search(x.begin(), x.end(), value);
    std::ptrdiff_t p = it - x.begin();
    bool present = false;
    for (int i = 0; i < n; ++i) present = present | (x[i] == value);
    if (p == n) vf_assert(!present, "absent exactly when no element matches");
    else { vf_assert(p >= 0 && p < n, "the result is in the range"); vf_assert(x[p] == value, "the element found matches"); }
}
H(c14_binary_long) {
    // longer sorted ranges, ties included
    static const int size[4] = {9, 16, 17, 33};
#ifdef VF_THOROUGH
    constexpr int sizes = 4;
#else
    constexpr int sizes = 3;
#endif
    int n = size[vf_pick("size", 0, sizes - 1)];
    std::vector<double> x(n);
    vf_fill(x, "x", -1e6, 1e6);
    for (int i = 0; i + 1 < n; ++i) vf_assume(x[i] <= x[i + 1]);
    double value = vf_double("value", -1e6, 1e6);
    auto it = edsp::binary_search(x.begin(), x.end(), value);
    std::ptrdiff_t p = it - x.begin();
    vf_assert(p >= 0 && p <= n, "the result is in a long range");
    if (p == n) for (int i = 0; i < n; ++i) vf_assert(x[i] != value, "absent from a long range exactly when no element matches");
    else vf_assert(x[p] == value, "the element found matches");
}
H(c14_forward) {
    // forward iterators only
    std::forward_list<int> l;
    int n = (int) vf_pick("n", 0, 4);
    int a[4];
    for (int i = 0; i < 4; ++i) a[i] = (int) vf_int("a", INT32_MIN, INT32_MAX);
    for (int i = n; i-- > 0;) l.push_front(a[i]);
    int value = (int) vf_int("value", INT32_MIN, INT32_MAX);
    auto it = edsp::linear_search(l.begin(), l.end(), value);
    int first = -1;
    for (int i = n; i-- > 0;) first = a[i] == value ? i : first;
    vf_assert(edsp::index_of(l.begin(), l.end(), value) == first, "index_of on a list");
    vf_assert((it == l.end()) == (first < 0), "linear_search on a list");
    if (it != l.end()) vf_assert(*it == value, "the element found matches");
    bool sorted = true;
    for (int i = 0; i + 1 < n; ++i) sorted = sorted & (a[i] <= a[i + 1]);
    vf_assume(sorted);
    auto b = edsp::binary_search(l.begin(), l.end(), value);
    vf_assert((b == l.end()) == (first < 0), "binary_search on a list");
}
H(c14_outside) {
    // a match just outside the range is not found
    double x[6];
    vf_fill(x, "x", -10, 10);
    int a = (int) vf_pick("a", 0, 5), b = (int) vf_pick("b", 0, 6);
    if (b < a) return;
    double value = vf_double("value", -10, 10);
    for (int i = a; i < b; ++i) vf_assume(x[i] != value);
    vf_assert(edsp::linear_search(x + a, x + b, value) == x + b, "nothing outside the range is found");
    vf_assert(edsp::index_of(x + a, x + b, value) == -1, "nothing outside the range has an index");
}
H(c14_wide) {
    // any value in a long range with repeated elements
    std::int64_t x[102];
    const int n = (int) vf_pick("n", 99, 100);
    for (int i = 0; i < 102; ++i) x[i] = (i * 31 + 7) % 67 + (i % 5 == 0 ? 100 : 0);
    const std::int64_t value = vf_int("value", 0, 200);
    const std::int64_t* it = edsp::linear_search(x + 1, x + 1 + n, value);
    int first = n;
    for (int i = n; i-- > 0;) if (x[i + 1] == value) first = i;
    vf_assert(it - (x + 1) == first, "first match in a long range");
    vf_assert(edsp::index_of(x + 1, x + 1 + n, value) == (first == n ? -1 : first), "index in a long range");
}
H(c14_binary_wide) {
    static const int size[4] = {31, 32, 64, 100};
    const int n = size[vf_pick("size", 0, 3)];
    std::vector<std::int64_t> x(n);
    for (int i = 0; i < n; ++i) x[i] = 5 * (i - i % 3) - 20;
    const std::int64_t value = vf_int("value", -50, 600);
    const auto it = edsp::binary_search(x.begin(), x.end(), value);
    bool present = false;
    for (auto v : x) present = present | (v == value);
    vf_assert((it != x.end()) == present, "absent from a wide range exactly when no element matches");
    if (it != x.end()) vf_assert(*it == value, "the element found matches");
}
H(c14_equal_wide) {
    std::vector<double> x(70), y;
    for (int i = 0; i < 70; ++i) x[i] = (i * 13) % 29 - 7.5;
    y = x;
    static const int where[6] = {0, 1, 31, 32, 64, 69};
    const int at = where[vf_pick("at", 0, 5)];
    y[at] = vf_double("y", -100, 100);
    vf_assert(edsp::equal(x.begin(), x.end(), y.begin(), y.end()) == (y[at] == x[at]), "long ranges are equal exactly when all elements match");
    y[at] = x[at];
    y.push_back(1);
    vf_assert(!edsp::equal(x.begin(), x.end(), y.begin(), y.end()) && !edsp::equal(y.begin(), y.end(), x.begin(), x.end()), "ranges of different length are not equal");
}
