//@file bounds="concatenation and padding of 0..5 + 0..5 samples (thorough 0..8; and 20, 33, 64) of any bit pattern (double, float) or any 64-bit integer; linear and logarithmic spaces of 0..9 points (thorough 0..17; and 33, 100) between any end points in [-1e6,1e6] (exponents in [-8,8]), sizes given as integers and as fractional numbers; derivative of 0..7 (thorough 0..12; and 64) samples in [-1e6,1e6]; silence of 1..6, 20 and 40 samples" assume="the padded range is at least as long as the input (documented precondition); spaces are compared as exact real numbers up to 1e-9 relative rounding"
#include "vf.hpp"
#include <forward_list>
#include <edsp/algorithm.hpp>
#include <edsp/algorithm/derivative.hpp>
#include <edsp/algorithm/silence.hpp>
namespace {
#ifdef VF_THOROUGH
constexpr int N = 8, M = 17, D = 12;
#else
constexpr int N = 5, M = 9, D = 7;
#endif
double any(double) { return vf_anydouble("x"); }
float any(float) { return vf_anyfloat("x"); }
std::int64_t any(std::int64_t) { return vf_int("x", INT64_MIN, INT64_MAX); }
void same(double a, double b, const char* k) { vf_same(a, b, k); }
void same(float a, float b, const char* k) { vf_same(a, b, k); }
void same(std::int64_t a, std::int64_t b, const char* k) { vf_assert(a == b, k); }
template <typename T> void concatenation() {
    int n = vf_len("n", 0, N, {33}), m = vf_len("m", 0, N, {20, 64});
    std::vector<T> x(n), y(m), o(n + m + 2);
    for (auto& v : x) v = any(T());
    for (auto& v : y) v = any(T());
    T lo = any(T()), hi = any(T());
    o[0] = lo; o[n + m + 1] = hi;
    const std::vector<T> x0 = x, y0 = y;
    edsp::concatenate(x.begin(), x.end(), y.begin(), y.end(), o.begin() + 1);
    for (int i = 0; i < n; ++i) same(o[1 + i], x0[i], "the first input comes first, in order");
    for (int i = 0; i < m; ++i) same(o[1 + n + i], y0[i], "the second input follows, in order");
    same(o[0], lo, "nothing written before the output");
    same(o[n + m + 1], hi, "nothing written after the output");
    for (int i = 0; i < n; ++i) same(x[i], x0[i], "inputs left alone");
    for (int i = 0; i < m; ++i) same(y[i], y0[i], "inputs left alone");
}
template <typename T> void padding() {
    int n = vf_len("n", 0, N, {33}), extra = vf_len("extra", 0, N, {20, 64});
    int m = n + extra;
    std::vector<T> x(n), o(m + 2);
    for (auto& v : x) v = any(T());
    for (auto& v : o) v = any(T());
    const std::vector<T> x0 = x, o0 = o;
    edsp::padder(x.begin(), x.end(), o.begin() + 1, o.begin() + 1 + m);
    for (int i = 0; i < n; ++i) same(o[1 + i], x0[i], "the input is kept, in order");
    for (int i = n; i < m; ++i) same(o[1 + i], T(0), "the rest is zero");
    same(o[0], o0[0], "nothing written before the output");
    same(o[m + 1], o0[m + 1], "nothing written after the output");
    for (int i = 0; i < n; ++i) same(x[i], x0[i], "input left alone");
}
// points of the space from x1 to x2 on [o, o+n) surrounded by guards
template <typename T> void linear(bool fraction) {
    int n = vf_len("n", 0, M, {33, 100});
    T x1 = vf_double("x1", -1e6, 1e6), x2 = vf_double("x2", -1e6, 1e6);
    std::vector<T> o(n + 2);
    vf_fill(o, "before", -1e6, 1e6);
    T lo = o[0], hi = o[n + 1];
    if (fraction) edsp::linspace(o.begin() + 1, x1, x2, n + 0.75);
    else edsp::linspace(o.begin() + 1, x1, x2, n);
    vf_same(o[0], lo, "nothing written before the output");
    vf_same(o[n + 1], hi, "nothing written after the output");
    const double tol = sizeof(T) == 8 ? 1e-7 : 1;
    if (n == 1) vf_close(o[1], x1, 0, "one point: the first");
    for (int i = 0; n > 1 && i < n; ++i) vf_close(o[1 + i], x1 + i * ((double) x2 - x1) / (n - 1), tol, "equal steps from the first to the last point");
}
}
//@ mode=fp
H(c15_concatenate_double) { concatenation<double>(); }
//@ mode=fp
H(c15_concatenate_float) { concatenation<float>(); }
H(c15_concatenate_integer) { concatenation<std::int64_t>(); }
H(c15_concatenate_forward) {
    int n = (int) vf_pick("n", 0, 3), m = (int) vf_pick("m", 0, 3);
    std::forward_list<std::int64_t> x, y, o(n + m, 0);
    for (int i = 0; i < n; ++i) x.push_front(any(std::int64_t()));
    for (int i = 0; i < m; ++i) y.push_front(any(std::int64_t()));
    edsp::concatenate(x.begin(), x.end(), y.begin(), y.end(), o.begin());
    auto it = o.begin();
    for (auto v : x) vf_assert(*it++ == v, "the first input comes first, in order");
    for (auto v : y) vf_assert(*it++ == v, "the second input follows, in order");
    vf_assert(it == o.end(), "nothing else");
}
//@ mode=fp
H(c15_padder_double) { padding<double>(); }
//@ mode=fp
H(c15_padder_float) { padding<float>(); }
H(c15_padder_integer) { padding<std::int64_t>(); }
H(c15_linspace_double) { linear<double>(false); }
H(c15_linspace_float) { linear<float>(false); }
H(c15_linspace_fraction) { linear<double>(true); }
H(c15_logspace) {
    int n = vf_len("n", 0, M, {33, 100});
    double x1 = vf_double("x1", -8, 8), x2 = vf_double("x2", -8, 8);
    std::vector<double> o(n + 2);
    vf_fill(o, "before", -1e6, 1e6);
    double lo = o[0], hi = o[n + 1];
    edsp::logspace(o.begin() + 1, x1, x2, n);
    vf_same(o[0], lo, "nothing written before the output");
    vf_same(o[n + 1], hi, "nothing written after the output");
    if (n == 1) vf_close(o[1], std::pow(10., x1), 1e-6, "one point: the first");
    for (int i = 0; n > 1 && i < n; ++i) vf_close(o[1 + i], std::pow(10., x1 + i * (x2 - x1) / (n - 1)), 1e-6, "equal ratios from the first to the last point");
}
H(c15_derivative) {
    int n = vf_len("n", 0, D, {64});
    std::vector<double> x(n), o(n + 2), z;
    vf_fill(x, "x", -1e6, 1e6);
    vf_fill(o, "before", -1e6, 1e6);
    const auto x0 = x;
    double lo = o[0], hi = o[n + 1];
    edsp::derivative(x.begin(), x.end(), o.begin() + 1);
    z = x;
    edsp::derivative(z.begin(), z.end(), z.begin());
    vf_same(o[0], lo, "nothing written before the output");
    vf_same(o[n + 1], hi, "nothing written after the output");
    for (int i = 0; i < n; ++i) {
        vf_same(x[i], x0[i], "input left alone");
        vf_close(o[1 + i], i == 0 ? x0[0] : x0[i] - x0[i - 1], 1e-9, "first sample, then successive differences");
        vf_close(z[i], o[1 + i], 0, "in place");
    }
}
H(c15_derivative_integer) {
    int n = (int) vf_pick("n", 0, N);
    std::vector<std::int64_t> x(n), o(n);
    for (auto& v : x) v = vf_int("x", -(std::int64_t(1) << 62), (std::int64_t(1) << 62) - 1);
    edsp::derivative(x.begin(), x.end(), o.begin());
    for (int i = 0; i < n; ++i) vf_assert(o[i] == (i == 0 ? x[0] : x[i] - x[i - 1]), "first sample, then successive differences");
}
H(c15_silence) {
    int n = vf_len("n", 1, 6, {20, 40});
    std::vector<double> x(n);
    vf_fill(x, "x", -100, 100);
    double t = vf_double("threshold", 0, 1e5), p = 0;
    for (double v : x) p += v * v;
    p /= n;
    bool s = edsp::silence(x.begin(), x.end(), t);
    if (s) vf_assert(p < t + 1e-6, "called silent: the power is below the threshold");
    else vf_assert(p > t - 1e-6, "not called silent: the power is not below the threshold");
}
//@ mode=fp
H(c15_silence_limit) {
    // a power equal to the threshold is not below it
    static const double levels[4] = {0, 0.5, 1, 4};
    const double v = levels[vf_pick("level", 0, 3)];
    const int n = (int) vf_pick("n", 1, 4) * 2;
    std::vector<double> x(n, v);
    for (int i = 0; i < n; i += 2) x[i] = -v;
    const double t = vf_double("threshold", -1e3, 1e3);
    vf_assert(edsp::silence(x.begin(), x.end(), t) == (v * v < t), "silent exactly below the threshold");
}
