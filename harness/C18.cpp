//@file bounds="signals of 1..5 samples (thorough 1..7) in [-1e3,1e3] (positive means: [1e-2,1e3]); and of 17, 40 and 130 samples of which one to four are arbitrary; double and float; moments of order 0..5; exponents -3..4 of the generalised mean" assume="exact real arithmetic up to 1e-7 relative rounding (float 1e-3); skewness and kurtosis of signals with a variance of at least 1e-3"
#include "vf.hpp"
#include <edsp/statistics.hpp>
namespace {
namespace st = edsp::statistics;
#ifdef VF_THOROUGH
constexpr int N = 7, S = 5;
#else
constexpr int N = 5, S = 4;
#endif
template <typename T> std::vector<T> signal(int most, double lo = -1e3, double hi = 1e3) {
    std::vector<T> x((size_t) vf_size("n", 1, most));
    vf_samples(x, "x", lo, hi);
    return x;
}
template <typename T> double mean_of(const std::vector<T>& x) {
    double s = 0;
    for (T v : x) s += v;
    return s / x.size();
}
template <typename T> double central(const std::vector<T>& x, double m, int k) {
    double s = 0;
    for (T v : x) {
        double p = 1;
        for (int i = 0; i < k; ++i) p *= v - m;
        s += p;
    }
    return s / x.size();
}
template <typename T> void means() {
    auto x = signal<T>(N);
    const auto x0 = x;
    double m = st::mean(x.begin(), x.end());
    vf_close(m, mean_of(x), sizeof(T) == 8 ? 1e-9 : 1e-4, "arithmetic mean");
    bool above = false, below = false;
    for (T v : x) { above = above | (v >= m - 1e-3); below = below | (v <= m + 1e-3); }
    vf_assert(above & below, "the mean lies between the extremes");
    for (size_t i = 0; i < x.size(); ++i) vf_same(x[i], x0[i], "input left alone");
}
// the moment about the mean, and about any other point
template <typename T, size_t K> void moments() {
    auto x = signal<T>(K > 3 ? S : N);
    const double tol = sizeof(T) == 8 ? 1e-7 : 1e-2;
    vf_close(st::moment<K>(x.begin(), x.end()), central(x, mean_of(x), K), tol, "moment about the mean");
    T c = vf_double("c", -1e3, 1e3);
    vf_close(st::moment<K>(x.begin(), x.end(), c), central(x, c, K), tol, "moment about a given point");
}
}
H(c18_mean_double) { means<double>(); }
H(c18_mean_float) { means<float>(); }
H(c18_moment0) { moments<double, 0>(); }
H(c18_moment1) { moments<double, 1>(); }
H(c18_moment2) { moments<double, 2>(); }
H(c18_moment3) { moments<double, 3>(); }
H(c18_moment4) { moments<double, 4>(); }
H(c18_moment5) { moments<double, 5>(); }
H(c18_moment2_float) { moments<float, 2>(); }
H(c18_moment3_float) { moments<float, 3>(); }
H(c18_variance) {
    auto x = signal<double>(N);
    double v = st::variance(x.begin(), x.end()), m = mean_of(x), s = 0;
    for (double a : x) s += (a - m) * (a - m);
    vf_close(v, s / x.size(), 1e-7, "mean squared deviation");
    double d = st::standard_deviation(x.begin(), x.end());
    vf_assert(d >= 0, "standard deviation not negative");
    vf_close(d * d, v, 1e-6, "square of the standard deviation");
}
H(c18_variance_sign) {
    auto x = signal<double>(S);
    vf_assert(st::variance(x.begin(), x.end()) >= -1e-9, "variance not negative");
}
H(c18_variance_constant) {
    int n = (int) vf_pick("n", 1, N);
    std::vector<double> x(n, vf_double("c", -1e3, 1e3));
    vf_close(st::variance(x.begin(), x.end()), 0, 1e-9, "a constant does not vary");
    vf_close(st::standard_deviation(x.begin(), x.end()), 0, 1e-6, "a constant does not vary");
}
H(c18_shift) {
    auto x = signal<double>(N);
    double c = vf_double("c", -1e3, 1e3);
    auto y = x;
    for (double& v : y) v += c;
    vf_close(st::variance(y.begin(), y.end()), st::variance(x.begin(), x.end()), 1e-6, "variance unchanged by a shift");
    vf_close(st::moment<3>(y.begin(), y.end()), st::moment<3>(x.begin(), x.end()), 1e-6, "third moment unchanged by a shift");
    vf_close(st::mean(y.begin(), y.end()), st::mean(x.begin(), x.end()) + c, 1e-9, "the mean shifts along");
}
H(c18_skewness) {
    auto x = signal<double>(S);
    double m = mean_of(x), m2 = central(x, m, 2), m3 = central(x, m, 3);
    vf_assume(m2 >= 1e-3);
    vf_close(st::skewness(x.begin(), x.end()), m3 / (std::sqrt(m2) * m2), 1e-7, "third standardised moment");
}
H(c18_kurtosis) {
    auto x = signal<double>(S);
    double m = mean_of(x), m2 = central(x, m, 2), m4 = central(x, m, 4);
    vf_assume(m2 >= 1e-3);
    vf_close(st::kurtosis(x.begin(), x.end()), m4 / (m2 * m2), 1e-7, "fourth standardised moment");
}
H(c18_norm) {
    auto x = signal<double>(N);
    double s = 0, r = st::norm(x.begin(), x.end());
    for (double v : x) s += v * v;
    vf_assert(r >= 0, "norm not negative");
    vf_close(r * r, s, 1e-7, "square of the norm");
    vf_close(r, std::sqrt(s), 1e-7, "Euclidean norm");
}
H(c18_geometric) {
    auto x = signal<double>(S, 1e-2, 1e3);
    double l = 0;
    for (double v : x) l += std::log(v);
    vf_close(st::geometric_mean(x.begin(), x.end()), std::exp(l / x.size()), 1e-7, "exponential of the mean logarithm");
}
H(c18_harmonic) {
    auto x = signal<double>(S, 1e-2, 1e3);
    double s = 0, h = st::harmonic_mean(x.begin(), x.end());
    for (double v : x) s += 1 / v;
    vf_close(h, x.size() / s, 1e-7, "reciprocal of the mean reciprocal");
}
H(c18_generalized) {
    auto x = signal<double>(S, 1e-2, 1e2);
    int b = vf_wide ? (int) vf_pick("exponent", 1, 2) : (int) vf_pick("exponent", -3, 4);
    if (b == 0) return;
    double s = 0;
    for (double v : x) {
        double p = 1;
        for (int i = 0; i < (b < 0 ? -b : b); ++i) p *= v;
        s += b < 0 ? 1 / p : p;
    }
    vf_close(st::generalized_mean(x.begin(), x.end(), b), std::pow(s / x.size(), 1. / b), 1e-6, "power mean");
}
H(c18_mean_forward) {
    int n = (int) vf_pick("n", 1, 4);
    double x[6];
    for (double& v : x) v = vf_double("x", -1e3, 1e3);
    vf_close(st::mean(x + 1, x + 1 + n), mean_of(std::vector<double>(x + 1, x + 1 + n)), 1e-9, "only the samples of the range count");
    vf_close(st::variance(x + 1, x + 1 + n), central(std::vector<double>(x + 1, x + 1 + n), mean_of(std::vector<double>(x + 1, x + 1 + n)), 2), 1e-6, "only the samples of the range count");
}
H(c18_mean_double_wide) { vf_wide = 4; c18_mean_double(); }
H(c18_mean_float_wide) { vf_wide = 4; c18_mean_float(); }
H(c18_moment0_wide) { vf_wide = 1; c18_moment0(); }
H(c18_moment1_wide) { vf_wide = 1; c18_moment1(); }
H(c18_moment2_wide) { vf_wide = 1; c18_moment2(); }
H(c18_moment3_wide) { vf_wide = 1; c18_moment3(); }
H(c18_moment4_wide) { vf_wide = 1; c18_moment4(); }
H(c18_moment5_wide) { vf_wide = 1; c18_moment5(); }
H(c18_moment2_float_wide) { vf_wide = 1; c18_moment2_float(); }
H(c18_variance_wide) { vf_wide = 2; c18_variance(); }
H(c18_shift_wide) { vf_wide = 1; c18_shift(); }
H(c18_skewness_wide) { vf_wide = 1; c18_skewness(); }
H(c18_kurtosis_wide) { vf_wide = 1; c18_kurtosis(); }
H(c18_norm_wide) { vf_wide = 2; c18_norm(); }
H(c18_geometric_wide) { vf_wide = 1; c18_geometric(); }
H(c18_harmonic_wide) { vf_wide = 1; c18_harmonic(); }
H(c18_generalized_wide) { vf_wide = 1; c18_generalized(); }
