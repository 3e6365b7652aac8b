//@file bounds="signals of 1..6 samples (thorough 1..9), and of 17, 40 and (differences and ratios) 130 samples of which one is arbitrary (an exact real in [-2e3,2e3]): max, min and peak over every double and float bit pattern except NaN and over every 64-bit integer; absolute extremes likewise (integers: up to 4, thorough 5, 32-bit values but INT32_MIN); peak-to-peak and peak-to-RMS of finite samples in [-1e6,1e6]" assume="no NaN among the samples; peak-to-RMS of a signal with a greatest magnitude of at least 1e-3"
#include "vf.hpp"
#include <edsp/statistics.hpp>
#include <edsp/converter.hpp>
#include <edsp/converter/peak2peak.hpp>
#include <edsp/converter/peak2rms.hpp>
namespace {
#ifdef VF_THOROUGH
constexpr int N = 9, R = 6, A = 5;
#else
constexpr int N = 6, R = 4, A = 4;
#endif
double any(double) { double v = vf_anydouble("x"); vf_assume(v == v); return v; }
float any(float) { float v = vf_anyfloat("x"); vf_assume(v == v); return v; }
std::int32_t any(std::int32_t) { return (std::int32_t) vf_int("x", INT32_MIN + 1, INT32_MAX); }
std::int64_t any(std::int64_t) { return vf_int("x", INT64_MIN, INT64_MAX); }
template <typename T> T some(T) { return (T) vf_double("x", -2e3, 2e3); }
std::int32_t some(std::int32_t) { return any(std::int32_t()); }
std::int64_t some(std::int64_t) { return any(std::int64_t()); }
template <typename T> T mag(T v) { return v < 0 ? -v : v; }
double mag(double v) { return std::fabs(v); }
float mag(float v) { return std::fabs(v); }
// the signal sits between two guards that would win any comparison
template <typename T> struct guarded {
    std::vector<T> v;
    int n;
    guarded(T g, int most = N) : n(vf_size("n", 1, most)) {
        v.assign(n + 2, g);
        if (vf_wide) vf_background(v, -1e3, 1e3);
        v[0] = v[n + 1] = g;
        const int at = vf_wide ? (int) vf_pick("place", 0, 2) * (n - vf_wide) / 2 : 0;
        for (int i = at; i < (vf_wide ? at + vf_wide : n); ++i) v[1 + i] = vf_wide ? some(T()) : any(T());
    }
    auto begin() { return v.begin() + 1; }
    auto end() { return v.begin() + 1 + n; }
    T operator[](int i) const { return v[1 + i]; }
};
// r is a value of x and nothing in x is beyond it
template <typename T, typename K, typename B> void extreme(const guarded<T>& x, T r, K key, B beyond, const char* among, const char* most) {
    bool found = false;
    for (int i = 0; i < x.n; ++i) {
        found = found | (key(x[i]) == r);
        vf_assert(!beyond(key(x[i]), r), most);
    }
    vf_assert(found, among);
}
template <typename T> void maximum(T g) {
    guarded<T> x(g);
    extreme<T>(x, edsp::statistics::max(x.begin(), x.end()), [](T v) { return v; }, [](T a, T b) { return a > b; }, "the maximum is a sample", "no sample above the maximum");
}
template <typename T> void minimum(T g) {
    guarded<T> x(g);
    extreme<T>(x, edsp::statistics::min(x.begin(), x.end()), [](T v) { return v; }, [](T a, T b) { return a < b; }, "the minimum is a sample", "no sample below the minimum");
}
template <typename T> void maxabs(T g) {
    guarded<T> x(g, std::is_integral<T>::value ? A : N);
    extreme<T>(x, edsp::statistics::maxabs(x.begin(), x.end()), [](T v) { return mag(v); }, [](T a, T b) { return a > b; }, "the maximum magnitude is that of a sample", "no magnitude above the maximum");
}
template <typename T> void minabs(T g) {
    guarded<T> x(g, std::is_integral<T>::value ? A : N);
    extreme<T>(x, edsp::statistics::minabs(x.begin(), x.end()), [](T v) { return mag(v); }, [](T a, T b) { return a < b; }, "the minimum magnitude is that of a sample", "no magnitude below the minimum");
}
template <typename T> void peaks(T g) {
    guarded<T> x(g);
    auto p = edsp::statistics::peak(x.begin(), x.end());
    vf_assert((p.first >= 0) & (p.first < x.n), "peak: position inside the signal");
    for (int i = 0; i < x.n; ++i) {
        if (p.first == i) vf_assert(p.second == x[i], "peak: the value is that at the position");
        vf_assert(!(x[i] > p.second), "peak: no sample above it");
        vf_assert((i >= p.first) | (x[i] < p.second), "peak: the first of equal peaks");
    }
}
template <typename T> void peaksabs(T g) {
    guarded<T> x(g, std::is_integral<T>::value ? A : N);
    auto p = edsp::statistics::peakabs(x.begin(), x.end());
    vf_assert((p.first >= 0) & (p.first < x.n), "peakabs: position inside the signal");
    for (int i = 0; i < x.n; ++i) {
        if (p.first == i) vf_assert(p.second == x[i], "peakabs: the value is that at the position");
        vf_assert(!(mag(x[i]) > mag(p.second)), "peakabs: no magnitude above it");
        vf_assert((i >= p.first) | (mag(x[i]) < mag(p.second)), "peakabs: the first of equal peaks");
    }
}
const double inf = std::numeric_limits<double>::infinity();
const float inff = std::numeric_limits<float>::infinity();
}
//@ mode=fp
H(c17_max_double) { maximum<double>(inf); }
//@ mode=fp
H(c17_max_float) { maximum<float>(inff); }
H(c17_max_integer) { maximum<std::int64_t>(INT64_MAX); }
//@ mode=fp
H(c17_min_double) { minimum<double>(-inf); }
//@ mode=fp
H(c17_min_float) { minimum<float>(-inff); }
H(c17_min_integer) { minimum<std::int64_t>(INT64_MIN); }
//@ mode=fp
H(c17_maxabs_double) { maxabs<double>(inf); }
//@ mode=fp
H(c17_maxabs_float) { maxabs<float>(inff); }
H(c17_maxabs_integer) { maxabs<std::int32_t>(INT32_MAX); }
//@ mode=fp
H(c17_minabs_double) { minabs<double>(0); }
//@ mode=fp
H(c17_minabs_float) { minabs<float>(0); }
H(c17_minabs_integer) { minabs<std::int32_t>(0); }
//@ mode=fp
H(c17_peak_double) { peaks<double>(inf); }
H(c17_peak_integer) { peaks<std::int64_t>(INT64_MAX); }
//@ mode=fp
H(c17_peakabs_double) { peaksabs<double>(inf); }
H(c17_peakabs_integer) { peaksabs<std::int32_t>(INT32_MAX); }
H(c17_peak2peak) {
    int n = vf_wide ? 17 : (int) vf_pick("n", 1, N);
    std::vector<double> x(n);
    vf_samples(x, "x", -1e6, 1e6);
    double p = edsp::peak2peak(x.begin(), x.end());
    bool reached = false;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            vf_assert(x[i] - x[j] <= p, "peak to peak: no two samples further apart");
            reached = reached | (x[i] - x[j] == p);
        }
    vf_assert(reached, "peak to peak: difference between two samples");
}
H(c17_peak2rms) {
    int n = vf_size("n", 1, R);
    std::vector<double> x(n);
    double m = vf_double("m", vf_wide ? 1001 : 1e-3, vf_wide ? 1e4 : 1e3), s = 0;
    int k = vf_wide ? (int) vf_pick("k", 0, 2) * (n - 1) / 2 : (int) vf_pick("k", 0, n - 1), minus = (int) vf_pick("minus", 0, 1);
    if (vf_wide) vf_background(x, -1e3, 1e3);
    else vf_fill(x, "x", -1e3, 1e3);
    for (double v : x) vf_assume((v <= m) & (v >= -m));
    x[k] = minus ? -m : m;
    for (double v : x) s += v * v;
    double rms = std::sqrt(s / n);
    vf_close(edsp::peak2rms(x.begin(), x.end()), m / rms, 1e-7, "peak to RMS: the greatest magnitude over the RMS");
}
H(c17_max_double_wide) { vf_wide = 1; vf_wide_far = 0; c17_max_double(); }
H(c17_min_double_wide) { vf_wide = 1; vf_wide_far = 0; c17_min_double(); }
H(c17_maxabs_double_wide) { vf_wide = 1; vf_wide_far = 0; c17_maxabs_double(); }
H(c17_minabs_double_wide) { vf_wide = 1; vf_wide_far = 0; c17_minabs_double(); }
H(c17_peak_double_wide) { vf_wide = 1; vf_wide_most = 17; c17_peak_double(); }
H(c17_peakabs_double_wide) { vf_wide = 1; vf_wide_most = 17; c17_peakabs_double(); }
H(c17_max_integer_wide) { vf_wide = 1; vf_wide_far = 0; c17_max_integer(); }
H(c17_min_integer_wide) { vf_wide = 1; vf_wide_far = 0; c17_min_integer(); }
H(c17_peak2peak_wide) { vf_wide = 1; c17_peak2peak(); }
H(c17_peak2rms_wide) { vf_wide = 1; c17_peak2rms(); }
