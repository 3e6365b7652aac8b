//@file bounds="signals of 1..5 samples (thorough 1..7) in [-1e3,1e3], and of 17, 40 and 130 samples of which one is arbitrary (and the peak lies anywhere), with a greatest magnitude (or RMS) of at least 1e-3; double and float; separate and in-place" assume="exact real arithmetic up to 1e-7 relative rounding; the signal is not zero"
#include "vf.hpp"
#include <edsp/algorithm.hpp>
#include <edsp/algorithm/normalize.hpp>
namespace {
#ifdef VF_THOROUGH
constexpr int N = 7, R = 6;
#else
constexpr int N = 5, R = 4;
#endif
// any signal whose greatest magnitude is m: every signal is one of these, for some position and sign of the peak
template <typename T> T peaked(std::vector<T>& x) {
    T m = vf_double("m", vf_wide ? 1001 : 1e-3, vf_wide ? 1e4 : 1e3);
    int k = vf_wide ? (int) vf_pick("k", 0, 2) * ((int) x.size() - 1) / 2 : (int) vf_pick("k", 0, (int) x.size() - 1), minus = (int) vf_pick("minus", 0, 1);
    if (vf_wide) vf_background(x, -1e3, 1e3);
    else vf_fill(x, "x", -1e3, 1e3);
    for (T v : x) vf_assume((v <= m) & (v >= -m));
    x[k] = minus ? -m : m;
    return m;
}
// runs f on any signal x of n samples, whose level is what fill() returns
template <typename T, typename F, typename L, typename C> void each(int most, F f, L fill, C check) {
    int n = vf_size("n", 1, most);
    std::vector<T> x(n), o(n + 2), z;
    T m = fill(x);
    T lo = vf_double("before", -10, 10), hi = vf_double("after", -10, 10);
    o[0] = lo; o[n + 1] = hi;
    z = x;
    const std::vector<T> x0 = x;
    f(x.begin(), x.end(), o.begin() + 1);
    f(z.begin(), z.end(), z.begin());
    for (int i = 0; i < n; ++i) {
        vf_same(x[i], x0[i], "input left alone");
        vf_close(o[1 + i], x0[i] / m, sizeof(T) == 8 ? 1e-7 : 1e-3, "every sample is divided by the same level");
        vf_close(z[i], o[1 + i], 1e-9, "in place");
    }
    vf_same(o[0], lo, "nothing written before the output");
    vf_same(o[n + 1], hi, "nothing written after the output");
    check(std::vector<T>(o.begin() + 1, o.begin() + 1 + n));
}
template <typename T> T level_rms(const std::vector<T>& x) {
    T s = 0;
    for (T v : x) s += v * v;
    return std::sqrt(s / x.size());
}
template <typename T> void peak() {
    each<T>(N, [](auto a, auto b, auto c) { edsp::normalize(a, b, c); }, peaked<T>, [](const std::vector<T>& y) {
        bool one = false;
        for (T v : y) {
            vf_assert(std::fabs(v) <= T(1.0001), "no sample beyond one");
            one = one | (std::fabs(v) >= T(0.9999));
        }
        vf_assert(one, "the peak is one");
    });
}
template <typename T> void rms() {
    each<T>(R, [](auto a, auto b, auto c) { edsp::normalize_rms(a, b, c); }, [](std::vector<T>& x) {
        vf_samples(x, "x", -1e3, 1e3);
        T m = level_rms(x);
        vf_assume(m >= T(1e-3));
        return m;
    }, [](const std::vector<T>& y) {
        if (!vf_wide) vf_close(level_rms(y), 1, 1e-4, "the RMS is one");
    });
}
}
H(c16_peak_double) { peak<double>(); }
H(c16_peak_float) { peak<float>(); }
H(c16_rms_double) { rms<double>(); }
H(c16_rms_float) { rms<float>(); }
H(c16_peak_double_wide) { vf_wide = 1; c16_peak_double(); }
H(c16_peak_float_wide) { vf_wide = 1; c16_peak_float(); }
H(c16_rms_double_wide) { vf_wide = 1; c16_rms_double(); }
H(c16_rms_float_wide) { vf_wide = 1; c16_rms_float(); }
