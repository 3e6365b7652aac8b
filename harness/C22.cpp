//@file bounds="levels in [-200,200] dB, magnitudes and powers in [1e-9,1e9], angles in [-1e6,1e6]; powers of ten over the whole range of each type; float and double; splitting and joining of 0..5 (thorough 0..9) and 33 complex samples of every bit pattern" assume="decibel and angle conversions as exact real functions up to 1e-7 relative rounding (float 1e-4)"
#include "vf.hpp"
#include <edsp/converter.hpp>
namespace {
#ifdef VF_THOROUGH
constexpr int N = 9;
#else
constexpr int N = 5;
#endif
template <typename T> constexpr double tol() { return sizeof(T) == 8 ? 1e-7 : 1e-4; }
template <typename T> void to_magnitude() {
    T d = vf_double("dB", -200, 200);
    vf_close(edsp::db2mag(d), std::pow(10., (double) d / 20), tol<T>(), "magnitude of a level");
    vf_close(edsp::db2pow(d), std::pow(10., (double) d / 10), tol<T>(), "power of a level");
}
template <typename T> void to_level() {
    T m = vf_double("m", 1e-9, 1e9);
    vf_close(edsp::mag2db(m), 20 * std::log10((double) m), tol<T>(), "level of a magnitude");
    vf_close(edsp::pow2db(m), 10 * std::log10((double) m), tol<T>(), "level of a power");
}
double any(double) { return vf_anydouble("x"); }
float any(float) { return vf_anyfloat("x"); }
bool long_ = false;
template <typename T> void split_join() {
    typedef std::complex<T> C;
    int n = long_ ? 33 : (int) vf_pick("n", 0, N);
    std::vector<C> z(n), w(n + 2);
    std::vector<T> re(n + 2), im(n + 2);
    for (auto& v : z) { T a = any(T()), b = any(T()); v = C(a, b); }
    T guard = any(T());
    re[0] = re[n + 1] = im[0] = im[n + 1] = guard;
    w[0] = w[n + 1] = C(guard, guard);
    edsp::complex2real(z.begin(), z.end(), re.begin() + 1, im.begin() + 1);
    for (int i = 0; i < n; ++i) {
        vf_same(re[1 + i], z[i].real(), "real part of each sample in its place");
        vf_same(im[1 + i], z[i].imag(), "imaginary part of each sample in its place");
    }
    edsp::real2complex(re.begin() + 1, re.begin() + 1 + n, im.begin() + 1, w.begin() + 1);
    for (int i = 0; i < n; ++i) {
        vf_same(w[1 + i].real(), z[i].real(), "joining restores the real part");
        vf_same(w[1 + i].imag(), z[i].imag(), "joining restores the imaginary part");
    }
    vf_same(re[0], guard, "nothing written before the output");
    vf_same(im[0], guard, "nothing written before the output");
    vf_same(re[n + 1], guard, "nothing written after the output");
    vf_same(im[n + 1], guard, "nothing written after the output");
    vf_same(w[0].real(), guard, "nothing written before the output");
    vf_same(w[0].imag(), guard, "nothing written before the output");
    vf_same(w[n + 1].real(), guard, "nothing written after the output");
    vf_same(w[n + 1].imag(), guard, "nothing written after the output");
}
template <typename T> void real_only() {
    typedef std::complex<T> C;
    int n = (int) vf_pick("n", 0, N);
    std::vector<T> x(n);
    std::vector<C> w(n + 2);
    for (auto& v : x) v = any(T());
    for (auto& v : w) { T a = any(T()), b = any(T()); v = C(a, b); }
    const auto before = w;
    edsp::real2complex(x.begin(), x.end(), w.begin() + 1);
    for (int i = 0; i < n; ++i) {
        vf_same(w[1 + i].real(), x[i], "the sample is the real part");
        vf_same(w[1 + i].imag(), T(0), "no imaginary part");
    }
    vf_same(w[0].real(), before[0].real(), "nothing written before the output");
    vf_same(w[0].imag(), before[0].imag(), "nothing written before the output");
    vf_same(w[n + 1].real(), before[n + 1].real(), "nothing written after the output");
    vf_same(w[n + 1].imag(), before[n + 1].imag(), "nothing written after the output");
}
}
H(c22_to_magnitude_double) { to_magnitude<double>(); }
H(c22_to_magnitude_float) { to_magnitude<float>(); }
H(c22_to_level_double) { to_level<double>(); }
H(c22_to_level_float) { to_level<float>(); }
H(c22_inverse) {
    double m = vf_double("m", 1e-9, 1e9), d = vf_double("dB", -100, 100);
    vf_close(edsp::db2mag(edsp::mag2db(m)), m, 1e-7, "magnitude restored");
    vf_close(edsp::db2pow(edsp::pow2db(m)), m, 1e-7, "power restored");
    vf_close(edsp::mag2db(edsp::db2mag(d)), d, 1e-7, "level restored");
    vf_close(edsp::pow2db(edsp::db2pow(d)), d, 1e-7, "level restored");
}
H(c22_reference) {
    vf_close(edsp::mag2db(1.), 0, 1e-12, "0 dB is one");
    vf_close(edsp::pow2db(1.), 0, 1e-12, "0 dB is one");
    vf_close(edsp::db2mag(0.), 1, 1e-12, "one is 0 dB");
    vf_close(edsp::db2pow(0.), 1, 1e-12, "one is 0 dB");
    vf_close(edsp::deg2rad(0.), 0, 1e-12, "zero degrees");
    vf_close(edsp::deg2rad(180.), VF_PI, 1e-12, "half a turn");
}
H(c22_order) {
    double a = vf_double("a", 1e-9, 1e9), b = vf_double("b", 1e-9, 1e9);
    vf_assume(a < b);
    vf_assert(edsp::mag2db(a) < edsp::mag2db(b), "greater magnitude, greater level");
    vf_assert(edsp::pow2db(a) < edsp::pow2db(b), "greater power, greater level");
    double x = vf_double("x", -200, 200), y = vf_double("y", -200, 200);
    vf_assume(x < y);
    vf_assert(edsp::db2mag(x) < edsp::db2mag(y), "greater level, greater magnitude");
    vf_assert(edsp::db2pow(x) < edsp::db2pow(y), "greater level, greater power");
}
H(c22_angle_double) {
    double a = vf_double("a", -1e6, 1e6);
    vf_close(edsp::deg2rad(a), a * VF_PI / 180, 1e-9, "radians of degrees");
    vf_close(edsp::rad2deg(a), a * 180 / VF_PI, 1e-6, "degrees of radians");
    vf_close(edsp::rad2deg(edsp::deg2rad(a)), a, 1e-6, "degrees restored");
    vf_close(edsp::deg2rad(edsp::rad2deg(a)), a, 1e-6, "radians restored");
}
H(c22_angle_float) {
    float a = vf_float("a", -1e3, 1e3);
    vf_close(edsp::deg2rad(a), a * VF_PI / 180, 1e-3, "radians of degrees");
    vf_close(edsp::rad2deg(a), a * 180 / VF_PI, 1e-1, "degrees of radians");
}
//@ mode=fp
H(c22_split_join_double) { split_join<double>(); }
//@ mode=fp
H(c22_split_join_float) { split_join<float>(); }
//@ mode=fp
H(c22_real_only_double) { real_only<double>(); }
//@ mode=fp
H(c22_real_only_float) { real_only<float>(); }
// the whole range of each type: nothing overflows or underflows on the way
namespace {
template <typename T> void extreme(const int* tens, int n) {
    const int k = tens[vf_pick("power of ten", 0, n - 1)];
    T m = 1;
    for (int i = 0; i < k; ++i) m *= 10;
    for (int i = 0; i > k; --i) m /= 10;
    const double level = edsp::mag2db(m), power = edsp::pow2db(m);
    vf_assert(level > 20 * k - 0.01 && level < 20 * k + 0.01, "level of an extreme magnitude");
    vf_assert(power > 10 * k - 0.01 && power < 10 * k + 0.01, "level of an extreme power");
    const double mag = edsp::db2mag(T(20 * k)) / m, pow = edsp::db2pow(T(10 * k)) / m;
    vf_assert(mag > 0.999 && mag < 1.001, "extreme magnitude of a level");
    vf_assert(pow > 0.999 && pow < 1.001, "extreme power of a level");
}
}
//@ mode=fp
H(c22_extreme_double) {
    static const int tens[9] = {-307, -200, -160, -80, 0, 80, 160, 200, 307};
    extreme<double>(tens, 9);
}
//@ mode=fp
H(c22_extreme_float) {
    static const int tens[9] = {-37, -25, -20, -10, 0, 10, 20, 25, 37};
    extreme<float>(tens, 9);
}
//@ mode=fp
H(c22_split_join_long) { long_ = true; if (vf_pick("float", 0, 1)) split_join<float>(); else split_join<double>(); long_ = false; }
