//@file bounds="every bit pattern of every sample (double and float), every gain and every pair of limits; vectors of 0..4 samples (thorough 0..8), and of 43 and 131 with one arbitrary sample; integer samples over all 16-bit and 32-bit values; in-place and separate ranges with guard cells" assume="clip limits are numbers with low <= high"
#include "vf.hpp"
#include <edsp/algorithm.hpp>
namespace {
#ifdef VF_THOROUGH
constexpr int N = 8;
#else
constexpr int N = 4;
#endif
double any(double) { return vf_anydouble("x"); }
float any(float) { return vf_anyfloat("x"); }
double limit(double, const char* n) { return vf_anydouble(n); }
float limit(float, const char* n) { return vf_anyfloat(n); }
double gain(double) { return vf_anydouble("gain"); }
float gain(float) { return vf_anyfloat("gain"); }
// one sample at a time: ref(x, y) holds for what f makes of any x
// n samples: every cell is what f makes of that sample alone, separately and in place, and nothing else is written
template <typename T, typename F, typename R> void each(F f, R ref) {
    const int kind = (int) vf_pick("kind", 0, 2);
    if (kind == 0) {
        T x = any(T()), y = 0;
        f(&x, &x + 1, &y);
        ref(x, y);
        return;
    }
    if (kind == 1) {
        // a long vector with an arbitrary sample somewhere
        const int half = vf_pick("length", 0, 1) ? 65 : 21, n = 2 * half + 1, at = (int) vf_pick("at", 0, 2) * half;
        std::vector<T> x(n), y(n + 2, T(77)), z;
        for (int i = 0; i < n; ++i) x[i] = T((i * 29 % 17) - 8) * T(0.375);
        x[at] = any(T());
        z = x;
        f(x.begin(), x.end(), y.begin() + 1);
        f(z.begin(), z.end(), z.begin());
        for (int i = 0; i < n; ++i) {
            T s = 0;
            f(&x[i], &x[i] + 1, &s);
            vf_same(y[i + 1], s, "every sample of a long vector on its own");
            vf_same(z[i], s, "in place in a long vector");
        }
        vf_assert(y[0] == T(77) && y[n + 1] == T(77), "nothing written outside a long output");
        return;
    }
    int n = (int) vf_pick("n", 0, N);
    std::vector<T> x(n), y(n + 2), z, guard(2);
    for (auto& v : x) v = any(T());
    guard[0] = any(T()); guard[1] = any(T());
    y[0] = guard[0]; y[n + 1] = guard[1];
    const std::vector<T> in = x;
    f(x.begin(), x.end(), y.begin() + 1);
    z = x;
    f(z.begin(), z.end(), z.begin());
    vf_same(y[0], guard[0], "nothing written before the output");
    vf_same(y[n + 1], guard[1], "nothing written after the output");
    for (int i = 0; i < n; ++i) {
        T s = 0;
        f(&x[i], &x[i] + 1, &s);
        vf_same(x[i], in[i], "input left alone");
        vf_same(y[i + 1], s, "every sample on its own");
        vf_same(z[i], s, "in place gives the same result");
    }
}
template <typename T> bool integral(T y) { return y == std::trunc(y); }
template <typename T> struct op {
    static void ceil() {
        each<T>([](auto a, auto b, auto o) { edsp::ceil(a, b, o); }, [](T x, T y) {
            if (x != x) vf_assert(y != y, "ceil keeps NaN");
            else if (std::isinf(x)) vf_same(y, x, "ceil keeps infinities");
            else vf_assert(integral(y) && y >= x && y - 1 <= x && (y == x || y - 1 != x || std::fabs(x) > 1e6), "ceil is the least integer above");
            vf_same(y, std::ceil(x), "ceil");
        });
    }
    static void floor() {
        each<T>([](auto a, auto b, auto o) { edsp::floor(a, b, o); }, [](T x, T y) {
            if (x != x) vf_assert(y != y, "floor keeps NaN");
            else if (std::isinf(x)) vf_same(y, x, "floor keeps infinities");
            else vf_assert(integral(y) && y <= x, "floor is an integer below");
            vf_same(y, std::floor(x), "floor");
        });
    }
    static void round() {
        each<T>([](auto a, auto b, auto o) { edsp::round(a, b, o); }, [](T x, T y) {
            if (x != x) vf_assert(y != y, "round keeps NaN");
            else if (std::isinf(x)) vf_same(y, x, "round keeps infinities");
            else {
                vf_assert(integral(y), "round gives an integer");
                vf_assert(std::fabs(y) - std::fabs(x) <= T(0.5) && std::fabs(x) - std::fabs(y) <= T(0.5), "round to nearest");
                if (std::fabs(x) - std::trunc(std::fabs(x)) == T(0.5)) vf_assert(std::fabs(y) > std::fabs(x), "halves away from zero");
                vf_assert(std::signbit(y) == std::signbit(x), "round keeps the sign");
            }
        });
    }
    static void fix() {
        each<T>([](auto a, auto b, auto o) { edsp::fix(a, b, o); }, [](T x, T y) {
            if (x != x) vf_assert(y != y, "fix keeps NaN");
            else vf_same(y, x < 0 || std::signbit(x) ? std::ceil(x) : std::floor(x), "fix rounds towards zero");
        });
    }
    static void rectify() {
        each<T>([](auto a, auto b, auto o) { edsp::rectify(a, b, o); }, [](T x, T y) {
            if (x != x) vf_assert(y != y, "rectify keeps NaN");
            else {
                vf_assert(!std::signbit(y), "rectified samples are not negative");
                vf_assert(y == x || y == -x, "rectified samples keep their magnitude");
            }
        });
    }
    static void amplify() {
        T g = gain(T());
        each<T>([g](auto a, auto b, auto o) { edsp::amplifier(a, b, o, g); }, [g](T x, T y) { vf_same(y, g * x, "amplified by the factor"); });
    }
    static void clip(bool amplified) {
        T g = amplified ? gain(T()) : T(1), lo = limit(T(), "lo"), hi = limit(T(), "hi");
        vf_assume(lo <= hi);
        each<T>([=](auto a, auto b, auto o) { if (amplified) edsp::amplifier(a, b, o, g, lo, hi); else edsp::clipper(a, b, o, lo, hi); },
                [=](T x, T y) {
                    T s = amplified ? static_cast<T>(g * x) : x;
                    if (s != s) vf_assert(y != y, "clipping keeps NaN");
                    else {
                        vf_assert(y >= lo && y <= hi, "within the limits");
                        if (s >= lo && s <= hi) vf_assert(y == s, "unchanged inside the limits");
                        else vf_assert(y == (s < lo ? lo : hi), "the limit outside of them");
                    }
                });
    }
};
}
//@ mode=fp
H(c13_ceil) { op<double>::ceil(); }
//@ mode=fp
H(c13_ceil_float) { op<float>::ceil(); }
//@ mode=fp
H(c13_floor) { op<double>::floor(); }
//@ mode=fp
H(c13_floor_float) { op<float>::floor(); }
//@ mode=fp qt=40
H(c13_round) { op<double>::round(); }
//@ mode=fp
H(c13_round_float) { op<float>::round(); }
//@ mode=fp
H(c13_fix) { op<double>::fix(); }
//@ mode=fp
H(c13_fix_float) { op<float>::fix(); }
//@ mode=fp
H(c13_rectify) { op<double>::rectify(); }
//@ mode=fp
H(c13_rectify_float) { op<float>::rectify(); }
//@ mode=fp
H(c13_amplify) { op<double>::amplify(); }
//@ mode=fp
H(c13_amplify_float) { op<float>::amplify(); }
//@ mode=fp
H(c13_clip) { op<double>::clip(false); }
//@ mode=fp
H(c13_clip_float) { op<float>::clip(false); }
//@ mode=fp
H(c13_amplify_clip) { op<double>::clip(true); }
//@ mode=fp
H(c13_amplify_clip_float) { op<float>::clip(true); }
//@ mode=fp
H(c13_mixed) {
    // float samples to double samples
    float x[3];
    for (auto& v : x) v = vf_anyfloat("x");
    double y[5] = {1, 2, 3, 4, 5}, g = vf_anydouble("gain");
    edsp::amplifier(x, x + 3, y + 1, g);
    for (int i = 0; i < 3; ++i) vf_same(y[i + 1], g * x[i], "amplified (float to double)");
    edsp::rectify(x, x + 3, y + 1);
    for (int i = 0; i < 3; ++i) if (x[i] == x[i]) vf_same(y[i + 1], x[i] < 0 || std::signbit(x[i]) ? -x[i] : x[i], "rectified (float to double)");
    vf_assert(y[0] == 1 && y[4] == 5, "nothing else written");
}
//@ mode=fp
H(c13_clip_integers) {
    constexpr int n = 2;
    std::int32_t x[n], y[n];
    std::int16_t s[n], t[n];
    for (auto& v : x) v = (std::int32_t) vf_int("x", INT32_MIN, INT32_MAX);
    for (auto& v : s) v = (std::int16_t) vf_int("s", INT16_MIN, INT16_MAX);
    std::int32_t lo = (std::int32_t) vf_int("lo", INT32_MIN, INT32_MAX), hi = (std::int32_t) vf_int("hi", INT32_MIN, INT32_MAX);
    std::int16_t sl = (std::int16_t) vf_int("sl", INT16_MIN, INT16_MAX), sh = (std::int16_t) vf_int("sh", INT16_MIN, INT16_MAX);
    vf_assume(lo <= hi && sl <= sh);
    edsp::clipper(x, x + n, y, lo, hi);
    edsp::clipper(s, s + n, t, sl, sh);
    for (int i = 0; i < n; ++i) {
        vf_assert(y[i] >= lo && y[i] <= hi && (x[i] < lo ? y[i] == lo : x[i] > hi ? y[i] == hi : y[i] == x[i]), "clipped integers");
        vf_assert(t[i] >= sl && t[i] <= sh && (s[i] < sl ? t[i] == sl : s[i] > sh ? t[i] == sh : t[i] == s[i]), "clipped 16-bit integers");
    }
}
