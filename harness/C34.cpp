//@file bounds="every word of the random engine (arbitrary 32-bit words for the binary generator, arbitrary 64-bit words for the noises), every range with |min|,|max| up to 1e3, every probability in [0,1]; sequences of 60 values three of which are arbitrary for the shaped noises; sequences of 1..4 values (thorough 6); math::rand: every range with ends up to 1e3 and the extreme words of the engine for real numbers, five ranges of each type and every word for integers; the generic generator with every distribution, symbolic parameters where the distribution maps one word, two seeds" assume="exact real arithmetic up to 1e-6; the wall clock (the seed) is a value of the harness; the standard distributions are those of libstdc++"
#include "vf.hpp"
#include <complex>
#include <limits>
#include <random>
// the engine of math::rand may produce any word
static int vf_draws = 0, vf_seeds = 0, vf_extreme_words = 0;
namespace std {
struct vf_device {
    unsigned operator()() { ++vf_seeds; return 5; }
};
struct vf_engine {
    typedef std::uint_fast32_t result_type;
    explicit vf_engine(unsigned) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    result_type operator()() {
        vf_assume(++vf_draws <= 4);  // few words are rejected
        static const result_type extremes[] = {0, 1, 0x7fffffffu, 0xfffffffeu, 0xffffffffu};
        if (vf_extreme_words) return extremes[vf_pick("word", 0, 4)];
        return (result_type) vf_int("random word", 0, 0xffffffffll);
    }
};
}
#define random_device vf_device
#define mt19937 vf_engine
#include <edsp/math/numeric.hpp>
#undef random_device
#undef mt19937
#include <edsp/random.hpp>
static std::int64_t vf_clock = 12345;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vf_clock)); }
}}}
using namespace edsp::random;
namespace {
#ifdef VF_THOROUGH
constexpr int STEPS = 6;
#else
constexpr int STEPS = 4;
#endif
// engines that may produce anything: whole words, and (for the conversions to real numbers) any number in their range
struct words {
    typedef std::uint32_t result_type;
    int calls = 0;
    words() {}
    explicit words(std::size_t) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    result_type operator()() {
        vf_assume(++calls <= 2);  // at most one word is rejected
        return (result_type) vf_int("word", 0, 0xffffffffll);
    }
};
double forced = -1;  // the word to produce instead of any
double word;  // the last one, from zero to one
struct reals {
    typedef double result_type;
    reals() {}
    explicit reals(std::size_t) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 18446744073709551615.0; }
    result_type operator()() {
        word = forced >= 0 ? forced : vf_double("word", 0, 0.9999999999);
        return word * 18446744073709551616.0;
    }
};
double mx(double a, double b) { return a > b ? a : b; }
int steps() { return vf_wide ? 60 : STEPS; }
void choose(int i) { forced = vf_wide && i % 20 != 3 ? (i * i * 7 + 13 * i + 5) % 64 / 64. : -1; }
}
H(c34_constant) {
    const double v = vf_double("v", -1e6, 1e6);
    constant_generator<double> g(v);
    for (int i = 0; i < STEPS; ++i) vf_same(g(), v, "the constant source repeats its value");
    constant_generator<int> h((int) vf_int("i", -1000000, 1000000));
    const int first = h();
    vf_assert(h() == first, "the constant source repeats its value");
}
H(c34_binary) {
    const double p = vf_double("p", 0, 1);
    binary_generator<double, reals> g(p);
    for (int i = 0; i < STEPS; ++i) {
        const double v = g();
        vf_assert(v == 0 || v == 1, "the binary source gives zero or one");
        if (word > p + 1e-9) vf_same(v, 0, "one with the requested probability");
        if (word < p - 1e-9) vf_same(v, 1, "one with the requested probability");
        if (p == 0) vf_same(v, 0, "probability zero never gives one");
        if (p == 1) vf_same(v, 1, "probability one always gives one");
    }
}
H(c34_white) {
    const double lo = vf_double("min", -1e3, 1e3), hi = vf_double("max", -1e3, 1e3);
    vf_assume(lo <= hi);
    white_noise_generator<double, reals> g(lo, hi);
    for (int i = 0; i < STEPS; ++i) {
        const double v = g();
        vf_assert(v >= lo - 1e-9 && v <= hi + 1e-9, "white noise inside its range");
        vf_close(v, lo + (hi - lo) * word, 1e-6, "white noise is uniform");
    }
}
H(c34_white_float) {
    const float lo = vf_float("min", -1e3, 1e3), hi = vf_float("max", -1e3, 1e3);
    vf_assume(lo <= hi);
    white_noise_generator<float, reals> g(lo, hi);
    const double v = g();
    vf_assert(v >= lo - 1e-3 && v <= hi + 1e-3, "white noise inside its range");
}
H(c34_white_int) {
    static const int ranges[5][2] = {{0, 0}, {0, 1}, {-1, 1}, {-128, 127}, {-5, 1000}};
    const int r = (int) vf_pick("range", 0, 4);
    white_noise_generator<int, words> g(ranges[r][0], ranges[r][1]);
    const int v = g();
    vf_assert(v >= ranges[r][0] && v <= ranges[r][1], "white noise inside its range");
}
// the white noise behind the shaped noises, from the same words
H(c34_brown) {
    const double lo = vf_double("min", -1e3, 1e3), hi = vf_double("max", -1e3, 1e3);
    vf_assume(lo <= hi);
    brown_noise_generator<double, reals> g(lo, hi);
    const double m = mx(std::abs(lo), std::abs(hi));
    for (int i = 0; i < STEPS; ++i) {
        const double v = g();
        vf_assert(v >= -3.5 * m - 1e-6 && v <= 3.5 * m + 1e-6, "brown noise inside its range");
        vf_assert(lo < 0 || v >= -1e-6, "brown noise of one sign");
        vf_assert(hi > 0 || v <= 1e-6, "brown noise of one sign");
    }
}
H(c34_brown_filter) {
    const double lo = -3, hi = 5;
    brown_noise_generator<double, reals> g(lo, hi);
    double last = 0;
    for (int i = 0; i < steps(); ++i) {
        choose(i);
        const double v = g(), w = lo + (hi - lo) * word;
        last = (last + 0.02 * w) / 1.02;
        vf_close(v, 3.5 * last, 1e-6, "brown noise integrates the white noise with a leak");
    }
}
H(c34_pink) {
    const double lo = vf_double("min", -1e3, 1e3), hi = vf_double("max", -1e3, 1e3);
    vf_assume(lo <= hi);
    pink_noise_generator<double, reals> g(lo, hi);
    const double m = mx(std::abs(lo), std::abs(hi));
    for (int i = 0; i < STEPS; ++i) {
        const double v = g();
        vf_assert(std::abs(v) <= 7.7 * m + 1e-6, "pink noise inside its range");
    }
}
H(c34_pink_filter) {
    const double lo = -3, hi = 5;
    pink_noise_generator<double, reals> g(lo, hi);
    // the refined filter of Paul Kellet
    static const double pole[6] = {0.99886, 0.99332, 0.96900, 0.86650, 0.55000, -0.7616}, gain[6] = {0.0555179, 0.0750759, 0.1538520, 0.3104856, 0.5329522, -0.0168980};
    double b[6] = {0, 0, 0, 0, 0, 0}, delayed = 0;
    for (int i = 0; i < steps(); ++i) {
        choose(i);
        const double v = g(), w = lo + (hi - lo) * word;
        double s = delayed + w * 0.5362;
        for (int k = 0; k < 6; ++k) {
            b[k] = pole[k] * b[k] + gain[k] * w;
            s += b[k];
        }
        delayed = w * 0.115926;
        vf_close(v, 0.11 * s, 1e-6, "pink noise is the filtered white noise");
    }
}
H(c34_perlin) {
    static const unsigned char table[256] = {
        151, 160, 137, 91, 90, 15, 131, 13, 201, 95, 96, 53, 194, 233, 7, 225, 140, 36, 103, 30, 69, 142, 8, 99, 37, 240, 21, 10, 23, 190, 6, 148,
        247, 120, 234, 75, 0, 26, 197, 62, 94, 252, 219, 203, 117, 35, 11, 32, 57, 177, 33, 88, 237, 149, 56, 87, 174, 20, 125, 136, 171, 168, 68, 175,
        74, 165, 71, 134, 139, 48, 27, 166, 77, 146, 158, 231, 83, 111, 229, 122, 60, 211, 133, 230, 220, 105, 92, 41, 55, 46, 245, 40, 244, 102, 143, 54,
        65, 25, 63, 161, 1, 216, 80, 73, 209, 76, 132, 187, 208, 89, 18, 169, 200, 196, 135, 130, 116, 188, 159, 86, 164, 100, 109, 198, 173, 186, 3, 64,
        52, 217, 226, 250, 124, 123, 5, 202, 38, 147, 118, 126, 255, 82, 85, 212, 207, 206, 59, 227, 47, 16, 58, 17, 182, 189, 28, 42, 223, 183, 170, 213,
        119, 248, 152, 2, 44, 154, 163, 70, 221, 153, 101, 155, 167, 43, 172, 9, 129, 22, 39, 253, 19, 98, 108, 110, 79, 113, 224, 232, 178, 185, 112, 104,
        218, 246, 97, 228, 251, 34, 242, 193, 238, 210, 144, 12, 191, 179, 162, 241, 81, 51, 145, 235, 249, 14, 239, 107, 49, 192, 214, 31, 181, 199, 106, 157,
        184, 84, 204, 176, 115, 121, 50, 45, 127, 4, 150, 254, 138, 236, 205, 93, 222, 114, 67, 29, 24, 72, 243, 141, 128, 195, 78, 66, 215, 61, 156, 180};
    // every cell the position can fall into, any place inside
    const int cell = (int) vf_pick("cell", 0, 510);
    const double f = vf_double("place", 0.001, 0.999);
    forced = (cell + f) / 511;
    perlin_noise_generator<double, reals> g;
    const double v = g();
    vf_assert(v >= -1 - 1e-6 && v <= 1 + 1e-6, "Perlin noise between minus one and one");
    const int c = cell & 255;
    if (c < 255) {
        const double a = table[c] & 1 ? -f : f, b = table[c + 1] & 1 ? 1 - f : f - 1, u = f * f * f * (f * (f * 6 - 15) + 10);
        vf_close(v, 2 * (a + u * (b - a)), 1e-6, "Perlin noise interpolates between the gradients of its cell");
    }
}
// the generic generator is the standard distribution with the same parameters over the engine seeded by the clock
namespace {
template <DistributionType D, typename T, typename Dist, typename... A> void generic(A... a) {
    vf_clock = vf_pick("seed", 0, 1) ? 5489 : 1;
    random_generator<D, T> g(a...);
    std::mt19937 e((std::size_t) vf_clock);
    Dist d(a...);
    for (int i = 0; i < 3; ++i) vf_close((double) g(), (double) d(e), 1e-9, "the generic generator draws from its distribution");
}
}
H(c34_generic_uniform) { generic<DistributionType::Uniform, double, std::uniform_real_distribution<double>>(vf_double("a", -1e3, 0), vf_double("b", 1, 1e3)); }
H(c34_generic_uniform_float) { generic<DistributionType::Uniform, float, std::uniform_real_distribution<float>>(vf_float("a", -1e3, 0), vf_float("b", 1, 1e3)); }
H(c34_generic_default) { generic<DistributionType::Uniform, double, std::uniform_real_distribution<double>>(); }
H(c34_generic_bernoulli) { generic<DistributionType::Bernoulli, bool, std::bernoulli_distribution>(vf_double("p", 0, 1)); }
H(c34_generic_binomial) { generic<DistributionType::Binomial, int, std::binomial_distribution<int>>(6, 0.25); }
H(c34_generic_geometric) { generic<DistributionType::Geometric, int, std::geometric_distribution<int>>(0.3); }
H(c34_generic_poisson) { generic<DistributionType::Poisson, int, std::poisson_distribution<int>>(4.0); }
H(c34_generic_exponential) { generic<DistributionType::Exponential, double, std::exponential_distribution<double>>(vf_double("lambda", 0.1, 10)); }
H(c34_generic_gamma) { generic<DistributionType::Gamma, double, std::gamma_distribution<double>>(2.5, vf_double("beta", 0.1, 10)); }
H(c34_generic_weibull) { generic<DistributionType::Weibull, double, std::weibull_distribution<double>>(1.5, vf_double("b", 0.1, 10)); }
H(c34_generic_extreme) { generic<DistributionType::ExtremeValue, double, std::extreme_value_distribution<double>>(vf_double("a", -10, 10), vf_double("b", 0.1, 10)); }
H(c34_generic_normal) { generic<DistributionType::Normal, double, std::normal_distribution<double>>(vf_double("mean", -10, 10), vf_double("deviation", 0.1, 10)); }
H(c34_generic_lognormal) { generic<DistributionType::LogNormal, double, std::lognormal_distribution<double>>(0.5, 0.25); }
H(c34_generic_chi) { generic<DistributionType::ChiSquared, double, std::chi_squared_distribution<double>>(3.0); }
H(c34_generic_cauchy) { generic<DistributionType::Cauchy, double, std::cauchy_distribution<double>>(vf_double("a", -10, 10), vf_double("b", 0.1, 10)); }
H(c34_generic_fisher) { generic<DistributionType::Fisher, double, std::fisher_f_distribution<double>>(3.0, 4.0); }
H(c34_generic_student) { generic<DistributionType::Student, double, std::student_t_distribution<double>>(5.0); }
H(c34_generic_discrete) {
    static const double w[4] = {1, 2, 0, 4};
    generic<DistributionType::Discrete, int, std::discrete_distribution<int>>(w, w + 4);
}
H(c34_generic_pieces) {
    static const double at[4] = {-1, 0, 2, 3}, w[4] = {1, 2, 0.5, 4};
    generic<DistributionType::PieceWiseConstant, double, std::piecewise_constant_distribution<double>>(at, at + 4, w);
    generic<DistributionType::PieceWiseLinear, double, std::piecewise_linear_distribution<double>>(at, at + 4, w);
}
H(c34_brown_filter_wide) { vf_wide = 1; c34_brown_filter(); }
H(c34_pink_filter_wide) { vf_wide = 1; c34_pink_filter(); }
H(c34_rand_real) {
    vf_extreme_words = 1;
    const double a = vf_double("a", -1e3, 1e3), b = vf_double("b", -1e3, 1e3);
    vf_assume(a <= b);
    const double r = vf_pick("float", 0, 1) ? (double) edsp::math::rand<float>((float) a, (float) b) : edsp::math::rand<double>(a, b);
    vf_assert(a - 1e-3 <= r && r <= b + 1e-3, "a random number in its range");
    vf_assert(vf_seeds == 1, "seeded by the device");
}
//@ mode=fp
H(c34_rand_integer) {
    const int which = (int) vf_pick("type", 0, 3), k = (int) vf_pick("range", 0, 4);
    if (which == 0) {
        static const int ranges[5][2] = {{0, 1}, {-3, 9}, {7, 7}, {-2147483647 - 1, 2147483647}, {-2000000000, 1999999999}};
        const int r = edsp::math::rand<int>(ranges[k][0], ranges[k][1]);
        vf_assert(ranges[k][0] <= r && r <= ranges[k][1], "a random number in its range");
    } else if (which == 1) {
        static const short ranges[5][2] = {{0, 1}, {-3, 9}, {7, 7}, {-32768, 32767}, {-30000, 29999}};
        const short r = edsp::math::rand<short>(ranges[k][0], ranges[k][1]);
        vf_assert(ranges[k][0] <= r && r <= ranges[k][1], "a random number in its range");
    } else if (which == 2) {
        static const long long ranges[5][2] = {{-5, 5000000000ll}, {0, 4294967296ll}, {-4611686018427387904ll, 4611686018427387904ll}, {3, 3}, {-9223372036854775807ll - 1, 9223372036854775807ll}};
        const long long r = edsp::math::rand<long long>(ranges[k][0], ranges[k][1]);
        vf_assert(ranges[k][0] <= r && r <= ranges[k][1], "a random number in its range");
    } else {
        edsp::math::rand<int>();
        edsp::math::rand<long long>();
        edsp::math::rand<unsigned>();
    }
}
