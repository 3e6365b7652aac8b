//@file bounds="every value of 8, 16, 32 and 64-bit signed and unsigned integers (primality: every 8 and 16-bit value up to 440, thorough 2600, of each integer type, every 8-bit value, and products of two factors up to 61); every bit pattern of double and float; complex numbers with parts in [-1e6,1e6]" assume="results that the argument type cannot represent are left open (next power of two beyond the type, of zero and of negative values; half of odd integers beyond truncation); inverse of non-zero values"
#include "vf.hpp"
#include <edsp/math/numeric.hpp>
#include <edsp/math/complex.hpp>
namespace {
template <typename T> T any(const char* n) {
    typedef std::numeric_limits<T> L;
    if (sizeof(T) == 8) return (T) vf_int(n, INT64_MIN, INT64_MAX);
    return (T) vf_int(n, (std::int64_t) L::min(), (std::int64_t) L::max());
}
template <typename T> void parity() {
    T x = any<T>("x");
    bool odd = x & 1;
    vf_assert(edsp::is_odd(x) == odd, "odd exactly when the lowest bit is set");
    vf_assert(edsp::is_even(x) == !odd, "even exactly when not odd");
    vf_assert(edsp::is_negative(x) == (x < 0), "negative");
    vf_assert(edsp::sign(x) == (T) (x < 0 ? -1 : 1), "sign");
}
template <typename T> void powers() {
    T x = any<T>("x");
    bool one = false;
    for (unsigned i = 0; i < 8 * sizeof(T) - (std::is_signed<T>::value ? 1 : 0); ++i) one = one | (x == (T) ((std::uint64_t) 1 << i));
    vf_assert(edsp::is_power_two(x) == one, "power of two exactly when one bit is set");
}
template <typename T> void next() {
    T x = any<T>("x");
    const T top = (T) (((std::uint64_t) 1) << (8 * sizeof(T) - (std::is_signed<T>::value ? 2 : 1)));
    vf_assume(x >= 1);
    vf_assume(x <= top);
    T p = edsp::next_power_two(x);
    vf_assert(p >= x, "not below the value");
    vf_assert((p & (p - 1)) == 0 && p > 0, "a power of two");
    vf_assert(p == 1 || p / 2 < x, "no smaller power of two would do");
}
template <typename T> void halves() {
    T x = any<T>("x");
    vf_assume((x & 1) == 0);
    T h = edsp::half(x);
    vf_assert((T) (h + h) == x, "twice the half is the value");
    vf_assert((h < 0) == (x < 0), "same sign");
}
template <typename T> void primes(int most) {
    T x = (T) vf_int("x", std::is_signed<T>::value ? -8 : 0, most);
    bool p = x >= 2;
    for (int d = 2; d * d <= most; ++d) p = p & ((x <= d) | (x % (T) d != 0));
    vf_assert(edsp::is_prime(x) == p, "prime exactly when nothing but one and itself divides it");
}
#ifdef VF_THOROUGH
constexpr int P = 2600, F = 61;
#else
constexpr int P = 440, F = 23;
#endif
double anyf(double) { return vf_anydouble("x"); }
float anyf(float) { return vf_anyfloat("x"); }
std::uint64_t bits(double x) { std::uint64_t b; std::memcpy(&b, &x, 8); return b; }
std::uint32_t bits(float x) { std::uint32_t b; std::memcpy(&b, &x, 4); return b; }
template <typename T> void classes() {
    T x = anyf(T());
    typedef decltype(bits(x)) B;
    const int m = sizeof(T) == 8 ? 52 : 23;
    const B emax = sizeof(T) == 8 ? 0x7ff : 0xff, b = bits(x), e = (b >> m) & emax, f = b & (((B) 1 << m) - 1);
    vf_assert(edsp::is_nan(x) == ((e == emax) & (f != 0)), "NaN");
    vf_assert(edsp::is_inf(x) == ((e == emax) & (f == 0)), "infinity");
    vf_assert(edsp::is_zero(x) == ((e == 0) & (f == 0)), "zero");
    vf_assert(edsp::is_denormal(x) == ((e == 0) & (f != 0)), "subnormal");
    vf_assert(edsp::is_normal(x) == ((e != 0) & (e != emax)), "normal");
}
template <typename T> void scalars() {
    T x = anyf(T());
    vf_assert(edsp::is_negative(x) == (x < 0), "negative");
    if (x < 0) vf_same(edsp::sign(x), T(-1), "sign of a negative number");
    if (x > 0) vf_same(edsp::sign(x), T(1), "sign of a positive number");
    vf_same(edsp::square(x), x * x, "square");
    vf_same(edsp::half(x), x / 2, "half");
    vf_same(edsp::inv(x), T(1) / x, "inverse");
}
template <typename T> void fraction() {
    T x = anyf(T());
    vf_same(edsp::fract(x), x - std::floor(x), "part after the point");
}
template <typename T> void complexes() {
    T a = anyf(T()), b = anyf(T());
    std::complex<T> z(a, b);
    vf_same(edsp::math::real(z), a, "real part");
    vf_same(edsp::math::imag(z), b, "imaginary part");
    vf_same(edsp::math::conj(z).real(), a, "conjugate: real part kept");
    vf_same(edsp::math::conj(z).imag(), -b, "conjugate: imaginary part negated");
    vf_assert(edsp::is_nan(z) == ((a != a) | (b != b)), "NaN when either part is");
    const T inf = std::numeric_limits<T>::infinity();
    vf_assert(edsp::is_inf(z) == ((a == inf) | (a == -inf) | (b == inf) | (b == -inf)), "infinite when either part is");
    vf_assert(edsp::is_inf(edsp::math::infinity<T>()), "infinity is infinite");
}
}
#define INTS(S, T) H(c21_parity_##S) { parity<T>(); } H(c21_power_##S) { powers<T>(); } H(c21_next_##S) { next<T>(); } H(c21_half_##S) { halves<T>(); }
INTS(i8, std::int8_t)
INTS(u8, std::uint8_t)
INTS(i16, std::int16_t)
INTS(u16, std::uint16_t)
INTS(i32, std::int32_t)
INTS(u32, std::uint32_t)
INTS(i64, std::int64_t)
INTS(u64, std::uint64_t)
H(c21_prime_i8) { primes<std::int8_t>(127); }
H(c21_prime_u8) { primes<std::uint8_t>(255); }
H(c21_prime_i16) { primes<std::int16_t>(P); }
H(c21_prime_i32) { primes<std::int32_t>(P); }
H(c21_prime_u32) { primes<std::uint32_t>(P); }
H(c21_prime_i64) { primes<std::int64_t>(P); }
H(c21_prime_u64) { primes<std::uint64_t>(P); }
// beyond 32 bits: numbers with a divisor found early, for every upper half, and some primes
H(c21_composite_64) {
    const std::uint64_t high = (std::uint64_t) vf_int("high", 1, INT32_MAX), low = vf_pick("low", 0, 49), x = (high << 32) + low;
    const std::uint64_t d[4] = {2, 3, 5, 7};
    vf_assume(x % d[vf_pick("divisor", 0, 3)] == 0);
    vf_assert(!edsp::is_prime(x), "divisible, so not prime");
    vf_assert(!edsp::is_prime((std::int64_t) x), "divisible, so not prime");
}
H(c21_prime_64) {
    const std::uint64_t p[4] = {4294967311ull, 4294967357ull, 8589934609ull, 10000000019ull};
    const std::uint64_t x = p[vf_pick("prime", 0, 3)];
    vf_assert(edsp::is_prime(x), "prime");
    vf_assert(!edsp::is_prime(x + 1), "even, so not prime");
}
H(c21_composite) {
    std::uint32_t a = (std::uint32_t) vf_pick("a", 2, F), b = (std::uint32_t) vf_int("b", 2, 1000);
    vf_assert(!edsp::is_prime(a * b), "a product is not prime");
}
//@ mode=fp
H(c21_classes_double) { classes<double>(); }
//@ mode=fp
H(c21_classes_float) { classes<float>(); }
//@ mode=fp
H(c21_scalars_double) { scalars<double>(); }
//@ mode=fp
H(c21_scalars_float) { scalars<float>(); }
//@ mode=fp
H(c21_fract_double) { fraction<double>(); }
//@ mode=fp
H(c21_fract_float) { fraction<float>(); }
//@ mode=fp
H(c21_complex_double) { complexes<double>(); }
//@ mode=fp
H(c21_complex_float) { complexes<float>(); }
H(c21_fract_range) {
    double x = vf_double("x", -1e6, 1e6), f = edsp::fract(x);
    vf_assert(f >= 0 && f < 1, "part after the point in [0,1)");
    double w = x - f;
    vf_close(w, std::floor(w + 0.5), 1e-9, "the rest is a whole number");
}
H(c21_magnitude) {
    double a = vf_double("a", -1e6, 1e6), b = vf_double("b", -1e6, 1e6);
    double m = edsp::magnitude(std::complex<double>(a, b));
    vf_assert(m >= 0, "magnitude not negative");
    vf_close(m * m, a * a + b * b, 1e-6, "square of the magnitude");
}
H(c21_phase) {
    double a = vf_double("a", -1e3, 1e3), b = vf_double("b", -1e3, 1e3);
    vf_assume(a * a + b * b >= 1e-3);
    double p = edsp::phase(std::complex<double>(a, b));
    vf_close(p, std::atan2(b, a), 1e-9, "angle of the number");
}
H(c21_distance) {
    double a = vf_double("a", -1e6, 1e6), b = vf_double("b", -1e6, 1e6);
    vf_close((edsp::math::distance<edsp::distances::manhattan, double>(a, b)), std::fabs(a - b), 1e-9, "absolute difference");
    vf_close((edsp::math::distance<edsp::distances::euclidean, double>(a, b)), (a - b) * (a - b), 1e-6, "squared difference");
}
H(c21_distance_logarithmic) {
    double a = vf_double("a", 1e-2, 1e3), b = vf_double("b", 1e-2, 1e3);
    int s = (int) vf_pick("signs", 0, 3);
    vf_close((edsp::math::distance<edsp::distances::logarithmic, double>(s & 1 ? -a : a, s & 2 ? -b : b)), std::log(a / b), 1e-6, "logarithm of the ratio of the magnitudes");
}
