//@file bounds="every sample in [-m,m], m 1 and 32768 (thorough also 1e-3, 0.5, 10; the mu law itself for every m in [1e-3,1e6]), compression factors 1, 87 and 255 (thorough also 15, 100, 1000 and 65535); blocks of 1..3 samples, and of 19 and 130 of which one is arbitrary" assume="exact real arithmetic up to a relative 1e-6; log and pow by their algebra and monotony"
#include "vf.hpp"
#include <edsp/experimental/quantizer/mu_law_compressor.hpp>
namespace {
#ifdef VF_THOROUGH
long factor() { static const long f[7] = {1, 15, 87, 100, 255, 1000, 65535}; return f[vf_pick("factor", 0, 6)]; }
double maximum() { static const double m[5] = {1, 0.5, 10, 32768, 1e-3}; return m[vf_pick("max", 0, 4)]; }
#else
long factor() { static const long f[3] = {1, 87, 255}; return f[vf_pick("factor", 0, 2)]; }
double maximum() { static const double m[2] = {1, 32768}; return m[vf_pick("max", 0, 1)]; }
#endif
// any value in [-m,m]: the magnitude is free, the sign is split
double sample(double m) { const double s = vf_pick("negative", 0, 1) ? -1 : 1; return s * vf_double("x", 0, m); }
template <typename T> T compress(T x, T m, long mu) {
    T y = 77;
    edsp::quantizer::mu_law_compression(&x, &x + 1, &y, m, mu);
    return y;
}
template <typename T> T expand(T x, T m, long mu) {
    T y = 77;
    edsp::quantizer::inverse_mu_law_compression(&x, &x + 1, &y, m, mu);
    return y;
}
}
H(c29_compress) {
    const long mu = factor();
    const double m = vf_double("max", 1e-3, 1e6), r = sample(1), x = r * m;
    const double y = compress(x, m, mu);
    vf_close(y, (r < 0 ? -1 : 1) * m * std::log(1 + mu * std::abs(r)) / std::log(1 + (double) mu), 1e-6, "the mu law");
}
H(c29_expand) {
    const long mu = factor();
    const double m = maximum(), x = sample(m), r = x / m;
    const double y = expand(x, m, mu);
    vf_close(y, (r < 0 ? -1 : 1) * m * (std::pow(1 + (double) mu, std::abs(r)) - 1) / mu, 1e-6, "the inverse mu law");
}
H(c29_range) {
    const long mu = factor();
    const double m = vf_pick("max", 0, 1) ? 32768 : 1, x = sample(m), r = x / m;
    const double y = compress(x, m, mu), z = expand(x, m, mu);
    vf_assert(y >= -m * (1 + 1e-6) && y <= m * (1 + 1e-6), "compressing stays in the range");
    vf_assert(z >= -m * (1 + 1e-6) && z <= m * (1 + 1e-6), "expanding stays in the range");
    if (x > 0) vf_assert(y >= 0 && z >= 0, "the sign is kept");
    if (x < 0) vf_assert(y <= 0 && z <= 0, "the sign is kept");
}
H(c29_fixed) {
    const long mu = factor();
    const double m = vf_double("max", 1e-3, 1e6);
    vf_close(compress(0.0, m, mu), 0, 1e-9, "zero is fixed");
    vf_close(expand(0.0, m, mu), 0, 1e-9, "zero is fixed");
    vf_close(compress(m, m, mu), m, 1e-6, "the ends are fixed");
    vf_close(compress(-m, m, mu), -m, 1e-6, "the ends are fixed");
    vf_close(expand(m, m, mu), m, 1e-6, "the ends are fixed");
    vf_close(expand(-m, m, mu), -m, 1e-6, "the ends are fixed");
}
H(c29_odd) {
    const long mu = factor();
    const double m = maximum(), x = vf_double("x", 0, m);
    vf_close(compress(-x, m, mu), -compress(x, m, mu), 1e-6, "odd");
    vf_close(expand(-x, m, mu), -expand(x, m, mu), 1e-6, "odd");
}
//@ budget=800
H(c29_order) {
    const long mu = factor();
    const double m = maximum(), r = sample(m), s = sample(m);
    vf_assume(r <= s);
    vf_assert(compress(r, m, mu) <= compress(s, m, mu) + 1e-6 * m, "the order is kept");
    vf_assert(expand(r, m, mu) <= expand(s, m, mu) + 1e-6 * m, "the order is kept");
}
//@ budget=800
H(c29_inverse) {
    const long mu = factor();
    const double m = maximum(), x = sample(m);
    vf_close(expand(compress(x, m, mu), m, mu), x, 1e-6, "expanding undoes compressing");
    vf_close(compress(expand(x, m, mu), m, mu), x, 1e-6, "compressing undoes expanding");
}
//@ budget=800
H(c29_long_block) {
    // one arbitrary sample among many fixed ones
    const long mu = 255;
    const int n = vf_pick("n", 0, 1) ? 130 : 19, at = (int) vf_pick("at", 0, 2) * (n - 1) / 2;
    const bool inplace = vf_pick("in place", 0, 1), forth = vf_pick("compress", 0, 1);
    const double m = 2;
    std::vector<double> x(n + 2, 0.25), y(n + 2, 0.125);
    for (int i = 0; i < n; ++i) x[1 + i] = ((i * 37 + 11) % 64 - 32) / 16.0;
    x[1 + at] = vf_double("x", -m, m);
    const auto x0 = x;
    auto& out = inplace ? x : y;
    if (forth) edsp::quantizer::mu_law_compression(x.begin() + 1, x.end() - 1, out.begin() + 1, m, mu);
    else edsp::quantizer::inverse_mu_law_compression(x.begin() + 1, x.end() - 1, out.begin() + 1, m, mu);
    for (int i = 0; i < n; ++i) vf_close(out[1 + i], forth ? compress(x0[1 + i], m, mu) : expand(x0[1 + i], m, mu), 1e-6, "a long block is its samples");
    vf_same(out.front(), inplace ? 0.25 : 0.125, "nothing written before the output");
    vf_same(out.back(), inplace ? 0.25 : 0.125, "nothing written after the output");
}
H(c29_block) {
    const long mu = 255;
    const int n = (int) vf_pick("n", 0, 3);
    const bool inplace = vf_pick("in place", 0, 1), forth = vf_pick("compress", 0, 1);
    const double m = vf_double("max", 1e-3, 1e6);
    std::vector<double> x(n + 2, 0.25), y(n + 2, 0.125);
    for (int i = 0; i < n; ++i) x[1 + i] = sample(1) * m;
    const auto x0 = x;
    auto& out = inplace ? x : y;
    if (forth) edsp::quantizer::mu_law_compression(x.begin() + 1, x.end() - 1, out.begin() + 1, m, mu);
    else edsp::quantizer::inverse_mu_law_compression(x.begin() + 1, x.end() - 1, out.begin() + 1, m, mu);
    for (int i = 0; i < n; ++i) vf_close(out[1 + i], forth ? compress(x0[1 + i], m, mu) : expand(x0[1 + i], m, mu), 1e-6, "a block is its samples");
    vf_same(out.front(), inplace ? 0.25 : 0.125, "nothing written before the output");
    vf_same(out.back(), inplace ? 0.25 : 0.125, "nothing written after the output");
    if (!inplace) for (int i = 0; i < n; ++i) vf_same(x[1 + i], x0[1 + i], "input left alone");
}
H(c29_float) {
    const long mu = factor();
    const float m = 1, x = (float) sample(1);
    vf_close(compress(x, m, mu), (x < 0 ? -1 : 1) * std::log(1 + mu * std::abs((double) x)) / std::log(1 + (double) mu), 1e-4, "the mu law");
    vf_close(expand(x, m, mu), (x < 0 ? -1 : 1) * (std::pow(1 + (double) mu, std::abs((double) x)) - 1) / mu, 1e-4, "the inverse mu law");
}
