//@file bounds="1..4 feed-forward and 1..4 feedback coefficients (thorough 1..6) in [-1e3,1e3], 1..5 evaluation points (thorough 1..8), vectors and pointers, a wide destination" assume="exact real arithmetic; denominators of magnitude at least 0.01 at the evaluated points"
#include "vf.hpp"
#include <edsp/filter.hpp>

namespace {
#ifdef VF_THOROUGH
constexpr int M = 6, K = 8;
#else
constexpr int M = 4, K = 5;
#endif
typedef std::complex<double> cd;
// sum of c[m] exp(-j pi m k / K)
cd at(const std::vector<double>& c, int k, int K_) {
    double re = 0, im = 0;
    for (size_t m = 0; m < c.size(); ++m) {
        re += c[m] * std::cos(VF_PI * m * k / K_);
        im -= c[m] * std::sin(VF_PI * m * k / K_);
    }
    return {re, im};
}
template <typename It> void response(It b0, It b1, It a0, It a1, const std::vector<double>& b, const std::vector<double>& a, int n) {
    std::vector<cd> out(n + 2, cd(7, -7));
    std::vector<cd> den(n);
    for (int k = 0; k < n; ++k) {
        den[k] = at(a, k, n);
        vf_assume(den[k].real() * den[k].real() + den[k].imag() * den[k].imag() >= 1e-4);
    }
    edsp::filter::freq(b0, b1, a0, a1, out.begin() + 1, n);
    for (int k = 0; k < n; ++k) {
        const cd num = at(b, k, n), h = out[k + 1];
        vf_close(h.real() * den[k].real() - h.imag() * den[k].imag(), num.real(), 1e-6, "response times denominator is the numerator");
        vf_close(h.real() * den[k].imag() + h.imag() * den[k].real(), num.imag(), 1e-6, "response times denominator is the numerator");
    }
    vf_assert(out[0] == cd(7, -7) && out[n + 1] == cd(7, -7), "nothing written outside the destination");
}
}
H(c38_response) {
    std::vector<double> b((size_t) vf_pick("M", 1, M)), a((size_t) vf_pick("N", 1, M));
    const int n = (int) vf_pick("K", 1, K);
    vf_fill(b, "b", -1e3, 1e3);
    vf_fill(a, "a", -1e3, 1e3);
    response(b.begin(), b.end(), a.begin(), a.end(), b, a, n);
}
H(c38_pointers) {
    const double* p = nullptr;
    std::vector<double> b(2), a(3);
    vf_fill(b, "b", -1e3, 1e3);
    vf_fill(a, "a", -1e3, 1e3);
    p = a.data();
    response(b.data(), b.data() + 2, const_cast<double*>(p), const_cast<double*>(p) + 3, b, a, (int) vf_pick("K", 1, K));
}
H(c38_float) {
    std::vector<float> b(3), a(2);
    vf_fill(b, "b", -100, 100);
    a[0] = 1;
    a[1] = vf_float("a", -0.9f, 0.9f);
    const int n = (int) vf_pick("K", 1, K);
    std::vector<std::complex<float>> out(n);
    edsp::filter::freq(b.begin(), b.end(), a.begin(), a.end(), out.begin(), n);
    for (int k = 0; k < n; ++k) {
        const cd num = at({b[0], b[1], b[2]}, k, n), den = at({a[0], a[1]}, k, n);
        const double hr = out[k].real(), hi = out[k].imag();
        vf_close(hr * den.real() - hi * den.imag(), num.real(), 0.1, "response times denominator is the numerator (float)");
        vf_close(hr * den.imag() + hi * den.real(), num.imag(), 0.1, "response times denominator is the numerator (float)");
    }
}
