//@file bounds="every signal (every pair) with samples in [-1e3,1e3] of 1..4 samples (thorough 1..6; for float with samples in [-10,10]), hilbert and spectrum 1..6 (thorough 1..9), odd and even; signals of 17 and 24 samples of which one or two are arbitrary (but for the cepstrum); all scale options; cepstrum for every signal of 1..3 samples whose spectrum has no zero" assume="FFTW is modelled by the defining sums of its manual and the rules for executing plans (the validation runs link the real library); exact real arithmetic up to a relative 1e-6" native_libs="-lfftw3 -lfftw3f" flags="-DUSE_LIBFFTW"
#include "vf.hpp"
#include "fftw_stub.hpp"
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/spectral/spectrum.hpp>
namespace {
#ifdef VF_THOROUGH
constexpr int PAIR = 6, SINGLE = 9, CEPS = 4;
template <typename T> constexpr double range() { return sizeof(T) == 8 ? 1e3 : 10; }
#else
constexpr int PAIR = 4, SINGLE = 6, CEPS = 3;
template <typename T> constexpr double range() { return 1e3; }
#endif
template <typename T> constexpr double tol() { return sizeof(T) == 8 ? 1e-6 : 1e-1; }
template <typename T> std::vector<T> signal(int n) {
    std::vector<T> x(n);
    vf_samples(x, "x", -range<T>(), range<T>());
    return x;
}
// a range of n cells with guards around
template <typename V> struct guarded {
    std::vector<V> v;
    explicit guarded(int n) : v(n + 2, V(7)) {}
    explicit guarded(const std::vector<V>& x) : v(x.size() + 2, V(7)) { std::copy(x.begin(), x.end(), begin()); }
    auto begin() { return v.begin() + 1; }
    auto end() { return v.end() - 1; }
    V& operator[](int i) { return v[1 + i]; }
    void check(const char*) {
        vf_assert(v.front() == V(7), "nothing touched before a range");
        vf_assert(v.back() == V(7), "nothing touched after a range");
    }
};
template <typename T> void unchanged(guarded<T>& g, const std::vector<T>& x) {
    for (size_t i = 0; i < x.size(); ++i) vf_same(g[i], x[i], "input left alone");
}
template <typename T> void convolution() {
    const int n = vf_size("n", 1, PAIR);
    const auto x = signal<T>(n), y = signal<T>(n);
    guarded<T> a(x), b(y), out(n);
    edsp::conv(a.begin(), a.end(), b.begin(), out.begin());
    for (int k = 0; k < n; ++k) {
        double s = 0;
        for (int m = 0; m <= k; ++m) s += (double) x[k - m] * y[m];
        vf_close(out[k], s, tol<T>(), "the convolution is its sum");
    }
    out.check("conv");
    unchanged(a, x);
    unchanged(b, y);
}
template <typename T> void correlate(bool cross) {
    const int n = vf_size("n", 1, PAIR);
    const int scale = (int) vf_pick("scale", 0, 3);
    const auto x = signal<T>(n), y = cross ? signal<T>(n) : x;
    guarded<T> a(x), b(y), out(n);
    const auto opt = scale == 1 ? edsp::CorrelationScale::Biased : scale == 2 ? edsp::CorrelationScale::Unbiased : edsp::CorrelationScale::None;
    if (cross) {
        if (scale == 3) edsp::xcorr(a.begin(), a.end(), b.begin(), out.begin());
        else edsp::xcorr(a.begin(), a.end(), b.begin(), out.begin(), opt);
    } else {
        if (scale == 3) edsp::xcorr(a.begin(), a.end(), out.begin());
        else edsp::xcorr(a.begin(), a.end(), out.begin(), opt);
    }
    for (int k = 0; k < n; ++k) {
        double s = 0;
        for (int i = 0; i + k < n; ++i) s += (double) x[i + k] * y[i];
        vf_close(out[k], s / (scale == 1 ? n : scale == 2 ? n - k : 1), tol<T>(), "the correlation is its sum at every lag");
    }
    out.check("xcorr");
    unchanged(a, x);
    unchanged(b, y);
}
double w(long k, long n) { return 2 * VF_PI * (double) (k % n) / (double) n; }
template <typename T, typename R> void transform(const std::vector<T>& x, int n, int k, R& re, R& im) {
    re = im = 0;
    for (size_t j = 0; j < x.size(); ++j) {
        re += x[j] * (R) std::cos(w((long) j * k, n));
        im += x[j] * (R) (-std::sin(w((long) j * k, n)));
    }
}
template <typename T> void analytic() {
    const int n = vf_size("n", 1, SINGLE);
    const auto x = signal<T>(n);
    guarded<T> a(x);
    guarded<std::complex<T>> out(n);
    edsp::hilbert(a.begin(), a.end(), out.begin());
    for (int k = 0; k < n; ++k) {
        // the analytic signal: the positive frequencies twice, the negative ones not at all
        double re = 0, im = 0;
        for (int f = 0; f < n; ++f) {
            const int g = f == 0 || 2 * f == n ? 1 : 2 * f < n ? 2 : 0;
            if (!g) continue;
            double c, d;
            transform(x, n, f, c, d);
            re += g * (c * std::cos(w((long) f * k, n)) - d * std::sin(w((long) f * k, n)));
            im += g * (c * std::sin(w((long) f * k, n)) + d * std::cos(w((long) f * k, n)));
        }
        vf_close(out[k].real(), x[k], tol<T>(), "the real part of the analytic signal is the signal");
        vf_close(re / n, x[k], tol<T>(), "reference");
        vf_close(out[k].imag(), im / n, tol<T>(), "the imaginary part is the Hilbert transform");
    }
    out.check("hilbert");
    unchanged(a, x);
}
template <typename T> void power() {
    const int n = vf_size("n", 1, SINGLE);
    const auto x = signal<T>(n);
    guarded<T> a(x), out(n / 2 + 1);
    edsp::spectrum(a.begin(), a.end(), out.begin());
    for (int k = 0; k <= n / 2; ++k) {
        T re, im;
        transform(x, n, k, re, im);
        vf_close(out[k], re * re + im * im, tol<T>(), "squared magnitude of the transform");
    }
    out.check("spectrum");
    unchanged(a, x);
}
template <typename T> void cepstral() {
    const int n = (int) vf_pick("n", 1, CEPS), N = 2 * n;
    const auto x = signal<T>(n);
    std::vector<T> m(N);
    for (int k = 0; k < N; ++k) {
        T re, im;
        const int p = 2 * k <= N ? k : N - k;
        transform(x, N, p, re, im);
        m[k] = std::abs(std::complex<T>(re, im));
        vf_assume(m[k] > 1e-2);
    }
    guarded<T> a(x), out(n);
    edsp::cepstrum(a.begin(), a.end(), out.begin());
    for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int k = 0; k < N; ++k) s += std::log(m[k]) * (T) std::cos(w((long) k * i, N));
        vf_close(out[i], s / N, tol<T>(), "inverse transform of the log magnitude");
    }
    out.check("cepstrum");
    unchanged(a, x);
}
}
H(c25_conv_double) { convolution<double>(); }
H(c25_conv_float) { convolution<float>(); }
H(c25_xcorr_double) { correlate<double>(true); }
H(c25_xcorr_float) { correlate<float>(true); }
H(c25_autocorr_double) { correlate<double>(false); }
H(c25_autocorr_float) { correlate<float>(false); }
H(c25_hilbert_double) { analytic<double>(); }
H(c25_hilbert_float) { analytic<float>(); }
H(c25_spectrum_double) { power<double>(); }
H(c25_spectrum_float) { power<float>(); }
H(c25_cepstrum_double) { cepstral<double>(); }
H(c25_cepstrum_float) { cepstral<float>(); }
H(c25_conv_double_wide) { vf_wide = 1; vf_wide_most = 24; c25_conv_double(); }
H(c25_xcorr_double_wide) { vf_wide = 1; vf_wide_most = 17; c25_xcorr_double(); }
H(c25_autocorr_double_wide) { vf_wide = 1; vf_wide_most = 24; c25_autocorr_double(); }
H(c25_spectrum_double_wide) { vf_wide = 1; vf_wide_most = 24; c25_spectrum_double(); }
H(c25_hilbert_double_wide) { vf_wide = 2; vf_wide_most = 24; c25_hilbert_double(); }
