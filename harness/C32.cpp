//@file bounds="arrays of 0..3 elements (1..3 where a statistic, a window or a transform needs one; thorough 0..5), and of 17 and 24 elements of which one is arbitrary, all contents in [-100,100] (positive where a mean, a logarithm needs it) and every bit pattern for the plain array functions; every function of the interface" assume="double precision build; FFTW modelled by its manual (the validation runs link the real library); the C++ functions themselves are the subject of the other properties" native_libs="-lfftw3 -lfftw3f" flags="-DUSE_LIBFFTW -DUSE_LIBSNDFILE -DUSE_LIBSAMPLERATE -I$REPO/bindings/c/include"
#include "vf.hpp"
#include "fftw_stub.hpp"
#include <bindings/c/src/algorithm.c>
#include <bindings/c/src/statistics.c>
#include <bindings/c/src/windowing.c>
#include <bindings/c/src/spectral.c>
#include <bindings/c/src/converter.cpp>
#include <bindings/c/src/core.c>
namespace {
#ifdef VF_THOROUGH
constexpr int N = 5;
#else
constexpr int N = 3;
#endif
using vec = std::vector<double>;
struct guarded {  // an array between two guards
    vec v;
    guarded(const vec& x) : v(x) { v.insert(v.begin(), 7); v.push_back(7); }
    guarded(size_t n) : v(n + 2, 7) {}
    double* data() { return v.data() + 1; }
    double operator[](size_t i) const { return v[i + 1]; }
    size_t size() const { return v.size() - 2; }
    void check() const { vf_assert(v.front() == 7 && v.back() == 7, "nothing touched outside the arrays"); }
};
vec any(int n, const char* name = "x") {
    vec v((size_t) n);
    if (!vf_wide || n == 0) vf_fillany(v, name);
    else {
        vf_background(v, -100, 100);
        v[v.size() / 3] = vf_anydouble(name);
    }
    return v;
}
vec some(int n, double lo = -100, double hi = 100, const char* name = "x") {
    vec v((size_t) n);
    if (!vf_wide) vf_fill(v, name, lo, hi);
    else {
        vf_background(v, lo, hi);
        v[v.size() / 3] = vf_double(name, lo, hi);
    }
    return v;
}
void same(const guarded& a, const guarded& b, const char* key) {
    for (size_t i = 0; i < b.v.size(); ++i) vf_same(a.v[i], b.v[i], key);
    a.check();
}
void kept(const guarded& a, const vec& x) {
    for (size_t i = 0; i < x.size(); ++i) vf_same(a[i], x[i], "the input is left alone");
    a.check();
}
}
//@ mode=fp
H(c32_arrays) {
    const int n = vf_size("n", 0, N), which = (int) vf_pick("which", 0, 7);
    const vec x = any(n);
    guarded in(x), out((size_t) n), want((size_t) n);
    const double f = vf_anydouble("factor");
    double lo = -2, hi = 3;
    if (which == 1 || which == 2) {
        lo = vf_anydouble("min"), hi = vf_anydouble("max");
        vf_assume(lo <= hi);
    }
    const double* p = x.data();
    switch (which) {
        case 0: array_scale(in.data(), n, out.data(), f); edsp::amplifier(p, p + n, want.data(), f); break;
        case 1: array_scale_clip(in.data(), n, out.data(), f, lo, hi); edsp::amplifier(p, p + n, want.data(), f, lo, hi); break;
        case 2: array_clip(in.data(), n, out.data(), lo, hi); edsp::clipper(p, p + n, want.data(), lo, hi); break;
        case 3: array_ceil(in.data(), n, out.data()); edsp::ceil(p, p + n, want.data()); break;
        case 4: array_floor(in.data(), n, out.data()); edsp::floor(p, p + n, want.data()); break;
        case 5: array_round(in.data(), n, out.data()); edsp::round(p, p + n, want.data()); break;
        case 6: array_trunc(in.data(), n, out.data()); edsp::fix(p, p + n, want.data()); break;
        default: array_abs(in.data(), n, out.data()); edsp::rectify(p, p + n, want.data()); break;
    }
    same(out, want, "the array function gives what the C++ function gives");
    kept(in, x);
}
//@ mode=fp
H(c32_concatenate) {
    const int n = vf_size("n", 0, N), m = (int) vf_pick("m", 0, N);
    const vec x = any(n), y = any(m, "y");
    guarded a(x), b(y), out((size_t) (n + m));
    array_concatenate(a.data(), n, b.data(), m, out.data());
    for (int i = 0; i < n + m; ++i) vf_same(out[(size_t) i], i < n ? x[(size_t) i] : y[(size_t) (i - n)], "first the left array, then the right one");
    out.check(); kept(a, x); kept(b, y);
}
//@ mode=fp
H(c32_pad) {
    const int n = vf_size("n", 0, N), m = vf_wide ? n + 5 : (int) vf_pick("m", 0, N + 2);
    vf_assume(n <= m);
    const vec x = any(n);
    guarded a(x), out((size_t) m);
    array_padder(a.data(), n, out.data(), m);
    for (int i = 0; i < m; ++i) vf_same(out[(size_t) i], i < n ? x[(size_t) i] : 0.0, "the array, then zeros");
    out.check(); kept(a, x);
}
H(c32_spaces) {
    const int n = vf_size("n", 2, N + 1);
    const bool log = vf_pick("logarithmic", 0, 1);
    const double a = vf_double("x1", -3, 3), b = vf_double("x2", -3, 3);
    guarded out((size_t) n), want((size_t) n);
    if (log) { array_logspace(out.data(), n, a, b); edsp::logspace(want.data(), a, b, n); }
    else { array_linspace(out.data(), n, a, b); edsp::linspace(want.data(), a, b, n); }
    same(out, want, "the points the C++ function gives");
}
H(c32_normalize) {
    const int n = vf_size("n", 1, N);
    const vec x = some(n, 0.5, 100);
    guarded in(x), out((size_t) n), want((size_t) n);
    array_normalize(in.data(), n, out.data());
    edsp::normalize(x.data(), x.data() + n, want.data());
    same(out, want, "what the C++ function gives");
    kept(in, x);
}
H(c32_search) {
    const int n = vf_size("n", 0, N), which = (int) vf_pick("which", 0, 4);
    const vec x = some(n);
    const double v = vf_double("value", -100, 100);
    guarded a(x);
    int first = -1, count = 0;
    for (int i = n - 1; i >= 0; --i) if (x[(size_t) i] == v) first = i, ++count;
    if (which == 0) {
        const vec y = some(n, -100, 100, "y");
        guarded b(y);
        bool eq = true;
        for (int i = 0; i < n; ++i) eq = eq && x[(size_t) i] == y[(size_t) i];
        vf_assert((equal(a.data(), n, b.data()) != 0) == eq, "equal arrays are those with equal elements");
        b.check();
    } else if (which == 1) {
        for (int i = 0; i + 1 < n; ++i) vf_assume(x[(size_t) i] <= x[(size_t) i + 1]);
        const int r = binary_search(a.data(), n, v);
        vf_assert((r >= 0) == (count > 0) && r >= -1 && r < n, "found exactly when it is there, -1 otherwise");
        if (r >= 0) vf_same(x[(size_t) r], v, "what is found is the value");
    } else if (which == 2) vf_assert(linear_search(a.data(), n, v) == first, "the first place of the value, -1 when there is none");
    else if (which == 3) vf_assert(index_of(a.data(), n, v) == first, "the first place of the value, -1 when there is none");
    else vf_assert((contains(a.data(), n, v) != 0) == (count > 0), "contains tells whether the value is there");
    kept(a, x);
}
H(c32_statistics) {
    const int n = vf_size("n", 1, N), which = (int) vf_pick("which", 0, 12);
    const vec x = which < 3 ? some(n, 0.1, 100) : some(n);
    guarded in(x);
    const double *b = x.data(), *e = b + n;
    double* p = in.data();
    double got = 0, want = 0;
    using namespace edsp::statistics;
    switch (which) {
        case 0: got = ::harmonic_mean(p, n); want = edsp::statistics::harmonic_mean(b, e); break;
        case 1: got = ::geometric_mean(p, n); want = edsp::statistics::geometric_mean(b, e); break;
        case 2: {
            const int beta = (int) vf_pick("beta", 1, 4);
            got = ::generalized_mean(p, n, beta); want = edsp::statistics::generalized_mean(b, e, beta);
            break;
        }
        case 3: got = ::max(p, n); want = edsp::statistics::max(b, e); break;
        case 4: got = ::min(p, n); want = edsp::statistics::min(b, e); break;
        case 5: got = ::max_abs(p, n); want = edsp::statistics::maxabs(b, e); break;
        case 6: got = ::min_abs(p, n); want = edsp::statistics::minabs(b, e); break;
        case 7: got = ::mean(p, n); want = edsp::statistics::mean(b, e); break;
        case 8: got = ::median(p, n); want = edsp::statistics::median(b, e); break;
        case 9: got = ::norm(p, n); want = edsp::statistics::norm(b, e); break;
        case 10: got = ::variance(p, n); want = edsp::statistics::variance(b, e); break;
        case 11: got = ::standard_deviation(p, n); want = edsp::statistics::standard_deviation(b, e); break;
        default: {
            const auto pk = ::peak(p, n);
            const auto wk = edsp::statistics::peak(b, e);
            vf_assert(pk.index == (int) wk.first, "the place of the peak");
            got = pk.value; want = wk.second;
        }
    }
    vf_same(got, want, "the statistic the C++ function gives");
    kept(in, x);
}
H(c32_peak_abs) {
    const int n = vf_size("n", 1, N);
    const vec x = some(n);
    guarded in(x);
    const auto pk = peak_abs(in.data(), n);
    const auto wk = edsp::statistics::peakabs(x.data(), x.data() + n);
    vf_assert(pk.index == (int) wk.first, "the place of the absolute peak");
    vf_same(pk.value, wk.second, "the value of the absolute peak");
    kept(in, x);
}
// the higher moments: distinct samples, so that nothing is divided by zero
H(c32_moments) {
    const int n = vf_size("n", 2, 3), which = (int) vf_pick("which", 0, 9);
    const vec x = some(n, -10, 10);
    vf_assume(x[0] < x[1] - 1);
    guarded in(x);
    const double *b = x.data(), *e = b + n;
    double* p = in.data();
    double got = 0, want = 0;
    switch (which) {
        case 0: got = ::kurtosis(p, n); want = edsp::statistics::kurtosis(b, e); break;
        case 1: got = ::skewness(p, n); want = edsp::statistics::skewness(b, e); break;
        case 2: got = ::moment(p, n, 1); want = edsp::statistics::moment<1>(b, e); break;
        case 3: got = ::moment(p, n, 2); want = edsp::statistics::moment<2>(b, e); break;
        case 4: got = ::moment(p, n, 3); want = edsp::statistics::moment<3>(b, e); break;
        case 5: got = ::moment(p, n, 4); want = edsp::statistics::moment<4>(b, e); break;
        case 6: got = ::moment(p, n, 5); want = edsp::statistics::moment<5>(b, e); break;
        case 7: got = ::moment(p, n, 6); want = edsp::statistics::moment<6>(b, e); break;
        case 8: got = ::moment(p, n, 7); want = edsp::statistics::moment<7>(b, e); break;
        default: got = ::moment(p, n, 8); want = edsp::statistics::moment<8>(b, e); break;
    }
    vf_same(got, want, "the moment the C++ function gives");
    kept(in, x);
}
H(c32_windows) {
    const int n = vf_size("n", 2, N + 5), which = (int) vf_pick("which", 0, 10);
    guarded out(some(n)), want((size_t) n);
    double *p = out.data(), *b = want.data(), *e = b + n;
    switch (which) {
        case 0: bartlett(p, n); edsp::windowing::bartlett(b, e); break;
        case 1: blackman(p, n); edsp::windowing::blackman(b, e); break;
        case 2: blackman_harris(p, n); edsp::windowing::blackman_harris(b, e); break;
        case 3: blackman_nutall(p, n); edsp::windowing::blackman_nutall(b, e); break;
        case 4: boxcar(p, n); edsp::windowing::boxcar(b, e); break;
        case 5: flattop(p, n); edsp::windowing::flattop(b, e); break;
        case 6: hamming(p, n); edsp::windowing::hamming(b, e); break;
        case 7: hanning(p, n); edsp::windowing::hanning(b, e); break;
        case 8: triangular(p, n); edsp::windowing::triangular(b, e); break;
        case 9: welch(p, n); edsp::windowing::welch(b, e); break;
        default: rectangular(p, n); edsp::windowing::rectangular(b, e); break;
    }
    same(out, want, "the window the C++ function gives");
}
H(c32_spectral) {
    const int n = vf_size("n", 1, N), which = (int) vf_pick("which", 0, 5);
    const vec x = some(n), y = some(n, -100, 100, "y");
    guarded a(x), b(y);
    const size_t size = which == 5 ? (size_t) n / 2 + 1 : (size_t) n;
    guarded out(size), want(size);
    const double *p = x.data(), *e = p + n, *q = y.data();
    switch (which) {
        case 0: conv(a.data(), b.data(), n, out.data()); edsp::conv(p, e, q, want.data()); break;
        case 1: xcorr(a.data(), b.data(), n, out.data()); edsp::xcorr(p, e, q, want.data()); break;
        case 2: dct(a.data(), n, out.data()); edsp::dct(p, e, want.data()); break;
        case 3: idct(a.data(), n, out.data()); edsp::idct(p, e, want.data()); break;
        case 4: hartley(a.data(), n, out.data()); edsp::hartley(p, e, want.data()); break;
        default: spectrum(a.data(), n, out.data()); edsp::spectrum(p, e, want.data()); break;
    }
    same(out, want, "the transform the C++ function gives");
    kept(a, x); kept(b, y);
}
H(c32_cepstrum) {
    const int n = vf_size("n", 1, 2);
    const vec x = some(n, 0.5, 100);
    if (n == 2) vf_assume(x[0] > x[1] + 0.5);
    guarded a(x), out((size_t) n), want((size_t) n);
    cepstrum(a.data(), n, out.data());
    edsp::cepstrum(x.data(), x.data() + n, want.data());
    same(out, want, "the transform the C++ function gives");
    kept(a, x);
}
H(c32_complex_transforms) {
    const int n = vf_size("n", 1, N), which = (int) vf_pick("which", 0, 4);
    using cplx = std::complex<double>;
    vf_assert(get_fft_size(n) == n / 2 + 1 && get_ifft_size(n) == 2 * (n - 1), "the sizes of a real transform");
    if (which < 2) {
        const vec x = some(n);
        const size_t m = which == 0 ? (size_t) n / 2 + 1 : (size_t) n;
        guarded a(x), out(2 * m), want(2 * m);
        auto* o = reinterpret_cast<complex_t*>(out.data());
        auto* w = reinterpret_cast<cplx*>(want.data());
        if (which == 0) { fft(a.data(), n, o); edsp::dft(x.data(), x.data() + n, w); }
        else { hilbert(a.data(), n, o); edsp::hilbert(x.data(), x.data() + n, w); }
        same(out, want, "the transform the C++ function gives");
        kept(a, x);
    } else {
        if (which == 2) vf_assume(n > 1);
        const vec x = some(2 * n);
        const size_t m = which == 2 ? (size_t) (2 * (n - 1)) : (size_t) (2 * n);
        guarded a(x), c(x), out(m), want(m);
        auto* p = reinterpret_cast<const complex_t*>(a.data());
        auto* q = reinterpret_cast<const cplx*>(c.data());
        if (which == 2) { ifft(p, n, out.data()); edsp::idft(q, q + n, want.data()); }
        else if (which == 3) {
            complex_fft(p, n, reinterpret_cast<complex_t*>(out.data()));
            edsp::cdft(q, q + n, reinterpret_cast<cplx*>(want.data()));
        } else {
            complex_ifft(p, n, reinterpret_cast<complex_t*>(out.data()));
            edsp::cidft(q, q + n, reinterpret_cast<cplx*>(want.data()));
        }
        same(out, want, "the transform the C++ function gives");
        kept(a, x);
    }
}
H(c32_converters) {
    const int which = (int) vf_pick("which", 0, 5);
    const double x = vf_double("x", 0.001, 100);
    double got = 0, want = 0;
    switch (which) {
        case 0: got = rad2deg(x); want = edsp::rad2deg(x); break;
        case 1: got = deg2rad(x); want = edsp::deg2rad(x); break;
        case 2: got = pow2db(x); want = edsp::pow2db(x); break;
        case 3: got = mag2db(x); want = edsp::mag2db(x); break;
        case 4: got = db2pow(x); want = edsp::db2pow(x); break;
        default: got = db2mag(x); want = edsp::db2mag(x); break;
    }
    vf_same(got, want, "the conversion the C++ function gives");
}
H(c32_peaks) {
    const int n = vf_size("n", 1, N);
    const vec x = some(n, -100, 100);
    if (!vf_wide) vf_assume(x[0] > 0.5);
    guarded in(x);
    vf_same(peak2rms(in.data(), n), edsp::peak2rms(x.data(), x.data() + n), "the ratio the C++ function gives");
    vf_same(peak2peak(in.data(), n), edsp::peak2peak(x.data(), x.data() + n), "the distance the C++ function gives");
    kept(in, x);
}
//@ mode=fp
H(c32_complex) {
    const int n = vf_size("n", 0, N), which = (int) vf_pick("which", 0, 2);
    const vec re = any(n, "re"), im = any(n, "im");
    guarded a(re), b(im), c((size_t) (2 * n)), r((size_t) n), i((size_t) n);
    auto* z = reinterpret_cast<complex_t*>(c.data());
    if (which == 0) {
        real2complex(a.data(), n, z);
        for (int k = 0; k < n; ++k) { vf_same(z[k][0], re[(size_t) k], "the real parts"); vf_same(z[k][1], 0.0, "no imaginary parts"); }
    } else {
        ri2complex(a.data(), b.data(), n, z);
        for (int k = 0; k < n; ++k) { vf_same(z[k][0], re[(size_t) k], "the real parts"); vf_same(z[k][1], im[(size_t) k], "the imaginary parts"); }
    }
    if (which == 2) {
        complex2real(z, n, r.data(), i.data());
        for (int k = 0; k < n; ++k) { vf_same(r[(size_t) k], re[(size_t) k], "the real parts come back"); vf_same(i[(size_t) k], im[(size_t) k], "the imaginary parts come back"); }
    }
    kept(a, re); kept(b, im); c.check(); r.check(); i.check();
}
H(c32_libraries) {
    vf_assert(edsp::library_info::fft_library() == edsp::fft_lib::fftw && std::string(get_fft_library()) == "fftw", "the FFT library is the one configured");
    vf_assert(edsp::library_info::codec_library() == edsp::codec_lib::sndfile && std::string(get_codec_library()) == "sndfile", "the codec library is the one configured");
    vf_assert(edsp::library_info::resample_library() == edsp::resample_lib::sample_rate && std::string(get_resample_library()) == "samplerate", "the resampler is the one configured");
}
//@ mode=fp
H(c32_arrays_wide) { vf_wide = 1; vf_wide_most = 24; c32_arrays(); }
//@ mode=fp
H(c32_concatenate_wide) { vf_wide = 1; vf_wide_most = 24; c32_concatenate(); }
//@ mode=fp
H(c32_pad_wide) { vf_wide = 1; vf_wide_most = 24; c32_pad(); }
H(c32_spaces_wide) { vf_wide = 1; vf_wide_most = 24; c32_spaces(); }
H(c32_normalize_wide) { vf_wide = 1; vf_wide_most = 24; c32_normalize(); }
H(c32_search_wide) { vf_wide = 1; vf_wide_most = 24; c32_search(); }
H(c32_statistics_wide) { vf_wide = 1; vf_wide_most = 24; c32_statistics(); }
H(c32_peak_abs_wide) { vf_wide = 1; vf_wide_most = 24; c32_peak_abs(); }
H(c32_moments_wide) { vf_wide = 1; vf_wide_most = 24; c32_moments(); }
H(c32_windows_wide) { vf_wide = 1; vf_wide_most = 24; c32_windows(); }
H(c32_spectral_wide) { vf_wide = 1; vf_wide_most = 17; c32_spectral(); }
H(c32_cepstrum_wide) { vf_wide = 1; vf_wide_most = 24; c32_cepstrum(); }
H(c32_complex_transforms_wide) { vf_wide = 1; vf_wide_most = 24; c32_complex_transforms(); }
H(c32_peaks_wide) { vf_wide = 1; vf_wide_most = 24; c32_peaks(); }
//@ mode=fp
H(c32_complex_wide) { vf_wide = 1; vf_wide_most = 24; c32_complex(); }
