//@file bounds="signals with samples in [-1e3,1e3] of 32 and 96 samples (complex ones also of 16 and 48), every background and two arbitrary neighbouring samples at the front, in the middle or at the end; convolutions and analytic signals of 16 (and 48) samples; sequences of 2 transforms (thorough 3) of any kinds on one engine of 32 samples and on its copies" assume="PFFFT is modelled by its header (sizes, alignment, unscaled transforms, packed real spectra); data aligned as operator new aligns it; exact real arithmetic up to 0.5 on sums of up to 96 samples of size up to 1e3 in single precision" flags="-DUSE_LIBPFFFT -I$HERE/harness/pffft"
#include "vf.hpp"
#include <pffft.h>
#include <vector>
#include <edsp/math/constant.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/spectrum.hpp>
#include <edsp/spectral/hilbert.hpp>
namespace {
#ifdef VF_THOROUGH
constexpr int STEPS = 3;
#else
constexpr int STEPS = 2;
#endif
using cvec = std::vector<std::complex<float>>;
using rvec = std::vector<float>;
constexpr double TOL = 0.5;
double w(long k, long n) { return 2 * VF_PI * (double) (k % n) / (double) n; }
struct table {  // cosines and sines of a circle in n parts
    std::vector<double> c, s;
    explicit table(int n) : c(n), s(n) {
        for (int i = 0; i < n; ++i) c[i] = std::cos(w(i, n)), s[i] = std::sin(w(i, n));
    }
};
void sum(const std::complex<float>* x, int n, int k, int sign, double& re, double& im, const table& t) {
    re = im = 0;
    for (int j = 0; j < n; ++j) {
        const double c = t.c[(long) j * k % n], d = sign * t.s[(long) j * k % n];
        re += x[j].real() * c - x[j].imag() * d;
        im += x[j].real() * d + x[j].imag() * c;
    }
}
int real_size() { return vf_pick("n", 0, 1) ? 96 : 32; }
int complex_size() { static const int s[3] = {16, 48, 32}; return s[vf_pick("n", 0, 2)]; }
rvec rsignal(int n, const char* name = "x") {
    rvec x((size_t) n);
    vf_wide = 2;
    vf_samples(x, name, -1e3, 1e3);
    return x;
}
rvec plain(int n, const char* name = "x") {
    rvec x((size_t) n);
    vf_background(x, -1e3, 1e3);
    x[1] = (float) vf_double(name, -1e3, 1e3);
    return x;
}
cvec csignal(int n, bool every = true) {
    const rvec re = every ? rsignal(n, "re") : plain(n, "re"), im = plain(n, "im");
    cvec x((size_t) n);
    for (int i = 0; i < n; ++i) x[i] = {re[i], im[i]};
    return x;
}
void unchanged(const cvec& a, const cvec& b) {
    for (size_t i = 0; i < a.size(); ++i) {
        vf_same(a[i].real(), b[i].real(), "input left alone");
        vf_same(a[i].imag(), b[i].imag(), "input left alone");
    }
}
void unchanged(const rvec& a, const rvec& b) {
    for (size_t i = 0; i < a.size(); ++i) vf_same(a[i], b[i], "input left alone");
}
template <typename V> struct guarded {  // an aligned output of n cells between guards
    std::vector<V> v;
    int n;
    explicit guarded(int n) : v((size_t) n + 8, V(7)), n(n) {}
    V* data() { return v.data() + 4; }
    V& operator[](int i) { return v[4 + (size_t) i]; }
    void check() {
        for (int i = 0; i < 4; ++i) {
            vf_assert(v[(size_t) i] == V(7), "nothing written before the output");
            vf_assert(v[4 + (size_t) n + i] == V(7), "nothing written after the output");
        }
    }
};
void released() {
    vf_assert(vf_pffft::setups() == 0 && vf_pffft::buffers() == 0, "every setup and work buffer is released once");
}
void check_real(const rvec& x, guarded<std::complex<float>>& f, const char* key) {
    const int n = (int) x.size();
    const table t(n);
    cvec z((size_t) n);
    for (int i = 0; i < n; ++i) z[i] = {x[i], 0.f};
    for (int k = 0; k <= n / 2; ++k) {
        double re, im;
        sum(z.data(), n, k, -1, re, im, t);
        vf_close(f[k].real(), re, TOL, key);
        vf_close(f[k].imag(), im, TOL, key);
    }
}
void check_complex(const cvec& x, std::complex<float>* f, int sign, double scale, const char* key) {
    const int n = (int) x.size();
    const table t(n);
    for (int k = 0; k < n; ++k) {
        double re, im;
        sum(x.data(), n, k, sign, re, im, t);
        vf_close(f[k].real(), re * scale, TOL, key);
        vf_close(f[k].imag(), im * scale, TOL, key);
    }
}
void check_cosine(const rvec& x, float* f, const char* key) {
    const int n = (int) x.size();
    const table t(4 * n);
    for (int k = 0; k < n; ++k) {
        double s = 0;
        for (int j = 0; j < n; ++j) s += 2 * x[j] * t.c[(2l * j + 1) * k % (4l * n)];
        vf_close(f[k], s, TOL, key);
    }
}
void check_inverse_cosine(const rvec& x, float* f, const char* key) {
    const int n = (int) x.size();
    const table t(4 * n);
    for (int k = 0; k < n; ++k) {
        double s = x[0];
        for (int j = 1; j < n; ++j) s += 2 * x[j] * t.c[(2l * k + 1) * j % (4l * n)];
        vf_close(f[k], s, TOL, key);
    }
}
void check_hartley(const rvec& x, float* f, const char* key) {
    const int n = (int) x.size();
    const table t(n);
    for (int k = 0; k < n; ++k) {
        double s = 0;
        for (int j = 0; j < n; ++j) s += x[j] * (t.c[(long) j * k % n] + t.s[(long) j * k % n]);
        vf_close(f[k], s, TOL, key);
    }
}
}
H(c43_complex) {
    const auto x = csignal(complex_size());
    const int n = (int) x.size();
    auto y = x;
    guarded<std::complex<float>> f(n), b(n);
    edsp::cdft(y.begin(), y.end(), f.data());
    unchanged(y, x);
    check_complex(x, f.data(), -1, 1, "defining sum of the transform");
    edsp::cidft(y.begin(), y.end(), b.data());
    unchanged(y, x);
    check_complex(x, b.data(), 1, 1.0 / n, "defining sum of the inverse");
    f.check();
    b.check();
    released();
}
H(c43_real) {
    const auto x = rsignal(real_size());
    const int n = (int) x.size(), m = edsp::make_fft_size(n);
    auto y = x;
    guarded<std::complex<float>> f(m);
    guarded<float> b(n);
    edsp::dft(y.begin(), y.end(), f.data());
    unchanged(y, x);
    check_real(x, f, "defining sum of the transform");
    const auto f0 = f.v;
    edsp::idft(f.data(), f.data() + m, b.data());
    unchanged(f.v, f0);
    for (int k = 0; k < n; ++k) vf_close(b[k], x[k], TOL, "the inverse restores the signal");
    f.check();
    b.check();
    released();
}
H(c43_cosine) {
    const auto x = rsignal(real_size());
    const int n = (int) x.size();
    auto y = x;
    guarded<float> f(n), b(n);
    edsp::dct(y.begin(), y.end(), f.data());
    unchanged(y, x);
    check_cosine(x, f.data(), "defining sum of the transform");
    edsp::idct(f.data(), f.data() + n, b.data());
    for (int k = 0; k < n; ++k) vf_close(b[k], x[k], TOL, "the inverse restores the signal");
    f.check();
    b.check();
    released();
}
H(c43_hartley) {
    const auto x = rsignal(real_size());
    const int n = (int) x.size();
    auto y = x;
    guarded<float> f(n), b(n);
    edsp::hartley(y.begin(), y.end(), f.data());
    unchanged(y, x);
    check_hartley(x, f.data(), "defining sum of the transform");
    edsp::hartley(f.data(), f.data() + n, b.data());
    for (int k = 0; k < n; ++k) vf_close(b[k] / n, x[k], TOL, "applied twice it restores the signal, times its size");
    f.check();
    b.check();
    released();
}
H(c43_history) {
    {
        const int n = 32;
        edsp::fft_engine<float> e(n);
        for (int step = 0; step < STEPS; ++step) {
            const int kind = (int) vf_pick("kind", 0, 6);
            const char* key = "each transform of a history is right";
            if (kind < 2) {
                const auto x = csignal(n, false);
                cvec y((size_t) n);
                if (kind == 0) e.dft(x.data(), y.data()); else e.idft(x.data(), y.data());
                check_complex(x, y.data(), kind ? 1 : -1, 1, key);
            } else if (kind == 2) {
                const auto x = plain(n);
                guarded<std::complex<float>> f(n / 2 + 1);
                e.dft(x.data(), f.data());
                check_real(x, f, key);
                f.check();
            } else if (kind == 3) {
                auto z = csignal(n / 2 + 1, false);
                z[0] = {z[0].real(), 0.f};
                z[n / 2] = {z[n / 2].real(), 0.f};
                guarded<float> f(n);
                e.idft(z.data(), f.data());
                cvec full((size_t) n);
                for (int i = 0; i <= n / 2; ++i) full[i] = z[i];
                for (int i = n / 2 + 1; i < n; ++i) full[i] = std::conj(z[n - i]);
                const table t(n);
                for (int k = 0; k < n; ++k) {
                    double re, im;
                    sum(full.data(), n, k, 1, re, im, t);
                    vf_close(f[k], re, TOL, key);
                }
                f.check();
            } else {
                const auto x = plain(n);
                guarded<float> f(n);
                if (kind == 4) e.dht(x.data(), f.data()), check_hartley(x, f.data(), key);
                if (kind == 5) e.dct(x.data(), f.data()), check_cosine(x, f.data(), key);
                if (kind == 6) e.idct(x.data(), f.data()), check_inverse_cosine(x, f.data(), key);
                f.check();
            }
        }
    }
    released();
}
H(c43_copies) {
    {
        const int n = 32;
        edsp::fft_engine<float> a(n);
        const auto x = csignal(n, false);
        cvec y((size_t) n);
        if (vf_pick("used before", 0, 1)) a.dft(x.data(), y.data());
        edsp::fft_engine<float> b(a), c(16);
        if (vf_pick("assigned to a used one", 0, 1)) {
            cvec u((size_t) 16), v((size_t) 16);
            c.dft(u.data(), v.data());
        }
        c = a;
        edsp::fft_engine<float>* all[3] = {&a, &b, &c};
        for (int i = 0; i < 3; ++i) {
            all[i]->dft(x.data(), y.data());
            check_complex(x, y.data(), -1, 1, "a copy transforms like the original");
        }
    }
    released();
}
H(c43_convolution) {
    const int n = 16, at = (int) vf_pick("at", 0, n - 1);
    const auto x = rsignal(n);
    rvec h((size_t) n), y((size_t) n);
    h[at] = 1;
    if (at > 0) h[0] = -2;
    edsp::conv(x.begin(), x.end(), h.cbegin(), y.begin());
    for (int k = 0; k < n; ++k) {
        double s = k >= at ? x[k - at] : 0.0;
        if (at > 0) s -= 2.0 * x[k];
        vf_close(y[k], s, 1, "the convolution");
    }
    released();
}
H(c43_hilbert) {
    const int n = vf_pick("n", 0, 1) ? 48 : 16;
    const auto x = rsignal(n);
    cvec y((size_t) n);
    edsp::hilbert(x.begin(), x.end(), y.begin());
    for (int k = 0; k < n; ++k) {
        vf_close(y[k].real(), x[k], TOL, "the real part is the signal");
        double s = 0;  // an even size
        for (int j = 0; j < n; ++j)
            if ((k - j) % 2 != 0) s += 2.0 / n * x[j] / std::tan(VF_PI * (k - j) / n);
        vf_close(y[k].imag(), s, 1, "the imaginary part is the transform of the signal");
    }
    released();
}
