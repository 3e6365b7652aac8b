//@file bounds="every signal with samples in [-1e3,1e3] of 1..8 samples (thorough 1..9, and 12, 15, 16), odd and even; signals of 17 and 32 (real ones 64) samples of which two are arbitrary; sequences of 2 transforms (thorough 3) of any kinds on one engine of 2..4 samples, at two alignments of the data" assume="FFTW is modelled by the defining sums of its manual and the rules for executing plans (the validation runs link the real library); exact real arithmetic up to 1e-6; the inverse of the real transform is that of an even length, as make_ifft_size documents" native_libs="-lfftw3 -lfftw3f" flags="-DUSE_LIBFFTW"
#include "vf.hpp"
#include "fftw_stub.hpp"
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/hartley.hpp>
namespace {
#ifdef VF_THOROUGH
constexpr int STEPS = 3;
int pick_size() { if (vf_wide) return vf_size("n", 1, 1); static const int s[12] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16}; return s[vf_pick("n", 0, 11)]; }
#else
constexpr int STEPS = 2;
int pick_size() { return vf_size("n", 1, 8); }
#endif
template <typename T> using cvec = std::vector<std::complex<T>>;
template <typename T> constexpr double tol() { return sizeof(T) == 8 ? 1e-6 : 1e-1; }
double w(long k, long n) { return 2 * VF_PI * (double) (k % n) / (double) n; }
// sum of x[j] exp(s 2 pi i j k / n)
template <typename T> void sum(const std::complex<T>* x, int n, int k, int s, double& re, double& im) {
    re = im = 0;
    for (int j = 0; j < n; ++j) {
        double c = std::cos(w((long) j * k, n)), d = s * std::sin(w((long) j * k, n));
        re += x[j].real() * c - x[j].imag() * d;
        im += x[j].real() * d + x[j].imag() * c;
    }
}
template <typename T> std::complex<T> any() { T a = vf_double("re", -1e3, 1e3), b = vf_double("im", -1e3, 1e3); return {a, b}; }
template <typename T> cvec<T> csignal(int n) {
    cvec<T> x(n);
    std::vector<T> re(n), im(n);
    vf_samples(re, "re", -1e3, 1e3);
    vf_samples(im, "im", -500, 1e3);
    for (int i = 0; i < n; ++i) x[i] = {re[i], im[i]};
    return x;
}
template <typename T> cvec<T> of_real(const std::vector<T>& x) {
    cvec<T> z(x.size());
    for (size_t i = 0; i < x.size(); ++i) z[i] = {x[i], T(0)};
    return z;
}
template <typename T> void unchanged(const cvec<T>& a, const cvec<T>& b) {
    for (size_t i = 0; i < a.size(); ++i) {
        vf_same(a[i].real(), b[i].real(), "input left alone");
        vf_same(a[i].imag(), b[i].imag(), "input left alone");
    }
}
template <typename T> void unchanged(const std::vector<T>& a, const std::vector<T>& b) {
    for (size_t i = 0; i < a.size(); ++i) vf_same(a[i], b[i], "input left alone");
}
// output of n cells between guards
template <typename V> struct guarded {
    std::vector<V> v;
    explicit guarded(int n) : v(n + 2, V(7)) {}
    auto begin() { return v.begin() + 1; }
    V& operator[](int i) { return v[1 + i]; }
    void check() {
        vf_assert(v.front() == V(7), "nothing written before the output");
        vf_assert(v.back() == V(7), "nothing written after the output");
    }
};
template <typename T> void complex_dft() {
    int n = pick_size();
    auto x = csignal<T>(n);
    const auto x0 = x;
    guarded<std::complex<T>> f(n), b(n);
    edsp::cdft(x.begin(), x.end(), f.begin());
    unchanged(x, x0);
    for (int k = 0; k < n; ++k) {
        double re, im;
        sum(x0.data(), n, k, -1, re, im);
        vf_close(f[k].real(), re, tol<T>(), "defining sum of the transform");
        vf_close(f[k].imag(), im, tol<T>(), "defining sum of the transform");
    }
    edsp::cidft(f.begin(), f.begin() + n, b.begin());
    for (int k = 0; k < n; ++k) {
        vf_close(b[k].real(), x0[k].real(), tol<T>(), "the inverse restores the signal");
        vf_close(b[k].imag(), x0[k].imag(), tol<T>(), "the inverse restores the signal");
    }
    f.check();
    b.check();
}
template <typename T> void complex_idft() {
    int n = pick_size();
    auto x = csignal<T>(n);
    const auto x0 = x;
    guarded<std::complex<T>> f(n);
    edsp::cidft(x.begin(), x.end(), f.begin());
    unchanged(x, x0);
    for (int k = 0; k < n; ++k) {
        double re, im;
        sum(x0.data(), n, k, 1, re, im);
        vf_close(f[k].real(), re / n, tol<T>(), "defining sum of the inverse");
        vf_close(f[k].imag(), im / n, tol<T>(), "defining sum of the inverse");
    }
    f.check();
}
template <typename T> void real_dft() {
    int n = pick_size();
    std::vector<T> x(n);
    vf_samples(x, "x", -1e3, 1e3);
    const auto x0 = x;
    const int m = edsp::make_fft_size(n);
    vf_assert(m == n / 2 + 1, "half spectrum");
    guarded<std::complex<T>> f(n / 2 + 1);
    edsp::dft(x.begin(), x.end(), f.begin());
    unchanged(x, x0);
    const auto z = of_real(x0);
    for (int k = 0; k < m; ++k) {
        double re, im;
        sum(z.data(), n, k, -1, re, im);
        vf_close(f[k].real(), re, tol<T>(), "defining sum of the transform");
        vf_close(f[k].imag(), im, tol<T>(), "defining sum of the transform");
    }
    f.check();
    if (n % 2 == 0) {
        vf_assert(edsp::make_ifft_size(m) == n, "even length restored");
        guarded<T> b(n);
        const auto f0 = f.v;
        edsp::idft(f.begin(), f.begin() + m, b.begin());
        unchanged(f.v, f0);
        for (int k = 0; k < n; ++k) vf_close(b[k], x0[k], tol<T>(), "the inverse restores the signal");
        b.check();
    }
}
template <typename T> void cosine() {
    int n = pick_size();
    std::vector<T> x(n);
    vf_samples(x, "x", -1e3, 1e3);
    const auto x0 = x;
    guarded<T> f(n), b(n);
    edsp::dct(x.begin(), x.end(), f.begin());
    unchanged(x, x0);
    for (int k = 0; k < n; ++k) {
        double s = 0;
        for (int j = 0; j < n; ++j) s += 2 * x0[j] * std::cos(w((2l * j + 1) * k, 4l * n));
        vf_close(f[k], s, tol<T>(), "defining sum of the transform");
    }
    edsp::idct(f.begin(), f.begin() + n, b.begin());
    for (int k = 0; k < n; ++k) vf_close(b[k], x0[k], tol<T>(), "the inverse restores the signal");
    f.check();
    b.check();
}
template <typename T> void hartley() {
    int n = pick_size();
    std::vector<T> x(n);
    vf_samples(x, "x", -1e3, 1e3);
    const auto x0 = x;
    guarded<T> f(n), b(n);
    edsp::hartley(x.begin(), x.end(), f.begin());
    unchanged(x, x0);
    for (int k = 0; k < n; ++k) {
        double s = 0;
        for (int j = 0; j < n; ++j) s += x0[j] * (std::cos(w((long) j * k, n)) + std::sin(w((long) j * k, n)));
        vf_close(f[k], s, tol<T>(), "defining sum of the transform");
    }
    edsp::hartley(f.begin(), f.begin() + n, b.begin());
    for (int k = 0; k < n; ++k) vf_close(b[k] / n, x0[k], tol<T>(), "applied twice it restores the signal, times its size");
    f.check();
    b.check();
}
// one engine, any transforms in any order, at any alignment, in place or not
template <typename T> void history(int most, int steps) {
    const std::int64_t live = vf_plans_live();
    {
    const int n = (int) vf_pick("n", 2, most);
    edsp::fft_engine<T> e(n);
    for (int step = 0; step < steps; ++step) {
        const int kind = (int) vf_pick("kind", 0, 6), where = (int) vf_pick("offsets", 0, 2), off = where == 1, to = where == 2;
        std::vector<T> r(n + 1), rr(n + 1);
        cvec<T> c(n + 1), cc(n + 1);
        if (kind == 0 || kind == 1 || kind == 3) {
            for (int i = 0; i < n; ++i) c[off + i] = any<T>();
        } else {
            for (int i = 0; i < n; ++i) r[off + i] = vf_double("x", -1e3, 1e3);
        }
        const T* x = &r[off];
        const std::complex<T>* z = &c[off];
        switch (kind) {
            case 0: case 1:
                if (kind == 0) e.dft(z, &cc[to]); else e.idft(z, &cc[to]);
                for (int k = 0; k < n; ++k) {
                    double re, im;
                    sum(z, n, k, kind ? 1 : -1, re, im);
                    vf_close(cc[to + k].real(), re, tol<T>(), "each transform of a history is right");
                    vf_close(cc[to + k].imag(), im, tol<T>(), "each transform of a history is right");
                }
                break;
            case 2:
                e.dft(x, &cc[to]);
                {
                    const auto y = of_real(r);
                    for (int k = 0; k <= n / 2; ++k) {
                        double re, im;
                        sum(&y[off], n, k, -1, re, im);
                        vf_close(cc[to + k].real(), re, tol<T>(), "each transform of a history is right");
                        vf_close(cc[to + k].imag(), im, tol<T>(), "each transform of a history is right");
                    }
                }
                break;
            case 3:
                c[off] = {c[off].real(), T(0)};
                if (n % 2 == 0) c[off + n / 2] = {c[off + n / 2].real(), T(0)};
                e.idft(z, &rr[to]);
                {
                    cvec<T> full(n);
                    for (int i = 0; i <= n / 2; ++i) full[i] = z[i];
                    for (int i = n / 2 + 1; i < n; ++i) full[i] = std::conj(z[n - i]);
                    for (int k = 0; k < n; ++k) {
                        double re, im;
                        sum(full.data(), n, k, 1, re, im);
                        vf_close(rr[to + k], re, tol<T>(), "each transform of a history is right");
                    }
                }
                break;
            default:
                if (kind == 4) e.dht(x, &rr[to]); else if (kind == 5) e.dct(x, &rr[to]); else e.idct(x, &rr[to]);
                for (int k = 0; k < n; ++k) {
                    double s = kind == 6 ? x[0] : T(0);
                    for (int j = 0; j < n; ++j) {
                        if (kind == 4) s += x[j] * (std::cos(w((long) j * k, n)) + std::sin(w((long) j * k, n)));
                        if (kind == 5) s += 2 * x[j] * std::cos(w((2l * j + 1) * k, 4l * n));
                        if (kind == 6 && j > 0) s += 2 * x[j] * std::cos(w((2l * k + 1) * j, 4l * n));
                    }
                    vf_close(rr[to + k], s, tol<T>(), "each transform of a history is right");
                }
        }
    }
    }
    vf_assert(vf_plans_live() == live, "every plan is destroyed once");
}
template <typename T> void in_place(int steps) {
    const int n = (int) vf_pick("n", 2, 4);
    edsp::fft_engine<T> e(n);
    for (int step = 0; step < steps; ++step) {
        bool inplace = vf_pick("in place", 0, 1);
        int kind = (int) vf_pick("kind", 0, 1);
        auto x = csignal<T>(n), y = cvec<T>(n);
        const auto x0 = x;
        auto* out = inplace ? x.data() : y.data();
        if (kind == 0) e.dft(x.data(), out); else e.idft(x.data(), out);
        for (int k = 0; k < n; ++k) {
            double re, im;
            sum(x0.data(), n, k, kind ? 1 : -1, re, im);
            vf_close(out[k].real(), re, tol<T>(), "each transform of a history is right");
            vf_close(out[k].imag(), im, tol<T>(), "each transform of a history is right");
        }
    }
}
template <typename T> void copies() {
    const std::int64_t live = vf_plans_live();
    {
        const int n = 3;
        edsp::fft_engine<T> a(n);
        auto x = csignal<T>(n);
        cvec<T> y(n);
        if (vf_pick("used before", 0, 1)) a.dft(x.data(), y.data());
        edsp::fft_engine<T> b(a), c(2);
        if (vf_pick("assigned to a used one", 0, 1)) c.dft(x.data(), y.data());
        c = a;
        edsp::fft_engine<T>* all[3] = {&a, &b, &c};
        for (int i = 0; i < 3; ++i) {
            all[i]->dft(x.data(), y.data());
            for (int k = 0; k < n; ++k) {
                double re, im;
                sum(x.data(), n, k, -1, re, im);
                vf_close(y[k].real(), re, tol<T>(), "a copy transforms like the original");
                vf_close(y[k].imag(), im, tol<T>(), "a copy transforms like the original");
            }
        }
    }
    vf_assert(vf_plans_live() == live, "every plan is destroyed once");
}
}
H(c24_complex_double) { complex_dft<double>(); }
H(c24_complex_float) { complex_dft<float>(); }
H(c24_inverse_double) { complex_idft<double>(); }
H(c24_inverse_float) { complex_idft<float>(); }
H(c24_real_double) { real_dft<double>(); }
H(c24_real_float) { real_dft<float>(); }
H(c24_cosine_double) { cosine<double>(); }
H(c24_cosine_float) { cosine<float>(); }
H(c24_hartley_double) { hartley<double>(); }
H(c24_hartley_float) { hartley<float>(); }
//@ budget=600
H(c24_history_double) { history<double>(4, STEPS); }
//@ budget=600
H(c24_history_float) { history<float>(3, 2); }
H(c24_history_in_place) { in_place<double>(3); }
H(c24_history_in_place_float) { in_place<float>(2); }
H(c24_copies_double) { copies<double>(); }
H(c24_copies_float) { copies<float>(); }
H(c24_complex_double_wide) { vf_wide = 2; vf_wide_most = 32; c24_complex_double(); }
H(c24_inverse_double_wide) { vf_wide = 2; vf_wide_most = 32; c24_inverse_double(); }
H(c24_real_double_wide) { vf_wide = 2; vf_wide_most = 64; c24_real_double(); }
H(c24_cosine_double_wide) { vf_wide = 2; vf_wide_most = 64; c24_cosine_double(); }
H(c24_hartley_double_wide) { vf_wide = 2; vf_wide_most = 64; c24_hartley_double(); }
H(c24_real_float_wide) { vf_wide = 2; vf_wide_most = 32; c24_real_float(); }
