//@file bounds="coefficients in [-2,2] (a0 in [1/4,4]), 6 samples in [-1000,1000] (24 and 150 with concrete coefficients), every history of 4 samples, blocks, resets and changes, every split of a block into two, every reset position 0..3"
#include "vf.hpp"
#include <edsp/filter/biquad.hpp>
namespace {
using edsp::filter::biquad;
struct coef { double a0, a1, a2, b0, b1, b2; };
coef any() {
    coef c;
    c.a0 = vf_double("a0", 0.25, 4); c.a1 = vf_double("a1", -2, 2); c.a2 = vf_double("a2", -2, 2);
    c.b0 = vf_double("b0", -2, 2); c.b1 = vf_double("b1", -2, 2); c.b2 = vf_double("b2", -2, 2);
    return c;
}
// direct form I, the documented difference equation
struct ref {
    coef c; double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
    double operator()(double x) {
        double y = (c.b0 * x + c.b1 * x1 + c.b2 * x2 - c.a1 * y1 - c.a2 * y2) / c.a0;
        x2 = x1; x1 = x; y2 = y1; y1 = y;
        return y;
    }
};
// checks a run of n samples: the outputs satisfy the difference equation
template <typename F> void obeys(F& f, const coef& c, const double* x, int n, const char* key) {
    double y1 = 0, y2 = 0;
    for (int i = 0; i < n; ++i) {
        double y = f.tick(x[i]);
        double r = c.b0 * x[i] + c.b1 * (i > 0 ? x[i - 1] : 0) + c.b2 * (i > 1 ? x[i - 2] : 0) - c.a1 * y1 - c.a2 * y2;
        vf_close(y * c.a0, r, 1e-6, key);
        y2 = y1; y1 = y;
        vf_observe("y", y);
    }
}
}
H(c06_difference_equation) {
    coef c = any();
    biquad<double> f(c.a0, c.a1, c.a2, c.b0, c.b1, c.b2);
    double x[4];
    vf_fill(x, "x", -1000, 1000);
    obeys(f, c, x, 4, "the difference equation holds");
}
H(c06_difference_equation_float) {
    double x[3];
    vf_fill(x, "x", -10, 10);
    biquad<float> f(2.f, 0.5f, 0.25f, 1.f, -0.5f, 0.75f);
    ref r{{2, 0.5, 0.25, 1, -0.5, 0.75}};
    for (double v : x) vf_close(f.tick((float) v), r(v), 1e-5, "the difference equation holds (float)");
}
H(c06_long_run) {
    // concrete coefficients, long symbolic signal
    double t[3][6] = {{1, -1.8, 0.9, 0.25, 0.5, 0.25}, {2, 1, 0.5, 1, 0, -1}, {0.5, 0.25, -0.125, -1, 2, 3}};
    int k = (int) vf_pick("set", 0, 2);
    coef c{t[k][0], t[k][1], t[k][2], t[k][3], t[k][4], t[k][5]};
    biquad<double> f(c.a0, c.a1, c.a2, c.b0, c.b1, c.b2);
    ref r{c};
    std::vector<double> x(24);
    vf_fill(x, "x", -100, 100);
    for (double v : x) vf_close(f.tick(v), r(v), 1e-6, "the difference equation holds over a long run");
}
H(c06_setters) {
    coef c = any();
    biquad<double> f;
    double d[3];
    vf_fill(d, "d", -10, 10);
    for (double v : d) vf_close(f.tick(v), v, 1e-12, "a default filter is the identity");
    f.set_a1(c.a1); f.set_a2(c.a2);
    f.set_b0(c.b0); f.set_b1(c.b1); f.set_b2(c.b2);
    c.a0 = 1;
    vf_same(f.a1(), c.a1, "a1"); vf_same(f.a2(), c.a2, "a2");
    vf_same(f.b0(), c.b0, "b0"); vf_same(f.b1(), c.b1, "b1"); vf_same(f.b2(), c.b2, "b2");
    double x[3];
    vf_fill(x, "x", -1000, 1000);
    obeys(f, c, x, 3, "the difference equation holds for coefficients that were set");
}
H(c06_set_a0) {
    coef c = any();
    biquad<double> f(1, c.a1, c.a2, c.b0, c.b1, c.b2);
    f.tick(3.5);
    f.set_a0(c.a0);
    vf_same(f.a0(), c.a0, "a0");
    double x[3];
    vf_fill(x, "x", -1000, 1000);
    obeys(f, c, x, 3, "the difference equation holds after set_a0");
}
H(c06_set_clears_history) {
    // changing any coefficient starts from a clean history
    coef c{1, 0.5, -0.25, 1, 2, 3};
    biquad<double> f(c.a0, c.a1, c.a2, c.b0, c.b1, c.b2);
    double x[5];
    vf_fill(x, "x", -1000, 1000);
    f.tick(x[0]); f.tick(x[1]);
    double v = vf_double("v", -4, 4);
    switch (vf_pick("which", 0, 4)) {
        case 0: f.set_a1(c.a1 = v); break;
        case 1: f.set_a2(c.a2 = v); break;
        case 2: f.set_b0(c.b0 = v); break;
        case 3: f.set_b1(c.b1 = v); break;
        default: f.set_b2(c.b2 = v); break;
    }
    obeys(f, c, x + 2, 3, "after a change of coefficients the history is empty");
}
H(c06_normalised) {
    coef c = any();
    biquad<double> f(c.a0, c.a1, c.a2, c.b0, c.b1, c.b2);
    vf_close(f.a1() * c.a0, c.a1 * f.a0(), 1e-9, "a1 over a0");
    vf_close(f.a2() * c.a0, c.a2 * f.a0(), 1e-9, "a2 over a0");
    vf_close(f.b0() * c.a0, c.b0 * f.a0(), 1e-9, "b0 over a0");
    vf_close(f.b1() * c.a0, c.b1 * f.a0(), 1e-9, "b1 over a0");
    vf_close(f.b2() * c.a0, c.b2 * f.a0(), 1e-9, "b2 over a0");
}
H(c06_chunks) {
    coef c{1, -0.5, 0.25, 1, 2, 3};
    int cut = (int) vf_pick("cut", 0, 6);
    std::vector<double> x(6), y(6, -1), z(6, -1);
    vf_fill(x, "x", -1000, 1000);
    biquad<double> f(c.a0, c.a1, c.a2, c.b0, c.b1, c.b2), g = f, h = f;
    f.filter(x.begin(), x.end(), y.begin());
    g.filter(x.begin(), x.begin() + cut, z.begin());
    g.filter(x.begin() + cut, x.end(), z.begin() + cut);
    std::vector<double> w = x;
    h.filter(w.begin(), w.end(), w.begin());
    ref r{c};
    for (int i = 0; i < 6; ++i) {
        double e = r(x[i]);
        vf_close(y[i], e, 1e-7, "block");
        vf_close(z[i], e, 1e-7, "two blocks");
        vf_close(w[i], e, 1e-7, "in place");
    }
}
H(c06_reset_copy) {
    coef c = any();
    biquad<double> f(c.a0, c.a1, c.a2, c.b0, c.b1, c.b2), fresh = f;
    int n = (int) vf_pick("n", 0, 3);
    double x[3], z[3];
    vf_fill(x, "x", -100, 100);
    vf_fill(z, "z", -100, 100);
    for (int i = 0; i < n; ++i) f.tick(x[i]);
    biquad<double> copy = f;               // a copy carries the history
    vf_close(copy.tick(z[0]), f.tick(z[0]), 1e-9, "a copy continues like the original");
    f.reset();
    for (double v : z) vf_close(f.tick(v), fresh.tick(v), 1e-9, "after reset the filter is as newly made");
}
H(c06_stability_real_poles) {
    double p = vf_double("p", -2, 2), q = vf_double("q", -2, 2);
    biquad<double> f({p, 0}, {1, 0}, {q, 0}, {-1, 0});
    bool stable = p * p < 1 && q * q < 1;
    // a band around the unit circle is left open, where rounding decides
    vf_assume(!(p * p > 0.999 && p * p < 1.001) && !(q * q > 0.999 && q * q < 1.001));
    vf_assert(f.stability() == stable, "stable iff both poles are inside the unit circle");
    vf_assert(static_cast<bool>(f) == f.stability(), "conversion to bool");
}
H(c06_stability_complex_poles) {
    double re = vf_double("re", -2, 2), im = vf_double("im", 0.001, 2);
    if (vf_pick("lower half first", 0, 1)) im = -im;
    biquad<double> f({re, im}, {0.5, 0.25}, {re, -im}, {0.5, -0.25});
    double m = re * re + im * im;
    vf_assume(!(m > 0.999 && m < 1.001));
    vf_assert(f.stability() == (m < 1), "stable iff the conjugate poles are inside the unit circle");
}
H(c06_stability_coefficients) {
    coef c = any();
    biquad<double> f(c.a0, c.a1, c.a2, c.b0, c.b1, c.b2);
    double a1 = c.a1, a2 = c.a2, a0 = c.a0;
    double m1 = a0 - std::fabs(a2), m2 = a0 + a2 - std::fabs(a1);
    vf_assume((m1 > 1e-6 || m1 < -1e-6) && (m2 > 1e-6 || m2 < -1e-6));
    vf_assert(f.stability() == (m1 > 0 && m2 > 0), "Jury criterion");
}
H(c06_stability_set_a0) {
    coef c = any();
    biquad<double> f(1, c.a1, c.a2, c.b0, c.b1, c.b2);
    f.set_a0(c.a0);
    double m1 = c.a0 - std::fabs(c.a2), m2 = c.a0 + c.a2 - std::fabs(c.a1);
    vf_assume((m1 > 1e-6 || m1 < -1e-6) && (m2 > 1e-6 || m2 < -1e-6));
    vf_assert(f.stability() == (m1 > 0 && m2 > 0), "Jury criterion after set_a0");
}
H(c06_poles_zeros) {
    // conjugate pair: numerator and denominator vanish exactly at the zeros and poles
    double pr = vf_double("pr", -2, 2), pi = vf_double("pi", 0.01, 2), zr = vf_double("zr", -2, 2), zi = vf_double("zi", 0.01, 2);
    if (vf_pick("pole order", 0, 1)) pi = -pi;
    if (vf_pick("zero order", 0, 1)) zi = -zi;
    biquad<double> f({pr, pi}, {zr, zi}, {pr, -pi}, {zr, -zi});
    vf_close(f.a0(), 1, 1e-12, "monic denominator");
    vf_close(f.a1(), -2 * pr, 1e-9, "sum of the poles"); vf_close(f.a2(), pr * pr + pi * pi, 1e-9, "product of the poles");
    vf_close(f.b0(), 1, 1e-12, "monic numerator");
    vf_close(f.b1(), -2 * zr, 1e-9, "sum of the zeros"); vf_close(f.b2(), zr * zr + zi * zi, 1e-9, "product of the zeros");
    double p = vf_double("p", -2, 2), q = vf_double("q", -2, 2), u = vf_double("u", -2, 2), w = vf_double("w", -2, 2);
    biquad<double> g({p, 0}, {u, 0}, {q, 0}, {w, 0});
    vf_close(g.a1(), -(p + q), 1e-9, "sum of the real poles"); vf_close(g.a2(), p * q, 1e-9, "product of the real poles");
    vf_close(g.b1(), -(u + w), 1e-9, "sum of the real zeros"); vf_close(g.b2(), u * w, 1e-9, "product of the real zeros");
    vf_close(g.a0(), 1, 1e-12, "monic denominator"); vf_close(g.b0(), 1, 1e-12, "monic numerator");
    biquad<double> m({p, 0}, {zr, zi}, {q, 0}, {zr, -zi}), k({pr, pi}, {u, 0}, {pr, -pi}, {w, 0});
    vf_close(m.a1(), -(p + q), 1e-9, "real poles, complex zeros"); vf_close(m.a2(), p * q, 1e-9, "real poles, complex zeros");
    vf_close(m.b1(), -2 * zr, 1e-9, "real poles, complex zeros"); vf_close(m.b2(), zr * zr + zi * zi, 1e-9, "real poles, complex zeros");
    vf_close(k.a1(), -2 * pr, 1e-9, "complex poles, real zeros"); vf_close(k.a2(), pr * pr + pi * pi, 1e-9, "complex poles, real zeros");
    vf_close(k.b1(), -(u + w), 1e-9, "complex poles, real zeros"); vf_close(k.b2(), u * w, 1e-9, "complex poles, real zeros");
    biquad<double> h({p, 0}, {u, 0});
    vf_close(h.a1(), -p * h.a0(), 1e-9, "one pole"); vf_close(h.a2(), 0, 1e-12, "one pole"); vf_close(h.b2(), 0, 1e-12, "one zero");
    vf_close(h.b0() * h.b0() + h.b1() * h.b1(), 1 + u * u, 1e-9, "one zero: size");
    vf_close(h.b0() * h.b1(), -u, 1e-9, "one zero: position (up to a delay)");
}
H(c06_wide) {
    // a long signal through stable, marginal and unstable filters
    double t[4][6] = {{1, -1.5, 0.5625, 0.25, 0.5, 0.25}, {4, 1, 0.5, 1, 0, -1}, {1, 0, 1, 1, -2, 1}, {2, -2.5, 0.5, 1, 0, 0}};
    int k = (int) vf_pick("set", 0, 3);
    coef c{t[k][0], t[k][1], t[k][2], t[k][3], t[k][4], t[k][5]};
    biquad<double> f(c.a0, c.a1, c.a2, c.b0, c.b1, c.b2);
    std::vector<double> x(k == 3 ? 40 : 150), y(x.size());
    for (size_t i = 0; i < x.size(); ++i) x[i] = i % 3 == 0 && i < 60 ? vf_double("x", -100, 100) : (double) ((int) (i * 7) % 13 - 6);
    f.filter(x.begin(), x.end(), y.begin());
    ref r{c};
    for (size_t i = 0; i < x.size(); ++i) {
        const double e = r(x[i]);
        if (i % 13 == 5 || i + 2 > x.size()) vf_close(y[i], e, 1e-4, "the difference equation holds over a wide run");
    }
}
H(c06_history) {
    // samples, blocks, resets and setters in any order: between changes the filter obeys its equation from a clean start
    coef c{2, 0.5, -0.25, 1, 2, 3};
    biquad<double> f(c.a0, c.a1, c.a2, c.b0, c.b1, c.b2);
    ref r{c};
    for (int k = 0; k < 4; ++k) {
        switch (vf_pick("op", 0, 3)) {
            case 0: { const double x = vf_double("x", -100, 100); vf_close(f.tick(x), r(x), 1e-7, "one sample in any history"); break; }
            case 1: {
                double x[3], y[3];
                vf_fill(x, "x", -100, 100);
                f.filter(x, x + 3, y);
                for (int i = 0; i < 3; ++i) vf_close(y[i], r(x[i]), 1e-7, "a block in any history");
                break;
            }
            case 2: f.reset(); r = ref{r.c}; break;
            default: { const double v = vf_double("b1", -2, 2); coef d{1, f.a1(), f.a2(), f.b0(), v, f.b2()}; f.set_b1(v); r = ref{d}; r.c.a0 = f.a0(); break; }
        }
    }
}
