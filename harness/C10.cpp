//@file bounds="orders 1-4 (thorough 1-8) with a symbolic corner in [0.01,0.49] of the sample rate 48000, orders 5-8 at four corners, band designs of orders 1-8; single precision at orders 1-4 at four corners; largest orders 1-5 equal to the order; ripple/attenuation/gain from small concrete sets"
#include "vf.hpp"
#include <edsp/filter.hpp>
namespace {
using namespace edsp::filter;
constexpr double FS = 48000;
#ifdef VF_THOROUGH
constexpr int MAXORD = 8;
#else
constexpr int MAXORD = 4;
#endif
template <designer_type D, filter_type F, typename... A> auto mk(std::size_t order, double fc, A... a) {
    return make_filter<double, D, F, 8>(order, FS, fc, a...);
}
const double some[4] = {0.03, 0.2, 0.35, 0.45};
std::size_t order() { return vf_wide ? vf_pick("order", 5, 8) : vf_pick("order", 1, MAXORD); }
double anyf(const char* name) {
    if (vf_wide) return FS * some[vf_pick("corner", 0, 3)];
    return vf_double(name, 0.01 * FS, 0.49 * FS);
}
double tangent(double f) { return std::tan(VF_PI * (f / FS)); }
double db(double g) { return std::pow(10.0, g / 20); }
// numerator and denominator of the cascade at z = s (s = 1: DC, s = -1: Nyquist)
template <typename C> double num_at(const C& c, double s) { double r = 1; for (std::size_t i = 0; i < c.size(); ++i) r *= c[i].b0() + s * c[i].b1() + c[i].b2(); return r; }
template <typename C> double den_at(const C& c, double s) { double r = 1; for (std::size_t i = 0; i < c.size(); ++i) r *= c[i].a0() + s * c[i].a1() + c[i].a2(); return r; }
template <typename C> void shape(const C& c, std::size_t n) {
    vf_assert(c.size() == (n + 1) / 2, "number of sections");
    for (std::size_t i = 0; i < c.size(); ++i) vf_assert(c[i].stability(), "every section is stable");
}
// |H|^2 at the frequency whose half-angle tangent is x; z = (1+jx)/(1-jx), sections multiplied by |1-jx|^4
double quad(double c0, double c1, double c2, double x) {
    double re = (c0 + c1 + c2) - (c0 - c1 + c2) * x * x, im = 2 * (c0 - c2) * x;
    return re * re + im * im;
}
template <typename C> double power(const C& f, double x) {
    double n = 1, d = 1;
    for (std::size_t i = 0; i < f.size(); ++i) n *= quad(f[i].b0(), f[i].b1(), f[i].b2(), x), d *= quad(f[i].a0(), f[i].a1(), f[i].a2(), x);
    return n / d;
}
// |H|^2 is a quotient of polynomials of degree order in the squared tangent: equal at 2*order+1 points means equal
// at every frequency; the points are multiples u of the corner's tangent
const double points[18] = {0, 0.05, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.8, 0.9, 1, 1.1, 1.25, 1.5, 1.75, 2, 3, 5};
double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
double cheb(int n, double x) { double a = 1, b = x; if (n == 0) return 1; while (--n > 0) { double c = 2 * x * b - a; a = b; b = c; } return b; }
const double ripples[2] = {0.5, 3}, stops[2] = {20, 60}, gains[2] = {6, -12};
}
// low pass: u = tan(w/2)/tan(wc/2); high pass: its inverse
H(c10_butter_low) {
    std::size_t n = order();
    double fc = anyf("fc");
    auto f = mk<designer_type::Butterworth, filter_type::LowPass>(n, fc);
    double t = tangent(fc);
    shape(f, n);
    vf_close(num_at(f, 1) * num_at(f, 1) / (den_at(f, 1) * den_at(f, 1)), 1, 1e-9, "unit gain at DC");
    vf_close(num_at(f, -1) / den_at(f, -1), 0, 1e-9, "zero at Nyquist");
    vf_close(power(f, t), 0.5, 1e-9, "half power at the corner");
    for (std::size_t k = 1; k <= 2 * n + 1; ++k) {
        double v = points[k];
        vf_close(power(f, v * t) * (1 + ipow(v, 2 * n)), 1, 1e-7, "maximally flat response at every frequency");
    }
}
H(c10_butter_high) {
    std::size_t n = order();
    double fc = anyf("fc");
    auto f = mk<designer_type::Butterworth, filter_type::HighPass>(n, fc);
    double t = tangent(fc);
    shape(f, n);
    vf_close(num_at(f, -1) * num_at(f, -1) / (den_at(f, -1) * den_at(f, -1)), 1, 1e-9, "unit gain at Nyquist");
    vf_close(num_at(f, 1) / den_at(f, 1), 0, 1e-9, "zero at DC");
    vf_close(power(f, t), 0.5, 1e-9, "half power at the corner");
    for (std::size_t k = 1; k <= 2 * n + 1; ++k) {
        double v = points[k];
        vf_close(power(f, v * t) * (1 + ipow(v, 2 * n)), ipow(v, 2 * n), 1e-7, "maximally flat response at every frequency");
    }
}
H(c10_cheb1_low) {
    std::size_t n = order();
    double fc = anyf("fc"), r = ripples[vf_pick("ripple", 0, 1)], e2 = std::pow(10.0, r / 10) - 1;
    auto f = mk<designer_type::ChebyshevI, filter_type::LowPass>(n, fc, r);
    double t = tangent(fc), top = n % 2 ? 1 : db(-r);
    shape(f, n);
    vf_close(num_at(f, 1) * num_at(f, 1) / (den_at(f, 1) * den_at(f, 1)), top * top, 1e-9, "gain at DC");
    vf_close(num_at(f, -1) / den_at(f, -1), 0, 1e-9, "zero at Nyquist");
    vf_close(power(f, t), db(-r) * db(-r), 1e-9, "gain at the corner is the ripple");
    for (std::size_t k = 1; k <= 2 * n + 1; ++k) {
        double v = points[k];
        double c = cheb(n, v);
        vf_close(power(f, v * t) * (1 + e2 * c * c), 1, 1e-7, "equiripple pass band at every frequency");
    }
}
H(c10_cheb1_high) {
    std::size_t n = order();
    double fc = anyf("fc"), r = ripples[vf_pick("ripple", 0, 1)], e2 = std::pow(10.0, r / 10) - 1;
    auto f = mk<designer_type::ChebyshevI, filter_type::HighPass>(n, fc, r);
    double t = tangent(fc), top = n % 2 ? 1 : db(-r);
    shape(f, n);
    vf_close(num_at(f, -1) * num_at(f, -1) / (den_at(f, -1) * den_at(f, -1)), top * top, 1e-9, "gain at Nyquist");
    vf_close(num_at(f, 1) / den_at(f, 1), 0, 1e-9, "zero at DC");
    vf_close(power(f, t), db(-r) * db(-r), 1e-9, "gain at the corner is the ripple");
    for (std::size_t k = 1; k <= 2 * n + 1; ++k) {
        double v = points[k];
        double c = cheb(n, 1 / v);
        vf_close(power(f, v * t) * (1 + e2 * c * c), 1, 1e-7, "equiripple pass band at every frequency");
    }
}
// |H|^2 = e2 c^2 / (1 + e2 c^2), c = T_n(1/u)
H(c10_cheb2_low) {
    std::size_t n = order();
    double fc = anyf("fc"), a = stops[vf_pick("stop", 0, 1)], e2 = 1 / (std::pow(10.0, a / 10) - 1);
    auto f = mk<designer_type::ChebyshevII, filter_type::LowPass>(n, fc, a);
    double t = tangent(fc);
    shape(f, n);
    vf_close(num_at(f, 1) * num_at(f, 1) / (den_at(f, 1) * den_at(f, 1)), 1, 1e-9, "unit gain at DC");
    vf_close(power(f, t), db(-a) * db(-a), 1e-9, "gain at the corner is the stop band attenuation");
    for (std::size_t k = 1; k <= 2 * n + 1; ++k) {
        double v = points[k];
        double c = cheb(n, 1 / v), q = e2 * c * c / (1 + e2 * c * c);
        vf_close(power(f, v * t), q, 1e-7, "equiripple stop band at every frequency");
    }
}
H(c10_cheb2_high) {
    std::size_t n = order();
    double fc = anyf("fc"), a = stops[vf_pick("stop", 0, 1)], e2 = 1 / (std::pow(10.0, a / 10) - 1);
    auto f = mk<designer_type::ChebyshevII, filter_type::HighPass>(n, fc, a);
    double t = tangent(fc);
    shape(f, n);
    vf_close(num_at(f, -1) * num_at(f, -1) / (den_at(f, -1) * den_at(f, -1)), 1, 1e-9, "unit gain at Nyquist");
    vf_close(power(f, t), db(-a) * db(-a), 1e-9, "gain at the corner is the stop band attenuation");
    for (std::size_t k = 1; k <= 2 * n + 1; ++k) {
        double v = points[k];
        double c = cheb(n, v), q = e2 * c * c / (1 + e2 * c * c);
        vf_close(power(f, v * t), q, 1e-7, "equiripple stop band at every frequency");
    }
}
H(c10_butter_shelf) {
    std::size_t n = order();
    double fc = anyf("fc"), g = gains[vf_pick("gain", 0, 1)];
    auto l = mk<designer_type::Butterworth, filter_type::LowShelf>(n, fc, g);
    auto h = mk<designer_type::Butterworth, filter_type::HighShelf>(n, fc, g);
    double t = tangent(fc), G = db(g);
    shape(l, n);
    shape(h, n);
    vf_close(num_at(l, 1) * num_at(l, 1) / (den_at(l, 1) * den_at(l, 1)), G * G, 1e-8, "low shelf: the gain at DC");
    vf_close(num_at(l, -1) * num_at(l, -1) / (den_at(l, -1) * den_at(l, -1)), 1, 1e-8, "low shelf: unit gain at Nyquist");
    vf_close(num_at(h, -1) * num_at(h, -1) / (den_at(h, -1) * den_at(h, -1)), G * G, 1e-8, "high shelf: the gain at Nyquist");
    vf_close(num_at(h, 1) * num_at(h, 1) / (den_at(h, 1) * den_at(h, 1)), 1, 1e-8, "high shelf: unit gain at DC");
    vf_close(power(l, t), G, 1e-8, "low shelf: half the gain in dB at the corner");
    vf_close(power(h, t), G, 1e-8, "high shelf: half the gain in dB at the corner");
    // |H|^2 = (u + G)/(u + 1/G) (low), (1 + G u)/(1 + u/G) (high)
    for (std::size_t k = 1; k <= 2 * n + 1; ++k) {
        double v = points[k];
        double u = ipow(v, 2 * n);
        vf_close(power(l, v * t) * (u + 1 / G) / (u + 1), (u + G) / (u + 1), 1e-7, "low shelf: response at every frequency");
        vf_close(power(h, v * t) * (1 + u / G) / (u + 1), (1 + u * G) / (u + 1), 1e-7, "high shelf: response at every frequency");
    }
}

// Chebyshev shelves: both families use the same prototype; ripple below the gain
template <designer_type D> void cheb_shelf() {
    std::size_t n = order();
    double fc = anyf("fc"), g = gains[vf_pick("gain", 0, 1)], r = 1, e = db(g > 0 ? -r : r), G = db(g);
    auto l = mk<D, filter_type::LowShelf>(n, fc, g, r);
    auto h = mk<D, filter_type::HighShelf>(n, fc, g, r);
    double t = tangent(fc), top = n % 2 ? G : G * e;
    shape(l, n);
    shape(h, n);
    vf_close(num_at(l, 1) * num_at(l, 1) / (den_at(l, 1) * den_at(l, 1)), top * top, 1e-7, "low shelf: the gain at DC");
    vf_close(num_at(l, -1) * num_at(l, -1) / (den_at(l, -1) * den_at(l, -1)), 1, 1e-7, "low shelf: unit gain at Nyquist");
    vf_close(num_at(h, -1) * num_at(h, -1) / (den_at(h, -1) * den_at(h, -1)), top * top, 1e-7, "high shelf: the gain at Nyquist");
    vf_close(num_at(h, 1) * num_at(h, 1) / (den_at(h, 1) * den_at(h, 1)), 1, 1e-7, "high shelf: unit gain at DC");
    vf_close(power(l, t), G * e * G * e, 1e-7, "low shelf: gain less the ripple at the corner");
    vf_close(power(h, t), G * e * G * e, 1e-7, "high shelf: gain less the ripple at the corner");
}
H(c10_cheb1_shelf) { cheb_shelf<designer_type::ChebyshevI>(); }
H(c10_cheb2_shelf) { cheb_shelf<designer_type::ChebyshevII>(); }

// band designs, for every sample rate, at fixed fractions of it:
// v = (cos w0 - cos w)/(tan(half bandwidth) sin w) is the prototype's frequency, cos w0 = cos(2 pi f0)/cos(pi fw)
namespace {
struct band { double fs, f0, fw, a, b; std::size_t n; };
band anyband() {
    static const double centres[4] = {0.06, 0.2, 0.25, 0.4}, widths[3] = {0.02, 0.1, 0.18};
    band s;
    s.fs = vf_double("fs", 8000, 192000);
    double f0 = centres[vf_pick("centre", 0, 3)], fw = widths[vf_pick("width", 0, 2)];
    vf_assume(f0 - fw / 2 > 0 && f0 + fw / 2 < 0.495);
    s.n = vf_pick("order", 1, 8);
    s.f0 = f0 * s.fs;
    s.fw = fw * s.fs;
    s.a = std::cos(2 * VF_PI * f0) / std::cos(VF_PI * fw);
    s.b = std::tan(VF_PI * fw);
    return s;
}
template <designer_type D, filter_type F, typename... A> auto mkb(const band& s, A... a) {
    auto f = make_filter<double, D, F, 8>(s.n, s.fs, s.f0, s.fw, a...);
    vf_assert(f.size() == s.n, "number of sections");
    for (std::size_t i = 0; i < f.size(); ++i) vf_assert(f[i].stability(), "every section is stable");
    return f;
}
// calls check(|H|^2, v) at enough frequencies (the response has degree 2*order in cos w)
template <typename C, typename F> void sweep(const C& f, const band& s, F&& check) {
    for (std::size_t k = 1; k <= 4 * s.n + 1; ++k) {
        double w = VF_PI * k / (4 * s.n + 2), x = std::tan(w / 2), v = (s.a - std::cos(w)) / (s.b * std::sin(w));
        check(power(f, x), v);
    }
}
}
H(c10_butter_bandpass) {
    band s = anyband();
    auto f = mkb<designer_type::Butterworth, filter_type::BandPass>(s);
    vf_close(num_at(f, 1), 0, 1e-9, "zero at DC");
    vf_close(num_at(f, -1), 0, 1e-9, "zero at Nyquist");
    sweep(f, s, [&](double p, double v) { double u = ipow(v, 2 * s.n); vf_close(p, 1 / (1 + u), 1e-6, "band pass: maximally flat response"); });
}
H(c10_butter_bandstop) {
    band s = anyband();
    auto f = mkb<designer_type::Butterworth, filter_type::BandStop>(s);
    vf_close(power(f, 0), 1, 1e-6, "unit gain at DC");
    sweep(f, s, [&](double p, double v) { double u = ipow(v, 2 * s.n); vf_close(p, u / (1 + u), 1e-6, "band stop: maximally flat response"); });
}
H(c10_butter_bandshelf) {
    band s = anyband();
    double g = gains[vf_pick("gain", 0, 1)], G = db(g);
    auto f = mkb<designer_type::Butterworth, filter_type::BandShelf>(s, g);
    sweep(f, s, [&](double p, double v) { double u = ipow(v, 2 * s.n); vf_close(p, (u + G) / (u + 1 / G), 1e-6, "band shelf: response at every frequency"); });
}
H(c10_cheb1_band) {
    band s = anyband();
    double r = ripples[vf_pick("ripple", 0, 1)], e2 = std::pow(10.0, r / 10) - 1;
    auto f = mkb<designer_type::ChebyshevI, filter_type::BandPass>(s, r);
    sweep(f, s, [&](double p, double v) { double c = cheb(s.n, v); vf_close(p, 1 / (1 + e2 * c * c), 1e-6, "band pass: equiripple response"); });
    auto g = mkb<designer_type::ChebyshevI, filter_type::BandStop>(s, r);
    sweep(g, s, [&](double p, double v) { if (std::abs(v) < 1e-6) return; double c = cheb(s.n, 1 / v); vf_close(p, 1 / (1 + e2 * c * c), 1e-6, "band stop: equiripple response"); });
}
H(c10_cheb2_band) {
    band s = anyband();
    double a = stops[vf_pick("stop", 0, 1)], e2 = 1 / (std::pow(10.0, a / 10) - 1);
    auto f = mkb<designer_type::ChebyshevII, filter_type::BandPass>(s, a);
    sweep(f, s, [&](double p, double v) { if (std::abs(v) < 1e-6) return; double c = cheb(s.n, 1 / v); vf_close(p, e2 * c * c / (1 + e2 * c * c), 1e-6, "band pass: equiripple stop band"); });
    auto g = mkb<designer_type::ChebyshevII, filter_type::BandStop>(s, a);
    sweep(g, s, [&](double p, double v) { double c = cheb(s.n, v); vf_close(p, e2 * c * c / (1 + e2 * c * c), 1e-6, "band stop: equiripple stop band"); });
}
H(c10_cheb_bandshelf) {
    band s = anyband();
    double g = gains[vf_pick("gain", 0, 1)], r = 1, e = db(g > 0 ? -r : r), G = db(g), top = s.n % 2 ? G : G * e;
    auto f = mkb<designer_type::ChebyshevI, filter_type::BandShelf>(s, g, r);
    auto h = mkb<designer_type::ChebyshevII, filter_type::BandShelf>(s, g, r);
    double x0 = std::sqrt((1 - s.a) / (1 + s.a));
    vf_close(power(f, 0), 1, 1e-6, "band shelf: unit gain at DC");
    vf_close(power(h, 0), 1, 1e-6, "band shelf: unit gain at DC");
    vf_close(power(f, x0), top * top, 1e-6, "band shelf: the gain at the centre");
    vf_close(power(h, x0), top * top, 1e-6, "band shelf: the gain at the centre");
    double x2 = std::tan(VF_PI * (s.f0 + s.fw / 2) / s.fs);
    vf_close(power(f, x2), G * e * G * e, 1e-6, "band shelf: gain less the ripple at the edge");
    vf_close(power(h, x2), G * e * G * e, 1e-6, "band shelf: gain less the ripple at the edge");
}
// the orders beyond those above, at some corners
H(c10_butter_low_wide) { vf_wide = 1; c10_butter_low(); }
H(c10_butter_high_wide) { vf_wide = 1; c10_butter_high(); }
H(c10_cheb1_low_wide) { vf_wide = 1; c10_cheb1_low(); }
H(c10_cheb1_high_wide) { vf_wide = 1; c10_cheb1_high(); }
H(c10_cheb2_low_wide) { vf_wide = 1; c10_cheb2_low(); }
H(c10_cheb2_high_wide) { vf_wide = 1; c10_cheb2_high(); }
H(c10_butter_shelf_wide) { vf_wide = 1; c10_butter_shelf(); }
H(c10_cheb1_shelf_wide) { vf_wide = 1; c10_cheb1_shelf(); }
H(c10_cheb2_shelf_wide) { vf_wide = 1; c10_cheb2_shelf(); }
// a designer no larger than the order needs
namespace {
template <std::size_t N> void exact() {
    const double fc = anyf("fc"), f0 = 0.2 * FS, fw = 0.1 * FS;
    auto one = [](double n, double d, double g, const char* key) { vf_close(n * n / (d * d), g * g, 1e-6, key); };
    auto l = make_filter<double, designer_type::Butterworth, filter_type::LowPass, N>(N, FS, fc);
    shape(l, N);
    one(num_at(l, 1), den_at(l, 1), 1, "exact size: unit gain at DC");
    auto h = make_filter<double, designer_type::ChebyshevI, filter_type::HighPass, N>(N, FS, fc, 1.0);
    shape(h, N);
    one(num_at(h, -1), den_at(h, -1), N % 2 ? 1 : db(-1), "exact size: gain at Nyquist");
    auto s = make_filter<double, designer_type::Butterworth, filter_type::LowShelf, N>(N, FS, fc, 6.0);
    shape(s, N);
    one(num_at(s, 1), den_at(s, 1), db(6), "exact size: shelf gain at DC");
    auto b = make_filter<double, designer_type::Butterworth, filter_type::BandPass, N>(N, FS, f0, fw);
    vf_assert(b.size() == N, "exact size: number of sections");
    vf_close(num_at(b, 1) / den_at(b, 1), 0, 1e-6, "exact size: zero at DC");
    auto c = make_filter<double, designer_type::ChebyshevII, filter_type::BandStop, N>(N, FS, f0, fw, 40.0);
    vf_assert(c.size() == N, "exact size: number of sections");
    one(num_at(c, 1), den_at(c, 1), 1, "exact size: unit gain at DC");
}
}
H(c10_exact_size) {
    switch (vf_pick("order", 1, 5)) {
        case 1: exact<1>(); break;
        case 2: exact<2>(); break;
        case 3: exact<3>(); break;
        case 4: exact<4>(); break;
        default: exact<5>(); break;
    }
}
// single precision
H(c10_float) {
    const std::size_t n = vf_pick("order", 1, 4);
    const float fs = 48000, fc = FS * some[vf_pick("corner", 0, 3)];
    const double t = std::tan(VF_PI * ((double) fc / FS));
    switch (vf_pick("type", 0, 3)) {
        case 0: { auto f = make_filter<float, designer_type::Butterworth, filter_type::LowPass, 8>(n, fs, fc);
            shape(f, n); vf_close(power(f, t), 0.5, 1e-2, "half power at the corner (float)"); vf_close(num_at(f, 1), den_at(f, 1), 1e-2, "unit gain at DC (float)"); break; }
        case 1: { auto f = make_filter<float, designer_type::ChebyshevI, filter_type::HighPass, 8>(n, fs, fc, 1.0f);
            shape(f, n); vf_close(power(f, t), db(-1) * db(-1), 1e-2, "ripple at the corner (float)"); break; }
        case 2: { auto f = make_filter<float, designer_type::ChebyshevII, filter_type::LowPass, 8>(n, fs, fc, 20.0f);
            shape(f, n); vf_close(power(f, t), 0.01, 1e-3, "attenuation at the corner (float)"); break; }
        default: { auto f = make_filter<float, designer_type::Butterworth, filter_type::HighShelf, 8>(n, fs, fc, 6.0f);
            shape(f, n); vf_close(power(f, t), db(6), 1e-2, "half the gain in dB at the corner (float)"); }
    }
}
