//@file bounds="sample rate 8000/44100/48000 and symbolic in [8000,192000], corner in [0.001,0.499] of it, Q in [0.1,20], gain in [-40,40] dB"
#include "vf.hpp"
#include <edsp/filter.hpp>
namespace {
using namespace edsp::filter;
struct spec { double fc, fs, q, g, c, s; };
spec any(bool symbolic_rate = false) {
    spec p;
    static const double rates[3] = {8000, 44100, 48000};
    p.fs = symbolic_rate ? vf_double("fs", 8000, 192000) : rates[vf_pick("rate", 0, 2)];
    p.fc = vf_double("fc", 8, 95808);
    vf_assume(p.fc >= 0.001 * p.fs);
    vf_assume(p.fc <= 0.499 * p.fs);
    p.q = vf_double("Q", 0.1, 20);
    p.g = vf_double("gain", -40, 40);
    double w = 2 * VF_PI * p.fc / p.fs;
    p.c = std::cos(w); p.s = std::sin(w);
    return p;
}
template <filter_type F> biquad<double> make(const spec& p) {
    return make_filter<double, designer_type::RBJ, F, 2>(p.fc, p.fs, p.q, p.g);
}
// numerator and denominator at DC (z = 1), Nyquist (z = -1) and at the corner (z = exp(jw))
double bdc(const biquad<double>& f) { return f.b0() + f.b1() + f.b2(); }
double adc(const biquad<double>& f) { return f.a0() + f.a1() + f.a2(); }
double bny(const biquad<double>& f) { return f.b0() - f.b1() + f.b2(); }
double any_(const biquad<double>& f) { return f.a0() - f.a1() + f.a2(); }
struct cplx { double re, im; };
// H(z) z at the corner, z = exp(jw): the common factor z leaves the quotient of the two polynomials unchanged
cplx at(double c0, double c1, double c2, double c, double s) { return {(c0 + c2) * c + c1, (c0 - c2) * s}; }
cplx B(const biquad<double>& f, const spec& p) { return at(f.b0(), f.b1(), f.b2(), p.c, p.s); }
cplx A(const biquad<double>& f, const spec& p) { return at(f.a0(), f.a1(), f.a2(), p.c, p.s); }
// numerator = k * j * denominator
void quarter(const biquad<double>& f, const spec& p, double k, const char* key, double tol = 1e-7) {
    cplx b = B(f, p), a = A(f, p);
    vf_close(b.re, -k * a.im, tol, key);
    vf_close(b.im, k * a.re, tol, key);
}
// numerator = -k * conj(denominator): magnitude k
void mirrored(const biquad<double>& f, const spec& p, double k, const char* key, double tol = 1e-7) {
    cplx b = B(f, p), a = A(f, p);
    vf_close(b.re, -k * a.re, 10 * tol, key);
    vf_close(b.im, k * a.im, 10 * tol, key);
}
// the Q of the poles: (a0 - a2) / (a0 + a2) is sin / (2 Q) for the simple designs
void damping(const biquad<double>& f, const spec& p, const char* key, double tol = 1e-7) {
    vf_close((f.a0() - f.a2()) * 2 * p.q, p.s * (f.a0() + f.a2()), tol, key);
    vf_close(-2 * f.a1(), 2 * p.c * (f.a0() + f.a2()), tol, key);
}
void stable(const biquad<double>& f) { vf_assert(f.stability(), "the designed filter is stable"); }
}
H(c08_lowpass) {
    spec p = any();
    auto f = make<filter_type::LowPass>(p);
    vf_close(bdc(f), adc(f), 1e-9, "low pass: unit gain at DC");
    vf_close(bny(f), 0, 1e-9, "low pass: zero at Nyquist");
    quarter(f, p, -p.q, "low pass: gain Q at the corner");
    damping(f, p, "low pass: poles of the corner frequency and the given Q");
    vf_close(f.b0(), f.b2(), 1e-9, "low pass: both zeros at Nyquist");
    stable(f);
    vf_observe("a1", f.a1());
}
H(c08_highpass) {
    spec p = any();
    auto f = make<filter_type::HighPass>(p);
    vf_close(bny(f), any_(f), 1e-9, "high pass: unit gain at Nyquist");
    vf_close(bdc(f), 0, 1e-9, "high pass: zero at DC");
    quarter(f, p, p.q, "high pass: gain Q at the corner");
    damping(f, p, "high pass: poles of the corner frequency and the given Q");
    vf_close(f.b0(), f.b2(), 1e-9, "high pass: both zeros at DC");
    stable(f);
}
H(c08_bandpass) {
    spec p = any();
    auto f = make<filter_type::BandPass>(p);
    vf_close(bny(f), 0, 1e-9, "band pass: zero at Nyquist");
    vf_close(bdc(f), 0, 1e-9, "band pass: zero at DC");
    cplx b = B(f, p), a = A(f, p);
    vf_close(b.re, p.q * a.re, 1e-7, "band pass: gain Q and no phase shift at the centre");
    vf_close(b.im, p.q * a.im, 1e-7, "band pass: gain Q and no phase shift at the centre");
    damping(f, p, "band pass: poles of the corner frequency and the given Q");
    stable(f);
}
H(c08_allpass) {
    spec p = any();
    auto f = make<filter_type::AllPass>(p);
    // unit magnitude at every frequency: the numerator is the reversed denominator
    vf_close(f.b0(), f.a2(), 1e-9, "all pass: unit magnitude"); vf_close(f.b1(), f.a1(), 1e-9, "all pass: unit magnitude");
    vf_close(f.b2(), f.a0(), 1e-9, "all pass: unit magnitude");
    vf_close(bdc(f), adc(f), 1e-9, "all pass: unit gain at DC");
    cplx b = B(f, p), a = A(f, p);
    vf_close(b.re, -a.re, 1e-7, "all pass: half turn at the corner");
    vf_close(b.im, -a.im, 1e-7, "all pass: half turn at the corner");
    damping(f, p, "all pass: poles of the corner frequency and the given Q");
    stable(f);
}
H(c08_lowshelf) {
    spec p = any();
    auto f = make<filter_type::LowShelf>(p);
    double V = std::pow(10., p.g / 20);
    vf_close(bdc(f), V * adc(f), 1e-7, "low shelf: the requested gain at DC");
    vf_close(bny(f), any_(f), 1e-9, "low shelf: unit gain at Nyquist");
    mirrored(f, p, std::sqrt(V), "low shelf: half the gain (in dB) at the corner");
    const double G = std::sqrt(V);
    vf_close((f.a0() - f.a2()) * p.q * ((G + 1) + (G - 1) * p.c), std::sqrt(G) * p.s * (f.a0() + f.a2()), 1e-5, "low shelf: slope of the given Q");
}
H(c08_highshelf) {
    spec p = any();
    auto f = make<filter_type::HighShelf>(p);
    double V = std::pow(10., p.g / 20);
    vf_close(bny(f), V * any_(f), 1e-7, "high shelf: the requested gain at Nyquist");
    vf_close(bdc(f), adc(f), 1e-9, "high shelf: unit gain at DC");
    mirrored(f, p, std::sqrt(V), "high shelf: half the gain (in dB) at the corner");
    const double G = std::sqrt(V);
    vf_close((f.a0() - f.a2()) * p.q * ((G + 1) - (G - 1) * p.c), std::sqrt(G) * p.s * (f.a0() + f.a2()), 1e-5, "high shelf: slope of the given Q");
}
H(c08_shelf_stability) {
    spec p = any();
    vf_assume(p.fs == 44100);
    static const double gains[7] = {-12, 20, 3, -40, -3, 0, 40};
#ifdef VF_THOROUGH
    p.g = gains[vf_pick("g", 0, 6)];
#else
    p.g = gains[vf_pick("g", 0, 2)];
#endif
    stable(make<filter_type::LowShelf>(p));
    stable(make<filter_type::HighShelf>(p));
}
H(c08_symbolic_rate) {
    spec p = any(true);
    auto f = make<filter_type::LowPass>(p);
    vf_close(bdc(f), adc(f), 1e-9, "low pass: unit gain at DC");
    quarter(f, p, -p.q, "low pass: gain Q at the corner");
    auto h = make<filter_type::HighPass>(p);
    vf_close(bny(h), any_(h), 1e-9, "high pass: unit gain at Nyquist");
    quarter(h, p, p.q, "high pass: gain Q at the corner");
}
namespace {
// the single-precision design, its responses evaluated in double precision
template <filter_type F> biquad<double> narrow(const spec& p) {
    auto f = make_filter<float, designer_type::RBJ, F, 2>((float) p.fc, (float) p.fs, (float) p.q, (float) p.g);
    return biquad<double>(f.a0(), f.a1(), f.a2(), f.b0(), f.b1(), f.b2());
}
}
H(c08_float_design) {
    spec p = any();
    const float w = 2 * edsp::math::constants<float>::pi * (float) p.fc / (float) p.fs;
    p.c = std::cos(w); p.s = std::sin(w);
    vf_assume(p.g >= -20);
    vf_assume(p.g <= 20);
    const double V = std::pow(10., p.g / 20), G = std::sqrt(V);
    switch (vf_pick("type", 0, 5)) {
        case 0: { auto f = narrow<filter_type::LowPass>(p); quarter(f, p, -p.q, "low pass (float): gain Q at the corner", 1e-3); damping(f, p, "low pass (float): poles", 1e-3); break; }
        case 1: { auto f = narrow<filter_type::HighPass>(p); vf_close(bny(f), any_(f), 1e-3, "high pass (float): unit gain at Nyquist"); quarter(f, p, p.q, "high pass (float): gain Q at the corner", 1e-3); damping(f, p, "high pass (float): poles", 1e-3); break; }
        case 2: { auto f = narrow<filter_type::BandPass>(p);
            vf_close(bdc(f), 0, 1e-3, "band pass (float): zero at DC"); vf_close(bny(f), 0, 1e-3, "band pass (float): zero at Nyquist");
            vf_close(B(f, p).re, p.q * A(f, p).re, 1e-3, "band pass (float): gain Q at the centre"); damping(f, p, "band pass (float): poles", 1e-3); break; }
        case 3: { auto f = narrow<filter_type::AllPass>(p); vf_close(f.b0(), f.a2(), 1e-3, "all pass (float)"); vf_close(f.b1(), f.a1(), 1e-3, "all pass (float)"); vf_close(f.b2(), f.a0(), 1e-3, "all pass (float)"); damping(f, p, "all pass (float): poles", 1e-3); break; }
        case 4: { auto f = narrow<filter_type::LowShelf>(p); vf_close(bdc(f), V * adc(f), 1e-3, "low shelf (float): the requested gain at DC"); vf_close(bny(f), any_(f), 1e-3, "low shelf (float): unit gain at Nyquist"); mirrored(f, p, G, "low shelf (float): half the gain (in dB) at the corner", 1e-2); break; }
        default: { auto f = narrow<filter_type::HighShelf>(p); vf_close(bny(f), V * any_(f), 1e-3, "high shelf (float): the requested gain at Nyquist"); vf_close(bdc(f), adc(f), 1e-3, "high shelf (float): unit gain at DC"); mirrored(f, p, G, "high shelf (float): half the gain (in dB) at the corner", 1e-2); }
    }
}
H(c08_float) {
    spec p = any();
    auto f = make_filter<float, designer_type::RBJ, filter_type::LowPass, 2>((float) p.fc, (float) p.fs, (float) p.q, 1.f);
    auto h = make_filter<float, designer_type::RBJ, filter_type::HighPass, 2>((float) p.fc, (float) p.fs, (float) p.q, 1.f);
    vf_close(f.b0() + f.b1() + f.b2(), f.a0() + f.a1() + f.a2(), 1e-4, "low pass (float): unit gain at DC");
    vf_close(f.b0() - f.b1() + f.b2(), 0, 1e-4, "low pass (float): zero at Nyquist");
    vf_close(h.b0() + h.b1() + h.b2(), 0, 1e-4, "high pass (float): zero at DC");
}
namespace {
template <filter_type F> void gainless(const spec& p) {
    const biquad<double> f = make_filter<double, designer_type::RBJ, F, 2>(p.fc, p.fs, p.q), g = make_filter<double, designer_type::RBJ, F, 2>(p.fc, p.fs, p.q, 1.0);
    const char* key = "a design without a gain is the one of 1 dB";
    vf_same(f.a0(), g.a0(), key);
    vf_same(f.a1(), g.a1(), key);
    vf_same(f.a2(), g.a2(), key);
    vf_same(f.b0(), g.b0(), key);
    vf_same(f.b1(), g.b1(), key);
    vf_same(f.b2(), g.b2(), key);
}
}
H(c08_default_gain) {
    const spec p = any();
    switch (vf_pick("type", 0, 4)) {
        case 0: gainless<filter_type::LowPass>(p); break;
        case 1: gainless<filter_type::HighPass>(p); break;
        case 2: gainless<filter_type::LowShelf>(p); break;
        case 3: gainless<filter_type::HighShelf>(p); break;
        default: gainless<filter_type::BandPass>(p);
    }
}
