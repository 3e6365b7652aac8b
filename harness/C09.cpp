//@file bounds="sample rate 8000/44100/48000 and symbolic in [8000,192000], corner in [0.001,0.499] of it, Q in [0.1,20], gain in [-40,40] dB"
#include "vf.hpp"
#include <edsp/filter.hpp>
namespace {
using namespace edsp::filter;
struct spec { double fc, fs, q, g, c, s; };
spec any(bool symbolic_rate = false) {
    spec p;
    static const double rates[3] = {8000, 44100, 48000};
    p.fs = symbolic_rate ? vf_double("fs", 8000, 192000) : rates[vf_pick("rate", 0, 2)];
    p.fc = vf_double("fc", 8, 95808);
    vf_assume(p.fc >= 0.001 * p.fs);
    vf_assume(p.fc <= 0.499 * p.fs);
    p.q = vf_double("Q", 0.1, 20);
    p.g = vf_double("gain", -40, 40);
    double h = VF_PI * p.fc / p.fs, c = std::cos(h), s = std::sin(h);
    p.c = c * c - s * s; p.s = 2 * s * c;
    return p;
}
template <filter_type F> biquad<double> make(const spec& p) {
    return make_filter<double, designer_type::Zolzer, F, 2>(p.fc, p.fs, p.q, p.g);
}
// numerator and denominator at DC (z = 1), Nyquist (z = -1) and at the corner (z = exp(jw))
double bdc(const biquad<double>& f) { return f.b0() + f.b1() + f.b2(); }
double adc(const biquad<double>& f) { return f.a0() + f.a1() + f.a2(); }
double bny(const biquad<double>& f) { return f.b0() - f.b1() + f.b2(); }
double any_(const biquad<double>& f) { return f.a0() - f.a1() + f.a2(); }
struct cplx { double re, im; };
// H(z) z at the corner, z = exp(jw): the common factor z leaves the quotient of the two polynomials unchanged
cplx at(double c0, double c1, double c2, double c, double s) { return {(c0 + c2) * c + c1, (c0 - c2) * s}; }
cplx B(const biquad<double>& f, const spec& p) { return at(f.b0(), f.b1(), f.b2(), p.c, p.s); }
cplx A(const biquad<double>& f, const spec& p) { return at(f.a0(), f.a1(), f.a2(), p.c, p.s); }
// numerator = k * j * denominator
void quarter(const biquad<double>& f, const spec& p, double k, const char* key) {
    cplx b = B(f, p), a = A(f, p);
    vf_close(b.re, -k * a.im, 1e-7, key);
    vf_close(b.im, k * a.re, 1e-7, key);
}
// numerator = -k * conj(denominator): magnitude k
void mirrored(const biquad<double>& f, const spec& p, double k, const char* key) {
    cplx b = B(f, p), a = A(f, p);
    vf_close(b.re, -k * a.re, 1e-6, key);
    vf_close(b.im, k * a.im, 1e-6, key);
}
// c0 + c1 / z + c2 / z^2 has its roots at the corner frequency, with the given Q
void damping(double c0, double c1, double c2, const spec& p, double q, const char* key) {
    vf_close((c0 - c2) * 2 * q, p.s * (c0 + c2), 1e-7, key);
    vf_close(-c1, p.c * (c0 + c2), 1e-7, key);
}
void poles(const biquad<double>& f, const spec& p, double q, const char* key) { damping(f.a0(), f.a1(), f.a2(), p, q, key); }
// the shelves are of the Butterworth kind: both polynomials have the damping 1 / sqrt(2), whatever their frequency
void butterworth(double c0, double c1, double c2, const char* key) {
    vf_close(2 * (c0 - c2) * (c0 - c2), (c0 + c1 + c2) * (c0 - c1 + c2), 1e-7, key);
    vf_assert(c0 > c2, key);
}
void shelf(const biquad<double>& f, const spec& p) {
    // a cut is the inverse of a boost (below)
    if (p.g < 0) return;
    poles(f, p, std::sqrt(0.5), "a boost has its poles at the corner");
    butterworth(f.b0(), f.b1(), f.b2(), "a boost has maximally flat zeros");
}
void stable(const biquad<double>& f) { vf_assert(f.stability(), "the designed filter is stable"); }
}
H(c09_lowpass) {
    spec p = any();
    auto f = make<filter_type::LowPass>(p);
    vf_close(bdc(f), adc(f), 1e-9, "low pass: unit gain at DC");
    vf_close(bny(f), 0, 1e-9, "low pass: zero at Nyquist");
    quarter(f, p, -p.q, "low pass: gain Q at the corner");
    poles(f, p, p.q, "low pass: poles of the corner frequency and the given Q");
    vf_close(f.b0(), f.b2(), 1e-9, "low pass: both zeros at Nyquist");
    stable(f);
    vf_observe("a1", f.a1());
}
H(c09_highpass) {
    spec p = any();
    auto f = make<filter_type::HighPass>(p);
    vf_close(bny(f), any_(f), 1e-9, "high pass: unit gain at Nyquist");
    vf_close(bdc(f), 0, 1e-9, "high pass: zero at DC");
    quarter(f, p, p.q, "high pass: gain Q at the corner");
    poles(f, p, p.q, "high pass: poles of the corner frequency and the given Q");
    vf_close(f.b0(), f.b2(), 1e-9, "high pass: both zeros at DC");
    stable(f);
}
H(c09_bandpass) {
    spec p = any();
    auto f = make<filter_type::BandPass>(p);
    vf_close(bny(f), 0, 1e-9, "band pass: zero at Nyquist");
    vf_close(bdc(f), 0, 1e-9, "band pass: zero at DC");
    cplx b = B(f, p), a = A(f, p);
    vf_close(b.re, a.re, 1e-7, "band pass: unit gain and no phase shift at the centre");
    vf_close(b.im, a.im, 1e-7, "band pass: unit gain and no phase shift at the centre");
    poles(f, p, p.q, "band pass: poles of the centre frequency and the given Q");
    stable(f);
}
H(c09_lowshelf) {
    spec p = any();
    auto f = make<filter_type::LowShelf>(p);
    double V = std::pow(10., p.g / 20);
    vf_close(bdc(f), V * adc(f), 1e-7, "low shelf: the requested gain at DC, boost or cut");
    vf_close(bny(f), any_(f), 1e-9, "low shelf: unit gain at Nyquist");
    shelf(f, p);
}
H(c09_highshelf) {
    spec p = any();
    auto f = make<filter_type::HighShelf>(p);
    double V = std::pow(10., p.g / 20);
    vf_close(bny(f), V * any_(f), 1e-7, "high shelf: the requested gain at Nyquist, boost or cut");
    vf_close(bdc(f), adc(f), 1e-9, "high shelf: unit gain at DC");
    shelf(f, p);
}
H(c09_shelf_stability) {
    spec p = any();
    vf_assume(p.fs == 44100);
    static const double gains[7] = {-12, 20, 3, -40, -3, 0, 40};
#ifdef VF_THOROUGH
    p.g = gains[vf_pick("g", 0, 6)];
#else
    p.g = gains[vf_pick("g", 0, 2)];
#endif
    stable(make<filter_type::LowShelf>(p));
    stable(make<filter_type::HighShelf>(p));
}
H(c09_cut_undoes_boost) {
    // a cut by g dB is the inverse of a boost by g dB
    spec p = any();
    spec n = p;
    n.g = -p.g;
    vf_assume(p.g > 0);
    auto f = make<filter_type::LowShelf>(p), g = make<filter_type::LowShelf>(n);
    vf_close(f.b0() * g.b0(), f.a0() * g.a0(), 1e-6, "low shelf: a cut inverts a boost");
    vf_close(f.b1() * g.b0(), f.a0() * g.a1(), 1e-6, "low shelf: a cut inverts a boost");
    vf_close(f.b2() * g.b0(), f.a0() * g.a2(), 1e-6, "low shelf: a cut inverts a boost");
    f = make<filter_type::HighShelf>(p), g = make<filter_type::HighShelf>(n);
    vf_close(f.b0() * g.b0(), f.a0() * g.a0(), 1e-6, "high shelf: a cut inverts a boost");
    vf_close(f.b1() * g.b0(), f.a0() * g.a1(), 1e-6, "high shelf: a cut inverts a boost");
    vf_close(f.b2() * g.b0(), f.a0() * g.a2(), 1e-6, "high shelf: a cut inverts a boost");
}
H(c09_symbolic_rate) {
    spec p = any(true);
    auto f = make<filter_type::LowPass>(p);
    vf_close(bdc(f), adc(f), 1e-9, "low pass: unit gain at DC");
    quarter(f, p, -p.q, "low pass: gain Q at the corner");
    auto h = make<filter_type::HighPass>(p);
    vf_close(bny(h), any_(h), 1e-9, "high pass: unit gain at Nyquist");
    quarter(h, p, p.q, "high pass: gain Q at the corner");
}
H(c09_float) {
    spec p = any();
    auto f = make_filter<float, designer_type::Zolzer, filter_type::LowPass, 2>((float) p.fc, (float) p.fs, (float) p.q, 1.f);
    auto h = make_filter<float, designer_type::Zolzer, filter_type::HighPass, 2>((float) p.fc, (float) p.fs, (float) p.q, 1.f);
    vf_close(f.b0() + f.b1() + f.b2(), f.a0() + f.a1() + f.a2(), 1e-4, "low pass (float): unit gain at DC");
    vf_close(f.b0() - f.b1() + f.b2(), 0, 1e-4, "low pass (float): zero at Nyquist");
    vf_close(h.b0() + h.b1() + h.b2(), 0, 1e-4, "high pass (float): zero at DC");
}
