//@file bounds="every attack and release time in [1e-2,1e4] ms, sample rate in [1,1e6] Hz, rectified or not; every input in [-1e3,1e3], sequences of 3 samples (thorough 4), of 2 (thorough 3) with a reset, a new sample rate or a new time before any of them; runs of 17, 30 and 40 samples at one set of parameters with an arbitrary sample at their end, with and without such changes" assume="exact real arithmetic without subnormal numbers, up to 1e-6; exp by its axioms (between zero and one for negative arguments, equal arguments give equal values)"
#include "vf.hpp"
#include <edsp/experimental/envelope/ar.hpp>
namespace {
#ifdef VF_THOROUGH
constexpr int STEPS = 4, HIST = 3;
#else
constexpr int STEPS = 3, HIST = 2;
#endif
using env = edsp::envelope::ar<double>;
struct params { double sr, at, rt; bool rect; };
params any() {
    if (vf_wide) return {8000, 2, 5, vf_pick("rectified", 0, 1) != 0};
    return {vf_double("sample rate", 1, 1e6), vf_double("attack", 1e-2, 1e4), vf_double("release", 1e-2, 1e4), vf_pick("rectified", 0, 1) != 0};
}
void readback(const env& e, const params& p) {
    vf_same(e.sample_rate(), p.sr, "sample rate read back");
    vf_same(e.attack_time(), p.at, "attack time read back");
    vf_same(e.release_time(), p.rt, "release time read back");
    vf_assert(e.rectification() == p.rect, "rectification read back");
}
void fill(std::vector<double>& x) {
    if (!vf_wide) return vf_fill(x, "x", -1e3, 1e3);
    vf_background(x, -1e3, 1e3);
    x[x.size() - 2] = vf_double("x", -1e3, 1e3);
}
// one pole with the time constant of its direction
double step(const params& p, double last, double x) {
    const double t = last < x ? p.at : p.rt;
    const double g = t == 0 ? 0 : std::exp(-1000 / (t * p.sr));
    return x + g * (last - x);
}
}
H(c28_formula) {
    const params p = any();
    env e(p.sr, p.at, p.rt, p.rect);
    readback(e, p);
    double last = 0;
    std::vector<double> in(vf_wide ? vf_size("", 0, 0) : STEPS);
    fill(in);
    for (double x : in) {
        const double y = e(x);
        last = step(p, last, p.rect ? std::abs(x) : x);
        vf_close(y, last, 1e-6, "one pole smoothing with the time constant of the direction");
    }
}
H(c28_bounds) {
    const params p = any();
    env e(p.sr, p.at, p.rt, p.rect);
    double last = 0;
    for (int i = 0; i < STEPS; ++i) {
        const double x = vf_double("x", -1e3, 1e3), y = e(x), r = p.rect ? std::abs(x) : x;
        if (r >= last) vf_assert(y >= last && y <= r, "the envelope moves towards its input and never beyond");
        else vf_assert(y <= last && y >= r, "the envelope moves towards its input and never beyond");
        last = y;
    }
}
H(c28_history) {
    params p = any();
    env e(p.sr, p.at, p.rt, p.rect);
    double last = 0;
    std::vector<double> in(vf_wide ? 30 : HIST);
    fill(in);
    for (int i = 0; i < (int) in.size(); ++i) {
        switch (vf_wide && i != 13 && i != 22 ? 0 : vf_pick("event", 0, 5)) {
            case 1: e.reset(); last = 0; break;
            case 2: p.sr = vf_wide ? 16000 : vf_double("sample rate", 1, 1e6); e.set_sample_rate(p.sr); last = 0; break;
            case 3: p.at = vf_wide ? 3.5 : vf_double("attack", 1e-2, 1e4); e.set_attack_time(p.at); last = 0; break;
            case 4: p.rt = vf_wide ? 1.5 : vf_double("release", 1e-2, 1e4); e.set_release_time(p.rt); last = 0; break;
            case 5: p.rect = !p.rect; e.set_rectification(p.rect); break;
            default: break;
        }
        readback(e, p);
        const double x = in[i], y = e(x);
        last = step(p, last, p.rect ? std::abs(x) : x);
        vf_close(y, last, 1e-6, "parameters and resets take effect");
    }
}
H(c28_block) {
    const params p = any();
    env a(p.sr, p.at, p.rt, p.rect), b(a);
    std::vector<double> x(3), y(3);
    vf_fill(x, "x", -1e3, 1e3);
    const auto x0 = x;
    if (vf_pick("in place", 0, 1)) { a.apply(x.begin(), x.end(), x.begin()); y = x; }
    else a.apply(x.begin(), x.end(), y.begin());
    for (int i = 0; i < 3; ++i) vf_close(b(x0[i]), y[i], 1e-6, "sample by sample as in a block");
    vf_close(a(1.0), b(1.0), 1e-6, "the state is kept after a block");
}
// a constant input is approached with the distance falling to 1/e after the time constant
H(c28_time_constant) {
    const int n = (int) vf_pick("samples", 1, 4);
    const double sr = 1000, level = vf_double("level", 0.01, 10);
    const bool rising = vf_pick("rising", 0, 1);
    env e(sr, rising ? n : 1e-2, rising ? 1e-2 : n);
    double from = 0;
    if (!rising) from = e(level);
    double y = 0;
    for (int i = 0; i < n; ++i) y = e(rising ? level : 0);
    vf_close(y, rising ? level * (1 - std::exp(-1.0)) : from * std::exp(-1.0), 1e-6, "time constant in milliseconds");
}
H(c28_float) {
    edsp::envelope::ar<float> e(1000.0f, 1.0f, 2.0f, true);
    const float x = vf_float("x", -10, 10), y = vf_float("y", -10, 10);
    const double a = std::abs((double) x), b = std::abs((double) y);
    const double l = a * (1 - std::exp(-1.0));
    vf_close(e(x), l, 1e-4, "attack");
    const double g = l < b ? std::exp(-1.0) : std::exp(-0.5);
    vf_close(e(y), b + g * (l - b), 1e-4, "attack or release");
}
H(c28_formula_wide) { vf_wide = 1; c28_formula(); }
H(c28_history_wide) { vf_wide = 1; c28_history(); }
// without a time the envelope follows at once in that direction, and only in that one
H(c28_immediate) {
    const bool up = vf_pick("attack", 0, 1), down = vf_pick("release", 0, 1);
    params p = any();
    if (up) p.at = 0;
    if (down) p.rt = 0;
    env e(p.sr, p.at, p.rt, p.rect);
    double last = 0;
    for (int i = 0; i < 3; ++i) {
        const double x = vf_double("x", -1e3, 1e3), y = e(x), r = p.rect ? std::abs(x) : x;
        last = step(p, last, r);
        vf_close(y, last, 1e-6, "without a time the input is reached at once, in that direction only");
    }
}
