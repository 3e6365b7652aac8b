//@file bounds="every attack, decay and release rate in [1e-3,1], sustain level and attack target in [0,1], every time in [1e-3,10] s and sample rate in [1,1e5]; every sequence of 5 samples (thorough 7) with the key pressed or released before any of them, of 3 (thorough 4) samples with any calls between; runs of 90 samples at fixed rates with an arbitrary sustain level, the key pressed twice" assume="exact real arithmetic up to 1e-6"
#include "vf.hpp"
#include <edsp/experimental/envelope/adsr.hpp>
namespace {
#ifdef VF_THOROUGH
constexpr int STEPS = 7, WILD = 4;
#else
constexpr int STEPS = 5, WILD = 3;
#endif
using env = edsp::envelope::adsr<double>;
double mn(double a, double b) { return a < b ? a : b; }
double mx(double a, double b) { return a > b ? a : b; }
}
// press and release at any point: the level follows the phases
H(c27_phases) {
    env e;
    const double up = vf_wide ? 0.25 : vf_double("attack", 1e-3, 1), down = vf_wide ? 0.125 : vf_double("decay", 1e-3, 1);
    const double off = vf_wide ? 0.0625 : vf_double("release", 1e-3, 1);
    const double hold = vf_double("sustain", 0, 1);
    e.set_attack_rate(up);
    e.set_decay_rate(down);
    e.set_release_rate(off);
    e.set_sustain_level(hold);
    vf_same(e.attack_rate(), up, "attack rate read back");
    vf_same(e.decay_rate(), down, "decay rate read back");
    vf_same(e.release_rate(), off, "release rate read back");
    vf_same(e.sustain_level(), hold, "sustain level read back");
    enum { idle, attack, decay, sustain, release } phase = idle;
    double level = 0;
    static const int offs[] = {3, 5, 8, 12, 30}, gaps[] = {1, 6, 30};
    const int first = vf_wide ? offs[vf_pick("off", 0, 4)] : 0, second = vf_wide ? first + gaps[vf_pick("gap", 0, 2)] : 0;
    for (int i = 0; i < (vf_wide ? 90 : STEPS); ++i) {
        if (vf_wide ? i == 2 || i == first || i == second || i == second + 17 : vf_pick("event", 0, 1)) {
            if (phase == idle || phase == release) {
                e.key_on();
                phase = attack;
            } else {
                e.key_off();
                phase = release;
            }
        }
        const double v = e(1.0);
        vf_assert(v >= 0 && v <= 1, "level between zero and one");
        if (phase == attack) {
            vf_assert(v >= level, "the attack rises");
            vf_close(v, mn(level + up, 1), 1e-6, "the attack rises at its rate up to the target");
            if (level + up >= 1) phase = decay;
        } else if (phase == decay) {
            vf_assert(v <= level && v >= hold, "the decay falls to the sustain level");
            vf_close(v, mx(level - down, hold), 1e-6, "the decay falls at its rate");
            if (v <= hold) phase = sustain;
        } else if (phase == sustain) {
            vf_close(v, hold, 1e-6, "the sustain level holds");
        } else if (phase == release) {
            vf_assert(v <= level, "the release falls");
            vf_close(v, mx(level - off, 0), 1e-6, "the release falls at its rate");
            if (v <= 0) phase = idle;
        } else {
            vf_same(v, 0, "silent when idle");
        }
        level = v;
    }
}
// any order of calls keeps the level within bounds
H(c27_bounds) {
    env e;
    e.set_attack_rate(vf_double("attack", 0, 1));
    e.set_decay_rate(vf_double("decay", 0, 1));
    e.set_release_rate(vf_double("release", 0, 1));
    e.set_sustain_level(vf_double("sustain", 0, 1));
    for (int i = 0; i < WILD; ++i) {
        switch (vf_pick("event", 0, 5)) {
            case 1: e.key_on(); break;
            case 2: e.key_off(); break;
            case 3: e.set_target(vf_double("target", 0, 1)); break;
            case 4: e.set_attack_target(vf_double("attack target", 0, 1)); break;
            case 5: e.set_sustain_level(vf_double("sustain", 0, 1)); break;
            default: break;
        }
        const double v = e(1.0);
        vf_assert(v >= 0 && v <= 1, "level between zero and one");
    }
    // release and wait: silence
    e.set_release_rate(1);
    e.key_off();
    e(1.0);
    vf_same(e(1.0), 0, "silent after the release");
    vf_same(e(1.0), 0, "silent after the release");
}
// a new target is approached from either side and held
H(c27_target) {
    env e;
    const double up = vf_double("attack", 1e-3, 1), down = vf_double("decay", 1e-3, 1), t0 = vf_double("first", 0.01, 1), t1 = vf_double("second", 0.01, 1);
    e.set_attack_rate(1);
    e.set_decay_rate(down);
    e.set_target(t0);
    vf_close(e(1.0), t0, 1e-6, "the first target is reached");
    e(1.0);
    e.set_attack_rate(up);
    e.set_target(t1);
    vf_close(e.sustain_level(), t1, 1e-6, "the target is the sustain level");
    double level = t0;
    for (int i = 0; i < 3; ++i) {
        const double v = e(1.0);
        const double next = t0 < t1 ? mn(level + up, t1) : mx(level - down, t1);
        vf_close(v, next, 1e-6, "the new target is approached and held");
        level = next;
    }
}
// times in seconds
H(c27_times) {
    env e;
    const double sr = vf_double("sample rate", 1, 1e5), at = vf_double("attack", 1e-3, 10), dt = vf_double("decay", 1e-3, 10), rt = vf_double("release", 1e-3, 10), hold = vf_double("sustain", 0.01, 0.99);
    e.set_sample_rate(sr);
    vf_same(e.sample_rate(), sr, "sample rate read back");
    e.set_sustain_level(hold);
    e.set_attack_time(at);
    e.set_decay_time(dt);
    e.set_release_time(rt);
    vf_close(e.attack_time(), at, 1e-6, "attack time read back");
    vf_close(e.decay_time(), dt, 1e-6, "decay time read back");
    vf_close(e.release_time(), rt, 1e-6, "release time read back");
    vf_close(e.attack_rate() * at * sr, 1, 1e-6, "the attack takes its time from zero to one");
    vf_close(e.decay_rate() * dt * sr, 1 - hold, 1e-6, "the decay takes its time from one to the sustain level");
    vf_close(e.release_rate() * rt * sr, hold, 1e-6, "the release takes its time from the sustain level to zero");
}
// a change of the sample rate keeps the times
H(c27_sample_rate) {
    env e;
    const double s0 = vf_double("sample rate", 1, 1e5), s1 = vf_double("new sample rate", 1, 1e5), at = vf_double("attack", 1e-3, 10), dt = vf_double("decay", 1e-3, 10), rt = vf_double("release", 1e-3, 10), hold = vf_double("sustain", 0.01, 0.99);
    e.set_sample_rate(s0);
    e.set_sustain_level(hold);
    e.set_attack_time(at);
    e.set_decay_time(dt);
    e.set_release_time(rt);
    e.set_sample_rate(s1);
    vf_same(e.sample_rate(), s1, "sample rate read back");
    vf_close(e.attack_time(), at, 1e-6, "attack time kept");
    vf_close(e.decay_time(), dt, 1e-6, "decay time kept");
    vf_close(e.release_rate() * rt * s1, hold, 1e-6, "release time kept");
}
// the release takes its time from whatever level it starts at
H(c27_release_time) {
    env e;
    const int n = (int) vf_pick("samples", 1, 4);
    const double sr = vf_double("sample rate", 100, 1e5), level = vf_double("level", 0.01, 1);
    e.set_sample_rate(sr);
    e.set_release_time(n / sr);
    e.set_attack_rate(level);
    e.key_on();
    vf_close(e(1.0), level, 1e-6, "first attack sample");
    e.key_off();
    for (int i = 1; i < n; ++i) vf_close(e(1.0), level * (n - i) / n, 1e-6, "linear release");
    vf_close(e(1.0), 0, 1e-6, "the release ends after its time");
    e(1.0);
    vf_close(e(1.0), 0, 0, "silent after the release");
}
// the envelope multiplies the signal; a block is its samples in order
H(c27_block) {
    env a, b;
    const double up = vf_double("attack", 1e-3, 1), down = vf_double("decay", 1e-3, 1), hold = vf_double("sustain", 0, 1);
    for (env* e : {&a, &b}) {
        e->set_attack_rate(up);
        e->set_decay_rate(down);
        e->set_sustain_level(hold);
        e->key_on();
    }
    env c(a);
    std::vector<double> x(4), y(4);
    vf_fill(x, "x", -10, 10);
    const auto x0 = x;
    if (vf_pick("in place", 0, 1)) { a.apply(x.begin(), x.end(), x.begin()); y = x; }
    else a.apply(x.begin(), x.end(), y.begin());
    for (int i = 0; i < 4; ++i) {
        const double g = c(1.0);
        vf_close(y[i], g * x0[i], 1e-6, "the level multiplies the signal");
        vf_close(b(x0[i]), y[i], 1e-6, "sample by sample as in a block");
    }
    vf_close(a(1.0), c(1.0), 1e-6, "the state is kept after a block");
}
H(c27_float) {
    edsp::envelope::adsr<float> e;
    const float hold = vf_float("sustain", 0, 1);
    e.set_attack_rate(0.5f);
    e.set_decay_rate(0.25f);
    e.set_sustain_level(hold);
    vf_same(e(1.0f), 0, "silent before a key is pressed");
    e.key_on();
    vf_close(e(1.0f), 0.5, 1e-5, "attack");
    vf_close(e(1.0f), 1, 1e-5, "top of the attack");
    vf_close(e(1.0f), mx(0.75, hold), 1e-5, "decay");
    vf_close(e(1.0f), mx(0.5, hold), 1e-5, "decay");
}
H(c27_phases_wide) { vf_wide = 1; c27_phases(); }
// of a release rate and a release time the last one set counts
H(c27_release_rate) {
    env e;
    const double rate = vf_double("rate", 1e-3, 1), hold = vf_double("sustain", 0.1, 1);
    e.set_sample_rate(1000);
    e.set_attack_rate(1);
    e.set_decay_rate(1);
    e.set_sustain_level(hold);
    e.set_release_time(vf_double("time", 1e-3, 10));
    e.set_release_rate(rate);
    e.key_on();
    e(1.0);
    e(1.0);
    e.key_off();
    vf_close(e(1.0), mx(hold - rate, 0), 1e-6, "the release falls at the rate set last");
}
