//@file bounds="sample rates 1, 8000, 44100 (symbolic 1..192000 for the sine); frequency symbolic up to Nyquist, amplitude in [-100,100], phase in [-10,10], width/duty in [0,1]; up to 9 consecutive samples, setters and reset at any sample; start time symbolic in [0,3]; runs of 200 samples at a fixed rate and frequency (duty cycle away from the sampled phases by 1e-6), also after 2^22 s"
#include "vf.hpp"
#include <edsp/oscillator.hpp>
namespace {
using namespace edsp::oscillators;
#ifdef VF_THOROUGH
constexpr int N = 12;
#else
constexpr int N = 8;
#endif
double rate() { static const double r[3] = {1, 8000, 44100}; return r[vf_pick("rate", 0, 2)]; }
double freq(const char* n, double fs) { double f = vf_double(n, 0, 96000); vf_assume(f > 0); vf_assume(f <= fs / 2); return f; }
// fractional part of x in [0, n]
double frac(double x, int n) {
    int c = static_cast<int>(vf_pick("cycle", 0, n));
    vf_assume(x >= c);
    vf_assume(x < c + 1);
    return x - c;
}
double square_at(double p, double a, double d) { return p < d ? a : -a; }
double saw_at(double p, double a, double w) { return p < w ? a * (2 * p / w - 1) : a * (1 - 2 * (p - w) / (1 - w)); }
}
H(c11_sine) {
    double fs = vf_double("fs", 1, 192000), f = vf_double("f", 0, 96000), a = vf_double("a", -100, 100), ph = vf_double("phase", -10, 10);
    vf_assume(f <= fs / 2);
    auto o = make_oscillator<double, OscillatorType::Sinusoidal>(a, fs, f, ph);
    vf_same(o.amplitude(), a, "amplitude reads back");
    vf_same(o.sample_rate(), fs, "sample rate reads back");
    vf_same(o.frequency(), f, "frequency reads back");
    vf_same(o.phase(), ph, "phase reads back");
    vf_close(o.sampling_period() * fs, 1, 1e-12, "sampling period");
    for (int k = 0; k < N; ++k) {
        double v = o();
        vf_close(v, a * std::sin(2 * VF_PI * f * (k * (1 / fs)) + ph), 1e-7, "sine value");
        vf_close(o.timestamp() * fs, k + 1, 1e-9, "time advances by one sample");
        vf_observe("v", v);
    }
    o.reset();
    vf_same(o.timestamp(), 0, "reset returns to time zero");
    vf_close(o(), a * std::sin(ph), 1e-7, "reset restarts at the phase");
}
H(c11_sine_bounded) {
    double fs = rate(), f = freq("f", fs), a = vf_double("a", 0, 100), ph = vf_double("phase", -10, 10);
    auto o = make_oscillator<double, OscillatorType::Sinusoidal>(a, fs, f, ph);
    for (int k = 0; k < 3; ++k) {
        double v = o();
        vf_assert(v <= a && v >= -a, "within the amplitude");
    }
}
H(c11_sine_setters) {
    double fs = rate(), f = freq("f", fs), a = vf_double("a", -100, 100), ph = vf_double("phase", -10, 10);
    auto o = make_oscillator<double, OscillatorType::Sinusoidal>(a, fs, f, ph);
    int k = static_cast<int>(vf_pick("k", 0, 3));
    for (int i = 0; i < k; ++i) o();
    double t = o.timestamp();
    vf_close(t, k / fs, 1e-12, "elapsed time");
    switch (vf_pick("setter", 0, 4)) {
    case 0: f = freq("f2", fs); o.set_frequency(f); break;
    case 1: a = vf_double("a2", -100, 100); o.set_amplitude(a); break;
    case 2: ph = vf_double("p2", -10, 10); o.set_phase(ph); break;
    case 3: fs = fs * 2; o.set_sample_rate(fs); break;
    case 4: t = vf_double("t2", 0, 3); o.set_timestamp(t); break;
    }
    vf_same(o.amplitude(), a, "amplitude reads back");
    vf_same(o.sample_rate(), fs, "sample rate reads back");
    vf_same(o.frequency(), f, "frequency reads back");
    vf_same(o.phase(), ph, "phase reads back");
    vf_same(o.timestamp(), t, "setters keep the time");
    for (int i = 0; i < 2; ++i) vf_close(o(), a * std::sin(2 * VF_PI * f * (t + i * (1 / fs)) + ph), 1e-7, "setters act on later samples");
}
H(c11_square) {
    double fs = rate(), f = freq("f", fs), a = vf_double("a", -100, 100), d = vf_double("duty", 0, 1);
    auto o = make_oscillator<double, OscillatorType::Square>(a, fs, f, d);
    vf_close(o.duty(), d, 1e-12, "duty reads back");
    int k = static_cast<int>(vf_pick("k", 0, N));
    for (int i = 0; i < k; ++i) o();
    vf_close(o(), square_at(frac(f * (k / fs), N / 2), a, d), 1e-9, "square: +1 for the duty part of each period, then -1");
    o.reset();
    vf_close(o(), square_at(0, a, d), 1e-9, "reset restarts the waveform");
}
H(c11_square_setters) {
    double fs = rate(), f = freq("f", fs), a = vf_double("a", -100, 100), d = vf_double("duty", 0, 1);
    auto o = make_oscillator<double, OscillatorType::Square>(a, fs, f, d);
    int k = static_cast<int>(vf_pick("k", 0, 3));
    for (int i = 0; i < k; ++i) o();
    double t = o.timestamp();
    switch (vf_pick("setter", 0, 4)) {
    case 0: f = freq("f2", fs); o.set_frequency(f); break;
    case 1: a = vf_double("a2", -100, 100); o.set_amplitude(a); break;
    case 2: d = vf_double("d2", 0, 1); o.set_duty(d); break;
    case 3: fs = fs * 2; o.set_sample_rate(fs); break;
    case 4: t = static_cast<double>(vf_pick("t2", 0, 3)) / 2 / fs; o.set_timestamp(t); break;
    }
    vf_close(o.duty(), d, 1e-9, "duty reads back");
    vf_same(o.frequency(), f, "frequency reads back");
    for (int i = 0; i < 2; ++i) vf_close(o(), square_at(frac(f * (t + i / fs), 4), a, d), 1e-9, "setters act on later samples");
}
H(c11_saw) {
    double fs = rate(), f = freq("f", fs), a = vf_double("a", -100, 100), w = vf_double("width", 0, 1);
    auto o = make_oscillator<double, OscillatorType::Sawtooth>(a, fs, f, w);
    vf_same(o.width(), w, "width reads back");
    int k = static_cast<int>(vf_pick("k", 0, N));
    for (int i = 0; i < k; ++i) o();
    double v = o();
    vf_close(v, saw_at(frac(f * (k / fs), N / 2), a, w), 1e-7, "sawtooth: rises for the width, then falls");
    o.reset();
    if (w > 0) vf_close(o(), -a, 1e-9, "reset restarts the waveform");
}
H(c11_saw_bounded) {
    double fs = rate(), f = freq("f", fs), a = vf_double("a", 0, 100), w = vf_double("width", 0, 1);
    auto o = make_oscillator<double, OscillatorType::Sawtooth>(a, fs, f, w);
    for (int i = 0; i < 3; ++i) {
        double v = o();
        vf_assert(v <= a + 1e-9 && v >= -a - 1e-9, "within the amplitude");
    }
}
H(c11_saw_setters) {
    double fs = rate(), f = freq("f", fs), a = vf_double("a", -100, 100), w = vf_double("width", 0, 1);
    auto o = make_oscillator<double, OscillatorType::Sawtooth>(a, fs, f, w);
    int k = static_cast<int>(vf_pick("k", 0, 3));
    for (int i = 0; i < k; ++i) o();
    double t = o.timestamp();
    switch (vf_pick("setter", 0, 4)) {
    case 0: f = freq("f2", fs); o.set_frequency(f); break;
    case 1: a = vf_double("a2", -100, 100); o.set_amplitude(a); break;
    case 2: w = vf_double("w2", 0, 1); o.set_width(w); break;
    case 3: fs = fs * 2; o.set_sample_rate(fs); break;
    case 4: t = static_cast<double>(vf_pick("t2", 0, 3)) / 2 / fs; o.set_timestamp(t); break;
    }
    vf_same(o.width(), w, "width reads back");
    for (int i = 0; i < 2; ++i) vf_close(o(), saw_at(frac(f * (t + i / fs), 4), a, w), 1e-7, "setters act on later samples");
}
H(c11_triangle) {
    double fs = rate(), f = freq("f", fs), a = vf_double("a", -100, 100);
    auto o = make_oscillator<double, OscillatorType::Triangular>(a, fs, f);
    int k = static_cast<int>(vf_pick("k", 0, N));
    for (int i = 0; i < k; ++i) o();
    double v = o(), p = frac(f * (k / fs), N / 2);
    vf_close(v, p < 0.5 ? a * (4 * p - 1) : a * (3 - 4 * p), 1e-9, "triangle");
    vf_assert(std::abs(v) <= std::abs(a) + 1e-9, "within the amplitude");
    o.reset();
    vf_close(o(), -a, 1e-9, "reset restarts the waveform");
}
// many cycles: fixed rate and frequency, any amplitude and shape
namespace {
constexpr double FS = 1024, F = 384;
constexpr int LONG = 200;
double phase_of(double t) { return F * t - std::floor(F * t); }
double start() { static const double s[3] = {0, 3, 4194304}; return s[vf_pick("start", 0, 2)]; }
template <typename O, typename V> void run_long(O& o, double from, V value) {
    if (from > 0) o.set_timestamp(from);
    for (int k = 0; k < LONG; ++k) vf_close(o(), value(from + k / FS), 1e-6, "many cycles: every sample at its own time");
    vf_close(o.timestamp(), from + LONG / FS, 1e-9, "many cycles: the time elapsed");
}
}
H(c11_sine_long) {
    double a = vf_double("a", -100, 100), ph = vf_pick("phase", 0, 1) / 2.;
    auto o = make_oscillator<double, OscillatorType::Sinusoidal>(a, FS, F, ph);
    run_long(o, vf_pick("start", 0, 1) * 3., [=](double t) { return a * std::sin(2 * VF_PI * F * t + ph); });
}
H(c11_square_long) {
    double a = vf_double("a", -100, 100), d = vf_double("duty", 0, 1);
    auto o = make_oscillator<double, OscillatorType::Square>(a, FS, F, d);
    for (int i = 0; i <= 8; ++i) vf_assume(std::fabs(d - i / 8.) > 1e-6);
    run_long(o, start(), [=](double t) { return square_at(phase_of(t), a, d); });
}
H(c11_saw_long) {
    double a = vf_double("a", -100, 100), w = vf_double("width", 0, 1);
    auto o = make_oscillator<double, OscillatorType::Sawtooth>(a, FS, F, w);
    run_long(o, start(), [=](double t) { return saw_at(phase_of(t), a, w); });
}
