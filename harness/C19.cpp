//@file bounds="signals of 1..6 samples (thorough 1..9) in [-1e3,1e3] between guard cells, and of 17, 40 and 130 samples of which one or two are arbitrary; every sign pattern; sample rates 1..192000; thresholds in [0,1]; levels over windows of 1..3 blocks" assume="exact real arithmetic up to 1e-7 relative rounding; non-empty signals (zero crossings: at least two samples); levels of signals with power of at least 1e-6, SNR of signals with signal and noise variance of at least 1e-6"
#include "vf.hpp"
#include <edsp/feature/temporal/energy.hpp>
#include <edsp/feature/temporal/power.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>
#include <edsp/feature/temporal/snr.hpp>
#include <edsp/feature/perceptual/loudness.hpp>
namespace {
namespace ft = edsp::feature;
#ifdef VF_THOROUGH
constexpr int N = 9, D = 7, L = 4;
#else
constexpr int N = 6, D = 5, L = 3;
#endif
template <typename T> std::vector<T> signal(int least = 1, int most = N) {
    std::vector<T> x((size_t) vf_size("n", least, most));
    vf_samples(x, "x", vf_wide ? -32 : -1e3, vf_wide ? 32 : 1e3);
    return x;
}
template <typename T> void energies() {
    auto x = signal<T>();
    const double tol = sizeof(T) == 8 ? 1e-7 : 1e-2;
    double s = 0;
    for (T v : x) s += (double) v * v;
    const double e = ft::energy(x.begin(), x.end()), p = ft::power(x.begin(), x.end());
    const double r = ft::rms(x.begin(), x.end()), q = ft::rssq(x.begin(), x.end());
    vf_close(e, s, tol, "energy: sum of squares");
    vf_close(p, s / x.size(), tol, "power: mean square");
    vf_close(r, std::sqrt(s / x.size()), tol, "RMS: root of the mean square");
    vf_close(q, std::sqrt(s), tol, "RSSQ: root of the sum of squares");
    vf_assert(e >= 0, "energy not negative");
    vf_assert(p >= 0, "power not negative");
    vf_assert(r >= 0, "RMS not negative");
    vf_assert(q >= 0, "RSSQ not negative");
}
template <typename T> void crossings() {
    auto x = signal<T>(2);
    double z = ft::azcr(x.begin(), x.end());
    double c = 0;
    for (size_t i = 1; i < x.size(); ++i) c += (x[i] < 0) != (x[i - 1] < 0) ? 1 : 0;
    vf_close(z, c / (x.size() - 1), 1e-6, "sign changes over the number of pairs");
    vf_assert(z >= 0 && z <= 1, "rate between zero and one");
}
}
H(c19_energy_double) { energies<double>(); }
H(c19_energy_float) { energies<float>(); }
H(c19_azcr_double) { crossings<double>(); }
H(c19_azcr_float) { crossings<float>(); }
H(c19_leq) {
    auto x = signal<double>(1, L);
    double s = 0;
    for (double v : x) s += v * v;
    s /= x.size();
    vf_assume(s >= 1e-6);
    vf_close(ft::leq(x.begin(), x.end()), 10 * std::log10(s), 1e-6, "level of the power in decibels");
}
H(c19_continuous_leq) {
    int w = (int) vf_pick("window", 1, 3);
    ft::temporal::continuous_leq<double> c(w);
    double level[5];
    for (int k = 0; k < 5; ++k) {
        double x[2] = {vf_double("x", 0.1, 1e3), vf_double("x", 0.1, 1e3)};
        level[k] = 10 * std::log10((x[0] * x[0] + x[1] * x[1]) / 2);
        double want = 0;
        for (int j = 0; j < w && j <= k; ++j) want += level[k - j];
        vf_close(c.extract(x, x + 2), want / w, 1e-6, "mean level of the last blocks");
    }
}
H(c19_loudness) {
    auto x = signal<double>(1, L);
    double s = 0;
    for (double v : x) s += v * v;
    vf_assume(s >= 1e-3);
    vf_close(ft::loudness(x.begin(), x.end()), std::pow(s, 0.67), 1e-6, "energy to the power 0.67");
}
H(c19_duration) {
    int n = (int) vf_pick("n", 0, N);
    std::vector<double> x(n, 0.5);
    double fs = vf_double("rate", 1, 192000);
    vf_close(ft::duration(x.begin(), x.end(), fs), n / fs, 1e-9, "samples over the sample rate");
}
H(c19_effective_duration) {
    int n = (int) vf_pick("n", 1, D);
    std::vector<double> x(n);
    double m = vf_double("m", 1e-3, 1e3), fs = vf_double("rate", 1, 192000);
    double t = vf_pick("t", 0, 4) / 4.;
    int k = (int) vf_pick("k", 0, n - 1), minus = (int) vf_pick("minus", 0, 1);
    double c = 0;
    for (double& v : x) {
        v = vf_double("x", -1e3, 1e3);
        vf_assume((v <= m) & (v >= -m));
    }
    x[k] = minus ? -m : m;
    for (double v : x) c += (v > t * m) | (v < -t * m) ? 1 : 0;
    vf_close(ft::effective_duration(x.begin(), x.end(), fs, t) * fs, c, 1e-6, "time above the given part of the peak");
}
H(c19_effective_duration_threshold) {
    int n = (int) vf_pick("n", 1, 3);
    std::vector<double> x(n);
    double m = vf_double("m", 1e-3, 1e3), t = vf_double("threshold", 0, 1), c = 0;
    for (double& v : x) {
        v = vf_double("x", -1e3, 1e3);
        vf_assume((v <= m) & (v >= -m));
    }
    x[0] = m;
    for (double v : x) c += (v > t * m) | (v < -t * m) ? 1 : 0;
    vf_close(ft::effective_duration(x.begin(), x.end(), 8000., t) * 8000, c, 1e-6, "time above any part of the peak");
}
namespace {
template <typename F> void lags(F f, bool square, const char* key) {
    int n = vf_size("n", 1, D);
    std::vector<double> x(n), o(n + 2);
    vf_samples(x, "x", -1e3, 1e3);
    vf_fill(o, "before", -10, 10);
    const auto x0 = x;
    const double lo = o[0], hi = o[n + 1];
    f(x, o.begin() + 1);
    for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = 0; j + i < n; ++j) {
            double d = x0[j + i] - x0[j];
            s += square ? d * d : std::fabs(d);
        }
        vf_close(o[1 + i], s / n, 1e-6, key);
        vf_same(x[i], x0[i], "input left alone");
    }
    vf_same(o[0], lo, "nothing written before the output");
    vf_same(o[n + 1], hi, "nothing written after the output");
}
}
H(c19_amdf) { lags([](auto& x, auto o) { ft::amdf(x.begin(), x.end(), o); }, false, "AMDF: magnitude differences at each lag"); }
H(c19_asdf) { lags([](auto& x, auto o) { ft::asdf(x.begin(), x.end(), o); }, true, "ASDF: squared differences at each lag"); }
H(c19_snr) {
    int n = vf_size("n", 2, L);
    std::vector<double> x(n), y(n), e(n);
    vf_samples(x, "x", -1e2, 1e2);
    vf_samples(y, "y", -50, 1e2);
    auto var = [n](const std::vector<double>& a) {
        double m = 0, v = 0;
        for (double q : a) m += q;
        m /= n;
        for (double q : a) v += (q - m) * (q - m);
        return v / n;
    };
    for (int i = 0; i < n; ++i) e[i] = x[i] - y[i];
    double vx = var(x), ve = var(e);
    vf_assume(vx >= 1e-6);
    vf_assume(ve >= 1e-6);
    vf_close(ft::snr(x.begin(), x.end(), y.begin()), 10 * std::log10(vx / ve), 1e-6, "variance of the signal over that of the noise, in decibels");
}
H(c19_energy_double_wide) { vf_wide = 2; c19_energy_double(); }
H(c19_energy_float_wide) { vf_wide = 2; c19_energy_float(); }
H(c19_azcr_double_wide) { vf_wide = 2; c19_azcr_double(); }
H(c19_azcr_float_wide) { vf_wide = 2; c19_azcr_float(); }
H(c19_leq_wide) { vf_wide = 1; c19_leq(); }
H(c19_loudness_wide) { vf_wide = 1; c19_loudness(); }
H(c19_amdf_wide) { vf_wide = 1; c19_amdf(); }
H(c19_asdf_wide) { vf_wide = 1; c19_asdf(); }
H(c19_snr_wide) { vf_wide = 1; c19_snr(); }
