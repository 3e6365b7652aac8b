//@file bounds="spectra of 1..4 bins (thorough 1..6) with values in [0,1e3] (sum at least 1e-2), centre frequencies in [0,2e4]; spectra of 17, 40 and 130 bins (rolloff: 17 and 40) of which one is arbitrary; signed values in [-1e3,1e3] where the definition allows them; rolloff for every percentage in [0,1] and spectra of 1..6 bins (thorough 1..8)" assume="exact real arithmetic up to 1e-6 relative rounding; non-degenerate denominators (at least 1e-3); logarithmic flux and flatness of positive spectra"
#include "vf.hpp"
#include <edsp/feature/spectral/spectral_centroid.hpp>
#include <edsp/feature/spectral/spectral_crest.hpp>
#include <edsp/feature/spectral/spectral_decrease.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/spectral/spectral_flatness.hpp>
#include <edsp/feature/spectral/spectral_flux.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_kurtosis.hpp>
#include <edsp/feature/spectral/spectral_rolloff.hpp>
#include <edsp/feature/spectral/spectral_skewness.hpp>
#include <edsp/feature/spectral/spectral_slope.hpp>
#include <edsp/feature/spectral/spectral_spread.hpp>
#include <edsp/feature/spectral/spectral_variation.hpp>
namespace {
namespace ft = edsp::feature;
#ifdef VF_THOROUGH
constexpr int N = 6, L = 4, R = 8;
#else
constexpr int N = 4, L = 3, R = 6;
#endif
typedef std::vector<double> vec;
vec bins(int least = 1, int most = N, double lo = 0, double hi = 1e3) {
    vec x((size_t) vf_size("n", least, most));
    vf_samples(x, "x", lo, hi);
    return x;
}
double sum(const vec& x) {
    double s = 0;
    for (double v : x) s += v;
    return s;
}
double dot(const vec& x, const vec& y) {
    double s = 0;
    for (size_t i = 0; i < x.size(); ++i) s += x[i] * y[i];
    return s;
}
vec indices(const vec& x) {
    vec i(x.size());
    for (size_t k = 0; k < x.size(); ++k) i[k] = (double) k;
    return i;
}
vec frequencies(const vec& x) {
    vec f(x.size());
    vf_samples(f, "f", 0, 2e4);
    return f;
}
double second(const vec& x, const vec& f) {
    double c = dot(x, f) / sum(x), s = 0;
    for (size_t i = 0; i < x.size(); ++i) s += x[i] * (f[i] - c) * (f[i] - c);
    return s / sum(x);
}
// the features of namespace statistics are what the spectral features are made of: both are checked
}
H(c20_centroid) {
    vec x = bins(), f = frequencies(x), i = indices(x);
    vf_assume(sum(x) >= 1e-2);
    vf_close(ft::spectral_centroid(x.begin(), x.end(), f.begin()), dot(x, f) / sum(x), 1e-6, "mean of the frequencies weighted by the spectrum");
    vf_close(ft::statistics::centroid(x.begin(), x.end()), dot(x, i) / sum(x), 1e-6, "mean of the indices weighted by the spectrum");
}
H(c20_centroid_between) {
    vec x = bins(1, L), f = frequencies(x);
    vf_assume(sum(x) >= 1e-2);
    for (size_t i = 1; i < f.size(); ++i) vf_assume(f[i] >= f[i - 1]);
    double c = ft::spectral_centroid(x.begin(), x.end(), f.begin());
    vf_assert(c * sum(x) >= f.front() * sum(x) - 1e-6, "not below the first frequency");
    vf_assert(c * sum(x) <= f.back() * sum(x) + 1e-6, "not above the last frequency");
}
H(c20_spread) {
    vec x = bins(1, L), f = frequencies(x), i = indices(x);
    vf_assume(sum(x) >= 1e-2);
    vf_close(ft::spectral_spread(x.begin(), x.end(), f.begin()), std::sqrt(second(x, f)), 1e-6, "deviation of the frequencies weighted by the spectrum");
    vf_close(ft::statistics::spread(x.begin(), x.end()), std::sqrt(second(x, i)), 1e-6, "deviation of the indices weighted by the spectrum");
}
namespace {
double central(const vec& x, int k) {
    double m = sum(x) / x.size(), s = 0;
    for (double v : x) {
        double p = 1;
        for (int i = 0; i < k; ++i) p *= v - m;
        s += p;
    }
    return s / x.size();
}
}
H(c20_skewness) {
    vec x = bins(2, L);
    double m2 = central(x, 2);
    vf_assume(m2 >= 1e-3);
    vf_close(ft::spectral_skewness(x.begin(), x.end()), central(x, 3) / (m2 * std::sqrt(m2)), 1e-6, "third standardised moment");
}
H(c20_kurtosis) {
    vec x = bins(2, L);
    double m2 = central(x, 2);
    vf_assume(m2 >= 1e-3);
    vf_close(ft::spectral_kurtosis(x.begin(), x.end()), central(x, 4) / (m2 * m2), 1e-6, "fourth standardised moment");
}
H(c20_crest) {
    int n = (int) vf_pick("n", 1, N);
    vec x(n);
    double m = vf_double("m", 1e-2, 1e3), s = 0;
    int k = (int) vf_pick("k", 0, n - 1), minus = (int) vf_pick("minus", 0, 1);
    for (double& v : x) {
        v = vf_double("x", -1e3, 1e3);
        vf_assume((v <= m) & (v >= -m));
    }
    x[k] = minus ? -m : m;
    for (double v : x) s += std::fabs(v);
    double c = ft::spectral_crest(x.begin(), x.end());
    vf_close(c, m / s, 1e-6, "greatest magnitude over the sum of magnitudes");
    vf_assert(c * s <= s + 1e-6 && c * n * s >= s - 1e-6, "between 1/n and one");
}
H(c20_flatness) {
    vec x = bins(1, L, 1e-2, 1e3);
    double l = 0;
    for (double v : x) l += std::log(v);
    double f = ft::spectral_flatness(x.begin(), x.end());
    vf_close(f, std::exp(l / x.size()) / (sum(x) / x.size()), 1e-6, "geometric over arithmetic mean");
}
H(c20_flatness_bound) {
    vec x = bins(1, 2, 1e-2, 1e3);
    double f = ft::spectral_flatness(x.begin(), x.end());
    vf_assert(f <= 1 + 1e-6, "at most one");
    vf_assert(f >= 0, "not negative");
}
H(c20_flatness_constant) {
    vec x((size_t) vf_pick("n", 1, N), vf_double("c", 1e-2, 1e3));
    vf_close(ft::spectral_flatness(x.begin(), x.end()), 1, 1e-6, "a flat spectrum is flat");
}
H(c20_entropy) {
    vec x = bins(2, L, 0, 10);
    double s = 0;
    for (double v : x) if (v > 0) s += v * std::log2(v);
    vf_close(ft::statistics::entropy(x.begin(), x.end()), -s / std::log2((double) x.size()), 1e-6, "normalised entropy");
}
H(c20_spectral_entropy) {
    vec x = bins(2, L, 0, 10);
    double t = sum(x), s = 0;
    vf_assume(t >= 1e-2);
    for (double v : x) if (v / t > 0) s += v / t * std::log2(v / t);
    vf_close(ft::spectral_entropy(x.begin(), x.end()), -s / std::log2((double) x.size()), 1e-6, "normalised entropy of the normalised spectrum");
}
H(c20_entropy_flat) {
    vec x((size_t) vf_pick("n", 2, N), vf_double("c", 1e-2, 1e3));
    vf_close(ft::spectral_entropy(x.begin(), x.end()), 1, 1e-6, "the entropy of a flat spectrum is one");
}
H(c20_entropy_single) {
    vec x((size_t) vf_pick("n", 2, N), 0.);
    x[(size_t) vf_pick("k", 0, (int) x.size() - 1)] = vf_double("c", 1e-2, 1e3);
    vf_close(ft::spectral_entropy(x.begin(), x.end()), 0, 1e-6, "the entropy of a single line is zero");
}
H(c20_flux) {
    vec x = bins(), y(x.size());
    vf_samples(y, "y", 0, 640);
    double sx = sum(x), sy = sum(y), e = 0;
    vf_assume(sx >= 1e-2);
    vf_assume(sy >= 1e-2);
    for (size_t i = 0; i < x.size(); ++i) e += (x[i] / sx - y[i] / sy) * (x[i] / sx - y[i] / sy);
    double f = ft::spectral_flux(x.begin(), x.end(), y.begin());
    vf_close(f, e, 1e-6, "squared change of the normalised spectrum");
    vf_assert(f >= 0, "not negative");
}
H(c20_flux_manhattan) {
    vec x = bins(1, L), y(x.size());
    vf_samples(y, "y", 0, 640);
    double sx = sum(x), sy = sum(y), e = 0;
    vf_assume(sx >= 1e-2);
    vf_assume(sy >= 1e-2);
    for (size_t i = 0; i < x.size(); ++i) e += std::fabs(x[i] / sx - y[i] / sy);
    vf_close(ft::statistics::flux<edsp::distances::manhattan>(x.begin(), x.end(), y.begin()), e, 1e-6, "absolute change of the normalised spectrum");
}
H(c20_flux_same) {
    vec x = bins(), y(x.size());
    double sx = sum(x), k = vf_double("k", 0.1, 10);
    vf_assume(sx >= 1e-2);
    for (size_t i = 0; i < x.size(); ++i) y[i] = k * x[i];
    vf_close(ft::spectral_flux(x.begin(), x.end(), y.begin()), 0, 1e-6, "no change between proportional spectra");
}
H(c20_rolloff) {
    vec x = bins(1, R);
    const bool usual = vf_pick("usual", 0, 1);
    double p = usual ? 0.95 : vf_double("percentage", 0, 1), e = 0, acc = 0;
    for (double v : x) e += v * v;
    double n = x.size(), r = usual ? ft::spectral_rolloff<vec::iterator, double>(x.begin(), x.end()) : ft::spectral_rolloff(x.begin(), x.end(), p);
    // first bin at which the energy so far exceeds the percentage; the last one when it never does
    double want = n - 1;
    bool found = false;
    for (size_t i = 0; i < x.size(); ++i) {
        acc += x[i] * x[i];
        if (!found && acc > p * e) { found = true; want = (double) i; }
    }
    vf_close(r * n, want, 1e-6, "bin where the energy passes the percentage");
    vf_assert(r >= 0 && r < 1, "a bin of the spectrum");
}
H(c20_slope) {
    vec x = bins(2, L), f = frequencies(x);
    double n = x.size(), sf = sum(f), sx = sum(x), d = n * dot(f, f) - sf * sf;
    vf_assume(sx >= 1e-2);
    vf_assume(d >= 1e-3);
    vf_close(ft::spectral_slope(x.begin(), x.end(), f.begin()), (n * dot(f, x) - sf * sx) / (d * sx), 1e-6, "normalised regression slope");
}
H(c20_slope_line) {
    double a = vf_double("a", 0, 10), b = vf_double("b", 0.1, 10), s = 0;
    int n = (int) vf_pick("n", 2, N);
    vec x(n), f(n);
    for (int i = 0; i < n; ++i) { f[i] = 100. * i; x[i] = a * f[i] + b; s += x[i]; }
    vf_close(ft::spectral_slope(x.begin(), x.end(), f.begin()) * s, a, 1e-6, "the slope of a line is its own");
}
H(c20_decrease) {
    vec x = bins(2, N);
    double s = 0, t = 0;
    for (size_t i = 1; i < x.size(); ++i) { s += (x[i] - x[0]) / i; t += x[i]; }
    vf_assume(t >= 1e-2);
    vf_close(ft::spectral_decrease(x.begin(), x.end()), s / t, 1e-6, "mean decrease from the first bin");
}
H(c20_variation) {
    vec x = bins(1, L), y(x.size());
    vf_samples(y, "y", 0, 640);
    double xx = dot(x, x), yy = dot(y, y);
    vf_assume(xx >= 1e-2);
    vf_assume(yy >= 1e-2);
    double v = ft::spectral_variation(x.begin(), x.end(), y.begin());
    vf_close(v, 1 - dot(x, y) / (std::sqrt(xx) * std::sqrt(yy)), 1e-6, "one minus the normalised correlation");
    vf_assert(v <= 1, "at most one");
}
H(c20_variation_same) {
    vec x = bins(1, L), y(x.size());
    double k = vf_double("k", 0.1, 10), xx = dot(x, x);
    vf_assume(xx >= 1e-2);
    for (size_t i = 0; i < x.size(); ++i) y[i] = k * x[i];
    vf_close(ft::spectral_variation(x.begin(), x.end(), y.begin()), 0, 1e-6, "no variation between proportional spectra");
}
H(c20_irregularity) {
    vec x = bins(2, N);
    double d = 0, s = 0;
    for (size_t i = 0; i + 1 < x.size(); ++i) { d += (x[i + 1] - x[i]) * (x[i + 1] - x[i]); s += x[i] * x[i]; }
    vf_assume(s >= 1e-3);
    vf_close(ft::spectral_irregularity(x.begin(), x.end()), d / s, 1e-6, "squared differences of adjoining bins over their squares");
}
H(c20_centroid_wide) { vf_wide = 1; c20_centroid(); }
H(c20_spread_wide) { vf_wide = 1; c20_spread(); }
H(c20_skewness_wide) { vf_wide = 1; c20_skewness(); }
H(c20_kurtosis_wide) { vf_wide = 1; c20_kurtosis(); }
H(c20_flatness_wide) { vf_wide = 1; c20_flatness(); }
H(c20_entropy_wide) { vf_wide = 1; c20_entropy(); }
H(c20_spectral_entropy_wide) { vf_wide = 1; c20_spectral_entropy(); }
H(c20_flux_wide) { vf_wide = 1; c20_flux(); }
H(c20_flux_manhattan_wide) { vf_wide = 1; c20_flux_manhattan(); }
H(c20_rolloff_wide) { vf_wide = 1; vf_wide_far = 0; c20_rolloff(); }
H(c20_slope_wide) { vf_wide = 1; c20_slope(); }
H(c20_decrease_wide) { vf_wide = 1; c20_decrease(); }
H(c20_variation_wide) { vf_wide = 1; c20_variation(); }
H(c20_irregularity_wide) { vf_wide = 1; c20_irregularity(); }
