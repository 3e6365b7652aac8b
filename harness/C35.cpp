//@file bounds="arrays of 0..3 elements (1..3 where a statistic or a transform needs one; thorough 0..4), and of 17 and 24 elements of which one is arbitrary, contents any bit pattern for the plain array functions and [-100,100] elsewhere (positive where a mean or a logarithm needs it); refusals: 0-, 2-dimensional, strided, single precision, integer, complex and mismatched arrays for every function that takes an array; audio files of 0..3 frames and 1..2 channels, every read of 0..5 samples; resampler blocks of 0..2 frames and 1..3 channels" assume="Boost.Python and Boost.Numpy are modelled by their documentation (registration by name, conversion of numbers, text and arrays; exceptions become Python errors); FFTW, libsndfile, libsamplerate and TagLib by their manuals; the functions behind the wrappers are the subject of the other properties" native_libs="-lfftw3 -lfftw3f" flags="-std=c++14 -DUSE_LIBFFTW -DUSE_LIBSNDFILE -DUSE_LIBSAMPLERATE -DUSE_TAGLIB -DMODULE_NAME=pedsp -I$REPO/bindings/c/include -I$REPO/bindings/python/include"
#include "vf.hpp"
#include <array>
#include <chrono>
#include <climits>
#include <cstdlib>
#include <deque>
#include <exception>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <tuple>
#include <unordered_map>
#include <utility>
#include "fftw_stub.hpp"
#include "sndfile_stub.hpp"
#include "samplerate_stub.hpp"
#include <edsp/filter.hpp>
#include <edsp/feature/temporal/snr.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/feature/temporal/power.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/energy.hpp>
#include <edsp/algorithm.hpp>
#include <edsp/converter.hpp>
#include <edsp/io.hpp>
#include <edsp/io/decoder.hpp>
#include <edsp/io/encoder.hpp>
#include <edsp/io/metadata.hpp>
#include <edsp/io/resampler.hpp>
#include <edsp/math.hpp>
#include <edsp/oscillator.hpp>
#include <edsp/statistics.hpp>
#include <edsp/windowing.hpp>
#include <edsp/auditory/audspace.hpp>
#include <edsp/auditory/converter/bark2hertz.hpp>
#include <edsp/auditory/converter/cent2hertz.hpp>
#include <edsp/auditory/converter/erb2hertz.hpp>
#include <edsp/auditory/converter/hertz2bark.hpp>
#include <edsp/auditory/converter/hertz2cent.hpp>
#include <edsp/auditory/converter/hertz2erb.hpp>
#include <edsp/auditory/converter/hertz2mel.hpp>
#include <edsp/auditory/converter/mel2hertz.hpp>
#include <edsp/feature/spectral/spectral_centroid.hpp>
#include <edsp/feature/spectral/spectral_crest.hpp>
#include <edsp/feature/spectral/spectral_decrease.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/spectral/spectral_flatness.hpp>
#include <edsp/feature/spectral/spectral_flux.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_kurtosis.hpp>
#include <edsp/feature/spectral/spectral_rolloff.hpp>
#include <edsp/feature/spectral/spectral_skewness.hpp>
#include <edsp/feature/spectral/spectral_slope.hpp>
#include <edsp/feature/spectral/spectral_spread.hpp>
#include <edsp/feature/spectral/spectral_variation.hpp>
#include <edsp/feature/statistics/centroid.hpp>
#include <edsp/feature/statistics/crest.hpp>
#include <edsp/feature/statistics/decrease.hpp>
#include <edsp/feature/statistics/entropy.hpp>
#include <edsp/feature/statistics/flatness.hpp>
#include <edsp/feature/statistics/flux.hpp>
#include <edsp/feature/statistics/rolloff.hpp>
#include <edsp/feature/statistics/slope.hpp>
#include <edsp/feature/statistics/spread.hpp>
#include <edsp/feature/statistics/variation.hpp>
#include <edsp/string/join.hpp>
#include <edsp/string/split.hpp>
#include <edsp/string/to_lower.hpp>
#include <edsp/string/to_upper.hpp>
#include <edsp/string/trim.hpp>
#include <bindings/c/src/algorithm.c>
#include <bindings/c/src/statistics.c>
#include <bindings/c/src/windowing.c>
#include <bindings/c/src/spectral.c>
#include <bindings/c/src/converter.cpp>
#include <bindings/c/src/core.c>
#include "boost_numpy_dependencies.hpp"
#include <algorithm.hpp>
#include <auditory.hpp>
#include <converter.hpp>
#include <core.hpp>
#include <feature.hpp>
#include <filter.hpp>
#include <io.hpp>
#include <oscillator.hpp>
#include <spectral.hpp>
#include <statistics.hpp>
#include <string.hpp>
#include <windowing.hpp>
// each source of the package in a scope of its own, as each is a translation unit of its own
namespace py_core {
#include <bindings/python/src/core.cpp>
}
namespace py_algorithm {
#include <bindings/python/src/algorithm.cpp>
}
namespace py_windowing {
#include <bindings/python/src/windowing.cpp>
}
namespace py_statistics {
#include <bindings/python/src/statistics.cpp>
}
namespace py_spectral {
#include <bindings/python/src/spectral.cpp>
}
namespace py_converter {
#include <bindings/python/src/converter.cpp>
}
namespace py_string {
#include <bindings/python/src/string.cpp>
}
namespace py_oscillator {
#include <bindings/python/src/oscillator.cpp>
}
namespace py_auditory {
#include <bindings/python/src/auditory.cpp>
}
namespace py_feature_temporal {
#include <bindings/python/src/feature_temporal.cpp>
}
namespace py_feature_spectral {
#include <bindings/python/src/feature_spectral.cpp>
}
namespace py_feature_statistics {
#include <bindings/python/src/feature_statistics.cpp>
}
namespace py_filter {
#include <bindings/python/src/filter.cpp>
}
namespace py_io {
typedef float real_t;  // the source asks for single precision
typedef real_t complex_t[2];
#include <bindings/python/src/io.cpp>
}
#ifdef VF_SYMBOLIC
#include <pthread.h>
extern "C" {  // an environment with one variable
char* getenv(const char* n) noexcept {
    static char set[] = "text";
    return n[0] == 'S' && !n[1] ? set : nullptr;
}
int* __errno_location() noexcept { static int e; return &e; }
int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; }
}
#endif
namespace {
#ifdef VF_THOROUGH
constexpr int N = 4;
#else
constexpr int N = 3;
#endif
using vec   = std::vector<double>;
using value = vfpy::value;
vec any(int n, const char* name = "x") {
    vec v((size_t) n);
    if (!vf_wide || n == 0) vf_fillany(v, name);
    else {
        vf_background(v, -100, 100);
        v[v.size() / 3] = vf_anydouble(name);
    }
    return v;
}
vec some(int n, double lo = -100, double hi = 100, const char* name = "x") {
    vec v((size_t) n);
    if (!vf_wide) vf_fill(v, name, lo, hi);
    else {
        vf_background(v, lo, hi);
        v[v.size() / 3] = vf_double(name, lo, hi);
    }
    return v;
}
value arr(const vec& x) {
    const long n = (long) x.size();
    auto* a      = vfpy::make_array(vfpy::f64, 1, &n, false);
    for (size_t i = 0; i < x.size(); ++i) ((double*) a->bytes)[i] = x[i];
    value v;
    v.what = vfpy::array;
    v.a    = a;
    return v;
}
value carr(const vec& x) {  // real and imaginary parts, one after the other
    const long n = (long) x.size() / 2;
    auto* a      = vfpy::make_array(vfpy::c128, 1, &n, false);
    for (size_t i = 0; i < x.size(); ++i) ((double*) a->bytes)[i] = x[i];
    value v;
    v.what = vfpy::array;
    v.a    = a;
    return v;
}
value num(double d) { return vfpy::to(d); }
value count(long i) { return vfpy::to(i); }
value call(const char* m, const char* f, std::initializer_list<value> a) { return vfpy::call(m, f, a); }
bool has(const char* module, const char* name) {
    for (auto& e : vfpy::functions()) if (e.name == name && e.module == module) return true;
    return false;
}
void is(const value& r, const vec& want, vfpy::element e = vfpy::f64) {
    const size_t per = e == vfpy::c128 ? 2 : 1;
    vf_assert(r.what == vfpy::array, "an array is returned");
    vf_assert(r.a->type == e, "the array has the type of the results");
    vf_assert(r.a->nd == 1, "the array has one dimension");
    vf_assert((size_t) r.a->shape[0] * per == want.size(), "the array has one element per result");
    for (size_t i = 0; i < want.size(); ++i) vf_same(((const double*) r.a->bytes)[i], want[i], "the array holds the results of the function of the library");
}
void is(const value& r, double want) {
    vf_assert(r.what == vfpy::real, "a number is returned");
    vf_same(r.d, want, "the result is the result of the function of the library");
}
void is_int(const value& r, long want) {
    vf_assert(r.what == vfpy::integer, "a whole number is returned");
    vf_assert(r.i == want, "the result is the result of the function of the library");
}
void is_number(const value& r, double want) {
    vf_assert(r.what == vfpy::integer || r.what == vfpy::real, "a number is returned");
    vf_same(r.what == vfpy::real ? r.d : (double) r.i, want, "the result is the result of the function of the library");
}
void is_text(const value& r, const std::string& want) {
    vf_assert(r.what == vfpy::text, "text is returned");
    vf_assert(r.s.size() == want.size(), "the text is the text of the library");
    for (size_t i = 0; i < want.size(); ++i) vf_assert(r.s[i] == want[i], "the text is the text of the library");
}
void kept(const value& a, const vec& x) {
    for (size_t i = 0; i < x.size(); ++i) vf_same(((const double*) a.a->bytes)[i], x[i], "the argument is left alone");
}
}
//@ mode=fp
H(c35_arrays) {
    py_algorithm::add_algorithm_package();
    const int n = vf_size("n", 0, N), which = (int) vf_pick("which", 0, 7);
    const vec x = any(n);
    const value in = arr(x);
    vec want((size_t) n);
    const char* M = "pedsp.algorithm";
    const double f = vf_anydouble("factor");
    double lo = -2, hi = 3;
    if (which == 1 || which == 2) {
        lo = vf_anydouble("min"), hi = vf_anydouble("max");
        vf_assume(lo <= hi);
    }
    const double* p = x.data();
    value r;
    switch (which) {
        case 0: r = call(M, "scale", {in, num(f)}); edsp::amplifier(p, p + n, want.data(), f); break;
        case 1: r = call(M, "scale_clip", {in, num(f), num(lo), num(hi)}); edsp::amplifier(p, p + n, want.data(), f, lo, hi); break;
        case 2: r = call(M, "clip", {in, num(lo), num(hi)}); edsp::clipper(p, p + n, want.data(), lo, hi); break;
        case 3: r = call(M, "ceil", {in}); edsp::ceil(p, p + n, want.data()); break;
        case 4: r = call(M, "floor", {in}); edsp::floor(p, p + n, want.data()); break;
        case 5: r = call(M, "round", {in}); edsp::round(p, p + n, want.data()); break;
        case 6: r = call(M, "trunc", {in}); edsp::fix(p, p + n, want.data()); break;
        default: r = call(M, "abs", {in}); edsp::rectify(p, p + n, want.data()); break;
    }
    is(r, want);
    kept(in, x);
}
//@ mode=fp
H(c35_search) {
    py_algorithm::add_algorithm_package();
    const int n = vf_size("n", 0, N), which = (int) vf_pick("which", 0, 4);
    const char* M = "pedsp.algorithm";
    const vec x = any(n);
    const value in = arr(x);
    const double v = vf_anydouble("value");
    const double* p = x.data();
    if (which == 0) {
        for (int i = 0; i < n; ++i) vf_assume(!(x[(size_t) i] != x[(size_t) i]) && (i == 0 || x[(size_t) i - 1] <= x[(size_t) i]));
        vf_assume(v == v);
        const value r = call(M, "binary_search", {in, num(v)});
        bool in_it = false;
        for (double y : x) in_it = in_it || y == v;
        vf_assert(r.what == vfpy::integer, "an index is returned");
        if (in_it) vf_assert(r.i >= 0 && r.i < n && x[(size_t) (r.i >= 0 && r.i < n ? r.i : 0)] == v, "the index found is that of the value");
        else vf_assert(r.i < 0 || r.i >= n, "a value that is not there is not found");
    } else if (which <= 2) {
        const value r = call(M, which == 1 ? "linear_search" : "index_of", {in, num(v)});
        const int want = which == 1 ? linear_search(p, n, v) : index_of(p, n, v);
        is_int(r, want);
    } else if (which == 3) {
        const int m = (int) vf_pick("m", 0, N);
        const vec y = any(m, "y");
        const value r = call(M, "equal", {in, arr(y)});
        bool same = n == m;
        for (int i = 0; i < n && i < m; ++i) same = same && x[(size_t) i] == y[(size_t) i];
        vf_assert(r.what == vfpy::integer && (r.i != 0) == same, "arrays are equal when their elements are");
    } else {
        const int m = (int) vf_pick("m", 0, N);
        const vec y = any(m, "y");
        vec both = x;
        both.insert(both.end(), y.begin(), y.end());
        is(call(M, "concatenate", {in, arr(y)}), both);
    }
    kept(in, x);
}
//@ mode=fp
H(c35_pad) {
    py_algorithm::add_algorithm_package();
    const int n = vf_size("n", 0, N), m = vf_wide ? n + 5 : (int) vf_pick("m", 0, N + 2);
    const vec x = any(n);
    const value in = arr(x);
    if (m < n) vf_expect_throw();
    const value r = call("pedsp.algorithm", "pad", {in, count(m)});
    vf_assert(m >= n, "a smaller size is refused");
    vec want = x;
    want.resize((size_t) m, 0.0);
    is(r, want);
    kept(in, x);
}
H(c35_spaces) {
    py_algorithm::add_algorithm_package();
    py_auditory::add_auditory_package();
    const int n = vf_size("n", 0, N), which = (int) vf_pick("which", 0, 6);
    vec want((size_t) n);
    double* w = want.data();
    if (which == 0) {
        const int k = (int) vf_pick("k", 1, N);
        const vec x = some(k, 1, 100);
        const value in = arr(x);
        vec norm((size_t) k);
        edsp::normalize(x.data(), x.data() + k, norm.data());
        is(call("pedsp.algorithm", "normalize", {in}), norm);
        kept(in, x);
        return;
    }
    const double a = which == 2 ? (double) vf_pick("a", 0, 1) : vf_double("a", 1, 100), b = which == 2 ? 3 : a + vf_double("width", 1, 100);
    const char* A = "pedsp.auditory";
    vf_assume(n != 1 || which <= 2);
    value r;
    switch (which) {
        case 1: r = call("pedsp.algorithm", "linspace", {num(a), num(b), count(n)}); array_linspace(w, n, a, b); break;
        case 2: r = call("pedsp.algorithm", "logspace", {num(a), num(b), count(n)}); array_logspace(w, n, a, b); break;
        case 3: r = call(A, "erbspace", {num(a), num(b), count(n)}); edsp::auditory::erbspace(w, w + n, a, b); break;
        case 4: r = call(A, "barkspace", {num(a), num(b), count(n)}); edsp::auditory::barkspace(w, w + n, a, b); break;
        case 5: r = call(A, "centspace", {num(a + 20), num(b + 20), count(n)}); edsp::auditory::centspace(w, w + n, a + 20, b + 20); break;
        default: r = call(A, "melspace", {num(a), num(b), count(n)}); edsp::auditory::melspace(w, w + n, a, b); break;
    }
    is(r, want);
}
H(c35_scales) {
    py_auditory::add_auditory_package();
    py_converter::add_converter_package();
    const int which = (int) vf_pick("which", 0, 13);
    const double v = vf_double("v", 20, 100);
    const char *A = "pedsp.auditory", *C = "pedsp.converter";
    value r;
    double want;
    switch (which) {
        case 0: r = call(A, "hertz2mel", {num(v)}); want = edsp::auditory::hertz2mel(v); break;
        case 1: r = call(A, "hertz2bark", {num(v)}); want = edsp::auditory::hertz2bark(v); break;
        case 2: r = call(A, "hertz2cent", {num(v)}); want = edsp::auditory::hertz2cent(v); break;
        case 3: r = call(A, "hertz2erb", {num(v)}); want = edsp::auditory::hertz2erb(v); break;
        case 4: r = call(A, "mel2hertz", {num(v)}); want = edsp::auditory::mel2hertz(v); break;
        case 5: r = call(A, "bark2hertz", {num(v / 5)}); want = edsp::auditory::bark2hertz(v / 5); break;
        case 6: r = call(A, "cent2hertz", {num(v)}); want = edsp::auditory::cent2hertz(v); break;
        case 7: r = call(A, "erb2hertz", {num(v / 5)}); want = edsp::auditory::erb2hertz(v / 5); break;
        case 8: r = call(C, "db2mag", {num(v)}); want = edsp::converter::db2mag(v); break;
        case 9: r = call(C, "db2pow", {num(v)}); want = edsp::converter::db2pow(v); break;
        case 10: r = call(C, "mag2db", {num(v)}); want = edsp::converter::mag2db(v); break;
        case 11: r = call(C, "pow2db", {num(v)}); want = edsp::converter::pow2db(v); break;
        case 12: r = call(C, "deg2rad", {num(v)}); want = edsp::converter::deg2rad(v); break;
        default: r = call(C, "rad2deg", {num(v)}); want = edsp::converter::rad2deg(v); break;
    }
    is(r, want);
}
H(c35_converter) {
    py_converter::add_converter_package();
    const char* C = "pedsp.converter";
    const int which = (int) vf_pick("which", 0, 4), n = vf_size("n", which < 2 ? 1 : 0, N);
    const vec x = some(n), y = some(n, -100, 100, "y");
    const value in = arr(x), in2 = arr(y);
    if (which == 0) is(call(C, "peak2peak", {in}), edsp::converter::peak2peak(x.data(), x.data() + n));
    else if (which == 1) {
        vf_assume(x[0] >= 1);
        is(call(C, "peak2rms", {in}), edsp::converter::peak2rms(x.data(), x.data() + n));
    } else {
        vec z((size_t) n * 2);
        for (int i = 0; i < n; ++i) z[(size_t) i * 2] = x[(size_t) i], z[(size_t) i * 2 + 1] = which == 2 ? 0 : y[(size_t) i];
        if (which == 2) is(call(C, "real2complex", {in}), z, vfpy::c128);
        else if (which == 3) is(call(C, "ri2complex", {in, in2}), z, vfpy::c128);
        else {
            const value c = carr(z);
            const value r = call(C, "complex2real", {c});
            vf_assert(r.what == vfpy::tuple && r.items.size() == 2, "the real and the imaginary parts are returned");
            is(r.items[0], x);
            is(r.items[1], y);
            kept(c, z);
        }
    }
    kept(in, x);
    kept(in2, y);
}
H(c35_statistics) {
    py_statistics::add_statistics_package();
    const char* M = "pedsp.statistics";
    const int n = vf_size("n", 1, N), which = (int) vf_pick("which", 0, 16);
    const vec x = which >= 13 ? some(n, 0.5, 100) : some(n);
    if (which == 11 || which == 12) vf_assume(n > 1 && x[0] >= 1 && x[1] <= -1);
    const value in = arr(x);
    const double *p = x.data(), *q = p + n;
    namespace st = edsp::statistics;
    switch (which) {
        case 0: is(call(M, "max", {in}), st::max(p, q)); break;
        case 1: is(call(M, "max_abs", {in}), st::maxabs(p, q)); break;
        case 2: is(call(M, "min", {in}), st::min(p, q)); break;
        case 3: is(call(M, "min_abs", {in}), st::minabs(p, q)); break;
        case 4: case 5: {
            const value r = call(M, which == 4 ? "peak" : "peak_abs", {in});
            const auto want = which == 4 ? peak(p, n) : peak_abs(p, n);
            vf_assert(r.what == vfpy::tuple && r.items.size() == 2, "the index and the value of the peak are returned");
            is_int(r.items[0], want.index);
            is(r.items[1], want.value);
            break;
        }
        case 6: is(call(M, "mean", {in}), st::mean(p, q)); break;
        case 7: is(call(M, "median", {in}), median(p, n)); break;
        case 8: is(call(M, "variance", {in}), st::variance(p, q)); break;
        case 9: is(call(M, "standard_deviation", {in}), st::standard_deviation(p, q)); break;
        case 10: is(call(M, "norm", {in}), st::norm(p, q)); break;
        case 11: is(call(M, "kurtosis", {in}), st::kurtosis(p, q)); break;
        case 12: is(call(M, "skewness", {in}), st::skewness(p, q)); break;
        case 13: is(call(M, "geometric_mean", {in}), geometric_mean(p, n)); break;
        case 14: { const int b = (int) vf_pick("beta", 1, 3); is(call(M, "generalized_mean", {in, count(b)}), generalized_mean(p, n, b)); break; }
        case 15: is(call(M, "harmonic_mean", {in}), harmonic_mean(p, n)); break;
        default: { const int b = (int) vf_pick("order", 1, 3); is(call(M, "moment", {in, count(b)}), moment(p, n, b)); break; }
    }
    kept(in, x);
}
H(c35_windows) {
    py_windowing::add_windowing_package();
    const char* M = "pedsp.windowing";
    const int which = (int) vf_pick("which", 0, 10), n = vf_size("n", 2, N + 2);
    static const char* const names[] = {"bartlett", "blackman", "blackman_harris", "blackman_nutall", "boxcar", "flattop", "hamming", "hanning", "triangular", "welch", "rectangular"};
    static void (*const fs[])(double*, int) = {bartlett, blackman, blackman_harris, blackman_nutall, boxcar, flattop, hamming, hanning, triangular, welch, rectangular};
    vec want((size_t) n);
    fs[which](want.data(), n);
    is(call(M, names[which], {count(n)}), want);
}
H(c35_spectral) {
    py_spectral::add_spectral_package();
    const char* M = "pedsp.spectral";
    const int n = vf_size("n", 1, N), which = (int) vf_pick("which", 0, 11);
    const bool complex_in = which >= 9;
    const vec x = some(complex_in ? 2 * n : n), y = some(n, -100, 100, "y");
    const value in = complex_in ? carr(x) : arr(x), in2 = arr(y);
    const double *p = x.data(), *q = p + n;
    vec want((size_t) n);
    const size_t half = (size_t) get_fft_size(n);
    auto* c = (complex_t*) p;
    switch (which) {
        case 0: conv(p, y.data(), n, want.data()); is(call(M, "conv", {in, in2}), want); break;
        case 1: xcorr(p, y.data(), n, want.data()); is(call(M, "xcorr", {in, in2}), want); break;
        case 2: dct(p, n, want.data()); is(call(M, "dct", {in}), want); break;
        case 3: idct(p, n, want.data()); is(call(M, "idct", {in}), want); break;
        case 4: hartley(p, n, want.data()); is(call(M, "hartley", {in}), want); break;
        case 5: want.resize(half); spectrum(p, n, want.data()); is(call(M, "spectrum", {in}), want); break;
        case 6: want.resize((size_t) n * 2); hilbert(p, n, (complex_t*) want.data()); is(call(M, "hilbert", {in}), want, vfpy::c128); break;
        case 7: want.resize(half * 2); fft(p, n, (complex_t*) want.data()); is(call(M, "rfft", {in}), want, vfpy::c128); break;
        case 8: vf_assume(x[0] >= 60); for (int i = 1; i < n; ++i) vf_assume(x[(size_t) i] <= 10 && x[(size_t) i] >= -10);
                cepstrum(p, n, want.data()); is(call(M, "cepstrum", {in}), want); break;
        case 9: vf_assume(n > 1); want.resize((size_t) get_ifft_size(n)); ifft(c, n, want.data()); is(call(M, "irfft", {in}), want); break;
        case 10: want.resize((size_t) n * 2); complex_fft(c, n, (complex_t*) want.data()); is(call(M, "fft", {in}), want, vfpy::c128); break;
        default: want.resize((size_t) n * 2); complex_ifft(c, n, (complex_t*) want.data()); is(call(M, "ifft", {in}), want, vfpy::c128); break;
    }
    kept(in, x);
    kept(in2, y);
}
H(c35_temporal) {
    py_feature_temporal::add_feature_temporal_package();
    const char* M = "pedsp.temporal";
    const int n = vf_size("n", 1, N), which = (int) vf_pick("which", 0, 9);
    const vec x = some(n);
    if (which == 3) vf_assume(x[0] >= 1);
    const value in = arr(x);
    double *p = const_cast<double*>(x.data()), *q = p + n;
    namespace ft = edsp::feature::temporal;
    vec want((size_t) n);
    switch (which) {
        case 0: is(call(M, "rms", {in}), ft::rms(p, q)); break;
        case 1: is(call(M, "energy", {in}), ft::energy(p, q)); break;
        case 2: is(call(M, "power", {in}), ft::power(p, q)); break;
        case 3: is(call(M, "leq", {in}), ft::leq(p, q)); break;
        case 4: is(call(M, "azcr", {in}), ft::azcr(p, q)); break;
        case 5: is(call(M, "rssq", {in}), edsp::feature::rssq(p, q)); break;
        case 6: ft::amdf(p, q, want.data()); is(call(M, "amdf", {in}), want); break;
        case 7: ft::asdf(p, q, want.data()); is(call(M, "asdf", {in}), want); break;
        case 8: { const double sr = vf_double("rate", 1, 100); is(call(M, "duration", {in, num(sr)}), ft::duration(p, q, sr)); break; }
        default: { const double t = vf_wide ? 0.25 : vf_double("threshold", 0.1, 0.9); is(call(M, "effective_duration", {in, num(8000), num(t)}), ft::effective_duration(p, q, 8000.0, t)); break; }
    }
    kept(in, x);
}
H(c35_features) {
    py_feature_statistics::add_feature_statistics_package();
    const char* M = "pedsp.statistics";
    const int n = vf_size("n", 2, N), which = (int) vf_pick("which", 0, 10);
    const vec x = some(n, 1, 100), y = some(n, 1, 100, "y");
    const value in = arr(x), in2 = arr(y);
    double *p = const_cast<double*>(x.data()), *q = p + n, *s = const_cast<double*>(y.data());
    namespace ft = edsp::feature::statistics;
    if (which == 8) vf_assume(y[0] + 1 <= y[1]);
    switch (which) {
        case 0: is(call(M, "centroid", {in}), ft::centroid(p, q)); break;
        case 1: is(call(M, "weighted_centroid", {in, in2}), ft::weighted_centroid(p, q, s)); break;
        case 2: is(call(M, "crest", {in}), ft::crest(p, q)); break;
        case 3: is(call(M, "decrease", {in}), ft::decrease(p, q)); break;
        case 4: is(call(M, "entropy", {in}), ft::entropy(p, q)); break;
        case 5: is(call(M, "flatness", {in}), ft::flatness(p, q)); break;
        case 6: is(call(M, "flux", {in, in2}), ft::flux<edsp::distances::euclidean>(p, q, s)); break;
        case 7: { const value r = call(M, "rolloff", {in, num(0.7)}); const auto w = ft::rolloff(p, q, 0.7); vf_same(r.what == vfpy::real ? r.d : (double) r.i, (double) w, "the result is the result of the function of the library"); break; }
        case 8: is(call(M, "slope", {in, in2}), ft::slope(p, q, s)); break;
        case 9: is(call(M, "spread", {in}), ft::spread(p, q)); break;
        default: is(call(M, "weighted_spread", {in, in2}), ft::weighted_spread(p, q, s)); break;
    }
    kept(in, x);
    kept(in2, y);
}
H(c35_spectrals) {
    py_feature_spectral::add_feature_spectral_package();
    const char* M = "pedsp.spectral";
    const int n = vf_size("n", 2, N), which = (int) vf_pick("which", 0, 12);
    const vec x = some(n, 1, 100), y = some(n, 1, 100, "y");
    const value in = arr(x), in2 = arr(y);
    double *p = const_cast<double*>(x.data()), *q = p + n, *s = const_cast<double*>(y.data());
    namespace ft = edsp::feature::spectral;
    if (which == 10) vf_assume(y[0] + 1 <= y[1]);
    if (which == 7 || which == 9) vf_assume(x[0] + 1 <= x[1]);
    switch (which) {
        case 0: is(call(M, "spectral_centroid", {in, in2}), ft::spectral_centroid(p, q, s)); break;
        case 1: is(call(M, "spectral_crest", {in}), ft::spectral_crest(p, q)); break;
        case 2: is(call(M, "spectral_decrease", {in}), ft::spectral_decrease(p, q)); break;
        case 3: is(call(M, "spectral_entropy", {in}), ft::spectral_entropy(p, q)); break;
        case 4: is(call(M, "spectral_flatness", {in}), ft::spectral_flatness(p, q)); break;
        case 5: is(call(M, "spectral_flux", {in, in2}), ft::spectral_flux(p, q, s)); break;
        case 6: is(call(M, "spectral_irregularity", {in}), ft::spectral_irregularity(p, q)); break;
        case 7: is(call(M, "spectral_kurtosis", {in}), ft::spectral_kurtosis(p, q)); break;
        case 8: { const value r = call(M, "spectral_rolloff", {in, num(0.7)}); const auto w = ft::spectral_rolloff(p, q, 0.7); vf_same(r.what == vfpy::real ? r.d : (double) r.i, (double) w, "the result is the result of the function of the library"); break; }
        case 9: is(call(M, "spectral_skewness", {in}), ft::spectral_skewness(p, q)); break;
        case 10: is(call(M, "spectral_slope", {in, in2}), ft::spectral_slope(p, q, s)); break;
        case 11: is(call(M, "spectral_spread", {in, in2}), ft::spectral_spread(p, q, s)); break;
        default: is(call(M, "spectral_variation", {in, in2}), ft::spectral_variation(p, q, s)); break;
    }
    kept(in, x);
    kept(in2, y);
}
H(c35_filters) {
    py_filter::add_filter_package();
    const int which = (int) vf_pick("which", 0, 2), w = (int) vf_pick("window", 1, 3), n = vf_size("n", 0, N);
    const char* const names[] = {"MovingMedianFilter", "MovingAverageFilter", "MovingRmsFilter"};
    const value f = vfpy::make("pedsp.filter", names[which], {num(w)});
    edsp::filter::moving_median<double> a((size_t) w);
    edsp::filter::moving_average<double> b((size_t) w);
    edsp::filter::moving_rms<double> c((size_t) w);
    is_int(vfpy::on(f, "size", {}), w);
    const double first = vf_double("first", -100, 100);
    is(vfpy::on(f, "__call__", {num(first)}), which == 0 ? a(first) : which == 1 ? b(first) : c(first));
    const int then = (int) vf_pick("then", 0, 2);
    if (then == 1) {
        vfpy::on(f, "reset", {});
        a.reset(), b.reset(), c.reset();
    } else if (then == 2) {
        vfpy::on(f, "resize", {count(w + 1)});
        a.resize((size_t) w + 1), b.resize((size_t) w + 1), c.resize((size_t) w + 1);
        is_int(vfpy::on(f, "size", {}), w + 1);
    }
    const vec x = some(n);
    const value in = arr(x);
    vec want((size_t) n);
    const double* p = x.data();
    if (which == 0) a.filter(p, p + n, want.data());
    else if (which == 1) b.filter(p, p + n, want.data());
    else c.filter(p, p + n, want.data());
    is(vfpy::on(f, "filter", {in}), want);
    kept(in, x);
}
H(c35_oscillators) {
    py_oscillator::add_oscillator_package();
    namespace os = edsp::oscillators;
    const char* O = "pedsp.oscillator";
    const int which = (int) vf_pick("which", 0, 3), n = vf_size("n", 0, N);
    const double amp = vf_double("amplitude", 0.5, 4), sr = 8, f = (double) vf_pick("frequency", 1, 3), p = which == 0 ? vf_double("phase", -1, 1) : 0.25 * (double) vf_pick("shape", 1, 3);
    const char* const names[] = {"Sinusoidal", "Square", "Sawtooth", "Triangular"};
    const value g = which == 3 ? vfpy::make(O, names[3], {num(amp), num(sr), num(f)}) : vfpy::make(O, names[which], {num(amp), num(sr), num(f), num(p)});
    os::sin_oscillator<double> a(amp, sr, f, p);
    os::square_oscillator<double> b(amp, sr, f, p);
    os::sawtooth_oscillator<double> c(amp, sr, f, p);
    os::triangular_oscillator<double> d(amp, sr, f);
    os::oscillator<double>& o = which == 0 ? static_cast<os::oscillator<double>&>(a) : which == 1 ? static_cast<os::oscillator<double>&>(b) : which == 2 ? static_cast<os::oscillator<double>&>(c) : static_cast<os::oscillator<double>&>(d);
    const int then = (int) vf_pick("then", 0, 7);
    if (then == 1) vfpy::on(g, "set_amplitude", {num(0.75)}), o.set_amplitude(0.75);
    if (then == 2) vfpy::on(g, "set_frequency", {num(2)}), o.set_frequency(2);
    if (then == 3) vfpy::on(g, "set_phase", {num(0.5)}), o.set_phase(0.5);
    if (then == 4) vfpy::on(g, "set_sample_rate", {num(16)}), o.set_sample_rate(16);
    if (then == 5) vfpy::on(g, "set_timestamp", {num(0.25)}), o.set_timestamp(0.25);
    if (then == 6) vfpy::on(g, "set_timestamp", {num(0.25)}), o.set_timestamp(0.25), vfpy::on(g, "reset", {}), o.reset();
    if (then == 7 && which == 1) vfpy::on(g, "set_duty", {num(0.5)}), b.set_duty(0.5);
    if (then == 7 && which == 2) vfpy::on(g, "set_width", {num(0.5)}), c.set_width(0.5);
    vec want((size_t) n);
    for (auto& w : want) w = which == 0 ? a() : which == 1 ? b() : which == 2 ? c() : d();
    is(vfpy::on(g, "generate", {count(n)}), want);
    is(vfpy::on(g, "amplitude", {}), o.amplitude());
    is(vfpy::on(g, "frequency", {}), o.frequency());
    is(vfpy::on(g, "phase", {}), o.phase());
    is(vfpy::on(g, "sample_rate", {}), o.sample_rate());
    is(vfpy::on(g, "timestamp", {}), o.timestamp());
    if (which == 1) is(vfpy::on(g, "duty", {}), b.duty());
    if (which >= 2) is(vfpy::on(g, "width", {}), which == 2 ? c.width() : d.width());
}
H(c35_text) {
    py_string::add_string_package();
    const char* M = "pedsp.string";
    const int which = (int) vf_pick("which", 0, 6);
    std::string s((size_t) vf_pick("length", 0, 3), 'x');
    for (auto& c : s) c = "a ,B"[which <= 2 || which == 5 ? vf_pick("character", 0, 2) : 0];
    if (which == 3 || which == 4) for (auto& c : s) c = (char) vf_int("character", -128, 127);
    std::string t = s;
    std::vector<std::string> parts;
    value r;
    switch (which) {
        case 0: edsp::string::trim(t); is_text(call(M, "trim", {vfpy::to(s)}), t); break;
        case 1: edsp::string::ltrim(t); is_text(call(M, "ltrim", {vfpy::to(s)}), t); break;
        case 2: edsp::string::rtrim(t); is_text(call(M, "rtrim", {vfpy::to(s)}), t); break;
        case 3: edsp::string::tolower(s.begin(), s.end(), t.begin()); is_text(call(M, "to_lower", {vfpy::to(s)}), t); break;
        case 4: edsp::string::toupper(s.begin(), s.end(), t.begin()); is_text(call(M, "to_upper", {vfpy::to(s)}), t); break;
        case 5:
            edsp::string::split(s, std::back_inserter(parts), ',');
            r = call(M, "split", {vfpy::to(s), vfpy::to(std::string(","))});
            vf_assert(r.what == vfpy::list && r.items.size() == parts.size(), "one piece per piece of the library");
            for (size_t i = 0; i < parts.size(); ++i) is_text(r.items[i], parts[i]);
            break;
        default: {
            const int n = (int) vf_pick("pieces", 0, 3);
            value l;
            l.what = vfpy::list;
            std::string want;
            for (int i = 0; i < n; ++i) {
                const std::string piece((size_t) vf_pick("piece", 0, 2), (char) ('a' + i));
                l.items.push_back(vfpy::to(piece));
                want += (i ? "," : "") + piece;
            }
            is_text(call(M, "join", {l, vfpy::to(std::string(","))}), want);
        }
    }
}
H(c35_core) {
    py_core::add_core_package();
    const char* M = "pedsp.core";
    is_int(call(M, "get_minor_version", {}), get_minor_version());
    is_int(call(M, "get_major_version", {}), get_major_version());
    is_int(call(M, "get_patch_version", {}), get_patch_version());
    is_text(call(M, "get_version", {}), get_version());
    is_text(call(M, "get_fft_library", {}), get_fft_library());
    is_text(call(M, "get_codec_library", {}), get_codec_library());
    is_text(call(M, "get_resample_library", {}), get_resample_library());
    is_text(call(M, "get_build_date", {}), get_build_date());
    is_text(call(M, "get_build_time", {}), get_build_time());
#ifndef VF_SYMBOLIC
    ::setenv("S", "text", 1);
    ::unsetenv("N");
#endif
    const value there = call(M, "get_environment", {vfpy::to("S")}), absent = call(M, "get_environment", {vfpy::to("N")});
    vf_assert(there.what == vfpy::tuple && there.items.size() == 2 && absent.what == vfpy::tuple && absent.items.size() == 2, "text and an error are returned");
    is_text(there.items[0], "text");
    is_int(there.items[1], 0);
    vf_assert(absent.items[1].i != 0, "an absent variable is an error");
    vf_assert(absent.items[0].what == vfpy::none || absent.items[0].s.empty(), "an absent variable has no text");
}
namespace {
struct shape {
    const char *module, *name;
    int arrays;     // how many, all real
    int extras;     // numbers after them
    bool same;      // of one size
};
const shape shapes[] = {
    {"algorithm", "scale", 1, 1, 0}, {"algorithm", "scale_clip", 1, 3, 0}, {"algorithm", "clip", 1, 2, 0}, {"algorithm", "ceil", 1, 0, 0},
    {"algorithm", "floor", 1, 0, 0}, {"algorithm", "round", 1, 0, 0}, {"algorithm", "trunc", 1, 0, 0}, {"algorithm", "abs", 1, 0, 0},
    {"algorithm", "normalize", 1, 0, 0}, {"algorithm", "binary_search", 1, 1, 0}, {"algorithm", "linear_search", 1, 1, 0},
    {"algorithm", "index_of", 1, 1, 0}, {"algorithm", "equal", 2, 0, 0}, {"algorithm", "concatenate", 2, 0, 0}, {"algorithm", "pad", 1, -8, 0},
    {"converter", "peak2peak", 1, 0, 0}, {"converter", "peak2rms", 1, 0, 0}, {"converter", "real2complex", 1, 0, 0}, {"converter", "ri2complex", 2, 0, 1},
    {"converter", "complex2real", 101, 0, 0},
    {"statistics", "kurtosis", 1, 0, 0}, {"statistics", "skewness", 1, 0, 0}, {"statistics", "moment", 1, -2, 0}, {"statistics", "geometric_mean", 1, 0, 0},
    {"statistics", "generalized_mean", 1, -2, 0}, {"statistics", "harmonic_mean", 1, 0, 0}, {"statistics", "max", 1, 0, 0}, {"statistics", "max_abs", 1, 0, 0},
    {"statistics", "min", 1, 0, 0}, {"statistics", "min_abs", 1, 0, 0}, {"statistics", "peak", 1, 0, 0}, {"statistics", "peak_abs", 1, 0, 0},
    {"statistics", "mean", 1, 0, 0}, {"statistics", "median", 1, 0, 0}, {"statistics", "variance", 1, 0, 0}, {"statistics", "standard_deviation", 1, 0, 0},
    {"statistics", "norm", 1, 0, 0},
    {"spectral", "conv", 2, 0, 1}, {"spectral", "xcorr", 2, 0, 1}, {"spectral", "cepstrum", 1, 0, 0}, {"spectral", "dct", 1, 0, 0}, {"spectral", "idct", 1, 0, 0},
    {"spectral", "spectrum", 1, 0, 0}, {"spectral", "hilbert", 1, 0, 0}, {"spectral", "hartley", 1, 0, 0}, {"spectral", "rfft", 1, 0, 0},
    {"spectral", "irfft", 101, 0, 0}, {"spectral", "fft", 101, 0, 0}, {"spectral", "ifft", 101, 0, 0},
    {"temporal", "duration", 1, 1, 0}, {"temporal", "effective_duration", 1, 2, 0}, {"temporal", "amdf", 1, 0, 0}, {"temporal", "asdf", 1, 0, 0},
    {"temporal", "azcr", 1, 0, 0}, {"temporal", "energy", 1, 0, 0}, {"temporal", "power", 1, 0, 0}, {"temporal", "rms", 1, 0, 0}, {"temporal", "rssq", 1, 0, 0}, {"temporal", "leq", 1, 0, 0},
    {"statistics", "centroid", 1, 0, 0}, {"statistics", "weighted_centroid", 2, 0, 1}, {"statistics", "crest", 1, 0, 0}, {"statistics", "decrease", 1, 0, 0},
    {"statistics", "entropy", 1, 0, 0}, {"statistics", "flatness", 1, 0, 0}, {"statistics", "flux", 2, 0, 1}, {"statistics", "rolloff", 1, 1, 0},
    {"statistics", "slope", 2, 0, 1}, {"statistics", "spread", 1, 0, 0}, {"statistics", "weighted_spread", 2, 0, 1},
    {"spectral", "spectral_centroid", 2, 0, 1}, {"spectral", "spectral_crest", 1, 0, 0}, {"spectral", "spectral_decrease", 1, 0, 0}, {"spectral", "spectral_entropy", 1, 0, 0},
    {"spectral", "spectral_flatness", 1, 0, 0}, {"spectral", "spectral_flux", 2, 0, 1}, {"spectral", "spectral_irregularity", 1, 0, 0}, {"spectral", "spectral_kurtosis", 1, 0, 0},
    {"spectral", "spectral_rolloff", 1, 1, 0}, {"spectral", "spectral_skewness", 1, 0, 0}, {"spectral", "spectral_slope", 2, 0, 1}, {"spectral", "spectral_spread", 2, 0, 1},
    {"spectral", "spectral_variation", 2, 0, 1},
};
constexpr int SHAPES = (int) (sizeof shapes / sizeof shapes[0]);
value odd_array(int kind, bool complex) {
    long shape[2] = {2, 2};
    const auto right = complex ? vfpy::c128 : vfpy::f64;
    const vfpy::element types[] = {right, right, complex ? vfpy::c64 : vfpy::f32, complex ? vfpy::f64 : vfpy::i32, right, complex ? vfpy::i64 : vfpy::c128, vfpy::i64};
    auto* a = vfpy::make_array(types[kind], kind == 0 ? 2 : kind == 1 ? 0 : 1, shape, true);
    if (kind == 4) {  // every second element of the data: the last lies outside
        a->strides[0] *= 2;
        a->bytes += 0;
    }
    value v;
    v.what = vfpy::array;
    v.a    = a;
    return v;
}
void refusal(int from, int to, const value& fine) {
    const int k = (int) vf_pick("function", from, to - 1);
    const shape& s     = shapes[k];
    const bool complex = s.arrays > 100;
    const int arrays   = s.arrays % 100;
    const std::string module = std::string("pedsp.") + s.module;
    const int kind  = (int) vf_pick("kind", 0, s.same ? 7 : 6);
    const int place = arrays == 2 ? (int) vf_pick("place", 0, 1) : 0;
    value bad;
    if (kind == 7) bad = arr(vec(place == 0 ? 3 : 1, 1.0));
    else bad = odd_array(kind, complex);
    const value extra = s.extras < 0 ? count(-s.extras) : num(0.5);
    vf_assert(has(module.c_str(), s.name), "the function is there");
    vf_expect_throw();
    if (arrays == 2) call(module.c_str(), s.name, {place ? fine : bad, place ? bad : fine});
    else if (s.extras == 0) call(module.c_str(), s.name, {bad});
    else if (s.extras < 0 || s.extras == 1) call(module.c_str(), s.name, {bad, extra});
    else if (s.extras == 2) call(module.c_str(), s.name, {bad, extra, extra});
    else call(module.c_str(), s.name, {bad, extra, extra, extra});
    vf_fail("an array the function cannot take is refused");
}
int from(const char* module, const char* name) {
    for (int i = 0; i < SHAPES; ++i)
        if (std::strcmp(shapes[i].module, module) == 0 && std::strcmp(shapes[i].name, name) == 0) return i;
    return -1;
}
}
H(c35_refused_algorithm) {
    py_algorithm::add_algorithm_package();
    refusal(0, from("converter", "peak2peak"), arr(vec(2, 1.0)));
}
H(c35_refused_converter) {
    py_converter::add_converter_package();
    refusal(from("converter", "peak2peak"), from("statistics", "kurtosis"), arr(vec(2, 1.0)));
}
H(c35_refused_statistics) {
    py_statistics::add_statistics_package();
    refusal(from("statistics", "kurtosis"), from("spectral", "conv"), arr(vec(2, 1.0)));
}
H(c35_refused_spectral) {
    py_spectral::add_spectral_package();
    refusal(from("spectral", "conv"), from("temporal", "duration"), arr(vec(2, 1.0)));
}
H(c35_refused_temporal) {
    py_feature_temporal::add_feature_temporal_package();
    refusal(from("temporal", "duration"), from("statistics", "centroid"), arr(vec(2, 1.0)));
}
H(c35_refused_features) {
    py_feature_statistics::add_feature_statistics_package();
    py_feature_spectral::add_feature_spectral_package();
    refusal(from("statistics", "centroid"), SHAPES, arr(vec(2, 1.0)));
}
H(c35_refused_filters) {
    py_filter::add_filter_package();
    const char* const names[] = {"MovingMedianFilter", "MovingAverageFilter", "MovingRmsFilter"};
    const value f = vfpy::make("pedsp.filter", names[vf_pick("which", 0, 2)], {num(2)});
    const value bad = odd_array((int) vf_pick("kind", 0, 6), false);
    vf_expect_throw();
    vfpy::on(f, "filter", {bad});
    vf_fail("an array the function cannot take is refused");
}
H(c35_refused_sizes) {  // a negative number of elements is an error of the caller, not the end of the interpreter
    const int which = (int) vf_pick("which", 0, 6);
    value g;
    if (which < 2) py_algorithm::add_algorithm_package();
    else if (which < 6) py_auditory::add_auditory_package();
    else py_windowing::add_windowing_package();
    const char* const names[] = {"linspace", "logspace", "erbspace", "barkspace", "centspace", "melspace"};
    vf_expect_throw();
    if (which < 6) call(which < 2 ? "pedsp.algorithm" : "pedsp.auditory", names[which], {num(1), num(2), count(-1)});
    else call("pedsp.windowing", "hanning", {count(-1)});
    vf_fail("a negative size is refused");
}
namespace {
value farr(const std::vector<float>& x) {
    const long n = (long) x.size();
    auto* a      = vfpy::make_array(vfpy::f32, 1, &n, false);
    for (size_t i = 0; i < x.size(); ++i) ((float*) a->bytes)[i] = x[i];
    value v;
    v.what = vfpy::array;
    v.a    = a;
    return v;
}
}
H(c35_decoder) {
    py_io::add_io_package();
    auto& f = vf::files[0];
    f.exists = true;
    f.channels = (int) vf_pick("channels", 1, 2);
    f.rate = 8000;
    const int frames = (int) vf_pick("frames", 0, 3);
    for (int i = 0; i < frames * f.channels; ++i) f.data.push_back(vf::cell::of(vf_float("sample", -1, 1)));
    const value d = vfpy::make("pedsp.io", "Decoder", {});
    const bool open = vf_pick("open", 0, 1) != 0;
    if (open) vfpy::on(d, "open", {vfpy::to("a")});
    is_int(vfpy::on(d, "is_open", {}), open);
    if (open) {
        is_number(vfpy::on(d, "channels", {}), f.channels);
        is_number(vfpy::on(d, "samplerate", {}), 8000);
        is_number(vfpy::on(d, "frames", {}), frames);
    }
    size_t at = 0;
    for (int k = 0; k < 2; ++k) {
        const size_t n = (size_t) vf_pick("n", 0, 5);
        const value r = vfpy::on(d, "read", {count((long) n)});
        size_t want = !open ? 0 : std::min(n - n % (size_t) f.channels, f.data.size() - at);
        vf_assert(r.what == vfpy::array && r.a->type == vfpy::f32 && r.a->nd == 1, "the samples read are returned");
        vf_assert((size_t) r.a->shape[0] == want, "as many samples as were read");
        for (size_t i = 0; i < want; ++i) vf_same(((const float*) r.a->bytes)[i], f.data[at + i].d, "the samples of the file");
        at += want;
    }
    vfpy::on(d, "close", {});
    is_int(vfpy::on(d, "is_open", {}), 0);
}
H(c35_encoder) {
    py_io::add_io_package();
    const int ch = (int) vf_pick("channels", 1, 2), n = (int) vf_pick("frames", 1, 3) * ch;
    const value e = vfpy::make("pedsp.io", "Encoder", {count(8000), count(ch)});
    is_number(vfpy::on(e, "channels", {}), ch);
    is_number(vfpy::on(e, "samplerate", {}), 8000);
    vfpy::on(e, "open", {vfpy::to("b")});
    vf_assume(vfpy::on(e, "is_open", {}).i != 0);
    std::vector<float> x((size_t) n);
    for (auto& s : x) s = vf_float("sample", -1, 1);
    is_number(vfpy::on(e, "write", {farr(x)}), n);
    vfpy::on(e, "close", {});
    auto& f = vf::files[1];
    vf_assert(f.channels == ch && f.rate == 8000 && f.data.size() == (size_t) n, "the file holds what was written");
    for (size_t i = 0; i < (size_t) n; ++i) vf_same(f.data[i].d, x[i], "the file holds what was written");
}
H(c35_resampler) {
    py_io::add_io_package();
    const int ch = (int) vf_pick("channels", 1, 3), frames = (int) vf_pick("frames", 1, 2);
    const float ratio = 0.5f * (float) vf_pick("ratio", 1, 4);
    const char* const names[] = {"Linear", "MediumQuality", "BestQuality", "Fastest", "ZeroOrderHold"};
    const int types[] = {SRC_LINEAR, SRC_SINC_MEDIUM_QUALITY, SRC_SINC_BEST_QUALITY, SRC_SINC_FASTEST, SRC_ZERO_ORDER_HOLD};
    const int q = (int) vf_pick("quality", 0, 4);
    long quality = -1;
    for (auto& e : vfpy::enumerators()) if (e.type == "ResampleQuality" && e.name == names[q]) quality = e.v;
    const value r = vfpy::make("pedsp.io", "Resampler", {count(ch), count(quality), num(ratio)});
    vf_assert(states[0].converter == types[q], "the converter of that quality");
    is_int(vfpy::on(r, "quality", {}), quality);
    is(vfpy::on(r, "ratio", {}), ratio);
    is_int(vfpy::on(r, "error", {}), 0);
    is_int(vfpy::on(r, "valid_ratio", {num(ratio)}), 1);
    const value out = vfpy::on(r, "process", {farr(std::vector<float>((size_t) (frames * ch), 0.5f))});
    vf_assert(last.input_frames == frames, "the whole block is given to the engine");
    vf_assert(out.what == vfpy::tuple && out.items.size() == 2, "the samples and the frames consumed are returned");
    const value& a = out.items[0];
    vf_assert(a.what == vfpy::array && a.a->type == vfpy::f32, "the samples are returned");
    long n = 1;
    for (int i = 0; i < a.a->nd; ++i) n *= a.a->shape[i];
    vf_assert(n == generated * ch, "as many samples as were produced");
    for (long i = 0; i < n; ++i) vf_same(((const float*) a.a->bytes)[i], (float) (100 + i), "the samples produced");
    is_int(out.items[1], used);
}
H(c35_refused_io) {
    py_io::add_io_package();
    const int which = (int) vf_pick("which", 0, 1), kind = (int) vf_pick("kind", 0, 4);
    value o;
    if (which) o = vfpy::make("pedsp.io", "Resampler", {count(1), count(0), num(1)});
    else {
        o = vfpy::make("pedsp.io", "Encoder", {count(8000), count(1)});
        vfpy::on(o, "open", {vfpy::to("b")});
    }
    long shape[2] = {2, 2};
    const vfpy::element types[] = {vfpy::f32, vfpy::f32, vfpy::f64, vfpy::f32, vfpy::c64};
    auto* a = vfpy::make_array(types[kind], kind == 0 ? 2 : kind == 1 ? 0 : 1, shape, true);
    if (kind == 3) a->strides[0] *= 2;
    value bad;
    bad.what = vfpy::array;
    bad.a    = a;
    vf_expect_throw();
    vfpy::on(o, which ? "process" : "write", {bad});
    vf_fail("an array the function cannot take is refused");
}
H(c35_metadata) {
    py_io::add_io_package();
    auto& d = TagLib::vf_disk::one();
    d.path = "song", d.title = "t", d.artist = "ar", d.album = "al", d.genre = "g";
    d.year = (unsigned) vf_int("year", 0, 4294967295ll);
    d.track = (unsigned) vf_int("track", 0, 4294967295ll);
    d.readable = vf_pick("readable", 0, 1) != 0;
    const value m = vfpy::make("pedsp.io", "MetaDataReader", {vfpy::to("song")});
    is_text(vfpy::on(m, "title", {}), d.readable ? "t" : "");
    is_text(vfpy::on(m, "artist", {}), d.readable ? "ar" : "");
    is_text(vfpy::on(m, "album", {}), d.readable ? "al" : "");
    is_text(vfpy::on(m, "genre", {}), d.readable ? "g" : "");
    is_int(vfpy::on(m, "year", {}), d.readable ? (long) d.year : 0);
    is_int(vfpy::on(m, "track", {}), d.readable ? (long) d.track : 0);
}
//@ mode=fp
H(c35_arrays_wide) { vf_wide = 1; vf_wide_most = 24; c35_arrays(); }
//@ mode=fp
H(c35_search_wide) { vf_wide = 1; vf_wide_most = 24; c35_search(); }
//@ mode=fp
H(c35_pad_wide) { vf_wide = 1; vf_wide_most = 24; c35_pad(); }
H(c35_spaces_wide) { vf_wide = 1; vf_wide_most = 24; c35_spaces(); }
H(c35_converter_wide) { vf_wide = 1; vf_wide_most = 24; c35_converter(); }
H(c35_statistics_wide) { vf_wide = 1; vf_wide_most = 24; c35_statistics(); }
H(c35_windows_wide) { vf_wide = 1; vf_wide_most = 24; c35_windows(); }
H(c35_spectral_wide) { vf_wide = 1; vf_wide_most = 17; c35_spectral(); }
H(c35_temporal_wide) { vf_wide = 1; vf_wide_most = 17; c35_temporal(); }
H(c35_features_wide) { vf_wide = 1; vf_wide_most = 24; c35_features(); }
H(c35_spectrals_wide) { vf_wide = 1; vf_wide_most = 17; c35_spectrals(); }
H(c35_filters_wide) { vf_wide = 1; vf_wide_most = 24; c35_filters(); }
