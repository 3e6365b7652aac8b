// Harness API.  In the symbolic build these are intrinsics of the executor; in the native (replay) build they are
// implemented by vf_native.cpp, which reads the inputs of a counterexample from a file.
#ifndef VF_HPP
#define VF_HPP
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <string>
#include <vector>
extern "C" {
double vf_double(const char* name, double lo, double hi);   // any finite value in [lo,hi]
float vf_float(const char* name, float lo, float hi);
double vf_anydouble(const char* name);                      // any double at all
float vf_anyfloat(const char* name);
std::int64_t vf_int(const char* name, std::int64_t lo, std::int64_t hi);   // symbolic integer
std::int64_t vf_pick(const char* name, std::int64_t lo, std::int64_t hi);  // case-split integer
void vf_assume(bool);
void vf_assert(bool, const char* key);
void vf_close(double a, double b, double tol, const char* key);  // |a-b| <= tol (abs; native: tol*(1+|b|))
void vf_same(double a, double b, const char* key);               // identical (all NaNs equal)
void vf_reach(const char* label);
void vf_observe(const char* label, double v);
void vf_observe_int(const char* label, std::int64_t v);
void vf_fail(const char* key);
std::int64_t vf_heap_live();
void vf_expect_throw();                                          // from here on an exception is the correct outcome
}
#define H(name) extern "C" __attribute__((noinline, used)) void name()
template <typename V> inline void vf_fill(V& v, const char* name, double lo, double hi) {
    for (auto& x : v) x = static_cast<typename std::decay<decltype(x)>::type>(vf_double(name, lo, hi));
}
template <typename V> inline void vf_fillany(V& v, const char* name) {
    for (auto& x : v) x = vf_anydouble(name);
}
// a length: lo..hi, or one of a few larger ones
inline int vf_len(const char* name, int lo, int hi, std::initializer_list<int> larger) {
    const int k = (int) vf_pick(name, lo, hi + (int) larger.size());
    return k <= hi ? k : larger.begin()[k - hi - 1];
}
constexpr double VF_PI = 3.14159265358979323846;
// Wide runs: the same property over long signals, where all samples but vf_wide of them are fixed. A harness sets
// vf_wide and calls the narrow one, whose sizes and samples come from vf_size and vf_samples.
static int vf_wide = 0, vf_wide_most = 40, vf_wide_far = 130;
inline int vf_size(const char* name, int lo, int hi) {
    if (!vf_wide) return (int) vf_pick(name, lo, hi);
    if (vf_wide_most == 40 && vf_wide_far) {
        const int k = (int) vf_pick("wide", 0, 2);
        return k == 0 ? 17 : k == 1 ? 40 : vf_wide_far;
    }
    return vf_wide_most > 17 && vf_pick("wide", 0, 1) ? vf_wide_most : 17;
}
// fixed values that repeat with no small period, spread over [lo, hi]
template <typename V> inline void vf_background(V& v, double lo, double hi) {
    unsigned i = 0;
    for (auto& e : v) { e = lo + (hi - lo) * ((i * i * 7 + i * 37 + 11) % 64) / 64; ++i; }
}
template <typename V> inline void vf_samples(V& v, const char* name, double lo, double hi) {
    if (!vf_wide) return vf_fill(v, name, lo, hi);
    vf_background(v, lo, hi);
    const int n = (int) v.size(), k = (int) vf_pick("place", 0, 2);
    for (int j = 0; j < vf_wide && j < n; ++j) v[(k == 0 ? j : k == 1 ? n / 2 + j : n - 1 - j)] = vf_double(name, lo, hi);
}
#endif
