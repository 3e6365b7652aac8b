//@file bounds="symbolic length 1..32 (thorough 1..64) with every sample index; concrete lengths 1..100 (thorough 1..260), 129, 256 and 1001 for symmetry and range; prior buffer contents symbolic; float and double" assume="flat top, Nuttall and Blackman-Harris windows use the published coefficients of scipy.signal"
#include "vf.hpp"
#include <edsp/windowing.hpp>
namespace {
using namespace edsp::windowing;
#ifdef VF_THOROUGH
constexpr int N = 64, M = 260;
#else
constexpr int N = 32, M = 100;
#endif
// sum of cosines: sum_k (-1)^k a_k cos(2 pi k i / (n - 1))
template <int K> double cosines(const double (&a)[K], double i, double n) {
    double s = 0;
    for (int k = 0; k < K; ++k) s += (k % 2 ? -a[k] : a[k]) * std::cos(2 * VF_PI * k * i / (n - 1));
    return s;
}
template <WindowType T> double reference(int i, int n) {
    static const double hamming[] = {0.54, 0.46}, hanning[] = {0.5, 0.5}, blackman[] = {0.42, 0.5, 0.08},
                        harris[] = {0.35875, 0.48829, 0.14128, 0.01168}, nuttall[] = {0.3635819, 0.4891775, 0.1365995, 0.0106411},
                        flattop[] = {0.21557895, 0.41663158, 0.277263158, 0.083578947, 0.006947368};
    if (n == 1) return 1;
    const double h = (n - 1) / 2.0;
    switch (T) {
    case WindowType::Bartlett: return 1 - std::fabs((i - h) / h);
    case WindowType::Blackman: return cosines(blackman, i, n);
    case WindowType::BlackmanHarris: return cosines(harris, i, n);
    case WindowType::BlackmanNuttall: return cosines(nuttall, i, n);
    case WindowType::FlatTop: return cosines(flattop, i, n);
    case WindowType::Hamming: return cosines(hamming, i, n);
    case WindowType::Hanning: return cosines(hanning, i, n);
    case WindowType::Triangular: return 1 - std::fabs((i - h) / ((n + n % 2) / 2.0));
    case WindowType::Welch: return 1 - ((i - h) / h) * ((i - h) / h);
    default: return 1;
    }
}
// the definition, at symbolic length and symbolic position
template <WindowType T> void definition() {
    int n = (int) vf_int("n", 1, N);
    double w[N + 2];
    vf_fill(w, "before", -1e6, 1e6);
    double lo = w[0], hi = w[n + 1];
    make_window<T>(w + 1, w + 1 + n);
    for (int i = 0; i < n; ++i) vf_close(w[i + 1], reference<T>(i, n), 1e-7, "textbook definition");
    vf_same(w[0], lo, "nothing written before the range");
    vf_same(w[n + 1], hi, "nothing written after the range");
}
// symmetric, at most one, and nothing else written, at each length
template <WindowType T> void shape() {
    static const int longer[3] = {129, 256, 1001};
    int n = (int) vf_pick("n", 1, M + 3);
    if (n > M) n = longer[n - M - 1];
    std::vector<double> w(n);
    std::vector<float> f(n);
    vf_fill(w, "before", -1e6, 1e6);
    make_window<T>(w.begin(), w.end());
    make_window<T>(f.begin(), f.end());
    for (int i = 0; i < n; ++i) {
        vf_close(w[i], w[n - 1 - i], 1e-7, "symmetric");
        vf_close(w[i], reference<T>(i, n), 1e-7, "textbook definition (long)");
        vf_close(f[i], reference<T>(i, n), 1e-5, "textbook definition (float)");
        vf_assert(w[i] <= 1 + 1e-7 && w[i] >= -0.1, "within bounds");
    }
    vf_observe("middle", w[n / 2]);
}
}
#define WINDOW(name, T) H(c12_##name) { definition<WindowType::T>(); } H(c12_##name##_shape) { shape<WindowType::T>(); }
WINDOW(bartlett, Bartlett)
WINDOW(blackman, Blackman)
WINDOW(blackman_harris, BlackmanHarris)
WINDOW(blackman_nuttall, BlackmanNuttall)
WINDOW(boxcar, Boxcar)
WINDOW(flattop, FlatTop)
WINDOW(hamming, Hamming)
WINDOW(hanning, Hanning)
WINDOW(rectangular, Rectangular)
WINDOW(triangular, Triangular)
WINDOW(welch, Welch)
