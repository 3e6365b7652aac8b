//@file bounds="1..6 samples (thorough 8), window 1..4 (7, 8, 13 around one arbitrary sample in a signal of up to 33), every history of 3 samples, blocks, resets and resizes, samples are arbitrary reals in [-1000,1000]"
#include "vf.hpp"
#include <edsp/filter/moving_median_filter.hpp>
#include <edsp/statistics/median.hpp>
namespace {
// characterisation of the median without sorting
void is_median(const double* x, int n, double m, const char* key) {
    int lt = 0, le = 0;
    bool odd = n % 2 == 1;
    if (odd) {
        bool member = false;
        for (int i = 0; i < n; ++i) { lt += x[i] < m; le += x[i] <= m; member = member | (x[i] == m); }
        vf_assert(member & (lt <= n / 2) & (le >= n / 2 + 1), key);
        return;
    }
    // even: mean of the two middle order statistics
    std::vector<double> s(x, x + n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j + 1 < n - i; ++j) {
            double a = s[j], b = s[j + 1];
            s[j] = a < b ? a : b;
            s[j + 1] = a < b ? b : a;
        }
    vf_close(m, (s[n / 2 - 1] + s[n / 2]) / 2, 1e-7, key);
}
}
#ifdef VF_THOROUGH
#define MN 7
#else
#define MN 5
#endif
H(c05_median) {
    int n = (int) vf_pick("n", 1, MN);
    std::vector<double> x(n);
    vf_fill(x, "x", -1000, 1000);
    const std::vector<double> c = x;
    double m = edsp::statistics::median(c.begin(), c.end());
    vf_observe("m", m);
    is_median(x.data(), n, m, "median of the range");
}
H(c05_moving) {
    int n = (int) vf_pick("n", 1, 4);
    edsp::filter::moving_median<double> f(n);
    vf_assert(f.size() == (std::size_t) n, "size is the window length");
    std::vector<double> x(4 + n, 0.0);
    for (int i = 0; i < 4; ++i) {
        x[n + i] = vf_double("x", -1000, 1000);
        double m = f(x[n + i]);
        is_median(x.data() + i + 1, n, m, "median of the last n samples (zeros before the first)");
    }
}
H(c05_reset) {
    int n = (int) vf_pick("n", 1, 3);
    int op = (int) vf_pick("resize", 0, 1);
    edsp::filter::moving_median<double> f(n);
    for (int i = 0; i < 2; ++i) f(vf_double("y", -1000, 1000));
    if (op) { n = (int) vf_pick("n2", 1, 3); f.resize(n); } else f.reset();
    vf_assert(f.size() == (std::size_t) n, "size after reset/resize");
    std::vector<double> x(3 + n, 0.0);
    for (int i = 0; i < 3; ++i) {
        x[n + i] = vf_double("x", -1000, 1000);
        double m = f(x[n + i]);
        is_median(x.data() + i + 1, n, m, "after reset/resize the filter is as newly made");
    }
}
H(c05_block) {
    int n = (int) vf_pick("n", 1, 3);
    std::vector<double> x(3 + n, 0.0), y(3, -1);
    for (int i = 0; i < 3; ++i) x[n + i] = vf_double("x", -1000, 1000);
    edsp::filter::moving_median<double> f(n);
    f.filter(x.begin() + n, x.end(), y.begin());
    for (int i = 0; i < 3; ++i) is_median(x.data() + i + 1, n, y[i], "block filtering");
    for (int i = 0; i < 3; ++i) y[i] = x[n + i];
    f.reset();
    f.filter(y.begin(), y.end(), y.begin());
    for (int i = 0; i < 3; ++i) is_median(x.data() + i + 1, n, y[i], "in-place filtering");
}
namespace {
// a long signal of concrete, scattered values with arbitrary samples in between
double scattered(int i) { return ((i * 37 + 11) % 64) - 31.5 + (i % 3 == 0 ? (i % 5) : 0); }
}
H(c05_moving_wide) {
    static const int windows[3] = {7, 8, 13};
    const int n = windows[vf_pick("w", 0, 2)], at = n + (int) vf_pick("at", 0, 1) * 5;
    edsp::filter::moving_median<double> f(n);
    std::vector<double> x(n, 0.0);
    for (int i = 0; i < n + 20; ++i) {
        x.push_back(i == at ? vf_double("x", -100, 100) : scattered(i));
        const double m = f(x.back());
        const double* w = x.data() + i + 1;
        if (i < at || i >= at + n) { std::vector<double> s(w, w + n); std::sort(s.begin(), s.end()); vf_close(m, n % 2 ? s[n / 2] : (s[n / 2 - 1] + s[n / 2]) / 2, 1e-9, "median of a wide window"); }
        else if ((i - at) % 2 == 0) {
            // the other samples in order; the arbitrary one clamped between the neighbours of the middle
            std::vector<double> s;
            for (int k = 0; k < n; ++k) if (i + 1 + k != at + n) s.push_back(w[k]);
            std::sort(s.begin(), s.end());
            const double v = x[at + n], lo = n % 2 ? s[n / 2 - 1] : s[n / 2 - 2], hi = s[n / 2], c = v < lo ? lo : v > hi ? hi : v;
            vf_close(m, n % 2 ? c : (c + s[n / 2 - 1]) / 2, 1e-9, "median of a wide window around any sample");
        }
    }
}
H(c05_median_wide) {
    const int n = (int) vf_pick("n", 20, 21), at = (int) vf_pick("at", 0, 2) * 9;
    std::vector<double> x(n);
    for (int i = 0; i < n; ++i) x[i] = i == at ? vf_double("x", -100, 100) : i % 2 ? scattered(i) : scattered(i / 4);
    is_median(x.data(), n, edsp::statistics::median(x.begin(), x.end()), "median of a long range");
}
H(c05_history) {
    int n = (int) vf_pick("n", 1, 2);
    edsp::filter::moving_median<double> f(n);
    std::vector<double> x(n, 0.0);
    for (int k = 0; k < 3; ++k) {
        const int op = (int) vf_pick("op", 0, 3);
        if (op == 0) { f.reset(); x.assign(n, 0.0); }
        else if (op == 1) { n = n % 3 + 1; f.resize(n); x.assign(n, 0.0); }
        else {
            const int c = op == 2 ? 1 : 2;
            std::vector<double> in(c), out(c);
            vf_fill(in, "x", -1000, 1000);
            if (c == 1) out[0] = f(in[0]);
            else f.filter(in.begin(), in.end(), out.begin());
            for (int i = 0; i < c; ++i) {
                x.push_back(in[i]);
                is_median(x.data() + x.size() - n, n, out[i], "median since the last reset, in any history");
            }
        }
        vf_assert(f.size() == (std::size_t) n, "window length in any history");
    }
}
H(c05_float) {
    int n = (int) vf_pick("n", 1, 3);
    edsp::filter::moving_median<float> f(n);
    std::vector<double> x(n, 0.0);
    for (int i = 0; i < 3; ++i) {
        const float v = vf_float("x", -100, 100);
        x.push_back(v);
        is_median(x.data() + i + 1, n, f(v), "median (float)");
    }
}
