//@file bounds="window 1..5, 17, 24 and 33 over up to two window lengths; every history of 3 samples, blocks, resets and resizes; samples in [-100,100], reset/resize at every position"
#include "vf.hpp"
#include <edsp/filter/moving_rms_filter.hpp>
namespace {
double ref2(const std::vector<double>& x, int i, int n) {   // mean square
    double s = 0;
    for (int k = 0; k < n; ++k) if (i - k >= 0) s += x[i - k] * x[i - k];
    return s / n;
}
void chk(double y, double ms, const char* k) {
    vf_assert(y >= 0, "the output is non-negative");
    vf_close(y * y, ms, 1e-6, k);
}
}
H(c04_rms) {
    int n = (int) vf_pick("n", 1, 5);
    edsp::filter::moving_rms<double> m(n);
    vf_assert(m.size() == (std::size_t) n, "size is the window length");
    std::vector<double> x(9);
    vf_fill(x, "x", -100, 100);
    for (int i = 0; i < 9; ++i) { double y = m(x[i]); vf_observe("y", y); chk(y, ref2(x, i, n), "root mean square of the last n samples"); }
}
H(c04_rms_large) {
    int n = 17;
    edsp::filter::moving_rms<double> m(n);
    std::vector<double> x(40);
    vf_fill(x, "x", -100, 100);
    for (int i = 0; i < 40; ++i) { double y = m(x[i]); if (i % 5 == 1 || i > 36) chk(y, ref2(x, i, n), "root mean square, long window"); }
}
H(c04_reset) {
    int n = (int) vf_pick("n", 1, 3);
    int at = (int) vf_pick("at", 0, 4);
    edsp::filter::moving_rms<double> m(n);
    std::vector<double> x(at), z(5);
    vf_fill(x, "x", -100, 100);
    vf_fill(z, "z", -100, 100);
    for (double v : x) m(v);
    m.reset();
    vf_assert(m.size() == (std::size_t) n, "reset keeps the window length");
    for (int i = 0; i < 5; ++i) chk(m(z[i]), ref2(z, i, n), "after reset the filter is as newly made");
}
H(c04_resize) {
    int n = (int) vf_pick("n", 1, 3);
    int n2 = (int) vf_pick("n2", 1, 4);
    edsp::filter::moving_rms<double> m(n);
    std::vector<double> x(3), z(5);
    vf_fill(x, "x", -100, 100);
    vf_fill(z, "z", -100, 100);
    for (double v : x) m(v);
    m.resize(n2);
    vf_assert(m.size() == (std::size_t) n2, "resize sets the window length");
    for (int i = 0; i < 5; ++i) chk(m(z[i]), ref2(z, i, n2), "after resize the filter is as newly made with the new length");
}
H(c04_chunks) {
    int n = (int) vf_pick("n", 1, 3);
    int cut = (int) vf_pick("cut", 0, 5);
    std::vector<double> x(5), a(5, -1), b(5, -1);
    vf_fill(x, "x", -100, 100);
    edsp::filter::moving_rms<double> m(n), k(n);
    m.filter(x.begin(), x.end(), a.begin());
    k.filter(x.begin(), x.begin() + cut, b.begin());
    k.filter(x.begin() + cut, x.end(), b.begin() + cut);
    for (int i = 0; i < 5; ++i) {
        chk(a[i], ref2(x, i, n), "block filtering");
        chk(b[i], ref2(x, i, n), "chunked filtering");
    }
    std::vector<double> c = x;
    edsp::filter::moving_rms<double> q(n);
    q.filter(c.begin(), c.end(), c.begin());
    for (int i = 0; i < 5; ++i) chk(c[i], ref2(x, i, n), "in-place filtering");
}
H(c04_rms_wide) {
    // long runs over long windows
    static const int windows[2] = {24, 33};
    const int n = windows[vf_pick("w", 0, 1)], len = 2 * n + 5;
    edsp::filter::moving_rms<double> m(n);
    std::vector<double> x(len);
    vf_fill(x, "x", -100, 100);
    for (int i = 0; i < len; ++i) {
        double y = m(x[i]);
        if (i % 41 == 0 || i > len - 3 || (i >= n - 2 && i < n + 2)) chk(y, ref2(x, i, n), "mean square of the last n samples, wide window");
    }
}
H(c04_history) {
    // any sequence of samples, blocks, resets and new window lengths
    int n = (int) vf_pick("n", 1, 3);
    edsp::filter::moving_rms<double> m(n);
    std::vector<double> x;
    for (int k = 0; k < 3; ++k) {
        const int op = (int) vf_pick("op", 0, 4);
        if (op == 0) m.reset(), x.clear();
        else if (op == 1) { n = (n % 3) + 1; m.resize(n); x.clear(); }
        else if (op == 2) { m.resize(n); x.clear(); }
        else {
            const int c = op == 3 ? 1 : 3;
            std::vector<double> in(c), out(c);
            vf_fill(in, "x", -100, 100);
            if (c == 1) out[0] = m(in[0]);
            else m.filter(in.begin(), in.end(), out.begin());
            for (int i = 0; i < c; ++i) {
                x.push_back(in[i]);
                chk(out[i], ref2(x, (int) x.size() - 1, n), "mean square since the last reset, in any history");
            }
        }
        vf_assert(m.size() == (std::size_t) n, "window length in any history");
    }
}
H(c04_float) {
    int n = (int) vf_pick("n", 1, 4);
    edsp::filter::moving_rms<float> m(n);
    std::vector<double> x(7);
    for (int i = 0; i < 7; ++i) {
        x[i] = vf_float("x", -10, 10);
        const double y = m((float) x[i]);
        vf_assert(y >= 0, "the output is non-negative");
        vf_close(y * y, ref2(x, i, n), 1e-1, "mean square of the last n samples (float)");
    }
}
H(c04_move) {
    // a moved filter continues; nothing it uses lives in the old object
    int n = (int) vf_pick("n", 1, 4);
    std::unique_ptr<edsp::filter::moving_rms<double>> m(new edsp::filter::moving_rms<double>(n));
    std::vector<double> x(5);
    vf_fill(x, "x", -100, 100);
    for (double v : x) (*m)(v);
    edsp::filter::moving_rms<double> c = std::move(*m);
    m.reset();
    vf_assert(c.size() == (std::size_t) n, "a moved filter keeps its window");
    for (int k = 0; k < 5; ++k) {
        x.push_back(vf_double("x", -100, 100));
        chk(c(x.back()), ref2(x, (int) x.size() - 1, n), "a moved filter continues from where it was");
    }
}
