//@file bounds="window 1..6, 17, 33, 64, 100 and 128 over up to three window lengths; every history of 4 samples, blocks, resets and resizes, samples in [-1000,1000], every split of the calls, reset/resize at every position"
#include "vf.hpp"
#include <edsp/filter/moving_average_filter.hpp>
namespace {
double ref(const std::vector<double>& x, int i, int n) {
    double s = 0;
    for (int k = 0; k < n; ++k) if (i - k >= 0) s += x[i - k];
    return s / n;
}
}
H(c03_average) {
    int n = (int) vf_pick("n", 1, 6);
    edsp::filter::moving_average<double> m(n);
    vf_assert(m.size() == (std::size_t) n, "size is the window length");
    std::vector<double> x(14);
    vf_fill(x, "x", -1000, 1000);
    for (int i = 0; i < 14; ++i) {
        double y = m(x[i]);
        vf_close(y, ref(x, i, n), 1e-7, "mean of the last n samples (zeros before the first)");
        vf_observe("y", y);
    }
}
H(c03_average_large) {
    int n = vf_pick("w", 0, 1) ? 33 : 17;
    edsp::filter::moving_average<double> m(n);
    std::vector<double> x(80);
    vf_fill(x, "x", -1000, 1000);
    for (int i = 0; i < 80; ++i) {
        double y = m(x[i]);
        if (i % 7 == 3 || i > 74) vf_close(y, ref(x, i, n), 1e-6, "mean of the last n samples, long window");
    }
}
H(c03_reset) {
    int n = (int) vf_pick("n", 1, 4);
    int at = (int) vf_pick("at", 0, 6);
    edsp::filter::moving_average<double> m(n);
    std::vector<double> x(at), z(6);
    vf_fill(x, "x", -1000, 1000);
    vf_fill(z, "z", -1000, 1000);
    for (double v : x) m(v);
    m.reset();
    vf_assert(m.size() == (std::size_t) n, "reset keeps the window length");
    for (int i = 0; i < 6; ++i) vf_close(m(z[i]), ref(z, i, n), 1e-7, "after reset the filter is as newly made");
}
H(c03_resize) {
    int n = (int) vf_pick("n", 1, 3);
    int n2 = (int) vf_pick("n2", 1, 5);
    int at = (int) vf_pick("at", 0, 4);
    edsp::filter::moving_average<double> m(n);
    std::vector<double> x(at), z(7);
    vf_fill(x, "x", -1000, 1000);
    vf_fill(z, "z", -1000, 1000);
    for (double v : x) m(v);
    m.resize(n2);
    vf_assert(m.size() == (std::size_t) n2, "resize sets the window length");
    for (int i = 0; i < 7; ++i) vf_close(m(z[i]), ref(z, i, n2), 1e-7, "after resize the filter is as newly made with the new length");
}
H(c03_chunks) {
    // filtering a block equals filtering it in two consecutive pieces and equals sample by sample calls
    int n = (int) vf_pick("n", 1, 4);
    int cut = (int) vf_pick("cut", 0, 6);
    std::vector<double> x(6), a(6, -1), b(6, -1);
    vf_fill(x, "x", -1000, 1000);
    edsp::filter::moving_average<double> m(n), k(n);
    m.filter(x.begin(), x.end(), a.begin());
    k.filter(x.begin(), x.begin() + cut, b.begin());
    k.filter(x.begin() + cut, x.end(), b.begin() + cut);
    for (int i = 0; i < 6; ++i) {
        vf_close(a[i], ref(x, i, n), 1e-7, "block filtering");
        vf_close(b[i], a[i], 1e-7, "chunked filtering");
    }
    // in place
    edsp::filter::moving_average<double> q(n);
    std::vector<double> y = x;
    q.filter(y.begin(), y.end(), y.begin());
    for (int i = 0; i < 6; ++i) vf_close(y[i], ref(x, i, n), 1e-7, "in-place filtering");
}
H(c03_average_wide) {
    // long runs over long windows
    static const int windows[3] = {64, 100, 128};
    const int n = windows[vf_pick("w", 0, 2)], len = 3 * n + 20;
    edsp::filter::moving_average<double> m(n);
    std::vector<double> x(len);
    vf_fill(x, "x", -1000, 1000);
    for (int i = 0; i < len; ++i) {
        double y = m(x[i]);
        if (i % 41 == 0 || i > len - 3 || (i >= n - 2 && i < n + 2)) vf_close(y, ref(x, i, n), 1e-6, "mean of the last n samples, wide window");
    }
}
H(c03_history) {
    // any sequence of samples, blocks, resets and new window lengths
    int n = (int) vf_pick("n", 1, 3);
    edsp::filter::moving_average<double> m(n);
    std::vector<double> x;
    for (int k = 0; k < 4; ++k) {
        const int op = (int) vf_pick("op", 0, 4);
        if (op == 0) m.reset(), x.clear();
        else if (op == 1) { n = (n % 3) + 1; m.resize(n); x.clear(); }
        else if (op == 2) { m.resize(n); x.clear(); }
        else {
            const int c = op == 3 ? 1 : 4;
            std::vector<double> in(c), out(c);
            vf_fill(in, "x", -1000, 1000);
            if (c == 1) out[0] = m(in[0]);
            else m.filter(in.begin(), in.end(), out.begin());
            for (int i = 0; i < c; ++i) {
                x.push_back(in[i]);
                vf_close(out[i], ref(x, (int) x.size() - 1, n), 1e-7, "mean since the last reset, in any history");
            }
        }
        vf_assert(m.size() == (std::size_t) n, "window length in any history");
    }
}
H(c03_float) {
    int n = (int) vf_pick("n", 1, 4);
    edsp::filter::moving_average<float> m(n);
    std::vector<double> x(9);
    for (int i = 0; i < 9; ++i) {
        x[i] = vf_float("x", -100, 100);
        vf_close(m((float) x[i]), ref(x, i, n), 1e-2, "mean of the last n samples (float)");
    }
}
H(c03_move) {
    // a moved filter continues; nothing it uses lives in the old object
    int n = (int) vf_pick("n", 1, 4);
    std::unique_ptr<edsp::filter::moving_average<double>> m(new edsp::filter::moving_average<double>(n));
    std::vector<double> x(5);
    vf_fill(x, "x", -1000, 1000);
    for (double v : x) (*m)(v);
    edsp::filter::moving_average<double> c = std::move(*m);
    m.reset();
    vf_assert(c.size() == (std::size_t) n, "a moved filter keeps its window");
    for (int k = 0; k < 5; ++k) {
        x.push_back(vf_double("x", -1000, 1000));
        vf_close(c(x.back()), ref(x, (int) x.size() - 1, n), 1e-7, "a moved filter continues from where it was");
    }
}
