//@file bounds="1..4 sections (cascade capacities 1..4; 5..12 concrete sections over 40 samples), every history of 5 operations, arbitrary coefficients in [-2,2] (concrete ones for the 4-section long run), 4..16 samples in [-100,100]"
#include "vf.hpp"
#include <edsp/filter/biquad_cascade.hpp>
#include <edsp/filter/biquad.hpp>
namespace {
using edsp::filter::biquad;
using edsp::filter::biquad_cascade;
biquad<double> any() {
    double a1 = vf_double("a1", -2, 2), a2 = vf_double("a2", -2, 2), b0 = vf_double("b0", -2, 2), b1 = vf_double("b1", -2, 2), b2 = vf_double("b2", -2, 2);
    return biquad<double>(1, a1, a2, b0, b1, b2);
}
biquad<double> some(int k) { return biquad<double>(1 + k, -0.5 + 0.25 * k, 0.25 - 0.125 * k, 1 + k, 0.5 - k, 0.25 * k - 0.5); }
template <typename C> void sections(const C& c, const std::vector<biquad<double>>& s) {
    vf_assert(c.size() == s.size(), "size counts the sections");
    std::size_t i = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++i) {
        vf_assert(i < s.size(), "iteration covers the sections only");
        vf_assert(&*it == &c[i], "iteration visits the sections in order");
        vf_same(it->b0(), s[i].b0(), "section coefficients"); vf_same(it->b1(), s[i].b1(), "section coefficients");
        vf_same(it->b2(), s[i].b2(), "section coefficients"); vf_same(it->a1(), s[i].a1(), "section coefficients");
        vf_same(it->a2(), s[i].a2(), "section coefficients"); vf_same(it->a0(), s[i].a0(), "section coefficients");
    }
    vf_assert(i == s.size(), "iteration covers every section");
    vf_assert((std::size_t)(c.cend() - c.cbegin()) == s.size(), "const iteration covers every section");
}
}
namespace {
template <typename C> void mutable_sections(C& c) {
    std::size_t i = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++i) vf_assert(i < c.size() && &*it == &c[i], "iteration visits the sections in order");
    vf_assert(i == c.size(), "iteration covers every section");
}
}
H(c07_series) {
    // n sections in series: the output is the composition, in insertion order
    int n = (int) vf_pick("n", 0, 2);
    biquad_cascade<double, 3> c;
    std::vector<biquad<double>> s;
    for (int i = 0; i < n; ++i) { s.push_back(any()); c.push_back(s.back()); }
    sections(c, s);
    vf_assert(c.capacity() == 3 && c.max_size() == 3, "capacity");
    double x[3];
    vf_fill(x, "x", -100, 100);
    for (double v : x) {
        double e = v;
        for (auto& f : s) e = f.tick(e);
        vf_close(c.tick(v), e, 1e-7, "series connection");
    }
}
H(c07_full) {
    // every slot of the cascade is usable
    biquad_cascade<double, 4> c;
    std::vector<biquad<double>> s;
    for (int i = 0; i < 4; ++i) {
        s.push_back(some(i));
        if (i & 1) c.emplace_back(1.0 + i, (-0.5 + 0.25 * i), (0.25 - 0.125 * i), 1.0 + i, 0.5 - i, 0.25 * i - 0.5);
        else c.push_back(s.back());
    }
    sections(c, s);
    std::vector<double> x(16);
    vf_fill(x, "x", -100, 100);
    for (double v : x) {
        double e = v;
        for (auto& f : s) e = f.tick(e);
        double y = c.tick(v);
        vf_close(y, e, 1e-6, "series connection of four sections");
        vf_observe("y", y);
    }
}
H(c07_chunks) {
    int cut = (int) vf_pick("cut", 0, 5);
    biquad_cascade<double, 2> c, d, g;
    for (int i = 0; i < 2; ++i) { c.push_back(some(i)); d.push_back(some(i)); g.push_back(some(i)); }
    biquad<double> p = some(0), q = some(1);
    std::vector<double> x(5), y(5, -1), z(5, -1);
    vf_fill(x, "x", -100, 100);
    c.filter(x.begin(), x.end(), y.begin());
    d.filter(x.begin(), x.begin() + cut, z.begin());
    d.filter(x.begin() + cut, x.end(), z.begin() + cut);
    std::vector<double> w = x;
    g.filter(w.begin(), w.end(), w.begin());
    for (int i = 0; i < 5; ++i) {
        double e = q.tick(p.tick(x[i]));
        vf_close(y[i], e, 1e-7, "block");
        vf_close(z[i], e, 1e-7, "two blocks");
        vf_close(w[i], e, 1e-7, "in place");
    }
}
H(c07_reset) {
    int n = (int) vf_pick("n", 1, 3), k = (int) vf_pick("k", 0, 3), sym = (int) vf_pick("any", 0, n - 1);
    biquad_cascade<double, 3> c;
    std::vector<biquad<double>> s;
    for (int i = 0; i < n; ++i) { s.push_back(i == sym ? any() : some(i)); c.push_back(s.back()); }
    double x[3], z[4];
    vf_fill(x, "x", -100, 100);
    vf_fill(z, "z", -100, 100);
    for (int i = 0; i < k; ++i) c.tick(x[i]);
    c.reset();
    vf_assert(c.size() == (std::size_t) n, "reset keeps the sections");
    for (double v : z) {
        double e = v;
        for (auto& f : s) e = f.tick(e);
        vf_close(c.tick(v), e, 1e-7, "after reset the history of every section is empty");
    }
}
H(c07_clear) {
    // clear drops the sections; the cascade can be refilled and does not remember anything
    int n = (int) vf_pick("n", 0, 3), m = (int) vf_pick("m", 0, 3);
    biquad_cascade<double, 3> c;
    std::vector<biquad<double>> s;
    double x[2], z[3];
    vf_fill(x, "x", -100, 100);
    vf_fill(z, "z", -100, 100);
    for (int i = 0; i < n; ++i) c.push_back(i == 0 ? any() : some(i));
    for (double v : x) c.tick(v);
    c.clear();
    vf_assert(c.size() == 0 && c.begin() == c.end(), "clear removes every section");
    for (int i = 0; i < m; ++i) { s.push_back(some(2 - i)); c.push_back(s.back()); }
    sections(c, s);
    mutable_sections(c);
    for (double v : z) {
        double e = v;
        for (auto& f : s) e = f.tick(e);
        vf_close(c.tick(v), e, 1e-7, "a refilled cascade starts afresh; an empty one is the identity");
    }
}
H(c07_access) {
    // writing through operator[] / iterators changes the section that is used
    biquad_cascade<double, 2> c;
    c.push_back(some(0)); c.push_back(some(1));
    biquad<double> f = any();
    int k = (int) vf_pick("k", 0, 1);
    if (vf_pick("how", 0, 1)) c[k] = f; else *(c.begin() + k) = f;
    biquad<double> p = k == 0 ? f : some(0), q = k == 1 ? f : some(1);
    double x[3];
    vf_fill(x, "x", -100, 100);
    for (double v : x) vf_close(c.tick(v), q.tick(p.tick(v)), 1e-7, "replaced section");
    biquad_cascade<double, 2> d = c;
    double y = vf_double("y", -100, 100);
    vf_close(d.tick(y), c.tick(y), 1e-9, "a copy carries the history");
}
H(c07_wide) {
    // many sections, a long signal
    biquad_cascade<double, 12> c;
    const int n = (int) vf_pick("n", 5, 12);
    std::vector<biquad<double>> s;
    for (int i = 0; i < n; ++i) {
        s.push_back(biquad<double>(1, -0.5 + 0.0625 * i, 0.25 - 0.03125 * i, 1, 0.5 - 0.125 * i, 0.125 * i - 0.5));
        c.push_back(s.back());
    }
    sections(c, s);
    std::vector<double> x(40), y(40);
    for (int i = 0; i < 40; ++i) x[i] = i % 4 == 1 ? vf_double("x", -100, 100) : (i * 5) % 9 - 4;
    c.filter(x.begin(), x.end(), y.begin());
    for (int i = 0; i < 40; ++i) {
        double e = x[i];
        for (auto& f : s) e = f.tick(e);
        if (i % 9 == 4 || i > 37) vf_close(y[i], e, 1e-5, "series connection of many sections");
    }
}
H(c07_history) {
    biquad_cascade<double, 3> c;
    std::vector<biquad<double>> s;
    for (int k = 0; k < 5; ++k) {
        switch (vf_pick("op", 0, 3)) {
            case 0: if (s.size() < 3) { s.push_back(some(k)); c.push_back(s.back()); } break;
            case 1: {
                const double x = vf_double("x", -100, 100);
                double e = x;
                for (auto& f : s) e = f.tick(e);
                vf_close(c.tick(x), e, 1e-7, "series connection in any history");
                break;
            }
            case 2: c.reset(); for (auto& f : s) f.reset(); break;
            default: c.clear(); s.clear();
        }
        vf_assert(c.size() == s.size(), "number of sections in any history");
    }
}
