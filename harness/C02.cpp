//@file bounds="capacity 1..4 and 9, every fill level and start offset, arbitrary double elements; histories of 3 (thorough 4) operations on two buffers (push, pop, swap, move out and back, move across, resize) with elements that track their own lifetime; resizing from 1..4 and 9 to 1..6 and 12"
#include "vf.hpp"
#include <edsp/types/ring_buffer.hpp>
#include <edsp/types/fixed_ring_buffer.hpp>
namespace {
template <typename R> void fill(R& r, std::vector<double>& m, int cap) {
    int s = (int) vf_pick("start", 0, cap - 1);
    for (int i = 0; i < s; ++i) { r.push_back(0.0); r.pop_front(); }
    int k = (int) vf_pick("fill", 0, cap);
    for (int i = 0; i < k; ++i) { double x = vf_anydouble("e"); r.push_back(x); m.push_back(x); }
}
template <typename R> void same(const R& r, const std::vector<double>& m, std::size_t cap) {
    vf_assert(r.size() == m.size(), "size after transfer");
    vf_assert(r.capacity() == cap, "capacity after transfer");
    for (std::size_t i = 0; i < m.size(); ++i) vf_same(r[i], m[i], "contents after transfer");
}
template <typename R> void usable(R& r, std::vector<double> m, std::size_t cap) {
    double x = vf_anydouble("x");
    r.push_back(x);
    if (m.size() == cap) m.erase(m.begin());
    m.push_back(x);
    same(r, m, cap);
}
template <std::size_t N> void fixed_move() {
    typedef edsp::fixed_ring_buffer<double, N> R;
    std::vector<double> m, other;
    R a;
    fill(a, m, N);
    if (vf_pick("assign", 0, 1)) {
        R b;
        b.push_back(1.0);
        b = std::move(a);
        a.push_back(7.0);          // reusing the source must not be visible in the destination
        same(b, m, N);
        usable(b, m, N);
    } else {
        R b(std::move(a));
        a.push_back(7.0);
        same(b, m, N);
        usable(b, m, N);
    }
}
template <typename R> R make(int cap, std::vector<double>& m) {
    R r(cap);
    for (int i = 0; i < cap; ++i) { double x = vf_anydouble("e"); r.push_back(x); m.push_back(x); }
    return r;
}
}
//@ mode=fp
H(c02_ring_move) {
    int cap = vf_len("cap", 1, 4, {9});
    std::vector<double> m;
    edsp::ring_buffer<double> a(cap);
    fill(a, m, cap);
    if (vf_pick("assign", 0, 1)) {
        int c2 = (int) vf_pick("cap2", 1, 3);
        edsp::ring_buffer<double> b(c2);
        b.push_back(1.0);
        b = std::move(a);
        same(b, m, cap);
        usable(b, m, cap);
    } else {
        edsp::ring_buffer<double> b(std::move(a));
        same(b, m, cap);
        usable(b, m, cap);
    }
}
//@ mode=fp
H(c02_ring_outlives_source) {
    std::vector<double> m;
    int cap = vf_len("cap", 1, 3, {17, 40});
    edsp::ring_buffer<double> b(1);
    { b = make<edsp::ring_buffer<double>>(cap, m); }
    same(b, m, cap);
    usable(b, m, cap);
}
//@ mode=fp
H(c02_ring_source_reusable) {
    // the moved-from buffer can be resized and used again without disturbing the destination
    std::vector<double> m, m2;
    int cap = (int) vf_pick("cap", 1, 3);
    edsp::ring_buffer<double> a(cap);
    fill(a, m, cap);
    edsp::ring_buffer<double> b(std::move(a));
    int nc = (int) vf_pick("nc", 1, 4);
    a.resize(nc);
    for (int i = 0; i < 3; ++i) { double x = vf_anydouble("y"); a.push_back(x); m2.push_back(x); if ((int) m2.size() > nc) m2.erase(m2.begin()); }
    same(a, m2, nc);
    same(b, m, cap);
}
//@ mode=fp
H(c02_two_buffers_independent) {
    int cap = (int) vf_pick("cap", 1, 3);
    std::vector<double> ma, mb;
    edsp::ring_buffer<double> a(cap), b(cap);
    edsp::fixed_ring_buffer<double, 2> f, g;
    std::vector<double> mf, mg;
    for (int i = 0; i < 4; ++i) {
        double x = vf_anydouble("x"), y = vf_anydouble("y");
        a.push_back(x); ma.push_back(x); if ((int) ma.size() > cap) ma.erase(ma.begin());
        b.push_back(y); mb.push_back(y); if ((int) mb.size() > cap) mb.erase(mb.begin());
        f.push_back(y); mf.push_back(y); if (mf.size() > 2) mf.erase(mf.begin());
        g.push_back(x); mg.push_back(x); if (mg.size() > 2) mg.erase(mg.begin());
    }
    same(a, ma, cap); same(b, mb, cap); same(f, mf, 2); same(g, mg, 2);
}
//@ mode=fp
H(c02_fixed_move) {
    switch (vf_pick("N", 1, 4)) {
        case 1: fixed_move<1>(); break;
        case 2: fixed_move<2>(); break;
        case 4: fixed_move<9>(); break;
        default: fixed_move<3>(); break;
    }
}
//@ mode=fp
H(c02_fixed_outlives_source) {
    typedef edsp::fixed_ring_buffer<double, 3> R;
    std::vector<double> m;
    std::unique_ptr<R> b;
    {
        std::unique_ptr<R> a(new R);
        fill(*a, m, 3);
        b.reset(new R(std::move(*a)));
    }
    same(*b, m, 3);
    usable(*b, m, 3);
}
namespace {
#ifdef VF_THOROUGH
constexpr int STEPS = 4;
#else
constexpr int STEPS = 3;
#endif
// an element that knows whether it is alive
struct tracked {
    static int live;
    static bool broken;
    double v;
    const tracked* self;
    tracked(double x = 0) : v(x), self(this) { ++live; }
    tracked(const tracked& o) : v(o.v), self(this) { if (o.self != &o) broken = true; ++live; }
    tracked& operator=(const tracked& o) { if (o.self != &o || self != this) broken = true; v = o.v; return *this; }
    ~tracked() { if (self != this) broken = true; self = nullptr; --live; }
};
int tracked::live = 0;
bool tracked::broken = false;
struct model { std::vector<double> m; int cap; bool valid; };
template <typename R> void agree(const R& r, const model& m) {
    if (!m.valid) return;
    vf_assert((int) r.size() == (int) m.m.size(), "size along the history");
    vf_assert((int) r.capacity() == m.cap, "capacity along the history");
    vf_assert(r.empty() == m.m.empty() && r.full() == ((int) m.m.size() == m.cap), "empty and full along the history");
    int i = 0;
    for (const auto& e : r) { vf_same(e.v, m.m[i], "contents along the history"); ++i; }
}
template <typename R> void put(R& r, model& m, double x) {
    r.push_back(tracked(x));
    if ((int) m.m.size() == m.cap) m.m.erase(m.m.begin());
    m.m.push_back(x);
}
void set(edsp::ring_buffer<tracked>& r, model& m, int n) { r.resize(n); m.cap = n; m.m.clear(); m.valid = true; }
void set(edsp::fixed_ring_buffer<tracked, 2>& r, model& m, int) { while (!r.empty()) r.pop_front(); m.m.clear(); m.valid = true; }
// two buffers, any operations on either or between them; then one of them dies
template <typename R> void history(R* a, R* b, model ma, model mb) {
    for (int i = 0; i < 2; ++i) { put(*a, ma, vf_anydouble("a")); put(*b, mb, vf_anydouble("b")); }
    put(*a, ma, vf_anydouble("a"));
    for (int s = 0; s < STEPS; ++s) {
        switch (vf_pick("operation", 0, 6)) {
            case 0: if (ma.valid) put(*a, ma, vf_anydouble("x")); break;
            case 1: if (mb.valid && !mb.m.empty()) { b->pop_back(); mb.m.pop_back(); } break;
            case 2: std::swap(*a, *b); std::swap(ma, mb); break;
            case 3: if (ma.valid) { *b = std::move(*a); mb = ma; ma.valid = false; } break;
            case 4: set(*a, ma, 4); break;
            case 5: set(*b, mb, 1); break;
            default: if (ma.valid) { R t(std::move(*a)); agree(t, ma); *a = std::move(t); } break;
        }
        agree(*a, ma);
        agree(*b, mb);
    }
    delete a;
    if (mb.valid) put(*b, mb, vf_anydouble("x"));
    agree(*b, mb);
    delete b;
    vf_assert(tracked::live == 0 && !tracked::broken, "every element is destroyed exactly once");
}
}
//@ mode=fp
H(c02_ring_history) {
    const int ca = (int) vf_pick("cap", 1, 3);
    typedef edsp::ring_buffer<tracked> R;
    history(new R(ca), new R(2), model{{}, ca, true}, model{{}, 2, true});
}
//@ mode=fp
H(c02_fixed_history) {
    typedef edsp::fixed_ring_buffer<tracked, 2> R;
    history(new R, new R, model{{}, 2, true}, model{{}, 2, true});
}
// the capacity is the one asked for, larger or smaller, and the buffer begins empty
//@ mode=fp
H(c02_ring_resize) {
    const int cap = vf_len("cap", 1, 4, {9}), nc = vf_len("new", 1, 6, {12});
    std::vector<double> m, none;
    edsp::ring_buffer<double> r(cap);
    fill(r, m, cap);
    r.resize(nc);
    same(r, none, nc);
    for (int i = 0; i < nc + 1; ++i) { usable(r, none, nc); none.clear(); for (double v : r) none.push_back(v); }
    // and again from the new one
    r.resize(2);
    none.clear();
    same(r, none, 2);
    usable(r, none, 2);
}
//@ mode=fp
H(c02_self_swap) {
    std::vector<double> m;
    edsp::ring_buffer<double> r(3);
    fill(r, m, 3);
    std::swap(r, r);
    same(r, m, 3);
    usable(r, m, 3);
}
