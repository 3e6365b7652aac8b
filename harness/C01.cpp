//@file bounds="capacity 1..4 (thorough 1..8) and, over 400 (thorough 1200) operations, 16, 33, 48, 64, 100, every start offset and fill level, 2 (thorough 3) arbitrary operations from that state, element values are arbitrary 64-bit doubles"
#include "vf.hpp"
#include <edsp/types/ring_buffer.hpp>
#include <edsp/types/fixed_ring_buffer.hpp>
#ifdef VF_THOROUGH
#define MAXCAP 8
#define NOPS 3
#else
#define MAXCAP 4
#define NOPS 2
#endif
namespace {
// reference model: a bounded deque; pushing into a full one overwrites the element at the opposite end
struct model {
    double v[16];
    int n = 0, cap;
    void push_back(double x) {
        if (n == cap) { for (int i = 0; i + 1 < n; ++i) v[i] = v[i + 1]; v[n - 1] = x; }
        else v[n++] = x;
    }
    void push_front(double x) {
        int m = n == cap ? n - 1 : n;
        for (int i = m; i > 0; --i) v[i] = v[i - 1];
        v[0] = x;
        n = m + 1;
    }
    void pop_front() { for (int i = 0; i + 1 < n; ++i) v[i] = v[i + 1]; --n; }
    void pop_back() { --n; }
};
template <typename R> void same(R& r, const model& m) {
    const R& c = r;
    vf_assert(r.size() == (std::size_t) m.n, "size");
    vf_assert(r.capacity() == (std::size_t) m.cap, "capacity");
    vf_assert(r.empty() == (m.n == 0), "empty");
    vf_assert(r.full() == (m.n == m.cap), "full");
    for (int i = 0; i < m.n; ++i) {
        vf_same(r[i], m.v[i], "indexing");
        vf_same(c[i], m.v[i], "const indexing");
    }
    int i = 0;
    for (auto it = r.begin(); it != r.end(); ++it, ++i) { vf_assert(i < m.n, "iteration length"); vf_same(*it, m.v[i], "iteration"); }
    vf_assert(i == m.n, "iteration covers every element");
    i = 0;
    for (auto it = r.cbegin(); it != r.cend(); ++it, ++i) { vf_assert(i < m.n, "const iteration length"); vf_same(*it, m.v[i], "const iteration"); }
    vf_assert(i == m.n, "const iteration covers every element");
    i = m.n;
    for (auto it = r.rbegin(); it != r.rend(); ++it) { --i; vf_assert(i >= 0, "reverse iteration length"); vf_same(*it, m.v[i], "reverse iteration"); }
    vf_assert(i == 0, "reverse iteration covers every element");
    i = m.n;
    for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; vf_assert(i >= 0, "const reverse iteration length"); vf_same(*it, m.v[i], "const reverse iteration"); }
    vf_assert(i == 0, "const reverse iteration covers every element");
    if (m.n > 0) {
        vf_same(r.front(), m.v[0], "front");
        vf_same(c.front(), m.v[0], "const front");
        vf_same(r.back(), m.v[m.n - 1], "back");
        vf_same(c.back(), m.v[m.n - 1], "const back");
        vf_assert(r.end() - r.begin() == m.n, "iterator distance");
    }
}
template <typename R> void op(R& r, model& m, bool symbolic = false) {
    int o = (int) (symbolic ? vf_int("op", 0, 5) : vf_pick("op", 0, 5));
    double x = vf_anydouble("v");
    switch (o) {
        case 0: r.push_back(x); m.push_back(x); break;
        case 1: r.emplace_back(x); m.push_back(x); break;
        case 2: r.emplace_front(x); m.push_front(x); break;
        case 3: if (m.n > 0) { r.pop_front(); m.pop_front(); } break;
        case 4: if (m.n > 0) { r.pop_back(); m.pop_back(); } break;
        default: if (m.n > 0) { std::int64_t k = symbolic ? vf_int("k", 0, m.n - 1) : vf_pick("k", 0, m.n - 1); r[k] = x; m.v[k] = x; } break;
    }
}
// any reachable (start offset, fill level): rotate by s, then fill with k elements
template <typename R> void prestate(R& r, model& m, int cap) {
    int s = (int) vf_pick("start", 0, cap - 1);
    for (int i = 0; i < s; ++i) { r.push_back(0.0); r.pop_front(); }
    int k = (int) vf_pick("fill", 0, cap);
    for (int i = 0; i < k; ++i) { double x = vf_anydouble("e"); r.push_back(x); m.push_back(x); }
}
template <std::size_t N> void fixed() {
    edsp::fixed_ring_buffer<double, N> r;
    model m; m.cap = N;
    prestate(r, m, N);
    vf_assert(r.max_size() == N, "max_size");
    if (vf_pick("clear", 0, 1)) {
        r.clear(); m.n = 0;
        same(r, m);
        r.push_back(1.5); m.push_back(1.5);
        op(r, m);
    } else for (int i = 0; i < NOPS; ++i) op(r, m);
    same(r, m);
}
}
//@ mode=fp
H(c01_ring_ops) {
    int cap = (int) vf_pick("cap", 1, MAXCAP);
    edsp::ring_buffer<double> r(cap);
    model m; m.cap = cap;
    prestate(r, m, cap);
    for (int i = 0; i < NOPS; ++i) op(r, m);
    same(r, m);
}
//@ mode=fp
H(c01_ring_symbolic_index) {
    // the same, with the operation and the index written left to the solver
    edsp::ring_buffer<double> r(3);
    model m; m.cap = 3;
    prestate(r, m, 3);
    op(r, m, true);
    same(r, m);
    if (m.n > 0) {
        std::int64_t k = vf_int("read", 0, m.n - 1);
        vf_same(r[k], m.v[k], "symbolic index");
    }
}
//@ mode=fp
H(c01_ring_overwrite) {
    // a long run of pushes: exactly the last `cap` survive, oldest first
    int cap = (int) vf_pick("cap", 1, 6);
    edsp::ring_buffer<double> r(cap);
    model m; m.cap = cap;
    for (int i = 0; i < 15; ++i) { double x = vf_anydouble("x"); r.push_back(x); m.push_back(x); same(r, m); }
}
//@ mode=fp
H(c01_ring_front_run) {
    int cap = (int) vf_pick("cap", 1, 6);
    edsp::ring_buffer<double> r(cap);
    model m; m.cap = cap;
    for (int i = 0; i < 9; ++i) {
        double x = vf_anydouble("x");
        if (i % 3 == 2) { r.push_back(x); m.push_back(x); } else { r.emplace_front(x); m.push_front(x); }
        same(r, m);
    }
}
//@ mode=fp
H(c01_ring_clear_resize) {
    int cap = (int) vf_pick("cap", 1, 4);
    edsp::ring_buffer<double> r(cap);
    model m; m.cap = cap;
    prestate(r, m, cap);
    if (vf_pick("clear", 0, 1)) { r.clear(); m.n = 0; }
    else { int nc = (int) vf_pick("newcap", 1, 6); r.resize(nc); m.cap = nc; m.n = 0; }
    same(r, m);
    for (int i = 0; i < 7; ++i) { double x = vf_anydouble("x"); r.push_back(x); m.push_back(x); }
    same(r, m);
}
//@ mode=fp
H(c01_ring_fill_ctor) {
    int cap = (int) vf_pick("cap", 1, 5);
    double v = vf_anydouble("v");
    edsp::ring_buffer<double> r(cap, v);
    model m; m.cap = cap;
    for (int i = 0; i < cap; ++i) m.push_back(v);
    same(r, m);
    for (int i = 0; i < 2; ++i) op(r, m);
    same(r, m);
}
//@ mode=fp
H(c01_fixed) {
    switch (vf_pick("N", 1, 3)) {
        case 1: fixed<1>(); break;
        case 2: fixed<2>(); break;
        default: fixed<3>(); break;
    }
}
//@ mode=fp tier=thorough
H(c01_fixed_4) { fixed<4>(); }
//@ mode=fp tier=thorough
H(c01_fixed_5) { fixed<5>(); }
//@ mode=fp
H(c01_fixed_run) {
    edsp::fixed_ring_buffer<double, 5> r;
    model m; m.cap = 5;
    for (int i = 0; i < 13; ++i) {
        double x = vf_anydouble("x");
        if (i % 4 == 2) { r.emplace_front(x); m.push_front(x); } else { r.push_back(x); m.push_back(x); }
        same(r, m);
    }
}
//@ mode=fp
H(c01_checked_access) {
    int cap = (int) vf_pick("cap", 1, 4);
    edsp::ring_buffer<double> r(cap);
    edsp::fixed_ring_buffer<double, 3> f;
    model m, g; m.cap = cap; g.cap = 3;
    prestate(r, m, cap);
    for (int i = 0; i < 4; ++i) { double x = vf_anydouble("x"); f.push_back(x); g.push_back(x); }
    const auto& cr = r; const auto& cf = f;
    for (int i = 0; i < m.n; ++i) { vf_same(r.at(i), m.v[i], "at"); vf_same(cr.at(i), m.v[i], "const at"); }
    for (int i = 0; i < 3; ++i) { vf_same(f.at(i), g.v[i], "at"); vf_same(cf.at(i), g.v[i], "const at"); }
    if (m.n > 0) { r.at(m.n - 1) = 3.5; vf_same(r.back(), 3.5, "at is a reference"); }
    vf_assert(r.data() == r.buffer().data() && f.data() == f.buffer().data(), "data is the storage");
    std::int64_t bad = vf_int("bad", 0, INT64_MAX);
    int which = (int) vf_pick("which", 0, 3);
    vf_assume(bad >= (which & 1 ? 3 : m.n));
    vf_expect_throw();
    switch (which) {
        case 0: (void) r.at(bad); break;
        case 1: (void) f.at(bad); break;
        case 2: (void) cr.at(bad); break;
        default: (void) cf.at(bad); break;
    }
    vf_fail("at with an invalid index must throw");
}
// other element types
//@ mode=fp
H(c01_ring_struct) {
    struct P { std::int64_t a; double b; };
    edsp::ring_buffer<P> r(3);
    std::int64_t a[5]; double b[5];
    for (int i = 0; i < 5; ++i) { a[i] = vf_int("a", INT64_MIN, INT64_MAX); b[i] = vf_anydouble("b"); r.push_back(P{a[i], b[i]}); }
    for (int i = 0; i < 3; ++i) { vf_assert(r[i].a == a[i + 2], "struct member"); vf_same(r[i].b, b[i + 2], "struct member"); }
    P p = r.front(); vf_assert(p.a == a[2], "struct front");
    r.pop_front();
    vf_assert(r.size() == 2 && r.front().a == a[3] && r.back().a == a[4], "struct pop");
}
namespace {
// a large buffer: a fixed pattern of operations, every element arbitrary, the observers of both ends and of some indices
template <typename R> void wide(R& r, int cap, int steps) {
    std::vector<double> m;
    int k = 0;
    for (int i = 0; i < steps; ++i) {
        const double x = vf_anydouble("x");
        const int o = (i * 7 + i / 5) % 11;
        if (o < 5) { r.push_back(x); if ((int) m.size() == cap) m.erase(m.begin()); m.push_back(x); }
        else if (o < 9) { r.emplace_front(x); if ((int) m.size() == cap) m.pop_back(); m.insert(m.begin(), x); }
        else if (o == 9 && !m.empty()) { r.pop_front(); m.erase(m.begin()); }
        else if (o == 10 && !m.empty()) { r.pop_back(); m.pop_back(); }
        vf_assert(r.size() == m.size() && r.full() == ((int) m.size() == cap) && r.empty() == m.empty(), "size of a large buffer");
        if (m.empty()) continue;
        vf_same(r.front(), m.front(), "front of a large buffer");
        vf_same(r.back(), m.back(), "back of a large buffer");
        k = (k * 5 + 3) % (int) m.size();
        vf_same(r[k], m[k], "indexing a large buffer");
    }
    size_t i = 0;
    for (auto it = r.begin(); it != r.end(); ++it, ++i) vf_same(*it, m[i], "iteration over a large buffer");
    vf_assert(i == m.size(), "iteration covers a large buffer");
}
}
#ifdef VF_THOROUGH
#define STEPS 1200
#else
#define STEPS 400
#endif
//@ mode=fp
H(c01_ring_wide) {
    static const int caps[4] = {16, 33, 64, 100};
    const int cap = caps[vf_pick("cap", 0, 3)];
    edsp::ring_buffer<double> r(cap);
    wide(r, cap, STEPS);
}
//@ mode=fp
H(c01_fixed_wide) {
    edsp::fixed_ring_buffer<double, 48> r;
    wide(r, 48, STEPS);
}
