//@file bounds="ring views over storage of 1..4 elements from every start offset and fill level, histories of 3 (thorough 4) operations at either end with every element value; extraction policies on 1..3 elements; spans of 0..5 elements, every offset and count, every index of 64 bits for at(); the bytes of spans of 0..4 integers of 16 and 64 bits" assume="pre-conditions of the views respected (no extraction from an empty one, sub-ranges inside)" flags="-std=c++17"
#include "vf.hpp"
#define span_FEATURE_MAKE_SPAN_TO_STD 17
#define span_FEATURE_WITH_CONTAINER_TO_STD 17
#define span_FEATURE_MEMBER_AT 1
#define span_FEATURE_BYTE_SPAN 1
#define span_FEATURE_MEMBER_BACK_FRONT 1
#define span_FEATURE_MEMBER_SWAP 1
#include <edsp/types/ring_span.hpp>
#include <edsp/types/span.hpp>
namespace {
typedef std::vector<double> model;
constexpr double GUARD = -77.25;
template <typename R> void same(const R& r, const model& m, int cap) {
    vf_assert(r.size() == m.size(), "number of elements");
    vf_assert(r.capacity() == (size_t) cap, "capacity");
    vf_assert(r.empty() == m.empty(), "empty");
    vf_assert(r.full() == (m.size() == (size_t) cap), "full");
    size_t i = 0;
    for (auto it = r.begin(); it != r.end(); ++it, ++i) {
        vf_assert(i < m.size(), "as many steps as elements");
        vf_same(*it, m[i], "elements in order");
    }
    vf_assert(i == m.size(), "as many steps as elements");
    if (!m.empty()) {
        vf_same(r.front(), m.front(), "first element");
        vf_same(r.back(), m.back(), "last element");
    }
    for (auto it = r.crbegin(); it != r.crend(); ++it) {
        vf_assert(i > 0, "as many steps backwards as elements");
        vf_same(*it, m[--i], "elements in reverse order");
    }
    vf_assert(i == 0, "as many steps backwards as elements");
}
// storage with a guard cell on both sides
struct storage {
    std::unique_ptr<double[]> p;
    int cap;
    explicit storage(int cap) : p(new double[cap + 2]), cap(cap) {
        for (int i = 0; i < cap + 2; ++i) p[i] = GUARD;
        for (int i = 1; i <= cap; ++i) p[i] = vf_anydouble("cell");
    }
    double* begin() { return &p[1]; }
    double* end() { return &p[1 + cap]; }
    void guarded() {
        vf_same(p[0], GUARD, "cell before the storage");
        vf_same(p[cap + 1], GUARD, "cell behind the storage");
    }
};
template <typename R> void step(R& r, model& m, int cap) {
    const int op = (int) vf_pick("op", 0, 5);
    if (op < 4) {
        const double x = vf_anydouble("x");
        const bool full = (int) m.size() == cap;
        if (op % 2 == 0) {
            if (full) m.erase(m.begin());
            m.push_back(x);
            if (op == 0) r.push_back(x); else r.emplace_back(x);
        } else {
            if (full) m.pop_back();
            m.insert(m.begin(), x);
            if (op == 1) r.push_front(x); else r.emplace_front(x);
        }
    } else if (!m.empty()) {
        if (op == 4) {
            vf_same(r.pop_front(), m.front(), "element taken from the front");
            m.erase(m.begin());
        } else {
            vf_same(r.pop_back(), m.back(), "element taken from the back");
            m.pop_back();
        }
    }
}
void history(int cap, int steps) {
    storage s(cap);
    model m;
    const int first = (int) vf_pick("first", 0, cap - 1), fill = (int) vf_pick("fill", 0, cap);
    for (int i = 0; i < fill; ++i) m.push_back(s.begin()[(first + i) % cap]);
    edsp::ring_span<double> r(s.begin(), s.end(), s.begin() + first, (size_t) fill);
    same(r, m, cap);
    for (int i = 0; i < steps; ++i) step(r, m, cap);
    same(r, m, cap);
    s.guarded();
}
}
//@ mode=fp tiers=quick,thorough
H(c40_ring_history) {
    history((int) vf_pick("cap", 1, 3), 2);
}
//@ mode=fp tiers=thorough
H(c40_ring_long_history) {
    history((int) vf_pick("cap", 2, 4), 3);
}
//@ mode=fp
H(c40_ring_whole_storage) {
    // a view of the whole storage starts empty, and its elements live in that storage
    const int cap = vf_len("cap", 1, 4, {9});
    storage s(cap);
    edsp::ring_span<double> r(s.begin(), s.end());
    model m;
    same(r, m, cap);
    const int k = (int) vf_pick("k", 0, cap + 2);
    for (int i = 0; i < k; ++i) {
        const double x = vf_anydouble("x");
        r.push_back(x);
        m.push_back(x);
        if ((int) m.size() > cap) m.erase(m.begin());
    }
    same(r, m, cap);
    for (int i = 0; i < cap; ++i) {
        // cell i holds the newest element whose number is i modulo the capacity
        int newest = -1;
        for (int j = 0; j < k; ++j) if (j % cap == i) newest = j;
        if (newest >= 0) vf_same(s.begin()[i], m[newest - (k - (int) m.size())], "elements live in the storage");
    }
    if (k > 0) {
        r.front() = 3.0;
        m.front() = 3.0;
        same(r, m, cap);
        r.back() = 4.0;
        m.back() = 4.0;
        same(r, m, cap);
        auto it = r.begin();
        *it = 5.0;
        m.front() = 5.0;
        same(r, m, cap);
        auto rit = r.rbegin();
        *rit = 6.0;
        m.back() = 6.0;
        same(r, m, cap);
    }
    s.guarded();
}
//@ mode=fp
H(c40_ring_moves_and_swaps) {
    const int cap = (int) vf_pick("cap", 1, 3), other = (int) vf_pick("other", 1, 2);
    storage a(cap), b(other);
    const int first = (int) vf_pick("first", 0, cap - 1), fill = (int) vf_pick("fill", 0, cap);
    model ma, mb(1, b.begin()[other - 1]);
    for (int i = 0; i < fill; ++i) ma.push_back(a.begin()[(first + i) % cap]);
    typedef edsp::ring_span<double> R;
    R x(a.begin(), a.end(), a.begin() + first, (size_t) fill), y(b.begin(), b.end(), b.begin() + (other - 1), 1);
    switch (vf_pick("how", 0, 3)) {
        case 0: {
            swap(x, y);
            same(x, mb, other);
            same(y, ma, cap);
            step(y, ma, cap);
            same(y, ma, cap);
            break;
        }
        case 1: {
            x.swap(y);
            same(x, mb, other);
            same(y, ma, cap);
            step(x, mb, other);
            same(x, mb, other);
            same(y, ma, cap);
            break;
        }
        case 2: {
            y = std::move(x);
            same(y, ma, cap);
            step(y, ma, cap);
            same(y, ma, cap);
            break;
        }
        default: {
            R z(std::move(x));
            same(z, ma, cap);
            step(z, ma, cap);
            same(z, ma, cap);
        }
    }
    a.guarded();
    b.guarded();
}
//@ mode=fp
H(c40_ring_poppers) {
    const int cap = (int) vf_pick("cap", 1, 3), first = (int) vf_pick("first", 0, cap - 1);
    const int fill = (int) vf_pick("fill", 1, cap);
    const bool back = vf_pick("back", 0, 1);
    storage s(cap);
    model cells(s.begin(), s.end()), m;
    for (int i = 0; i < fill; ++i) m.push_back(cells[(first + i) % cap]);
    const int cell = (first + (back ? fill - 1 : 0)) % cap;
    const double taken = back ? m.back() : m.front();
    if (back) m.pop_back(); else m.erase(m.begin());
    switch (vf_pick("policy", 0, 2)) {
        case 0: {
            // keeps what it extracts in the storage and gives nothing back
            nonstd::ring_span<double, nonstd::null_popper<double>> r(s.begin(), s.end(), s.begin() + first, (size_t) fill);
            if (back) r.pop_back(); else r.pop_front();
            same(r, m, cap);
            break;
        }
        case 1: {
            // gives the element back and leaves a copy of its own value in the storage
            const double c = vf_anydouble("c");
            nonstd::ring_span<double, nonstd::copy_popper<double>> r(s.begin(), s.end(), s.begin() + first, (size_t) fill,
                                                                     nonstd::copy_popper<double>(c));
            vf_same(back ? r.pop_back() : r.pop_front(), taken, "element extracted");
            cells[cell] = c;
            same(r, m, cap);
            break;
        }
        default: {
            edsp::ring_span<double> r(s.begin(), s.end(), s.begin() + first, (size_t) fill);
            vf_same(back ? r.pop_back() : r.pop_front(), taken, "element extracted");
            same(r, m, cap);
        }
    }
    for (int i = 0; i < cap; ++i) vf_same(s.begin()[i], cells[i], "storage after an extraction");
}
//@ mode=fp
H(c40_ring_owning_elements) {
    // elements that own memory are moved out, and none is lost or released twice
    const int cap = (int) vf_pick("cap", 1, 2), k = (int) vf_pick("k", 1, 3);
    typedef std::unique_ptr<double> E;
    std::unique_ptr<E[]> cells(new E[cap]);
    model m;
    {
        edsp::ring_span<E> r(&cells[0], &cells[0] + cap);
        for (int i = 0; i < k; ++i) {
            const double x = vf_anydouble("x");
            const bool full = (int) m.size() == cap;
            if (vf_pick("front", 0, 1)) {
                if (full) m.pop_back();
                m.insert(m.begin(), x);
                r.push_front(E(new double(x)));
            } else {
                if (full) m.erase(m.begin());
                m.push_back(x);
                r.emplace_back(new double(x));
            }
        }
        while (!m.empty()) {
            E e = vf_pick("back", 0, 1) ? r.pop_back() : nullptr;
            if (e) {
                vf_same(*e, m.back(), "owning element from the back");
                m.pop_back();
            } else {
                e = r.pop_front();
                vf_assert((bool) e, "an element");
                vf_same(*e, m.front(), "owning element from the front");
                m.erase(m.begin());
            }
        }
        vf_assert(r.empty(), "nothing left");
    }
    for (int i = 0; i < cap; ++i) vf_assert(!cells[i], "extracted elements are moved out of the storage");
}
//@ mode=fp
H(c40_ring_iterators) {
    const int cap = (int) vf_pick("cap", 1, 4), first = (int) vf_pick("first", 0, cap - 1), fill = (int) vf_pick("fill", 0, cap);
    storage s(cap);
    edsp::ring_span<double> r(s.begin(), s.end(), s.begin() + first, (size_t) fill);
    const edsp::ring_span<double>& c = r;
    const int i = (int) vf_pick("i", 0, fill), j = (int) vf_pick("j", 0, fill);
    auto a = r.begin() + i, b = r.end() - (fill - j);
    auto ca = c.begin() + i;
    edsp::ring_span<double>::const_iterator conv = a;
    vf_assert(a - b == i - j, "difference of iterators");
    vf_assert(r.end() - r.begin() == fill, "length of the range");
    vf_assert((a == b) == (i == j) && (a != b) == (i != j), "equality of iterators");
    vf_assert((a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j), "order of iterators");
    vf_assert(ca == conv && !(conv != ca) && a == conv && conv - b == i - j, "mutable and constant iterators");
    if (i < fill) {
        vf_assert(&*a == s.begin() + (first + i) % cap, "element an iterator refers to");
        vf_assert(&*ca == &*a && &*conv == &*a, "same element through a constant iterator");
        auto d = a++;
        vf_assert(&*d == s.begin() + (first + i) % cap && a - d == 1, "step forward");
        auto e = a--;
        vf_assert(e - a == 1 && a == d, "step back");
        ++d;
        vf_assert(d == e, "advanced iterator");
        --d;
        d += j - i;
        vf_assert(d == b, "advance by a distance");
        d -= j - i;
        vf_assert(d == a, "retreat by a distance");
    }
}
//@ mode=fp
H(c40_span_parts) {
    const int n = (int) vf_pick("n", 0, 5);
    std::unique_ptr<double[]> p(new double[n + 1]);
    model m;
    for (int i = 0; i < n; ++i) m.push_back(p[i] = vf_anydouble("x"));
    edsp::span<double> s(p.get(), n);
    const int off = (int) vf_pick("off", 0, n), cnt = (int) vf_pick("cnt", 0, n - off);
    const auto check = [&](const edsp::span<double>& v, int o, int c) {
        vf_assert(v.size() == c, "size of a part");
        vf_assert(v.size_bytes() == c * (int) sizeof(double), "bytes of a part");
        vf_assert(v.empty() == (c == 0), "emptiness of a part");
        vf_assert(v.data() == p.get() + o, "start of a part");
        int i = 0;
        for (auto& x : v) { vf_assert(i < c, "steps through a part"); vf_same(x, m[o + i], "elements of a part"); ++i; }
        vf_assert(i == c, "steps through a part");
        for (i = 0; i < c; ++i) {
            vf_same(v[i], m[o + i], "element by index");
            vf_same(v(i), m[o + i], "element by call");
        }
        i = c;
        for (auto it = v.rbegin(); it != v.rend(); ++it) { vf_assert(i > 0, "steps backwards"); vf_same(*it, m[o + --i], "reversed elements"); }
        vf_assert(i == 0, "steps backwards");
        i = 0;
        for (auto it = v.cbegin(); it != v.cend(); ++it) { vf_assert(i < c, "constant steps"); vf_same(*it, m[o + i++], "constant elements"); }
        vf_assert(i == c, "constant steps");
        i = c;
        for (auto it = v.crbegin(); it != v.crend(); ++it) { vf_assert(i > 0, "constant steps back"); vf_same(*it, m[o + --i], "constant reversed"); }
    };
    check(s, 0, n);
    check(edsp::span<double>(p.get() + off, p.get() + off + cnt), off, cnt);
    check(s.first(cnt), 0, cnt);
    check(s.last(cnt), n - cnt, cnt);
    check(s.subspan(off), off, n - off);
    check(s.subspan(off, cnt), off, cnt);
    check(s.subspan(off).first(cnt), off, cnt);
    check(s.subspan(off).last(cnt), n - cnt, cnt);
    if (n >= 3) {
        check(s.first<2>(), 0, 2);
        check(s.last<2>(), n - 2, 2);
        check(s.subspan<1>(), 1, n - 1);
        auto t = s.subspan<1, 2>();
        check(t, 1, 2);
        check(t.subspan<1>(), 2, 1);
        check(t.last<1>(), 2, 1);
    }
    edsp::span<double> copy(s.subspan(off, cnt)), q;
    check(copy, off, cnt);
    q = copy;
    check(q, off, cnt);
    edsp::span<double> e;
    vf_assert(e.size() == 0 && e.empty() && e.data() == nullptr, "default view");
    if (cnt > 0) {
        q[cnt - 1] = 9.0;
        vf_same(p[off + cnt - 1], 9.0, "writes reach the storage");
        m[off + cnt - 1] = 9.0;
        check(s, 0, n);
    }
}
//@ mode=fp
H(c40_span_sources) {
    double raw[3];
    std::array<double, 3> arr;
    std::vector<double> vec((size_t) vf_pick("n", 0, 3));
    for (auto& x : raw) x = vf_anydouble("raw");
    for (auto& x : arr) x = vf_anydouble("arr");
    for (auto& x : vec) x = vf_anydouble("vec");
    const auto& carr = arr;
    const auto& cvec = vec;
    edsp::span<double> a(raw), b(arr), c(nonstd::make_span(vec));
    edsp::span<double, 3> fa(raw), fb(arr);
    edsp::span<const double> d(carr), e(nonstd::make_span(cvec)), f(a), g(fb), h(nonstd::make_span(raw)), k(nonstd::make_span(raw, 2)),
        l(nonstd::make_span(raw + 1, raw + 3)), o(nonstd::make_span(arr)), q(nonstd::make_span(carr));
    vf_assert(a.data() == raw && a.size() == 3 && fa.data() == raw && fa.size() == 3 && f.data() == raw && f.size() == 3 &&
              h.data() == raw && h.size() == 3, "view of an array");
    vf_assert(k.data() == raw && k.size() == 2 && l.data() == raw + 1 && l.size() == 2, "view of part of an array");
    vf_assert(b.data() == arr.data() && b.size() == 3 && fb.data() == arr.data() && d.data() == arr.data() && d.size() == 3 &&
              g.data() == arr.data() && g.size() == 3 && o.data() == arr.data() && o.size() == 3 && q.data() == arr.data() && q.size() == 3,
              "view of a standard array");
    vf_assert(c.size() == (int) vec.size() && e.size() == (int) vec.size(), "size of a view of a vector");
    if (!vec.empty()) vf_assert(c.data() == vec.data() && e.data() == vec.data(), "view of a vector");
}
//@ mode=fp
H(c40_span_comparisons) {
    const int n = (int) vf_pick("n", 0, 2), k = (int) vf_pick("k", 0, 2);
    double x[2], y[2];
    for (auto& v : x) v = vf_double("x", -5, 5);
    for (auto& v : y) v = vf_double("y", -5, 5);
    edsp::span<double> a(x, n), b(y, k);
    bool eq = n == k, lt = false, gt = false, decided = false;
    for (int i = 0; i < n && i < k && !decided; ++i) {
        if (x[i] < y[i]) { lt = true; decided = true; }
        else if (y[i] < x[i]) { gt = true; decided = true; }
    }
    if (decided) eq = false;
    else if (n != k) { lt = n < k; gt = n > k; }
    vf_assert((a == b) == eq, "equal views");
    vf_assert((a != b) == !eq, "different views");
    vf_assert((a < b) == lt, "smaller view");
    vf_assert((a > b) == gt, "larger view");
    vf_assert((a <= b) == !gt, "no larger view");
    vf_assert((a >= b) == !lt, "no smaller view");
}
//@ mode=fp
H(c40_span_checked_access) {
    const int n = (int) vf_pick("n", 0, 4);
    std::unique_ptr<double[]> p(new double[n + 1]);
    for (int i = 0; i <= n; ++i) p[i] = vf_anydouble("x");
    edsp::span<double> s(p.get(), n), t(p.get() + n, 1);
    const std::int64_t i = vf_int("i", std::numeric_limits<std::int64_t>::min(), std::numeric_limits<std::int64_t>::max());
    if (n > 0) vf_assert(&s.front() == p.get() && &s.back() == p.get() + n - 1, "first and last element");
    s.swap(t);
    vf_assert(s.data() == p.get() + n && s.size() == 1 && t.data() == p.get() && t.size() == n, "swapped views");
    if (i < 0 || i >= n) vf_expect_throw();
    double& r = t.at(i);
    vf_assert(i >= 0 && i < n, "an index outside is refused");
    vf_assert(&r == p.get() + i, "element at an index");
}
// the bytes of a span: all of them, in order, and the same storage
namespace {
template <typename T> void bytes_of() {
    const int n = static_cast<int>(vf_pick("n", 0, 4)), pad = 1;
    std::vector<T> store(n + 2 * pad);
    for (auto& v : store) v = static_cast<T>(vf_int("v", 0, 255));
    const std::vector<T> before = store;
    edsp::span<T> s(store.data() + pad, n);
    const auto view = as_bytes(s);
    const auto bytes = as_writeable_bytes(s);
    const auto* raw = reinterpret_cast<const unsigned char*>(store.data() + pad);
    vf_assert(static_cast<std::size_t>(view.size()) == n * sizeof(T), "bytes of a span: every byte of it");
    vf_assert(static_cast<std::size_t>(bytes.size()) == n * sizeof(T), "bytes of a span: every byte of it");
    vf_assert(static_cast<const void*>(view.data()) == raw && static_cast<void*>(bytes.data()) == raw, "bytes of a span: in place");
    for (std::size_t i = 0; i < n * sizeof(T); ++i) {
        vf_assert(std::to_integer<unsigned char>(view[i]) == raw[i], "bytes of a span: in order");
        bytes[i] = static_cast<std::byte>(raw[i] ^ 255);
    }
    for (int i = 0; i < n + 2 * pad; ++i) {
        const bool inside = i >= pad && i < pad + n;
        vf_assert(store[i] == (inside ? static_cast<T>(~before[i]) : before[i]), "bytes of a span: written through, nothing else");
    }
}
}
H(c40_bytes_16) { bytes_of<std::int16_t>(); }
H(c40_bytes_64) { bytes_of<std::int64_t>(); }
H(c40_bytes_fixed) {
    std::int32_t a[3];
    for (auto& v : a) v = static_cast<std::int32_t>(vf_int("v", -1000000, 1000000));
    edsp::span<std::int32_t, 3> s(a);
    const auto view = as_bytes(s);
    const auto bytes = as_writeable_bytes(s);
    vf_assert(view.size() == 12 && bytes.size() == 12, "bytes of a span: every byte of it");
    vf_assert(static_cast<const void*>(view.data()) == a && static_cast<void*>(bytes.data()) == a, "bytes of a span: in place");
    const std::int32_t last = a[2], first = a[0];
    bytes[11] = view[11] ^ std::byte{128};
    vf_assert(a[2] == (last ^ INT32_MIN) && a[0] == first, "bytes of a span: written through, nothing else");
}
H(c40_byte_span) {
    struct { std::int32_t before, value, after; } a = {1, static_cast<std::int32_t>(vf_int("v", -1000000, 1000000)), 2};
    const std::int32_t old = a.value;
    const auto bytes = nonstd::byte_span(a.value);
    const auto view = nonstd::byte_span(static_cast<const std::int32_t&>(a.value));
    vf_assert(bytes.size() == 4 && view.size() == 4, "bytes of an object: every byte of it");
    vf_assert(static_cast<void*>(bytes.data()) == &a.value && static_cast<const void*>(view.data()) == &a.value, "bytes of an object: in place");
    for (int i = 0; i < 4; ++i) bytes[i] = ~view[i];
    vf_assert(a.value == ~old && a.before == 1 && a.after == 2, "bytes of an object: written through, nothing else");
}
H(c40_deduced) {
    int c[3] = {1, 2, 3};
    std::array<int, 2> arr = {4, 5};
    const std::array<int, 2> fixed = {6, 7};
    std::vector<int> v = {8, 9, 10, 11};
    const std::vector<int> cv = {12};
    edsp::span a(c);
    edsp::span b(arr);
    edsp::span d(v);
    edsp::span e(fixed);
    edsp::span f(cv);
    vf_assert(a.size() == 3 && a.data() == c && b.size() == 2 && b.data() == arr.data(), "deduced: the whole array");
    vf_assert(d.size() == 4 && d.data() == v.data() && e.size() == 2 && e.data() == fixed.data() && f.size() == 1 && f.data() == cv.data(), "deduced: the whole container");
    a[1] = 20; b[0] = 40; d[3] = 110;
    vf_assert(c[1] == 20 && arr[0] == 40 && v[3] == 110, "deduced: views of the same storage");
}
