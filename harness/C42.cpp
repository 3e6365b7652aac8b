//@file bounds="histories of 2 operations (thorough 3) on two holders from every pair of states (empty, or holding any double, integer or error), with held objects that track their own lifetime; every comparison of two holders with finite contents; lists of 2 numbers; variants of 16 alternatives, one operation on every alternative with an alternative of the same kind or five further" assume="operations that do not throw" flags="-std=c++14"
#include "vf.hpp"
#include <edsp/types/any.hpp>
#include <edsp/types/expected.hpp>
#include <edsp/types/optional.hpp>
#include <edsp/types/variant.hpp>
namespace {
constexpr double GONE = -987654.5;
template <int K> struct tracked {
    static int live;
    static bool broken;
    double v;
    const tracked* self;
    tracked(double x = 0) : v(x), self(this) { ++live; }
    tracked(const tracked& o) : v(o.v), self(this) { if (o.self != &o) broken = true; ++live; }
    tracked(tracked&& o) noexcept : v(o.v), self(this) { if (o.self != &o) broken = true; o.v = GONE; ++live; }
    tracked& operator=(const tracked& o) { if (o.self != &o || self != this) broken = true; v = o.v; return *this; }
    tracked& operator=(tracked&& o) noexcept {
        if (o.self != &o || self != this) broken = true;
        const double x = o.v;
        o.v = GONE;
        v = x;
        return *this;
    }
    ~tracked() { if (self != this) broken = true; self = nullptr; --live; }
    bool operator==(const tracked& o) const { return v == o.v; }
    bool operator<(const tracked& o) const { return v < o.v; }
    bool operator!=(const tracked& o) const { return v != o.v; }
    bool operator>(const tracked& o) const { return v > o.v; }
    bool operator<=(const tracked& o) const { return v <= o.v; }
    bool operator>=(const tracked& o) const { return v >= o.v; }
};
template <int K> int tracked<K>::live = 0;
template <int K> bool tracked<K>::broken = false;
typedef tracked<0> value;
typedef tracked<1> failure;
void tidy() {
    vf_assert(value::live == 0 && failure::live == 0, "every held object is destroyed once");
    vf_assert(!value::broken && !failure::broken, "held objects are used only while they live");
}
// what a holder should hold: alternative (-1: nothing), content, and whether the content is specified
struct model { int alt; double v; bool known; };
#ifdef VF_THOROUGH
constexpr int STEPS = 3;
#else
constexpr int STEPS = 2;
#endif
}
// ---------------------------------------------------------------- optional
namespace {
typedef edsp::optional<value> opt;
void agree(const opt& o, const model& m) {
    vf_assert(o.has_value() == (m.alt == 0) && (bool) o == (m.alt == 0), "whether an optional holds a value");
    vf_assert((o == nonstd::nullopt) == (m.alt != 0) && (nonstd::nullopt != o) == (m.alt == 0), "comparison with nothing");
    const double other = vf_anydouble("other");
    vf_same(o.value_or(other).v, m.alt == 0 ? (m.known ? m.v : o->v) : other, "value or a default");
    if (m.alt == 0 && m.known) {
        vf_same((*o).v, m.v, "value of an optional");
        vf_same(o->v, m.v, "member of the value of an optional");
        vf_same(o.value().v, m.v, "checked value of an optional");
    }
}
void build_optional(std::unique_ptr<opt>& o, model& m) {
    const double x = vf_anydouble("x");
    switch (vf_pick("build", 0, 4)) {
        case 0: o.reset(new opt()); m = {-1, 0, true}; break;
        case 1: o.reset(new opt(nonstd::nullopt)); m = {-1, 0, true}; break;
        case 2: { const value v(x); o.reset(new opt(v)); m = {0, x, true}; vf_same(v.v, x, "source of a copy"); break; }
        case 3: o.reset(new opt(value(x))); m = {0, x, true}; break;
        default: o.reset(new opt(nonstd::in_place, x)); m = {0, x, true};
    }
}
void act(opt& a, model& ma, opt& b, model& mb) {
    const double x = vf_anydouble("y");
    switch (vf_pick("op", 0, 12)) {
        case 0: a = nonstd::nullopt; ma = {-1, 0, true}; break;
        case 1: { const value v(x); a = v; ma = {0, x, true}; vf_same(v.v, x, "source of a copy"); break; }
        case 2: a = value(x); ma = {0, x, true}; break;
        case 3: a = b; ma = mb; break;
        case 4: { const opt& s = a; a = s; break; }
        case 5: a = std::move(b); ma = mb; mb.known = mb.alt < 0; break;
        case 6: { value& r = a.emplace(x); ma = {0, x, true}; vf_assert(&r == &*a, "emplace gives the new value"); break; }
        case 7: a.reset(); ma = {-1, 0, true}; break;
        case 8: a.swap(b); std::swap(ma, mb); break;
        case 9: { using std::swap; swap(b, a); std::swap(ma, mb); break; }
        case 10: { opt c(a); agree(c, ma); agree(a, ma); b = c; mb = ma; break; }
        case 11: { opt c(std::move(a)); agree(c, ma); a = std::move(c); break; }
        default: if (ma.alt == 0) { a->v = x; ma.v = x; ma.known = true; (*a).v = x; a.value().v = x; }
    }
}
void optional_history(int steps) {
    {
        std::unique_ptr<opt> a, b;
        model ma, mb;
        build_optional(a, ma);
        if (vf_pick("other", 0, 1)) { b.reset(new opt(value(2.5))); mb = {0, 2.5, true}; } else { b.reset(new opt()); mb = {-1, 0, true}; }
        agree(*a, ma);
        for (int i = 0; i < steps; ++i) act(*a, ma, *b, mb);
        agree(*a, ma);
        agree(*b, mb);
    }
    tidy();
}
}
//@ mode=fp
H(c42_optional_history) { optional_history(STEPS); }
//@ mode=fp
H(c42_optional_access) {
    std::unique_ptr<opt> o;
    model m;
    build_optional(o, m);
    if (m.alt < 0) vf_expect_throw();
    const opt& c = *o;
    const double got = vf_pick("const", 0, 1) ? c.value().v : o->value().v;
    vf_assert(m.alt == 0, "an empty optional has no value to give");
    vf_same(got, m.v, "checked value of an optional");
    value taken(std::move(*o).value());
    vf_same(taken.v, m.v, "value moved out of an optional");
}
//@ mode=fp
H(c42_optional_order) {
    const bool p = vf_pick("p", 0, 1), q = vf_pick("q", 0, 1);
    const double x = vf_double("x", -9, 9), y = vf_double("y", -9, 9);
    edsp::optional<double> a, b;
    if (p) a = x;
    if (q) b = y;
    // nothing comes before every value
    const bool eq = p == q && (!p || x == y), lt = q && (!p || x < y), gt = p && (!q || y < x);
    vf_assert((a == b) == eq && (a != b) == !eq, "equality of optionals");
    vf_assert((a < b) == lt && (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt, "order of optionals");
    const bool veq = p && x == y, vlt = !p || x < y, vgt = p && x > y;
    vf_assert((a == y) == veq && (y == a) == veq && (a != y) == !veq && (y != a) == !veq, "equality with a value");
    vf_assert((a < y) == vlt && (y > a) == vlt && (a >= y) == !vlt && (y <= a) == !vlt, "below a value");
    vf_assert((a > y) == vgt && (y < a) == vgt && (a <= y) == !vgt && (y >= a) == !vgt, "above a value");
    vf_assert((a < nonstd::nullopt) == false && (nonstd::nullopt < a) == p && (a <= nonstd::nullopt) == !p && (nonstd::nullopt <= a) &&
              (a > nonstd::nullopt) == p && (nonstd::nullopt > a) == false && (a >= nonstd::nullopt) && (nonstd::nullopt >= a) == !p,
              "order with nothing");
}
// ---------------------------------------------------------------- expected
namespace {
typedef edsp::expected<value, failure> exp_t;
void agree(const exp_t& o, const model& m) {
    vf_assert(o.has_value() == (m.alt == 0) && (bool) o == (m.alt == 0), "whether a result is a success");
    const double other = vf_anydouble("other");
    if (!m.known) return;
    vf_same(o.value_or(value(other)).v, m.alt == 0 ? m.v : other, "result or a default");
    if (m.alt == 0) {
        vf_same((*o).v, m.v, "value of a success");
        vf_same(o->v, m.v, "member of the value of a success");
        vf_same(o.value().v, m.v, "checked value of a success");
    } else {
        vf_same(o.error().v, m.v, "error of a failure");
        vf_same(o.get_unexpected().value().v, m.v, "failure as an unexpected");
    }
}
void build_expected(std::unique_ptr<exp_t>& o, model& m) {
    const double x = vf_anydouble("x");
    switch (vf_pick("build", 0, 5)) {
        case 0: o.reset(new exp_t()); m = {0, 0, true}; break;
        case 1: { const value v(x); o.reset(new exp_t(v)); m = {0, x, true}; vf_same(v.v, x, "source of a copy"); break; }
        case 2: o.reset(new exp_t(value(x))); m = {0, x, true}; break;
        case 3: o.reset(new exp_t(nonstd::in_place, x)); m = {0, x, true}; break;
        case 4: { failure f(x); o.reset(new exp_t(edsp::make_unexpected(f))); m = {1, x, true}; vf_same(f.v, x, "source of an error"); break; }
        default: o.reset(new exp_t(nonstd::unexpect, x)); m = {1, x, true};
    }
}
void act(exp_t& a, model& ma, exp_t& b, model& mb) {
    const double x = vf_anydouble("y");
    switch (vf_pick("op", 0, 11)) {
        case 0: { failure f(x); a = edsp::make_unexpected(f); ma = {1, x, true}; vf_same(f.v, x, "source of an error"); break; }
        case 1: { const value v(x); a = v; ma = {0, x, true}; vf_same(v.v, x, "source of a copy"); break; }
        case 2: a = value(x); ma = {0, x, true}; break;
        case 3: a = b; ma = mb; break;
        case 4: { const exp_t& s = a; a = s; break; }
        case 5: a = std::move(b); ma = mb; mb.known = false; break;
        case 6: a.emplace(x); ma = {0, x, true}; break;
        case 7: a.swap(b); std::swap(ma, mb); break;
        case 8: { using std::swap; swap(b, a); std::swap(ma, mb); break; }
        case 9: { exp_t c(a); agree(c, ma); agree(a, ma); b = c; mb = ma; break; }
        case 10: { exp_t c(std::move(a)); agree(c, ma); a = std::move(c); break; }
        default: if (ma.alt == 0) { a->v = x; ma.v = x; (*a).v = x; a.value().v = x; } else { a.error().v = x; ma.v = x; }
                 ma.known = true;
    }
}
}
//@ mode=fp
H(c42_expected_history) {
    {
        std::unique_ptr<exp_t> a, b;
        model ma, mb;
        build_expected(a, ma);
        if (vf_pick("other", 0, 1)) { b.reset(new exp_t(value(2.5))); mb = {0, 2.5, true}; }
        else { b.reset(new exp_t(nonstd::unexpect, 3.5)); mb = {1, 3.5, true}; }
        agree(*a, ma);
        for (int i = 0; i < STEPS; ++i) act(*a, ma, *b, mb);
        agree(*a, ma);
        agree(*b, mb);
    }
    tidy();
}
//@ mode=fp
H(c42_expected_assignment_chains) {
    exp_t a(value(1.0)), b(edsp::make_unexpected(failure(2.0)));
    const double x = vf_anydouble("x");
    switch (vf_pick("how", 0, 2)) {
        case 0: vf_assert(std::addressof(static_cast<const exp_t&>(a = b)) == &a, "assignment gives the assigned result"); break;
        case 1: vf_assert(std::addressof(static_cast<const exp_t&>(a = std::move(b))) == &a, "assignment gives the assigned result"); break;
        default: vf_assert(std::addressof(static_cast<const exp_t&>(a = value(x))) == &a, "assignment gives the assigned result");
    }
}
//@ mode=fp
H(c42_expected_access) {
    std::unique_ptr<exp_t> o;
    model m;
    build_expected(o, m);
    if (m.alt != 0) vf_expect_throw();
    const exp_t& c = *o;
    const double got = vf_pick("const", 0, 1) ? c.value().v : o->value().v;
    vf_assert(m.alt == 0, "a failure has no value to give");
    vf_same(got, m.v, "checked value of a success");
}
//@ mode=fp
H(c42_expected_equality) {
    const bool p = vf_pick("p", 0, 1), q = vf_pick("q", 0, 1);
    const double x = vf_double("x", -9, 9), y = vf_double("y", -9, 9);
    typedef edsp::expected<double, int> E;
    const int e = (int) vf_int("e", -100, 100), f = (int) vf_int("f", -100, 100);
    const E a = p ? E(x) : E(nonstd::unexpect, e), b = q ? E(y) : E(nonstd::unexpect, f);
    const bool eq = p == q && (p ? x == y : e == f);
    vf_assert((a == b) == eq && (a != b) == !eq, "equality of results");
    vf_assert((a == y) == (p && x == y) && (y == a) == (p && x == y) && (a != y) == !(p && x == y), "equality of a result and a value");
}
namespace {
typedef edsp::expected<void, failure> done;
void agree(const done& o, const model& m) {
    vf_assert(o.has_value() == (m.alt == 0) && (bool) o == (m.alt == 0), "whether an action succeeded");
    if (m.alt == 1 && m.known) vf_same(o.error().v, m.v, "error of a failed action");
}
}
//@ mode=fp
H(c42_expected_void) {
    {
        const double x = vf_anydouble("x"), y = vf_anydouble("y");
        model ma, mb;
        std::unique_ptr<done> a, b;
        if (vf_pick("a", 0, 1)) { a.reset(new done(nonstd::unexpect, x)); ma = {1, x, true}; } else { a.reset(new done()); ma = {0, 0, true}; }
        if (vf_pick("b", 0, 1)) { b.reset(new done(edsp::make_unexpected(failure(y)))); mb = {1, y, true}; } else { b.reset(new done()); mb = {0, 0, true}; }
        for (int i = 0; i < STEPS; ++i) {
            switch (vf_pick("op", 0, 5)) {
                case 0: *a = *b; ma = mb; break;
                case 1: *a = std::move(*b); ma = mb; mb.known = false; break;
                case 2: a->swap(*b); std::swap(ma, mb); break;
                case 3: { done c(*a); agree(c, ma); *b = std::move(c); mb = ma; break; }
                case 4: { const done& s = *a; *a = s; break; }
                default: { done c(std::move(*a)); agree(c, ma); *a = c; }
            }
        }
        agree(*a, ma);
        agree(*b, mb);
    }
    tidy();
}
// ---------------------------------------------------------------- variant
namespace {
typedef edsp::variant<std::int32_t, value, failure> var;
void agree(const var& o, const model& m) {
    vf_assert(o.index() == (size_t) m.alt, "alternative of a variant");
    vf_assert(!o.valueless_by_exception(), "a variant holds something");
    vf_assert(nonstd::holds_alternative<std::int32_t>(o) == (m.alt == 0) && nonstd::holds_alternative<value>(o) == (m.alt == 1) &&
              nonstd::holds_alternative<failure>(o) == (m.alt == 2), "whether a variant holds an alternative");
    const std::int32_t* i = nonstd::get_if<std::int32_t>(&o);
    const value* v = nonstd::get_if<1>(&o);
    const failure* f = nonstd::get_if<failure>(&o);
    vf_assert((i != nullptr) == (m.alt == 0) && (v != nullptr) == (m.alt == 1) && (f != nullptr) == (m.alt == 2), "pointer to an alternative");
    if (!m.known) return;
    if (m.alt == 0) vf_assert(*i == (std::int32_t) m.v && nonstd::get<0>(o) == *i, "integer of a variant");
    if (m.alt == 1) { vf_same(v->v, m.v, "first object of a variant"); vf_same(nonstd::get<value>(o).v, m.v, "first object of a variant"); }
    if (m.alt == 2) { vf_same(f->v, m.v, "second object of a variant"); vf_same(nonstd::get<2>(o).v, m.v, "second object of a variant"); }
}
struct visitor {
    double operator()(const std::int32_t& x) const { return (double) x; }
    double operator()(const value& x) const { return x.v + 1; }
    double operator()(const failure& x) const { return x.v + 2; }
};
void build_variant(std::unique_ptr<var>& o, model& m) {
    const double x = vf_anydouble("x");
    switch (vf_pick("build", 0, 5)) {
        case 0: o.reset(new var()); m = {0, 0, true}; break;
        case 1: o.reset(new var((std::int32_t) 7)); m = {0, 7, true}; break;
        case 2: { const value v(x); o.reset(new var(v)); m = {1, x, true}; vf_same(v.v, x, "source of a copy"); break; }
        case 3: o.reset(new var(value(x))); m = {1, x, true}; break;
        case 4: o.reset(new var(nonstd::in_place_type<failure>, x)); m = {2, x, true}; break;
        default: o.reset(new var(nonstd::in_place_index<2>, x)); m = {2, x, true};
    }
}
void act(var& a, model& ma, var& b, model& mb) {
    const double x = vf_anydouble("y");
    switch (vf_pick("op", 0, 11)) {
        case 0: a = (std::int32_t) 9; ma = {0, 9, true}; break;
        case 1: { const value v(x); a = v; ma = {1, x, true}; vf_same(v.v, x, "source of a copy"); break; }
        case 2: a = failure(x); ma = {2, x, true}; break;
        case 3: a = b; ma = mb; break;
        case 4: { const var& s = a; a = s; break; }
        case 5: a = std::move(b); ma = mb; mb.known = mb.alt == 0; break;
        case 6: a.emplace<value>(x); ma = {1, x, true}; break;
        case 7: a.emplace<2>(x); ma = {2, x, true}; break;
        case 8: a.swap(b); std::swap(ma, mb); break;
        case 9: { using std::swap; swap(b, a); std::swap(ma, mb); break; }
        case 10: { var c(a); agree(c, ma); agree(a, ma); b = c; mb = ma; break; }
        default: { var c(std::move(a)); agree(c, ma); a = std::move(c); }
    }
}
}
//@ mode=fp
H(c42_variant_history) {
    {
        std::unique_ptr<var> a, b;
        model ma, mb;
        build_variant(a, ma);
        switch (vf_pick("other", 0, 2)) {
            case 0: b.reset(new var((std::int32_t) 4)); mb = {0, 4, true}; break;
            case 1: b.reset(new var(value(2.5))); mb = {1, 2.5, true}; break;
            default: b.reset(new var(failure(3.5))); mb = {2, 3.5, true};
        }
        agree(*a, ma);
        for (int i = 0; i < STEPS; ++i) act(*a, ma, *b, mb);
        agree(*a, ma);
        agree(*b, mb);
    }
    tidy();
}
//@ mode=fp
H(c42_variant_visit) {
    std::unique_ptr<var> o;
    model m;
    build_variant(o, m);
    vf_same(nonstd::visit(visitor(), *o), m.v + m.alt, "visit of the held alternative");
}
//@ mode=fp
H(c42_variant_access) {
    std::unique_ptr<var> o;
    model m;
    build_variant(o, m);
    const int k = (int) vf_pick("k", 0, 2);
    if (k != m.alt) vf_expect_throw();
    double got = 0;
    switch (k) {
        case 0: got = nonstd::get<0>(*o); break;
        case 1: got = nonstd::get<value>(*o).v; break;
        default: got = nonstd::get<2>(*o).v;
    }
    vf_assert(k == m.alt, "an alternative that is not held is refused");
    vf_same(got, m.v, "held alternative");
}
//@ mode=fp
H(c42_variant_order) {
    const bool p = vf_pick("p", 0, 1), q = vf_pick("q", 0, 1);
    const double x = vf_double("x", -9, 9), y = vf_double("y", -9, 9);
    const int i = (int) vf_int("i", -100, 100), j = (int) vf_int("j", -100, 100);
    typedef edsp::variant<int, double> V;
    const V a = p ? V(x) : V(i), b = q ? V(y) : V(j);
    const bool eq = p == q && (p ? x == y : i == j), lt = p != q ? q : p ? x < y : i < j, gt = p != q ? p : p ? y < x : j < i;
    vf_assert((a == b) == eq && (a != b) == !eq, "equality of variants");
    vf_assert((a < b) == lt && (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt, "order of variants");
}
// ---------------------------------------------------------------- any
namespace {
typedef edsp::any any_t;
void agree(const any_t& o, const model& m) {
    vf_assert(o.has_value() == (m.alt >= 0), "whether an any holds something");
    const std::int32_t* i = nonstd::any_cast<std::int32_t>(&o);
    const value* v = nonstd::any_cast<value>(&o);
    const failure* f = nonstd::any_cast<failure>(&o);
    vf_assert((i != nullptr) == (m.alt == 0) && (v != nullptr) == (m.alt == 1) && (f != nullptr) == (m.alt == 2), "type held by an any");
    vf_assert((o.type() == typeid(void)) == (m.alt < 0) && (o.type() == typeid(value)) == (m.alt == 1), "type of an any");
    if (!m.known) return;
    if (m.alt == 0) vf_assert(*i == (std::int32_t) m.v, "integer of an any");
    if (m.alt == 1) { vf_same(v->v, m.v, "object of an any"); vf_same(nonstd::any_cast<value>(o).v, m.v, "object of an any"); }
    if (m.alt == 2) { vf_same(f->v, m.v, "object of an any"); vf_same(nonstd::any_cast<failure>(o).v, m.v, "object of an any"); }
}
void build_any(std::unique_ptr<any_t>& o, model& m) {
    const double x = vf_anydouble("x");
    switch (vf_pick("build", 0, 5)) {
        case 0: o.reset(new any_t()); m = {-1, 0, true}; break;
        case 1: { std::int32_t i = 5; o.reset(new any_t(i)); m = {0, 5, true}; break; }
        case 2: { const value v(x); o.reset(new any_t(v)); m = {1, x, true}; vf_same(v.v, x, "source of a copy"); break; }
        case 3: { value v(x); o.reset(new any_t(v)); m = {1, x, true}; vf_same(v.v, x, "source of a copy"); break; }
        case 4: o.reset(new any_t(value(x))); m = {1, x, true}; break;
        default: o.reset(new any_t(nonstd::make_any<failure>(x))); m = {2, x, true};
    }
}
void act(any_t& a, model& ma, any_t& b, model& mb) {
    const double x = vf_anydouble("y");
    switch (vf_pick("op", 0, 11)) {
        case 0: a = (std::int32_t) 9; ma = {0, 9, true}; break;
        case 1: { value v(x); a = v; ma = {1, x, true}; vf_same(v.v, x, "source of a copy"); break; }
        case 2: a = failure(x); ma = {2, x, true}; break;
        case 3: a = b; ma = mb; break;
        case 4: { const any_t& s = a; a = s; break; }
        case 5: { any_t c(std::move(b)); agree(c, mb); vf_assert(!b.has_value(), "a moved any is empty"); a = std::move(c); ma = mb; mb = {-1, 0, true}; break; }
        case 6: a.emplace<value>(x); ma = {1, x, true}; break;
        case 7: a.reset(); ma = {-1, 0, true}; break;
        case 8: a.swap(b); std::swap(ma, mb); break;
        case 9: { using std::swap; swap(b, a); std::swap(ma, mb); break; }
        case 10: { any_t c(a); agree(c, ma); agree(a, ma); b = c; mb = ma; break; }
        default: if (value* v = nonstd::any_cast<value>(&a)) { v->v = x; ma.v = x; ma.known = true; }
    }
}
}
//@ mode=fp
H(c42_any_history) {
    {
        std::unique_ptr<any_t> a, b;
        model ma, mb;
        build_any(a, ma);
        if (vf_pick("other", 0, 1)) { b.reset(new any_t(value(2.5))); mb = {1, 2.5, true}; } else { b.reset(new any_t()); mb = {-1, 0, true}; }
        agree(*a, ma);
        for (int i = 0; i < STEPS; ++i) act(*a, ma, *b, mb);
        agree(*a, ma);
        agree(*b, mb);
    }
    tidy();
}
//@ mode=fp
H(c42_any_access) {
    std::unique_ptr<any_t> o;
    model m;
    build_any(o, m);
    const int k = (int) vf_pick("k", 0, 2);
    if (k != m.alt) vf_expect_throw();
    double got = 0;
    switch (k) {
        case 0: got = nonstd::any_cast<std::int32_t>(*o); break;
        case 1: got = nonstd::any_cast<value>(*o).v; break;
        default: got = nonstd::any_cast<failure>(*o).v;
    }
    vf_assert(k == m.alt, "a type that is not held is refused");
    vf_same(got, m.v, "held object");
}
// ---------------------------------------------------------------- conversions and several holders
//@ mode=fp
H(c42_optional_conversions) {
    const float x = vf_anyfloat("x"), y = vf_anyfloat("y");
    edsp::optional<float> f;
    if (vf_pick("full", 0, 1)) f = x;
    edsp::optional<double> d(f), e;
    if (vf_pick("before", 0, 1)) e = (double) y;
    e = f;
    edsp::optional<double> g(std::move(f));
    vf_assert(d.has_value() == f.has_value() && e.has_value() == f.has_value() && g.has_value() == f.has_value(), "state of a converted optional");
    if (d) { vf_same(*d, (double) x, "converted value"); vf_same(*e, (double) x, "converted value"); vf_same(*g, (double) x, "converted value"); }
    const auto m = nonstd::make_optional((double) y);
    const auto n = nonstd::make_optional<value>((double) y);
    vf_same(*m, (double) y, "made optional");
    vf_same(n->v, (double) y, "made optional");
    const edsp::optional<std::string> s(nonstd::in_place, {'a', 'b', 'c'});
    edsp::optional<std::string> t;
    t.emplace({'d', 'e'});
    vf_assert(s->size() == 3 && (*s)[0] == 'a' && (*s)[2] == 'c' && t->size() == 2 && (*t)[1] == 'e', "optional from a list");
    vf_same(edsp::optional<double>().value_or(y), (double) y, "default of an empty temporary");
    vf_same(edsp::optional<double>(2.5).value_or(y), 2.5, "value of a temporary");
}
//@ mode=fp
H(c42_expected_order) {
    typedef edsp::expected<double, int> E;
    const bool p = vf_pick("p", 0, 1), q = vf_pick("q", 0, 1);
    const double x = vf_double("x", -9, 9), y = vf_double("y", -9, 9);
    const int e = (int) vf_int("e", -100, 100), f = (int) vf_int("f", -100, 100);
    const E a = p ? E(x) : E(nonstd::unexpect, e), b = q ? E(y) : E(nonstd::unexpect, f);
    if (p && q) {
        vf_assert((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "order of two successes");
        vf_assert((a < y) == (x < y) && (a > y) == (x > y) && (a <= y) == (x <= y) && (a >= y) == (x >= y), "order of a success and a value");
        vf_assert((x < b) == (x < y) && (x > b) == (x > y) && (x <= b) == (x <= y) && (x >= b) == (x >= y), "order of a value and a success");
    }
    vf_assert((a < b) == (q && (!p || x < y)) && (b > a) == (a < b) && (a >= b) == !(a < b) && (b <= a) == !(a < b), "failures come before successes");
    vf_assert((a < y) == (!p || x < y) && (y > a) == (a < y) && (a >= y) == !(a < y) && (y <= a) == !(a < y), "failures come before values");
    vf_assert((y < a) == (p && y < x) && (a > y) == (y < a) && (y >= a) == !(y < a) && (a <= y) == !(y < a), "values come after failures");
    const auto u = nonstd::make_unexpected(f);
    vf_assert((a == u) == (!p && e == f) && (u == a) == (!p && e == f) && (a != u) == !(!p && e == f) && (u != a) == !(!p && e == f),
              "equality of a result and an error");
}
//@ mode=fp
H(c42_variant_pairs) {
    struct pair_visitor {
        double operator()(std::int32_t, std::int32_t) const { return 0; }
        double operator()(std::int32_t, const value& b) const { return 1 + b.v; }
        double operator()(std::int32_t, const failure& b) const { return 2 + b.v; }
        double operator()(const value& a, std::int32_t) const { return 3 + a.v; }
        double operator()(const value& a, const value& b) const { return 4 + a.v - b.v; }
        double operator()(const value& a, const failure& b) const { return 5 + a.v - b.v; }
        double operator()(const failure& a, std::int32_t) const { return 6 + a.v; }
        double operator()(const failure& a, const value& b) const { return 7 + a.v - b.v; }
        double operator()(const failure& a, const failure& b) const { return 8 + a.v - b.v; }
    };
    const double x = vf_double("x", -5, 5), y = vf_double("y", -5, 5);
    const int i = (int) vf_pick("i", 0, 2), j = (int) vf_pick("j", 0, 2);
    const var a = i == 0 ? var((std::int32_t) 1) : i == 1 ? var(value(x)) : var(failure(x));
    const var b = j == 0 ? var((std::int32_t) 2) : j == 1 ? var(value(y)) : var(failure(y));
    const double want = i == 0 ? (j == 0 ? 0 : j + y) : j == 0 ? 3 * i + x : 3 * i + j + x - y;
    vf_same(nonstd::visit(pair_visitor(), a, b), want, "visit of two variants");
}
//@ mode=fp
H(c42_hashes) {
    // equal holders have equal hashes
    typedef edsp::variant<int, char> V;
    const int x = (int) vf_int("x", -100, 100), k = (int) vf_pick("k", 0, 1);
    const V a = k ? V((char) x) : V(x), b = k ? V((char) x) : V(x);
    vf_assert(std::hash<V>()(a) == std::hash<V>()(b), "hash of equal variants");
    edsp::optional<int> o(x), p(x);
    vf_assert(std::hash<edsp::optional<int>>()(o) == std::hash<edsp::optional<int>>()(p), "hash of equal optionals");
    vf_assert(std::hash<edsp::optional<int>>()(edsp::optional<int>()) == std::hash<edsp::optional<int>>()(edsp::optional<int>()), "hash of empty optionals");
}
namespace {
// an object built from a list of numbers and one more
template <int K> struct listed {
    int n, first, last;
    double extra;
    tracked<K> guard;
    listed() : n(0), first(0), last(0), extra(0) {}
    listed(std::initializer_list<int> l, double e = -1) :
        n((int) l.size()), first(l.size() ? *l.begin() : 0), last(l.size() ? *(l.end() - 1) : 0), extra(e) {}
};
typedef listed<0> list0;
typedef listed<1> list1;
template <typename L> void made(const L& l, int x, int y, double e) {
    vf_assert(l.n == 2 && l.first == x && l.last == y, "an object made from a list");
    vf_same(l.extra, e, "an object made from a list and another argument");
}
}
//@ mode=fp
H(c42_lists) {
    {
        using namespace nonstd;
        const int x = (int) vf_int("x", -1000, 1000), y = (int) vf_int("y", -1000, 1000);
        const double e = vf_anydouble("e");
        const bool more = vf_pick("more", 0, 1);
        const double w = more ? e : -1;
        const bool again = vf_pick("again", 0, 1);
        switch (vf_pick("of", 0, 6)) {
            case 0: {
                typedef edsp::optional<list0> O;
                O o = more ? O(in_place, {x, y}, e) : O(in_place, {x, y});
                made(*o, x, y, w);
                if (again) { list0& r = o.emplace({y, x}, e); vf_assert(&r == &*o, "emplace gives the new value"); made(*o, y, x, e); }
                break;
            }
            case 1: {
                auto o = more ? nonstd::make_optional<list0>({x, y}, e) : nonstd::make_optional<list0>({x, y});
                made(*o, x, y, w);
                break;
            }
            case 2: {
                edsp::any a = more ? edsp::any(in_place_type<list0>, {x, y}, e) : edsp::any(in_place_type<list0>, {x, y});
                made(*nonstd::any_cast<list0>(&a), x, y, w);
                if (again) { a.emplace<list1>({y, x}, e); made(*nonstd::any_cast<list1>(&a), y, x, e); }
                break;
            }
            case 3: {
                edsp::any a = more ? nonstd::make_any<list0>({x, y}, e) : nonstd::make_any<list0>({x, y});
                made(*nonstd::any_cast<list0>(&a), x, y, w);
                break;
            }
            case 4: {
                typedef edsp::variant<int, list0, list1> V;
                V v = more ? V(in_place_type<list1>, {x, y}, e) : V(in_place_type<list1>, {x, y});
                vf_assert(v.index() == 2, "alternative made from a list");
                made(nonstd::get<2>(v), x, y, w);
                if (again) { v.emplace<list0>({y, x}, e); vf_assert(v.index() == 1, "alternative made from a list"); made(nonstd::get<1>(v), y, x, e); }
                break;
            }
            case 5: {
                typedef edsp::variant<int, list0, list1> V;
                V v = more ? V(in_place_index<1>, {x, y}, e) : V(in_place_index<1>, {x, y});
                vf_assert(v.index() == 1, "alternative made from a list");
                made(nonstd::get<1>(v), x, y, w);
                if (again) { v.emplace<2>({y, x}, e); vf_assert(v.index() == 2, "alternative made from a list"); made(nonstd::get<2>(v), y, x, e); }
                break;
            }
            default: {
                edsp::any a;
                a = list1({x, y}, e);
                made(nonstd::any_cast<list1>(a), x, y, e);
            }
        }
    }
    tidy();
}
// ---------------------------------------------------------------- the largest variant
namespace {
int alive() {
    return tracked<0>::live + tracked<1>::live + tracked<2>::live + tracked<3>::live + tracked<4>::live + tracked<5>::live + tracked<6>::live + tracked<7>::live +
           tracked<8>::live + tracked<9>::live + tracked<10>::live + tracked<11>::live + tracked<12>::live + tracked<13>::live + tracked<14>::live + tracked<15>::live;
}
bool abused() {
    return tracked<0>::broken || tracked<1>::broken || tracked<2>::broken || tracked<3>::broken || tracked<4>::broken || tracked<5>::broken || tracked<6>::broken || tracked<7>::broken ||
           tracked<8>::broken || tracked<9>::broken || tracked<10>::broken || tracked<11>::broken || tracked<12>::broken || tracked<13>::broken || tracked<14>::broken || tracked<15>::broken;
}
typedef edsp::variant<tracked<0>, tracked<1>, tracked<2>, tracked<3>, tracked<4>, tracked<5>, tracked<6>, tracked<7>, tracked<8>, tracked<9>, tracked<10>, tracked<11>,
                      tracked<12>, tracked<13>, tracked<14>, tracked<15>> wide;
#define C42_ALL(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
struct wide_visitor {
#define X(K) double operator()(const tracked<K>& t) const { return t.v + 100 * K; }
    C42_ALL(X)
#undef X
};
wide wide_of(int k, double x, int how) {
    switch (k) {
#define X(K) case K: { const tracked<K> c(x); if (how == 0) return wide(tracked<K>(x)); if (how == 1) return wide(c); \
        if (how == 2) return wide(nonstd::in_place_type<tracked<K>>, x); return wide(nonstd::in_place_index<K>, x); }
        C42_ALL(X)
#undef X
    }
    return wide();
}
void assign(wide& w, int k, double x, int how) {
    switch (k) {
#define X(K) case K: { const tracked<K> c(x); if (how == 0) w = tracked<K>(x); else if (how == 1) w = c; \
        else if (how == 2) w.emplace<tracked<K>>(x); else w.emplace<K>(x); vf_same(c.v, x, "source of a copy"); break; }
        C42_ALL(X)
#undef X
    }
}
void holds(const wide& w, int k, double x) {
    vf_assert(w.index() == (size_t) k && !w.valueless_by_exception(), "alternative of a large variant");
#define X(K) { const tracked<K>* p = nonstd::get_if<K>(&w); vf_assert((p != nullptr) == (k == K) && nonstd::holds_alternative<tracked<K>>(w) == (k == K) && \
        nonstd::get_if<tracked<K>>(&w) == p, "alternative of a large variant"); \
        if (k == K) { vf_same(p->v, x, "object of a large variant"); vf_same(nonstd::get<K>(w).v, x, "object of a large variant"); } }
    C42_ALL(X)
#undef X
}
}
//@ mode=fp
H(c42_many_alternatives) {
    {
        const double x = vf_anydouble("x"), y = vf_anydouble("y");
        const int i = (int) vf_pick("i", 0, 15), j = (int) vf_pick("j", 0, 2) == 0 ? i : (i + 5) % 16, how = (int) vf_pick("how", 0, 3);
        wide a = wide_of(i, x, how);
        holds(a, i, x);
        wide b = wide_of(j, y, 0);
        switch (vf_pick("op", 0, 5)) {
            case 0: { const wide c(a); holds(c, i, x); holds(a, i, x); break; }
            case 1: { const wide c(std::move(a)); holds(c, i, x); break; }
            case 2: b = a; holds(a, i, x); holds(b, i, x); break;
            case 3: b = std::move(a); holds(b, i, x); break;
            case 4: a.swap(b); holds(a, j, y); holds(b, i, x); break;
            default: assign(b, i, x, how); holds(b, i, x);
        }
    }
    vf_assert(alive() == 0, "every held object is destroyed once");
    vf_assert(!abused(), "held objects are used only while they live");
}
//@ mode=fp
H(c42_many_alternatives_visit_and_order) {
    const double x = vf_double("x", -9, 9), y = vf_double("y", -9, 9);
    const int i = (int) vf_pick("i", 0, 15), d = (int) vf_pick("d", 0, 2), j = d == 0 ? i : d == 1 ? (i + 1) % 16 : (i + 9) % 16;
    const wide a = wide_of(i, x, 2), b = wide_of(j, y, 3);
    vf_same(nonstd::visit(wide_visitor(), a), x + 100 * i, "visit of a large variant");
    const bool eq = i == j && x == y, lt = i != j ? i < j : x < y, gt = i != j ? i > j : x > y;
    vf_assert((a == b) == eq && (a != b) == !eq, "equality of large variants");
    vf_assert((a < b) == lt && (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt, "order of large variants");
}
//@ mode=fp
H(c42_many_alternatives_access) {
    const int i = (int) vf_pick("i", 0, 15), k = (int) vf_pick("k", 0, 15);
    const double x = vf_anydouble("x");
    wide a = wide_of(i, x, 0);
    if (k != i) vf_expect_throw();
    double got = 0;
    switch (k) {
#define X(K) case K: if (tracked<K>* q = nonstd::get_if<tracked<K>>(&a)) vf_assert(i == K && q == nonstd::get_if<K>(&a) , "pointer to an alternative"); \
        else vf_assert(i != K && nonstd::get_if<K>(&a) == nullptr, "pointer to an alternative"); got = nonstd::get<K>(a).v; nonstd::get<tracked<K>>(a).v = got; break;
        C42_ALL(X)
#undef X
    }
    vf_assert(k == i, "an alternative that is not held is refused");
    vf_same(got, x, "held alternative of a large variant");
}
// ---------------------------------------------------------------- errors of other types
namespace {
template <typename X> void failed(const X& r, double want, const char* key) {
    vf_assert(!r.has_value() && !(bool) r, key);
    vf_same(r.error().v, want, key);
}
}
//@ mode=fp
H(c42_expected_errors) {
    {
        const double y = vf_anydouble("y");
        const float f = vf_anyfloat("f");
        typedef edsp::expected<double, failure> X;
        const auto u = nonstd::make_unexpected(failure(y));      // to copy
        const auto w = nonstd::make_unexpected(y);               // converts to a failure
        const bool nothing = vf_pick("nothing", 0, 1);
        switch (vf_pick("from", 0, 4)) {
            case 0: if (nothing) failed(done(u), y, "failed action from an error"); else failed(X(u), y, "failure from an error"); vf_same(u.value().v, y, "source of a copy"); break;
            case 1: if (nothing) failed(done(w), y, "failed action from a converted error"); else failed(X(w), y, "failure from a converted error"); break;
            case 2: if (nothing) failed(done(nonstd::make_unexpected(y)), y, "failed action from a converted error"); else failed(X(nonstd::make_unexpected(y)), y, "failure from a converted error"); break;
            case 3: if (nothing) { done d; vf_assert(d.has_value(), "an action that did not fail"); d = u; failed(d, y, "failed action from an assigned error"); }
                    else { X x(2.5); x = u; failed(x, y, "failure from an assigned error"); x = 3.5; vf_assert(x.has_value() && *x == 3.5, "success after a failure"); } break;
            default: if (nothing) { const done d(nonstd::in_place); vf_assert(d.has_value(), "an action that did not fail"); }
                    else { X x(nonstd::unexpect, y); x = nonstd::make_unexpected(failure(f)); failed(x, f, "failure from another"); }
        }
    }
    tidy();
}
