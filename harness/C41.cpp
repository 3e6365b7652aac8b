//@file bounds="texts of 0..4 bytes (every value) against patterns of 0..2 bytes (3 for comparisons), every start position from 0 to one past the end and npos, texts of 16 and 41 characters against patterns of 3 and 6, with up to three arbitrary characters; wide characters of 2 and 4 bytes" assume="views inside a larger text without a terminator; C strings without embedded zeros" flags="-std=c++14"
#include "vf.hpp"
#include <edsp/types/string_view.hpp>
namespace {
typedef edsp::string_view sv;
constexpr size_t NPOS = (size_t) -1;
// a text of n bytes surrounded by bytes that do not belong to it
struct text {
    std::unique_ptr<char[]> p;
    int n;
    explicit text(int n, const char* name, int lo = -128) : p(new char[n + 2]), n(n) {
        p[0] = (char) vf_int("before", -128, 127);
        for (int i = 0; i < n; ++i) {
            p[1 + i] = (char) vf_int(name, lo, 127);
            if (lo == 1) vf_assume(p[1 + i] != 0);
        }
        p[n + 1] = lo == 1 ? (char) 0 : (char) vf_int("behind", -128, 127);
    }
    char operator[](size_t i) const { return p[1 + i]; }
    const char* at(size_t i) const { return &p[1 + i]; }
    sv view() const { return sv(&p[1], (size_t) n); }
};
size_t position(int n) {
    const int k = (int) vf_pick("pos", 0, n + 2);
    return k == n + 2 ? NPOS : (size_t) k;
}
void is(const sv& v, const text& t, size_t from, size_t n, const char* key) {
    vf_assert(v.size() == n && v.length() == n, key);
    vf_assert(v.data() == t.at(from), key);
}
size_t cut(size_t a, size_t b) { return a < b ? a : b; }
bool in(char c, const text& v) {
    bool r = false;
    for (int i = 0; i < v.n; ++i) r |= c == v[i];
    return r;
}
int order(const char* a, size_t n, const char* b, size_t k) {
    for (size_t i = 0; i < n && i < k; ++i) {
        const unsigned char x = (unsigned char) a[i], y = (unsigned char) b[i];
        if (x < y) return -1;
        if (y < x) return 1;
    }
    return n < k ? -1 : n > k ? 1 : 0;
}
int sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
}
H(c41_parts) {
    const text t((int) vf_pick("n", 0, 4), "c");
    const size_t n = (size_t) t.n;
    sv v = t.view();
    is(v, t, 0, n, "a view of characters and a length");
    vf_assert(v.empty() == (n == 0), "emptiness");
    size_t i = 0;
    for (auto c : v) { vf_assert(i < n && c == t[i], "characters in order"); ++i; }
    vf_assert(i == n, "as many characters as its size");
    for (auto it = v.crbegin(); it != v.crend(); ++it) { vf_assert(i > 0, "as many characters backwards"); --i; vf_assert(*it == t[i], "characters in reverse order"); }
    vf_assert(i == 0, "as many characters backwards");
    for (i = 0; i < n; ++i) vf_assert(v[i] == t[i] && v.at(i) == t[i], "character by position");
    if (n) vf_assert(v.front() == t[0] && v.back() == t[n - 1], "first and last character");
    const size_t a = (size_t) vf_pick("a", 0, (int) n), b = (size_t) vf_pick("b", 0, (int) (n - a));
    const sv copy(v);
    v.remove_prefix(a);
    is(v, t, a, n - a, "without a prefix");
    v.remove_suffix(b);
    is(v, t, a, n - a - b, "without a suffix");
    sv w = copy;
    w.swap(v);
    is(w, t, a, n - a - b, "swapped view");
    is(v, t, 0, n, "swapped view");
    is(copy, t, 0, n, "copies stay as they were");
    const std::string s = w.to_string(), s2 = nonstd::to_string(w), s3(w);
    vf_assert(s.size() == w.size() && s2.size() == w.size() && s3.size() == w.size(), "string of a view");
    for (i = 0; i < s.size(); ++i) vf_assert(s[i] == t[a + i] && s2[i] == t[a + i] && s3[i] == t[a + i], "string of a view");
    const sv back(s), back2 = nonstd::to_string_view(s);
    vf_assert(back.data() == s.data() && back.size() == s.size() && back2.data() == s.data() && back2.size() == s.size(), "view of a string");
    const sv none;
    vf_assert(none.empty() && none.size() == 0 && none.data() == nullptr, "default view");
}
H(c41_c_strings) {
    const text t((int) vf_pick("n", 0, 4), "c", 1);
    is(sv(t.at(0)), t, 0, (size_t) t.n, "view of a terminated text");
    const auto u = nonstd::literals::operator""_sv(t.at(0), (size_t) t.n);
    is(u, t, 0, (size_t) t.n, "view of a literal");
}
H(c41_substrings) {
    const text t((int) vf_pick("n", 0, 4), "c");
    const size_t n = (size_t) t.n, pos = position(t.n), cnt = position(t.n);
    const sv v = t.view();
    const bool copying = vf_pick("copy", 0, 1);
    if (pos > n) vf_expect_throw();
    if (copying) {
        char out[6];
        for (auto& c : out) c = 'z';
        const size_t r = v.copy(out, cnt == NPOS ? 5 : cnt, pos);
        vf_assert(pos <= n, "a copy from outside is refused");
        vf_assert(r == cut(cnt, n - pos), "number of characters copied");
        for (size_t i = 0; i < 6; ++i) vf_assert(out[i] == (i < r ? t[pos + i] : 'z'), "characters copied");
    } else {
        const sv w = v.substr(pos, cnt);
        vf_assert(pos <= n, "a part from outside is refused");
        is(w, t, pos, cut(cnt, n - pos), "part of a view");
        is(v.substr(pos), t, pos, n - pos, "rest of a view");
    }
}
H(c41_checked_access) {
    const text t((int) vf_pick("n", 0, 4), "c");
    const size_t i = (size_t) vf_int("i", std::numeric_limits<std::int64_t>::min(), std::numeric_limits<std::int64_t>::max());
    if (i >= (size_t) t.n) vf_expect_throw();
    const char& c = t.view().at(i);
    vf_assert(i < (size_t) t.n, "a position outside is refused");
    vf_assert(&c == t.at(0) + i, "character at a position");
}
H(c41_order) {
    const text a((int) vf_pick("n", 0, 3), "a"), b((int) vf_pick("k", 0, 3), "b");
    const int o = order(a.at(0), (size_t) a.n, b.at(0), (size_t) b.n);
    const sv x = a.view(), y = b.view();
    vf_assert(sign(x.compare(y)) == o, "comparison of two views");
    vf_assert((x == y) == (o == 0) && (x != y) == (o != 0), "equality of two views");
    vf_assert((x < y) == (o < 0) && (x <= y) == (o <= 0) && (x > y) == (o > 0) && (x >= y) == (o >= 0), "order of two views");
}
H(c41_order_of_texts) {
    const text a((int) vf_pick("n", 0, 3), "a"), b((int) vf_pick("k", 0, 3), "b", 1);
    const int o = order(a.at(0), (size_t) a.n, b.at(0), (size_t) b.n);
    const sv x = a.view();
    const char* y = b.at(0);
    vf_assert(sign(x.compare(y)) == o, "comparison with a text");
    vf_assert((x == y) == (o == 0) && (x != y) == (o != 0) && (y == x) == (o == 0) && (y != x) == (o != 0), "equality with a text");
    vf_assert((x < y) == (o < 0) && (x <= y) == (o <= 0) && (x > y) == (o > 0) && (x >= y) == (o >= 0), "order of a view and a text");
    vf_assert((y < x) == (o > 0) && (y <= x) == (o >= 0) && (y > x) == (o < 0) && (y >= x) == (o <= 0), "order of a text and a view");
}
H(c41_order_of_parts) {
    const text a((int) vf_pick("n", 0, 3), "a"), b((int) vf_pick("k", 0, 2), "b", 1);
    const size_t n = (size_t) a.n, k = (size_t) b.n, p = (size_t) vf_pick("p", 0, a.n), c = position(a.n);
    const size_t q = (size_t) vf_pick("q", 0, b.n), d = position(b.n);
    const sv x = a.view(), y = b.view();
    const int o = order(a.at(p), cut(c, n - p), b.at(0), k);
    vf_assert(sign(x.compare(p, c, y)) == o, "comparison of a part");
    vf_assert(sign(x.compare(p, c, b.at(0))) == o, "comparison of a part with a text");
    vf_assert(sign(x.compare(p, c, b.at(0), q)) == order(a.at(p), cut(c, n - p), b.at(0), q), "comparison of a part with characters");
    vf_assert(sign(x.compare(p, c, y, q, d)) == order(a.at(p), cut(c, n - p), b.at(q), cut(d, k - q)), "comparison of two parts");
}
H(c41_starts_and_ends) {
    const text a((int) vf_pick("n", 0, 4), "a"), b((int) vf_pick("k", 0, 3), "b", 1);
    const sv x = a.view(), y = b.view();
    bool s = b.n <= a.n, e = s;
    for (int i = 0; i < b.n && b.n <= a.n; ++i) {
        s = s && a[i] == b[i];
        e = e && a[a.n - b.n + i] == b[i];
    }
    vf_assert(x.starts_with(y) == s && x.starts_with(b.at(0)) == s, "starts with");
    vf_assert(x.ends_with(y) == e && x.ends_with(b.at(0)) == e, "ends with");
    const char c = (char) vf_int("c", -128, 127);
    vf_assert(x.starts_with(c) == (a.n > 0 && a[0] == c), "starts with a character");
    vf_assert(x.ends_with(c) == (a.n > 0 && a[a.n - 1] == c), "ends with a character");
}
namespace {
bool here(const text& t, size_t i, const text& p) {
    bool r = true;
    for (int j = 0; j < p.n; ++j) r &= t[i + j] == p[j];
    return r;
}
size_t model_find(const text& t, const text& p, size_t pos) {
    const size_t n = (size_t) t.n, k = (size_t) p.n;
    for (size_t i = pos; i <= n && i + k <= n; ++i) if (here(t, i, p)) return i;
    return NPOS;
}
size_t model_rfind(const text& t, const text& p, size_t pos) {
    const size_t n = (size_t) t.n, k = (size_t) p.n;
    if (k > n) return NPOS;
    for (size_t i = cut(n - k, pos) + 1; i-- > 0;) if (here(t, i, p)) return i;
    return NPOS;
}
size_t model_first(const text& t, const text& p, size_t pos, bool want) {
    for (size_t i = pos; i < (size_t) t.n; ++i) if (in(t[i], p) == want) return i;
    return NPOS;
}
size_t model_last(const text& t, const text& p, size_t pos, bool want) {
    if (t.n == 0) return NPOS;
    for (size_t i = cut(pos, (size_t) t.n - 1) + 1; i-- > 0;) if (in(t[i], p) == want) return i;
    return NPOS;
}
}
H(c41_find) {
    const text t((int) vf_pick("n", 0, 4), "t"), p((int) vf_pick("k", 0, 2), "p", 1);
    const sv v = t.view();
    const size_t pos = position(t.n), want = model_find(t, p, pos);
    switch (vf_pick("by", 0, 3)) {
        case 0: vf_assert((size_t) v.find(p.view(), pos) == want, "find a view"); break;
        case 1: vf_assert((size_t) v.find(p.at(0), pos) == want, "find a text"); break;
        case 2: vf_assert((size_t) v.find(p.at(0), pos, (size_t) p.n) == want, "find characters"); break;
        default: if (p.n == 1) vf_assert((size_t) v.find(p[0], pos) == want, "find a character");
    }
}
H(c41_rfind) {
    const text t((int) vf_pick("n", 0, 4), "t"), p((int) vf_pick("k", 0, 2), "p", 1);
    const sv v = t.view();
    const size_t pos = position(t.n), want = model_rfind(t, p, pos);
    switch (vf_pick("by", 0, 3)) {
        case 0: vf_assert((size_t) v.rfind(p.view(), pos) == want, "find a view from the end"); break;
        case 1: vf_assert((size_t) v.rfind(p.at(0), pos) == want, "find a text from the end"); break;
        case 2: vf_assert((size_t) v.rfind(p.at(0), pos, (size_t) p.n) == want, "find characters from the end"); break;
        default: if (p.n == 1) vf_assert((size_t) v.rfind(p[0], pos) == want, "find a character from the end");
    }
}
#define C41_SET(CALL, MODEL, WANT, KEY) do { \
    const text t((int) vf_pick("n", 0, 4), "t"), p((int) vf_pick("k", 0, 2), "p", 1); \
    const sv v = t.view(); \
    const size_t pos = position(t.n), want = MODEL(t, p, pos, WANT); \
    switch (vf_pick("by", 0, 3)) { \
        case 0: vf_assert((size_t) v.CALL(p.view(), pos) == want, KEY); break; \
        case 1: vf_assert((size_t) v.CALL(p.at(0), pos) == want, KEY); break; \
        case 2: vf_assert((size_t) v.CALL(p.at(0), pos, (size_t) p.n) == want, KEY); break; \
        default: if (p.n == 1) vf_assert((size_t) v.CALL(p[0], pos) == want, KEY); \
    } \
} while (0)
H(c41_first_of) { C41_SET(find_first_of, model_first, true, "first character of a set"); }
H(c41_last_of) { C41_SET(find_last_of, model_last, true, "last character of a set"); }
H(c41_first_not_of) { C41_SET(find_first_not_of, model_first, false, "first character outside a set"); }
H(c41_last_not_of) { C41_SET(find_last_not_of, model_last, false, "last character outside a set"); }
namespace {
template <typename C> void wide_characters() {
    typedef edsp::basic_string_view<C> W;
    const int n = (int) vf_pick("n", 0, 3), k = (int) vf_pick("k", 0, 2);
    std::unique_ptr<C[]> t(new C[n + 1]), p(new C[k + 1]);
    for (int i = 0; i <= n; ++i) t[i] = (C) vf_int("t", 0, 65535);
    for (int i = 0; i <= k; ++i) p[i] = (C) vf_int("p", 0, 65535);
    const W v(t.get(), (size_t) n), w(p.get(), (size_t) k);
    int o = 0;
    for (int i = 0; i < n && i < k && !o; ++i) o = t[i] < p[i] ? -1 : p[i] < t[i] ? 1 : 0;
    if (!o) o = n < k ? -1 : n > k;
    vf_assert(sign(v.compare(w)) == o && (v == w) == (o == 0), "order of wide views");
    size_t at = NPOS;
    for (int i = 0; i < n && at == NPOS; ++i) if (t[i] == p[0]) at = (size_t) i;
    vf_assert((size_t) v.find(p[0]) == at, "find a wide character");
}
}
H(c41_wide_16) { wide_characters<char16_t>(); }
H(c41_wide_32) { wide_characters<char32_t>(); }
#define C41_ALL(CALL, WANT, KEY) do { \
    const size_t want = WANT; \
    vf_assert((size_t) v.CALL(p.view()) == want, KEY); \
    vf_assert((size_t) v.CALL(p.at(0)) == want, KEY); \
    if (p.n == 1) vf_assert((size_t) v.CALL(p[0]) == want, KEY); \
} while (0)
H(c41_whole_text) {
    // a search without a position covers the whole text
    const text t((int) vf_pick("n", 0, 4), "t"), p((int) vf_pick("k", 0, 2), "p", 1);
    const sv v = t.view();
    switch (vf_pick("by", 0, 5)) {
        case 0: C41_ALL(find, model_find(t, p, 0), "find in the whole text"); break;
        case 1: C41_ALL(rfind, model_rfind(t, p, NPOS), "find in the whole text from the end"); break;
        case 2: C41_ALL(find_first_of, model_first(t, p, 0, true), "first character of a set in the whole text"); break;
        case 3: C41_ALL(find_last_of, model_last(t, p, NPOS, true), "last character of a set in the whole text"); break;
        case 4: C41_ALL(find_first_not_of, model_first(t, p, 0, false), "first character outside a set in the whole text"); break;
        default: C41_ALL(find_last_not_of, model_last(t, p, NPOS, false), "last character outside a set in the whole text");
    }
    char out[5] = {'z', 'z', 'z', 'z', 'z'};
    const size_t r = v.copy(out, 5), n = (size_t) t.n;
    vf_assert(r == n, "copy from the start");
    for (size_t i = 0; i < 5; ++i) vf_assert(out[i] == (i < n ? t[i] : 'z'), "copy from the start");
    is(v.substr(), t, 0, n, "the whole text");
}
namespace {
// a long text over two letters, some positions of which hold any character
struct phrase {
    text t;
    phrase(int n, const char* letters, int at, int many) : t(0, "unused") {
        t.p.reset(new char[n + 2]);
        t.n = n;
        t.p[0] = letters[0];
        for (int i = 0; i < n; ++i) t.p[1 + i] = letters[i];
        for (int i = at; i < at + many && i < n; ++i) {
            t.p[1 + i] = (char) vf_int("any", -128, 127);
            vf_assume(t.p[1 + i] != 0);
        }
        t.p[n + 1] = 0;
    }
};
const char LONG[] = "abaababaabaababaababaabaababaabaababaababaa";
}
H(c41_long_texts) {
    static const int lengths[2] = {16, 41};
    const int n = lengths[vf_pick("n", 0, 1)], k = (int) vf_pick("k", 0, 1) * 3 + 3, from = (int) vf_pick("from", 0, 1) * 7;
    const phrase a(n, LONG, n == 16 ? 7 : 20, 2), b(k, LONG + from, from ? k - 1 : 0, 1);
    const text &t = a.t, &p = b.t;
    static const size_t starts[4] = {0, 8, 21, NPOS};
    const size_t pos = starts[vf_pick("pos", 0, 3)];
    const sv v = t.view();
    switch (vf_pick("by", 0, 8)) {
        case 0: vf_assert((size_t) v.find(p.view(), pos) == model_find(t, p, pos), "find in a long text"); break;
        case 1: vf_assert((size_t) v.rfind(p.view(), pos) == model_rfind(t, p, pos), "find in a long text from the end"); break;
        case 2: vf_assert((size_t) v.find_first_of(p.view(), pos) == model_first(t, p, pos, true), "first character of a set in a long text"); break;
        case 3: vf_assert((size_t) v.find_last_of(p.view(), pos) == model_last(t, p, pos, true), "last character of a set in a long text"); break;
        case 4: vf_assert((size_t) v.find_first_not_of(p.view(), pos) == model_first(t, p, pos, false), "first character outside a set in a long text"); break;
        case 5: vf_assert((size_t) v.find_last_not_of(p.view(), pos) == model_last(t, p, pos, false), "last character outside a set in a long text"); break;
        case 6: vf_assert((size_t) v.find(p.at(0), pos) == model_find(t, p, pos), "find a text in a long text"); break;
        case 7: vf_assert((size_t) v.find(p[0], pos) == [&] { for (size_t i = pos; i < (size_t) n; ++i) if (t[i] == p[0]) return i; return NPOS; }(), "find a character in a long text"); break;
        default: {
            const size_t x = cut(pos, (size_t) n);
            vf_assert(sign(v.compare(x, (size_t) k, p.view())) == order(t.at(x), cut((size_t) k, (size_t) n - x), p.at(0), (size_t) k), "comparison in a long text");
            vf_assert(sign(v.compare(p.view())) == order(t.at(0), (size_t) n, p.at(0), (size_t) k), "comparison of long texts");
            is(v.substr(x, 7), t, x, cut(7, (size_t) n - x), "part of a long text");
        }
    }
}
