//@file bounds="every byte string of 0..6 characters (thorough 8), every separator, lists of up to 3 strings of up to 2 characters; texts of 17 and 40 characters of which two adjoining ones are arbitrary, lists of 9 strings three of which are such texts" assume="C locale; string streams modelled by their documented behaviour in the symbolic build (the validation runs use the real ones)" flags="-std=c++14"
#include "vf.hpp"
#include <edsp/string/trim.hpp>
#include <edsp/string/split.hpp>
#include <edsp/string/join.hpp>
#include <edsp/string/to_lower.hpp>
#include <edsp/string/to_upper.hpp>
namespace {
#ifdef VF_THOROUGH
constexpr int LEN = 8;
#else
constexpr int LEN = 6;
#endif
char any_char() { return (char) vf_int("c", -128, 127); }
std::string text(int n) {
    std::string s((size_t) n, 'x');
    if (!vf_wide) for (auto& c : s) c = any_char();
    else {
        static const char some[] = " \tab  Cd;zZ@[ `{\xc3\xa9,0\n\v xyz  ";
        for (int i = 0; i < n; ++i) s[i] = some[(i * 3 + n) % (sizeof some - 1)];
        const int at = (int) vf_pick("place", 0, 2) * (n - 2) / 2;
        for (int i = at; i < at + 2; ++i) s[i] = any_char();
    }
    return s;
}
std::string text() { return text(vf_size("length", 0, LEN)); }
bool blank(char c) { return (c == ' ') | ((unsigned char) (c - 9) < 5); }
void same(const std::string& a, const std::string& b, const char* key) {
    vf_assert(a.size() == b.size(), key);
    for (size_t i = 0; i < b.size(); ++i) vf_assert(a[i] == b[i], key);
}
}
H(c26_trim) {
    const std::string s = text();
    const int which = (int) vf_pick("which", 0, 2);
    size_t b = 0, e = s.size();
    if (which != 1) while (b < e && blank(s[b])) ++b;
    if (which != 0) while (e > b && blank(s[e - 1])) --e;
    std::string t = s;
    if (which == 0) edsp::string::ltrim(t);
    else if (which == 1) edsp::string::rtrim(t);
    else edsp::string::trim(t);
    same(t, s.substr(b, e - b), "trimming removes exactly the white space at the ends");
}
H(c26_case) {
    const int n = vf_size("length", 0, LEN);
    const bool up = vf_pick("upper", 0, 1), inplace = vf_pick("in place", 0, 1);
    std::string s = "g" + text(n) + "g", out((size_t) n + 2, 'h');
    const std::string s0 = s;
    std::string& to = inplace ? s : out;
    if (up) edsp::string::toupper(s.begin() + 1, s.end() - 1, to.begin() + 1);
    else edsp::string::tolower(s.begin() + 1, s.end() - 1, to.begin() + 1);
    for (int i = 1; i <= n; ++i) {
        const char c = s0[i];
        const bool letter = up ? c >= 'a' && c <= 'z' : c >= 'A' && c <= 'Z';
        vf_assert(to[i] == (char) (letter ? c ^ 32 : c), "exactly the letters change case");
        if (!inplace) vf_assert(s[i] == s0[i], "input left alone");
    }
    vf_assert(to[0] == (inplace ? 'g' : 'h') && to[n + 1] == (inplace ? 'g' : 'h'), "nothing else touched");
}
H(c26_split) {
    const std::string s = text();
    const char sep = any_char();
    std::vector<std::string> got(vf_wide ? 42 : LEN + 1, "?"), want;
    edsp::string::split(s, got.begin(), sep);
    std::string piece;
    for (size_t i = 0; i <= s.size(); ++i) {
        if (i == s.size() || s[i] == sep) {
            if (!piece.empty()) want.push_back(piece);
            piece.clear();
        } else piece += s[i];
    }
    for (size_t k = 0; k < got.size(); ++k) {
        if (k < want.size()) same(got[k], want[k], "the pieces are the runs between separators");
        else vf_assert(got[k] == "?", "nothing written after the last piece");
    }
}
H(c26_split_default) {
    const std::string s = text(2);
    std::vector<std::string> a(3, "?"), b(3, "?");
    edsp::string::split(s, a.begin());
    edsp::string::split(s, b.begin(), ' ');
    for (int k = 0; k < 3; ++k) same(a[k], b[k], "the separator is a space unless given");
}
H(c26_join) {
    const int n = vf_wide ? 9 : (int) vf_pick("pieces", 0, 3);
    std::vector<std::string> v;
    for (int i = 0; i < n; ++i) v.push_back(vf_wide && i % 4 ? std::string(i * 5 % 8, 'p') : text(vf_size("length", 0, 2)));
    const bool given = vf_pick("separator given", 0, 1);
    const char sep = given ? any_char() : ' ';
    std::string out = "before", want;
    if (given) edsp::string::join(v.begin(), v.end(), out, sep);
    else edsp::string::join(v.begin(), v.end(), out);
    for (int i = 0; i < n; ++i) {
        if (i) want += sep;
        want += v[i];
    }
    same(out, want, "joining puts the separator between the pieces");
}
// splitting what was joined gives the pieces back, and joining what was split gives the text back when its separators
// stand alone between other characters
H(c26_round_trip) {
    const int n = (int) vf_pick("pieces", 1, 3);
    const char sep = any_char();
    std::vector<std::string> v, got(4, "?");
    for (int i = 0; i < n; ++i) {
        v.push_back(text((int) vf_pick("length", 1, 2)));
        for (char c : v.back()) vf_assume(c != sep);
    }
    std::string s, t;
    edsp::string::join(v.begin(), v.end(), s, sep);
    edsp::string::split(s, got.begin(), sep);
    for (int i = 0; i < n; ++i) same(got[i], v[i], "splitting undoes joining");
    vf_assert(got[n] == "?", "splitting undoes joining");
    edsp::string::join(got.begin(), got.begin() + n, t, sep);
    same(t, s, "joining undoes splitting");
}
H(c26_trim_wide) { vf_wide = 1; c26_trim(); }
H(c26_case_wide) { vf_wide = 1; c26_case(); }
H(c26_split_wide) { vf_wide = 1; vf_wide_most = 24; c26_split(); }
H(c26_join_wide) { vf_wide = 1; vf_wide_most = 17; c26_join(); }
