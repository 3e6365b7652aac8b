//@file bounds="messages of up to 3 written items out of texts, views, C strings (up to 4 characters, every byte), integers of each type (every value within 1000 of zero, and the extreme ones), tabs, line ends and colours; every level against every minimum level; names and paths of up to 3 characters" assume="string streams modelled by their documented behaviour; the formatting of floating-point numbers and the escape sequences of colours are left out" flags="-std=c++14"
#define VF_REAL_LOGGER
#include "vf.hpp"
#include <iostream>
#include <sstream>
namespace std { inline stringstream& vf_console() { static stringstream s; return s; } }
#define cout vf_console()
#include <edsp/core/logger.hpp>
#undef cout
namespace {
typedef edsp::logger logger;
std::string any(int n, int lo = -128) {
    std::string s((size_t) n, 'x');
    for (auto& c : s) {
        c = (char) vf_int("c", lo, 127);
        vf_assume(c != 27);
    }
    return s;
}
// the text without escape sequences (ESC [ ... m)
std::string plain(const std::string& s) {
    std::string out;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != 27) { out.push_back(s[i]); continue; }
        while (i < s.size() && s[i] != 'm') ++i;
    }
    return out;
}
void same(const std::string& a, const std::string& b, const char* key) {
    vf_assert(a.size() == b.size(), key);
    for (size_t i = 0; i < b.size(); ++i) vf_assert(a[i] == b[i], key);
}
template <typename T> std::string number(logger& l) {
    typedef std::numeric_limits<T> L;
    const int which = (int) vf_pick("which", 0, 2);
    const T v = which == 1 ? L::max() : which == 2 ? L::min() : (T) vf_pick("digits", 0, 3);
    l << v;
    std::string s;
    unsigned long u = v < 0 ? 0ul - (unsigned long) v : (unsigned long) v;
    do s.insert(s.begin(), (char) ('0' + u % 10)); while (u /= 10);
    if (v < 0) s.insert(s.begin(), '-');
    return s + ' ';
}
std::string item(logger& l, int n) {
    switch (vf_pick("item", 0, 6)) {
        case 0: { const std::string s = any(n); l << s; return s + ' '; }
        case 1: {
            // a view into the middle of a text without a terminator
            std::unique_ptr<char[]> p(new char[n + 1]);
            const std::string s = any(n);
            for (int i = 0; i < n; ++i) p[i] = s[i];
            l << edsp::string_view(p.get(), (size_t) n);
            return s + ' ';
        }
        case 2: { const std::string s = any(n, 1); l << s.c_str(); return s + ' '; }
        case 3: return number<std::int32_t>(l);
        case 4: edsp::tab(l); return "\t";
        case 5: edsp::endl(l); return "\n";
        default: edsp::red(l); return "";
    }
}
}
H(c39_text) {
    const int n = (int) vf_pick("n", 0, 4);
    logger l;
    std::string want = item(l, n);
    same(plain(l.str()), want, "the message is exactly what was written");
}
H(c39_sequence) {
    logger l(logger::levels::warning);
    std::string want;
    for (int k = 0; k < 2; ++k) want += item(l, 1 + k);
    want += item(l, 0);
    same(plain(l.str()), want, "items appear once and in order");
}
H(c39_numbers) {
    logger l;
    std::string want;
    switch (vf_pick("type", 0, 6)) {
        case 0: want = number<std::int16_t>(l); break;
        case 1: want = number<std::uint16_t>(l); break;
        case 2: want = number<std::int32_t>(l); break;
        case 3: want = number<std::uint32_t>(l); break;
        case 4: want = number<std::int64_t>(l); break;
        case 5: want = number<std::uint64_t>(l); break;
        default: { const std::uint8_t c = (std::uint8_t) vf_int("c", 28, 126); l << c; want = std::string(1, (char) c) + ' '; }
    }
    same(plain(l.str()), want, "numbers in decimal");
}
H(c39_manipulators) {
    // colours, tabs and ends of lines given with <<
    typedef logger& (*manipulator)(logger&);
    static const manipulator m[] = {edsp::red, edsp::yellow, edsp::blue, edsp::cyan, edsp::white, edsp::magenta, edsp::green, edsp::grey, edsp::bold, edsp::endc, edsp::reset, edsp::tab, edsp::endl};
    const int k = (int) vf_pick("manipulator", 0, 12);
    logger l;
    const std::string s = any(2);
    l << s << m[k] << s;
    same(plain(l.str()), s + ' ' + (k == 11 ? "\t" : k == 12 ? "\n" : "") + s + ' ', "colours leave the text alone");
}
H(c39_levels) {
    const int least = (int) vf_pick("least", 0, 6), level = (int) vf_pick("level", 0, 6), later = (int) vf_pick("later", 0, 7);
    vf_assert(logger::default_level() == logger::levels::trace, "everything is shown by default");
    logger::set_default_level((logger::levels) least);
    vf_assert(logger::default_level() == (logger::levels) least, "minimum level stored");
    const std::string s = any(2);
    {
        logger l((logger::levels) level);
        vf_assert(l.level() == (logger::levels) level, "level of the message");
        if (later < 7) l.set_level((logger::levels) later);
        vf_assert(l.level() == (logger::levels) (later < 7 ? later : level), "level changed");
        l << s;
        same(std::vf_console().str(), "", "nothing printed before the message ends");
    }
    const int final_level = later < 7 ? later : level;
    const bool shown = final_level >= least && final_level != logger::levels::off;
    same(plain(std::vf_console().str()), shown ? s + ' ' : std::string(), "printed once, exactly from the minimum level on");
}
H(c39_shorthands) {
    const int k = (int) vf_pick("k", 0, 5), least = (int) vf_pick("least", 0, 6);
    logger::set_default_level((logger::levels) least);
    const std::string s = any(2);
    int level = 0;
    switch (k) {
        case 0: eTrace() << s; level = logger::levels::trace; break;
        case 1: eInfo() << s; level = logger::levels::info; break;
        case 2: eDebug() << s; level = logger::levels::debug; break;
        case 3: eWarning() << s; level = logger::levels::warning; break;
        case 4: eCritical() << s; level = logger::levels::critical; break;
        default: eError() << s; level = logger::levels::error;
    }
    same(plain(std::vf_console().str()), level >= least ? s + ' ' : std::string(), "each shorthand has its level");
}
H(c39_names) {
    const std::string n = any((int) vf_pick("n", 0, 3)), p = any((int) vf_pick("p", 0, 3)), q = any(2);
    same(logger::default_name(), "console", "default name");
    same(logger::default_path(), "", "default path");
    logger::set_default_name(n);
    logger::set_default_path(p);
    same(logger::default_name(), n, "default name stored");
    same(logger::default_path(), p, "default path stored");
    logger a, b(edsp::string_view(q.data(), 1), logger::levels::error), c(q, p, logger::levels::debug);
    same(a.name(), n, "a logger has the default name");
    same(b.name(), q.substr(0, 1), "a logger has the name given");
    same(c.name(), q, "a logger has the name given");
    vf_assert(a.level() == logger::levels::trace && b.level() == logger::levels::error && c.level() == logger::levels::debug, "levels given");
}
