//@file flags="-std=c++14 -DUSE_LIBPFFFT -DUSE_LIBAUDIOFILE -DUSE_LIBRESAMPLE -I$REPO/bindings/c/include" bounds="names of 0..3 and values of 0..3 characters over every character but zero, names of 20 and values of 20 and 50 characters with every ninth one arbitrary, histories of 3 operations on 2 variables; every version number that two digits write" assume="the environment is modelled as POSIX specifies getenv and setenv (the validation runs use the real one); one thread"
#include "vf.hpp"
#include <edsp/core/internal/config.hpp>
// the version numbers are configuration: take some that differ from each other
#undef E_VERSION_MAJOR
#undef E_VERSION_MINOR
#undef E_VERSION_PATCH
#undef E_VERSION_STR
#define E_VERSION_MAJOR 3
#define E_VERSION_MINOR 17
#define E_VERSION_PATCH 29
#define E_VERSION_STR "3.17.29"
#include <edsp/core/library_info.hpp>
#include <edsp/core/system.hpp>
#include <bindings/c/src/core.c>
#ifdef VF_SYMBOLIC
#include <cerrno>
#include <pthread.h>
// the environment of POSIX: at most 6 entries, names without '='
namespace {
struct Entry { char name[32], value[64]; bool used; } entries[6];
bool same_text(const char* a, const char* b) {
    while (*a && *a == *b) ++a, ++b;
    return *a == *b;
}
void copy_text(char* to, const char* from) { while ((*to++ = *from++)) {} }
int locks;
}
extern "C" {
char* getenv(const char* n) noexcept {
    if (!*n) return nullptr;
    for (const char* p = n; *p; ++p) if (*p == '=') return nullptr;
    for (auto& e : entries) if (e.used && same_text(e.name, n)) return e.value;
    return nullptr;
}
int setenv(const char* n, const char* v, int overwrite) noexcept {
    bool bad = !n || !*n;
    if (!bad) for (const char* p = n; *p; ++p) bad = bad || *p == '=';
    if (bad) { errno = EINVAL; return -1; }
    for (auto& e : entries)
        if (e.used && same_text(e.name, n)) {
            if (overwrite) copy_text(e.value, v);
            return 0;
        }
    for (auto& e : entries)
        if (!e.used) {
            e.used = true;
            copy_text(e.name, n);
            copy_text(e.value, v);
            return 0;
        }
    errno = ENOMEM;
    return -1;
}
int* __errno_location() noexcept { static int e; return &e; }
int pthread_mutex_lock(pthread_mutex_t*) noexcept { vf_assert(locks == 0, "the lock is not taken twice"); ++locks; return 0; }
int pthread_mutex_unlock(pthread_mutex_t*) noexcept { vf_assert(locks == 1, "the lock is released once"); --locks; return 0; }
}
#endif
namespace {
int number(const char* s, int k) {
    while (k) if (*s++ == '.') --k;
    int n = 0;
    while (*s >= '0' && *s <= '9') n = n * 10 + (*s++ - '0');
    return n;
}
bool text_is(const char* a, const char* b) { return std::string(a) == b; }
using env = edsp::system_env;
std::string text(const char* name, int n) {
    std::string s((size_t) n, 'x');
    for (size_t i = 0; i < s.size(); ++i) s[i] = n > 9 && i % 9 ? (char) ('a' + i * 7 % 26) : (char) vf_int(name, 1, 255);
    return s;
}
std::string name_text(int n) {
    std::string s = "VF" + text("name", n);
    for (char c : s) vf_assume(c != '=');
    return s;
}
void check(const std::string& name, bool set, const std::string& value) {
    // a view into a longer text: nothing after its end belongs to the name
    const std::string longer = name + "tail";
    const edsp::string_view view(longer.data(), name.size());
    vf_assert(env::exist(view) == set, "a variable exists exactly when it was set");
    const auto got = env::get_env(view);
    vf_assert(got.has_value() == set, "a variable has a value exactly when it was set");
    int error = 77;
    const char* c = get_environment(name.c_str(), &error);
    vf_assert((exist_environment(name.c_str()) != 0) == set, "C: a variable exists exactly when it was set");
    vf_assert((c != nullptr) == set && (error == 0) == set, "C: a variable has a value exactly when it was set");
    vf_assert((get_environment(name.c_str(), nullptr) != nullptr) == set, "C: the error is optional");
    if (set) {
        vf_assert(got.value().size() == value.size(), "the value read is the value set");
        for (size_t i = 0; i < value.size(); ++i) vf_assert(got.value()[i] == value[i] && c[i] == value[i], "the value read is the value set");
        vf_assert(c[value.size()] == 0, "the value read is the value set");
    } else {
        vf_assert(got.error() == env::error::not_found, "a missing variable is reported as such");
        vf_assert(error == (int) env::error::not_found, "C: a missing variable is reported as such");
    }
}
}
H(c33_version) {
    const char* s = edsp::library_info::version();
    vf_assert(number(s, 0) == edsp::library_info::major_version(), "the version text starts with the major number");
    vf_assert(number(s, 1) == edsp::library_info::minor_version(), "the minor number comes second");
    vf_assert(number(s, 2) == edsp::library_info::patch_version(), "the patch number comes last");
    vf_assert(std::count(s, s + std::strlen(s), '.') == 2, "three numbers make the version");
    vf_assert(text_is(edsp::library_info::build_date(), __DATE__), "the build date is the day of the build");
    vf_assert(text_is(edsp::library_info::build_time(), __TIME__), "the build time is the time of the build");
    vf_assert(get_major_version() == number(s, 0) && get_minor_version() == number(s, 1) && get_patch_version() == number(s, 2), "C: the same numbers");
    vf_assert(text_is(get_version(), s), "C: the same version");
    vf_assert(text_is(get_build_date(), __DATE__), "C: the build date is the day of the build");
    vf_assert(text_is(get_build_time(), __TIME__), "C: the build time is the time of the build");
}
H(c33_configuration) {
    vf_assert(edsp::library_info::fft_library() == edsp::fft_lib::pffft, "the FFT library is the one configured");
    vf_assert(edsp::library_info::codec_library() == edsp::codec_lib::audiofile, "the codec library is the one configured");
    vf_assert(edsp::library_info::resample_library() == edsp::resample_lib::resample, "the resampler is the one configured");
    vf_assert(text_is(get_fft_library(), "pffft") && text_is(get_codec_library(), "audiofile") && text_is(get_resample_library(), "resample"),
              "C: the libraries are named as configured");
    vf_assert(edsp::system_info::os() == edsp::systems::linux, "the system is the one the library was built for");
    vf_assert(edsp::system_info::processor() == edsp::processors::x64, "the processor is the one the library was built for");
#ifdef __clang__
    vf_assert(edsp::system_info::compiler() == edsp::compilers::clang, "the compiler is the one that built the library");
#else
    vf_assert(edsp::system_info::compiler() == edsp::compilers::gcc, "the compiler is the one that built the library");
#endif
}
// reading and writing in any order, two variables of which one name may be the beginning of the other
//@ budget=120
H(c33_environment) {
    std::string names[2] = {name_text(1), name_text((int) vf_pick("length", 1, 2))}, values[2];
    vf_assume(names[0] != names[1]);
    bool set[2] = {false, false};
    for (int step = 0; step < 2; ++step) {
        const int k = (int) vf_pick("variable", 0, 1);
        const bool c = vf_pick("C", 0, 1);
        const bool keep = !c && vf_pick("keep", 0, 1);
        const std::string v = text("value", (int) vf_pick("value length", 0, 2));
        const std::string ln = names[k] + "tail", lv = v + "rest";
        if (c) vf_assert(set_environment(names[k].c_str(), v.c_str()) == 0, "C: setting a variable succeeds");
        else if (keep) vf_assert(env::set_env({ln.data(), names[k].size()}, {lv.data(), v.size()}, false) == env::error::no_error, "setting a variable succeeds");
        else vf_assert(env::set_env({ln.data(), names[k].size()}, {lv.data(), v.size()}) == env::error::no_error, "setting a variable succeeds");
        if (!(keep && set[k])) values[k] = v;
        set[k] = true;
        for (int i = 0; i < 2; ++i) check(names[i], set[i], values[i]);
    }
}
// a name that cannot be is refused and changes nothing
H(c33_refused) {
    const int n = (int) vf_pick("length", 0, 2);
    std::string name = text("name", n);
    if (n) vf_assume(name[(size_t) n - 1] == '=');
    const auto e = env::set_env(name, "v");
    vf_assert(e != env::error::no_error, "a name that cannot be is refused");
    if (!n) vf_assert(e == env::error::empty, "an empty name is reported as such");
    vf_assert(set_environment(name.c_str(), "v") != 0, "C: a name that cannot be is refused");
    vf_assert(!env::exist(name) && !exist_environment(name.c_str()), "what was refused does not exist");
    const auto got = env::get_env(name);
    vf_assert(!got.has_value(), "what was refused has no value");
    vf_assert(got.error() == (n ? env::error::not_found : env::error::empty), "the reason is reported");
    int error = 0;
    vf_assert(get_environment(name.c_str(), &error) == nullptr && error != 0, "C: what was refused has no value");
}
H(c33_environment_long) {
    std::string names[2] = {name_text(20), ""}, values[2];
    names[1] = names[0] + "_2";
    bool set[2] = {false, false};
    const int order = (int) vf_pick("order", 0, 1);
    for (int step = 0; step < 3; ++step) {
        const int k = (step + order) % 2;
        const std::string v = text("value", (int) vf_pick("value length", 0, 1) * 30 + 20);
        if (vf_pick("C", 0, 1)) vf_assert(set_environment(names[k].c_str(), v.c_str()) == 0, "C: setting a variable succeeds");
        else vf_assert(env::set_env(names[k], v) == env::error::no_error, "setting a variable succeeds");
        values[k] = v;
        set[k] = true;
        for (int i = 0; i < 2; ++i) check(names[i], set[i], values[i]);
    }
}
