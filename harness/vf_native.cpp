// Native implementation of the harness API: replays one assignment on the real, compiled code.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <dlfcn.h>
static std::map<std::string, std::string> in_;
static std::map<std::string, int> cnt_;
static std::string key(const char* n) {
    int k = cnt_[n]++;
    std::string s(n);
    for (auto& c : s) if (c == ' ') c = '_';
    return s + "#" + std::to_string(k);
}
static double getd(const char* n, double dflt) {
    auto it = in_.find(key(n));
    if (it == in_.end()) return dflt;
    std::uint64_t b = std::strtoull(it->second.c_str(), nullptr, 16);
    double d;
    std::memcpy(&d, &b, 8);
    return d;
}
extern "C" {
double vf_double(const char* n, double lo, double) { return getd(n, lo); }
float vf_float(const char* n, float lo, float) { return (float) getd(n, lo); }
double vf_anydouble(const char* n) { return getd(n, 0.0); }
float vf_anyfloat(const char* n) { return (float) getd(n, 0.0); }
std::int64_t vf_int(const char* n, std::int64_t lo, std::int64_t) {
    auto it = in_.find(key(n));
    return it == in_.end() ? lo : (std::int64_t) std::strtoll(it->second.c_str(), nullptr, 10);
}
std::int64_t vf_pick(const char* n, std::int64_t lo, std::int64_t hi) { return vf_int(n, lo, hi); }
static void fin(int rc) { std::fflush(stdout); _Exit(rc); }
void vf_assume(bool c) { if (!c) { std::printf("VF_ASSUME\n"); fin(77); } }
void vf_assert(bool c, const char* k) { if (!c) { std::printf("VF_FAIL %s\n", k); fin(42); } }
void vf_close(double a, double b, double tol, const char* k) {
    bool ok = (a != a && b != b) || a == b || std::fabs(a - b) <= tol * (1 + std::fabs(b));
    if (!ok) { std::printf("VF_FAIL %s\nVF_VALUES %.17g %.17g\n", k, a, b); fin(42); }
}
void vf_same(double a, double b, const char* k) {
    bool ok = (a != a && b != b) || std::memcmp(&a, &b, 8) == 0;
    if (!ok) { std::printf("VF_FAIL %s\nVF_VALUES %.17g %.17g\n", k, a, b); fin(42); }
}
void vf_reach(const char* l) { std::printf("VF_REACH %s\n", l); }
void vf_observe(const char* l, double v) {
    std::uint64_t b;
    std::memcpy(&b, &v, 8);
    std::printf("VF_OBS %s %016llx\n", l, (unsigned long long) b);
}
void vf_observe_int(const char* l, std::int64_t v) { std::printf("VF_OBSI %s %lld\n", l, (long long) v); }
void vf_fail(const char* k) { std::printf("VF_FAIL %s\n", k); fin(42); }
std::int64_t vf_heap_live() { return 0; }
static bool expect_throw_ = false;
void vf_expect_throw() { expect_throw_ = true; }
}
// the character functions, checked: undefined outside unsigned char and EOF (compiled with -D__NO_CTYPE)
static int ctype_arg(int c, const char* f) {
    if (c < -1 || c > 255) { std::printf("VF_FAIL ctype: %s called with %d\n", f, c); fin(42); }
    return c;
}
extern "C" {
int isspace(int c) { ctype_arg(c, "isspace"); return c == 32 || (c >= 9 && c <= 13); }
int isdigit(int c) { ctype_arg(c, "isdigit"); return c >= 48 && c <= 57; }
int isupper(int c) { ctype_arg(c, "isupper"); return c >= 65 && c <= 90; }
int islower(int c) { ctype_arg(c, "islower"); return c >= 97 && c <= 122; }
int isalpha(int c) { ctype_arg(c, "isalpha"); return (c | 32) >= 97 && (c | 32) <= 122; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
}
#ifndef VF_NO_NEW
// heap memory is filled so that a read of uninitialised memory is visible
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); std::memset(p, 0xA5, n); return p; }
void* operator new[](std::size_t n) { void* p = std::malloc(n ? n : 1); std::memset(p, 0xA5, n); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    if (FILE* f = std::fopen(argv[2], "r")) {
        char line[4096], k[2048], t[8], v[512];
        while (std::fgets(line, sizeof line, f))
            if (std::sscanf(line, "%2047s %7s %511s", k, t, v) == 3) in_[k] = v;
        std::fclose(f);
    }
    void (*fn)() = (void (*)()) dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { std::printf("VF_NOFN\n"); return 2; }
    try {
        fn();
    } catch (...) {
        if (!expect_throw_) throw;
    }
    std::printf("VF_DONE\n");
    fin(0);
}
