// FFTW for the symbolic build: the documented behaviour of the functions of fftw3.h that a one-dimensional transform
// needs, computed from the defining sums.  Native replays and the validation runs link the real library.
#ifdef VF_SYMBOLIC
#include <fftw3.h>
#ifdef VF_SYMBOLIC
inline std::int64_t vf_plans_live() { return vf_heap_live(); }
#endif
struct vf_fftw_plan {
    enum { C2C, R2C, C2R, R2R } kind;
    int n, sign;
    unsigned flags;
    fftw_r2r_kind r2r;
    void *in, *out;
};
template <typename T> struct vf_fft {
    typedef T cplx[2];
    static double angle(long k, long n) { return 2 * VF_PI * (double) (k % n) / (double) n; }
    static void dft(int n, int sign, const cplx* x, cplx* y) {
        std::vector<T> re(n), im(n);
        for (int k = 0; k < n; ++k) {
            T a = 0, b = 0;
            for (int j = 0; j < n; ++j) {
                T c = (T) std::cos(angle((long) j * k, n)), s = (T) (sign * std::sin(angle((long) j * k, n)));
                a += x[j][0] * c - x[j][1] * s;
                b += x[j][0] * s + x[j][1] * c;
            }
            re[k] = a; im[k] = b;
        }
        for (int k = 0; k < n; ++k) { y[k][0] = re[k]; y[k][1] = im[k]; }
    }
    static void r2r(int n, fftw_r2r_kind kind, const T* x, T* y) {
        std::vector<T> r(n);
        for (int k = 0; k < n; ++k) {
            T a = 0;
            if (kind == FFTW_DHT) {
                for (int j = 0; j < n; ++j) a += x[j] * (T) (std::cos(angle((long) j * k, n)) + std::sin(angle((long) j * k, n)));
            } else if (kind == FFTW_REDFT10) {
                for (int j = 0; j < n; ++j) a += 2 * x[j] * (T) std::cos(angle((2l * j + 1) * k, 4l * n));
            } else if (kind == FFTW_REDFT01) {
                a = x[0];
                for (int j = 1; j < n; ++j) a += 2 * x[j] * (T) std::cos(angle((2l * k + 1) * j, 4l * n));
            } else if (kind == FFTW_REDFT00) {
                a = x[0] + (k % 2 ? -x[n - 1] : x[n - 1]);
                for (int j = 1; j < n - 1; ++j) a += 2 * x[j] * (T) std::cos(angle((long) j * k, 2l * (n - 1)));
            } else {
                vf_fail("transform kind not modelled");
            }
            r[k] = a;
        }
        for (int k = 0; k < n; ++k) y[k] = r[k];
    }
    // planning with anything but ESTIMATE overwrites the arrays
    static vf_fftw_plan* plan(int kind, int n, int sign, unsigned flags, fftw_r2r_kind r, void* in, void* out, int nin, int nout) {
        auto* p = new vf_fftw_plan;
        p->kind = (decltype(p->kind)) kind; p->n = n; p->sign = sign; p->flags = flags; p->r2r = r; p->in = in; p->out = out;
        if (!(flags & (FFTW_ESTIMATE | FFTW_WISDOM_ONLY))) {
            for (int i = 0; i < nin; ++i) ((T*) in)[i] = (T) 1e3;
            for (int i = 0; i < nout; ++i) ((T*) out)[i] = (T) 1e3;
        }
        return p;
    }
    // data of FFTW is aligned to 16 bytes or not
    static int alignment(const void* p) { return (int) ((std::uintptr_t) p % 16); }
    static void run(vf_fftw_plan* p, int kind, void* in, void* out) {
        vf_assert(p != nullptr, "a plan is executed only once it exists");
        vf_assert(p->kind == kind, "a plan is executed with the function of its kind");
        vf_assert((p->in == p->out) == (in == out), "a plan is executed in place only if made so");
        vf_assert(p->flags & FFTW_UNALIGNED || (alignment(p->in) == alignment(in) && alignment(p->out) == alignment(out)), "a plan is executed on data aligned as it was made for");
        const int n = p->n;
        if (kind == vf_fftw_plan::C2C) dft(n, p->sign, (cplx*) in, (cplx*) out);
        else if (kind == vf_fftw_plan::R2C) {
            std::vector<T> x(2 * n), y(2 * n);
            for (int i = 0; i < n; ++i) { x[2 * i] = ((T*) in)[i]; x[2 * i + 1] = 0; }
            dft(n, -1, (cplx*) x.data(), (cplx*) y.data());
            for (int i = 0; i < 2 * (n / 2 + 1); ++i) ((T*) out)[i] = y[i];
        } else if (kind == vf_fftw_plan::C2R) {
            std::vector<T> x(2 * n), y(2 * n);
            cplx* c = (cplx*) in;
            for (int i = 0; i <= n / 2; ++i) { x[2 * i] = c[i][0]; x[2 * i + 1] = (i == 0 || 2 * i == n) ? 0 : c[i][1]; }
            for (int i = n / 2 + 1; i < n; ++i) { x[2 * i] = c[n - i][0]; x[2 * i + 1] = -c[n - i][1]; }
            dft(n, 1, (cplx*) x.data(), (cplx*) y.data());
            if (!(p->flags & FFTW_PRESERVE_INPUT)) for (int i = 0; i <= n / 2; ++i) c[i][0] = c[i][1] = (T) 1e3;
            for (int i = 0; i < n; ++i) ((T*) out)[i] = y[2 * i];
        } else r2r(n, p->r2r, (T*) in, (T*) out);
    }
};
#define VF_FFTW(X, T, C)                                                                                                        \
    extern "C" {                                                                                                                \
    X##plan X##plan_dft_1d(int n, C* in, C* out, int sign, unsigned f) {                                                        \
        return (X##plan) vf_fft<T>::plan(vf_fftw_plan::C2C, n, sign, f, FFTW_R2HC, in, out, 2 * n, 2 * n);                      \
    }                                                                                                                           \
    X##plan X##plan_dft_r2c_1d(int n, T* in, C* out, unsigned f) {                                                              \
        return (X##plan) vf_fft<T>::plan(vf_fftw_plan::R2C, n, -1, f, FFTW_R2HC, in, out, n, 2 * (n / 2 + 1));                  \
    }                                                                                                                           \
    X##plan X##plan_dft_c2r_1d(int n, C* in, T* out, unsigned f) {                                                              \
        return (X##plan) vf_fft<T>::plan(vf_fftw_plan::C2R, n, 1, f, FFTW_R2HC, in, out, 2 * (n / 2 + 1), n);                   \
    }                                                                                                                           \
    X##plan X##plan_r2r_1d(int n, T* in, T* out, X##r2r_kind k, unsigned f) {                                                   \
        return (X##plan) vf_fft<T>::plan(vf_fftw_plan::R2R, n, 1, f, k, in, out, n, n);                                         \
    }                                                                                                                           \
    void X##execute_dft(const X##plan p, C* in, C* out) { vf_fft<T>::run((vf_fftw_plan*) p, vf_fftw_plan::C2C, in, out); }      \
    void X##execute_dft_r2c(const X##plan p, T* in, C* out) { vf_fft<T>::run((vf_fftw_plan*) p, vf_fftw_plan::R2C, in, out); }  \
    void X##execute_dft_c2r(const X##plan p, C* in, T* out) { vf_fft<T>::run((vf_fftw_plan*) p, vf_fftw_plan::C2R, in, out); }  \
    void X##execute_r2r(const X##plan p, T* in, T* out) { vf_fft<T>::run((vf_fftw_plan*) p, vf_fftw_plan::R2R, in, out); }      \
    void X##execute(const X##plan p) {                                                                                          \
        auto* q = (vf_fftw_plan*) p;                                                                                            \
        vf_fft<T>::run(q, q->kind, q->in, q->out);                                                                              \
    }                                                                                                                           \
    void X##destroy_plan(X##plan p) { delete (vf_fftw_plan*) p; }                                                               \
    int X##alignment_of(T* p) { return vf_fft<T>::alignment(p); }                                                                                       \
    void* X##malloc(size_t n) { return std::malloc(n); }                                                                        \
    void X##free(void* p) { std::free(p); }                                                                                     \
    void X##cleanup() {}                                                                                                        \
    }
VF_FFTW(fftw_, double, fftw_complex)
VF_FFTW(fftwf_, float, fftwf_complex)
#else
// native runs: the real library, with the same checks on how the plans are used
#include <dlfcn.h>
#include <fftw3.h>
#include <map>
struct vf_fftw_use { int kind; void *in, *out; int ain, aout; };
inline std::map<void*, vf_fftw_use>& vf_fftw_plans() { static std::map<void*, vf_fftw_use> m; return m; }
inline std::int64_t vf_plans_live() { return (std::int64_t) vf_fftw_plans().size(); }
inline void vf_fftw_check(void* p, int kind, void* in, void* out, int ain, int aout) {
    vf_assert(p != nullptr, "a plan is executed only once it exists");
    auto it = vf_fftw_plans().find(p);
    vf_assert(it != vf_fftw_plans().end(), "a plan is executed only while it exists");
    vf_assert(it->second.kind == kind, "a plan is executed with the function of its kind");
    vf_assert((it->second.in == it->second.out) == (in == out), "a plan is executed in place only if made so");
    vf_assert(it->second.aout == -1 || (it->second.ain == ain && it->second.aout == aout), "a plan is executed on data aligned as it was made for");
}
#define VF_NEXT(f) ((decltype(&f)) dlsym(RTLD_NEXT, #f))
#define VF_MADE(X, kind, call) auto p = call; if (p) vf_fftw_plans()[p] = {kind, in, out, X##alignment_of((vf_real*) in), f & FFTW_UNALIGNED ? -1 : X##alignment_of((vf_real*) out)}; return p
#define VF_RUN(X, kind, call) vf_fftw_check((void*) p, kind, in, out, X##alignment_of((vf_real*) in), X##alignment_of((vf_real*) out)); call
#define VF_FFTW(X, T, C)                                                                                                        \
    namespace vf_##X { typedef T vf_real; }                                                                                     \
    extern "C" {                                                                                                                \
    X##plan X##plan_dft_1d(int n, C* in, C* out, int sign, unsigned f) {                                                        \
        typedef T vf_real; VF_MADE(X, 0, VF_NEXT(X##plan_dft_1d)(n, in, out, sign, f));                                         \
    }                                                                                                                           \
    X##plan X##plan_dft_r2c_1d(int n, T* in, C* out, unsigned f) {                                                              \
        typedef T vf_real; VF_MADE(X, 1, VF_NEXT(X##plan_dft_r2c_1d)(n, in, out, f));                                           \
    }                                                                                                                           \
    X##plan X##plan_dft_c2r_1d(int n, C* in, T* out, unsigned f) {                                                              \
        typedef T vf_real; VF_MADE(X, 2, VF_NEXT(X##plan_dft_c2r_1d)(n, in, out, f));                                           \
    }                                                                                                                           \
    X##plan X##plan_r2r_1d(int n, T* in, T* out, X##r2r_kind k, unsigned f) {                                                   \
        typedef T vf_real; VF_MADE(X, 3, VF_NEXT(X##plan_r2r_1d)(n, in, out, k, f));                                            \
    }                                                                                                                           \
    void X##execute_dft(const X##plan p, C* in, C* out) { typedef T vf_real; VF_RUN(X, 0, VF_NEXT(X##execute_dft)(p, in, out)); }             \
    void X##execute_dft_r2c(const X##plan p, T* in, C* out) { typedef T vf_real; VF_RUN(X, 1, VF_NEXT(X##execute_dft_r2c)(p, in, out)); }     \
    void X##execute_dft_c2r(const X##plan p, C* in, T* out) { typedef T vf_real; VF_RUN(X, 2, VF_NEXT(X##execute_dft_c2r)(p, in, out)); }     \
    void X##execute_r2r(const X##plan p, T* in, T* out) { typedef T vf_real; VF_RUN(X, 3, VF_NEXT(X##execute_r2r)(p, in, out)); }             \
    void X##destroy_plan(X##plan p) { vf_assert(!p || vf_fftw_plans().erase((void*) p), "a plan is destroyed once"); VF_NEXT(X##destroy_plan)(p); } \
    }
VF_FFTW(fftw_, double, fftw_complex)
VF_FFTW(fftwf_, float, fftwf_complex)
#endif
