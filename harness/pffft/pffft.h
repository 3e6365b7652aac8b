// PFFFT as its header documents it, used in both builds: sizes are 2^a 3^b 5^c, multiples of 16 for complex and of 32
// for real transforms; buffers are aligned to 16 bytes; transforms are not scaled; an ordered real spectrum has its
// first and its middle bin, both real, packed in the first complex cell.
#ifndef VF_PFFFT
#define VF_PFFFT
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <vector>
enum pffft_direction_t { PFFFT_FORWARD, PFFFT_BACKWARD };
enum pffft_transform_t { PFFFT_REAL, PFFFT_COMPLEX };
struct PFFFT_Setup {
    int n;
    pffft_transform_t kind;
};
struct vf_pffft {
    static int& setups() { static int n = 0; return n; }
    static int& buffers() { static int n = 0; return n; }
    static int& refused() { static int n = 0; return n; }
    static void rule(bool ok, const char* key) { vf_assert(ok, key); }
    static void aligned(const void* p) { rule(((std::uintptr_t) p & 15) == 0, "PFFFT is given aligned buffers"); }
    static double angle(long k, long n) { return 2 * VF_PI * (double) (k % n) / (double) n; }
    static void dft(int n, int sign, const std::vector<float>& x, std::vector<float>& y) {
        for (int k = 0; k < n; ++k) {
            float re = 0, im = 0;
            for (int j = 0; j < n; ++j) {
                float c = (float) std::cos(angle((long) j * k, n)), s = (float) (sign * std::sin(angle((long) j * k, n)));
                re += x[2 * j] * c - x[2 * j + 1] * s;
                im += x[2 * j] * s + x[2 * j + 1] * c;
            }
            y[2 * k] = re;
            y[2 * k + 1] = im;
        }
    }
};
inline PFFFT_Setup* pffft_new_setup(int n, pffft_transform_t kind) {
    vf_pffft::rule(n > 0 && n % (kind == PFFFT_REAL ? 32 : 16) == 0, "PFFFT is asked for sizes it has");
    int r = n;
    for (int p : {2, 3, 5})
        while (r % p == 0) r /= p;
    if (r != 1) return nullptr;
    ++vf_pffft::setups();
    return new PFFFT_Setup{n, kind};
}
inline void pffft_destroy_setup(PFFFT_Setup* s) {
    --vf_pffft::setups();
    delete s;
}
inline void* pffft_aligned_malloc(std::size_t n) {
    ++vf_pffft::buffers();
    return std::malloc(n);
}
inline void pffft_aligned_free(void* p) {
    if (p) --vf_pffft::buffers();
    std::free(p);
}
inline int pffft_simd_size() { return 4; }
inline void pffft_transform_ordered(PFFFT_Setup* s, const float* in, float* out, float* work, pffft_direction_t d) {
    vf_pffft::rule(s != nullptr, "PFFFT is given a setup");
    vf_pffft::aligned(in);
    vf_pffft::aligned(out);
    vf_pffft::aligned(work);
    const int n = s->n;
    std::vector<float> x(2 * (std::size_t) n), y(2 * (std::size_t) n);
    if (s->kind == PFFFT_COMPLEX) {
        for (int i = 0; i < 2 * n; ++i) x[i] = in[i];
        vf_pffft::dft(n, d == PFFFT_FORWARD ? -1 : 1, x, y);
        if (work) for (int i = 0; i < 2 * n; ++i) work[i] = 0;
        for (int i = 0; i < 2 * n; ++i) out[i] = y[i];
    } else if (d == PFFFT_FORWARD) {
        for (int i = 0; i < n; ++i) x[2 * i] = in[i];
        vf_pffft::dft(n, -1, x, y);
        if (work) for (int i = 0; i < n; ++i) work[i] = 0;
        out[0] = y[0];
        out[1] = y[n];
        for (int i = 2; i < n; ++i) out[i] = y[i];
    } else {
        x[0] = in[0];
        x[n] = in[1];
        for (int i = 2; i < n; ++i) x[i] = in[i];
        for (int k = n / 2 + 1; k < n; ++k) {
            x[2 * k] = x[2 * (n - k)];
            x[2 * k + 1] = -x[2 * (n - k) + 1];
        }
        vf_pffft::dft(n, 1, x, y);
        if (work) for (int i = 0; i < n; ++i) work[i] = 0;
        for (int i = 0; i < n; ++i) out[i] = y[2 * i];
    }
}
#endif
