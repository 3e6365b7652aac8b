//@file bounds="frequencies in [0,1e5] Hz (cents: [16.4,1e5], where they are positive), scale values covering the same range; limits in [0,2e4] Hz, spaces of 2..5 points (thorough 2..9), and of 17 and 40 between about 60 and 15000 Hz; double and float" assume="exact real functions up to 1e-6 relative rounding (float 1e-3); the cent scale below 16.35 Hz is left open: it folds negative cents onto negative frequencies"
#include "vf.hpp"
#include <edsp/auditory/converter/hertz2mel.hpp>
#include <edsp/auditory/converter/mel2hertz.hpp>
#include <edsp/auditory/converter/hertz2bark.hpp>
#include <edsp/auditory/converter/bark2hertz.hpp>
#include <edsp/auditory/converter/hertz2erb.hpp>
#include <edsp/auditory/converter/erb2hertz.hpp>
#include <edsp/auditory/converter/hertz2cent.hpp>
#include <edsp/auditory/converter/cent2hertz.hpp>
#include <edsp/auditory/audspace.hpp>
namespace {
namespace au = edsp::auditory;
namespace cv = edsp::auditory::converter;
#ifdef VF_THOROUGH
constexpr int N = 9;
#else
constexpr int N = 5;
#endif
double mel_of(double f) { return 1127.01048 * std::log(1 + f / 700); }
double erb_of(double f) { return 21.4 * std::log10(1 + 4.37 * f / 1000); }
double cent_of(double f) { return 1200 * std::log2(f / 440) + 5700; }
double bark_of(double f) {
    double b = 26.81 * f / (1960 + f) - 0.53;
    return b < 2 ? b + 0.15 * (2 - b) : b > 20.1 ? b + 0.22 * (b - 20.1) : b;
}
template <typename T> void formulas() {
    const double tol = sizeof(T) == 8 ? 1e-6 : 1e-2;
    T f = vf_double("f", 0, 1e5);
    vf_close(cv::hertz2mel(f), mel_of(f), tol, "mel formula");
    vf_close(cv::hertz2erb(f), erb_of(f), tol, "ERB formula");
    vf_close(cv::hertz2bark(f), bark_of(f), tol, "Bark formula");
}
template <typename T> void cents() {
    T f = vf_double("f", 16.4, 1e5);
    vf_close(cv::hertz2cent(f), cent_of(f), sizeof(T) == 8 ? 1e-6 : 1e-1, "cent formula");
}
typedef double (*scale)(double);
int many = 0;   // points, when not every small number of them
template <typename F> void space(F fill, scale s, double lo) {
    const int n = many ? many : (int) vf_pick("n", 2, N);
    double a = many ? vf_double("min", 60, 61) : vf_double("min", lo, 2e4), b = many ? vf_double("max", 15000, 15001) : vf_double("max", lo, 2e4);
    std::vector<double> o(n + 2);
    vf_fill(o, "before", -10, 10);
    const double first = o[0], last = o[n + 1];
    fill(o.begin() + 1, o.begin() + 1 + n, a, b);
    for (int i = 0; i < n; ++i)
        if (!many || i == 0 || i == n / 2 || i == n - 1) vf_close(o[1 + i], s(a + i * (b - a) / (n - 1)), 1e-5, "scale value of each frequency, from the first limit to the last");
    vf_same(o[0], first, "nothing written before the output");
    vf_same(o[n + 1], last, "nothing written after the output");
}
}
H(c23_formula_double) { formulas<double>(); }
H(c23_formula_float) { formulas<float>(); }
H(c23_cent_double) { cents<double>(); }
H(c23_cent_float) { cents<float>(); }
H(c23_mel_inverse) {
    double f = vf_double("f", 0, 1e5), m = vf_double("m", 0, 5600);
    vf_close(cv::mel2hertz(cv::hertz2mel(f)), f, 1e-6, "frequency restored");
    vf_close(cv::hertz2mel(cv::mel2hertz(m)), m, 1e-6, "scale value restored");
    vf_close(cv::mel2hertz(m), 700 * (std::exp(m / 1127.01048) - 1), 1e-6, "inverse formula");
}
H(c23_erb_inverse) {
    double f = vf_double("f", 0, 1e5), m = vf_double("m", 0, 56);
    vf_close(cv::erb2hertz(cv::hertz2erb(f)), f, 1e-6, "frequency restored");
    vf_close(cv::hertz2erb(cv::erb2hertz(m)), m, 1e-6, "scale value restored");
}
H(c23_erb_inverse_formula) {
    double m = vf_double("m", 0, 56);
    vf_close(cv::erb2hertz(m), (std::pow(10., m / 21.4) - 1) * 1000 / 4.37, 1e-6, "inverse formula");
}
H(c23_bark_inverse) {
    double f = vf_double("f", 0, 1e5);
    vf_close(cv::bark2hertz(cv::hertz2bark(f)), f, 1e-6, "frequency restored");
}
H(c23_bark_inverse_scale) {
    double z = vf_double("z", -0.1505, 27);
    vf_close(cv::hertz2bark(cv::bark2hertz(z)), z, 1e-6, "scale value restored");
}
H(c23_cent_inverse) {
    double f = vf_double("f", 16.4, 1e5), m = vf_double("c", 1, 15000);
    vf_close(cv::cent2hertz(cv::hertz2cent(f)), f, 1e-6, "frequency restored");
    vf_close(cv::hertz2cent(cv::cent2hertz(m)), m, 1e-6, "scale value restored");
}
H(c23_order) {
    double a = vf_double("a", 0, 1e5), b = vf_double("b", 0, 1e5);
    vf_assume(a < b);
    vf_assert(cv::hertz2mel(a) < cv::hertz2mel(b), "mel: greater frequency, greater value");
    vf_assert(cv::hertz2erb(a) < cv::hertz2erb(b), "ERB: greater frequency, greater value");
    vf_assert(cv::hertz2bark(a) < cv::hertz2bark(b), "Bark: greater frequency, greater value");
}
H(c23_order_inverse) {
    double a = vf_double("a", 0, 27), b = vf_double("b", 0, 27);
    vf_assume(a < b);
    vf_assert(cv::mel2hertz(200 * a) < cv::mel2hertz(200 * b), "mel: greater value, greater frequency");
    vf_assert(cv::erb2hertz(2 * a) < cv::erb2hertz(2 * b), "ERB: greater value, greater frequency");
    vf_assert(cv::bark2hertz(a) < cv::bark2hertz(b), "Bark: greater value, greater frequency");
}
H(c23_order_cent) {
    double a = vf_double("a", 16.4, 1e5), b = vf_double("b", 16.4, 1e5);
    vf_assume(a < b);
    vf_assert(cv::hertz2cent(a) < cv::hertz2cent(b), "cent: greater frequency, greater value");
    double c = vf_double("c", 1, 15000), d = vf_double("d", 1, 15000);
    vf_assume(c < d);
    vf_assert(cv::cent2hertz(c) < cv::cent2hertz(d), "cent: greater value, greater frequency");
}
H(c23_reference) {
    vf_close(cv::hertz2cent(440.), 5700, 1e-6, "A4 is 5700 cents");
    vf_close(cv::hertz2mel(0.), 0, 1e-9, "0 Hz is 0 mel");
    vf_close(cv::hertz2erb(0.), 0, 1e-9, "0 Hz is 0 ERB");
    vf_close(cv::hertz2mel(1000.), 1000, 1e-2, "1 kHz is 1000 mel");
}
H(c23_melspace) { space([](auto a, auto b, double x, double y) { au::melspace(a, b, x, y); }, mel_of, 0); }
H(c23_erbspace) { space([](auto a, auto b, double x, double y) { au::erbspace(a, b, x, y); }, erb_of, 0); }
H(c23_barkspace) { space([](auto a, auto b, double x, double y) { au::barkspace(a, b, x, y); }, bark_of, 0); }
H(c23_centspace) { space([](auto a, auto b, double x, double y) { au::centspace(a, b, x, y); }, cent_of, 16.4); }
H(c23_audspace) {
    static const scale scales[4] = {mel_of, erb_of, bark_of, cent_of};
    int k = (int) vf_pick("scale", 0, 3);
    static const au::auditory_scale kinds[4] = {au::mel, au::erb, au::bark, au::cent};
    space([k](auto a, auto b, double x, double y) { au::audspace(a, x, y, b - a, kinds[k]); }, scales[k], 16.4);
}
H(c23_long_spaces) {
    many = vf_pick("many", 0, 1) ? 40 : 17;
    switch (vf_pick("which", 0, 3)) {
        case 0: c23_melspace(); break;
        case 1: c23_erbspace(); break;
        case 2: c23_barkspace(); break;
        default: c23_centspace();
    }
    many = 0;
}
