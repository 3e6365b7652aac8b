//@file bounds="1..3 channels, blocks of 1..3 frames, blocks of 48 and 257 frames of up to 8 channels, every ratio in [1/256,256], every quality, histories of 2 (thorough 3) blocks and resets with every number of frames consumed and produced and every failure" assume="libsamplerate is modelled by its manual (any number of frames may be consumed and produced within the sizes given; counters are left alone when a call is refused); the libresample back end is not installed and not covered" flags="-std=c++14 -DUSE_LIBSAMPLERATE"
#include "vf.hpp"
#include "samplerate_stub.hpp"
#include <edsp/io/resampler.hpp>
namespace {
void start() {
    for (auto& s : states) s = SRC_STATE{};
    created = destroyed = next_error = calls = resets = 0;
    last_state = nullptr;
    fail_new = false;
}
using R = edsp::io::resampler<float>;
template <typename D, bool Copy> struct copies {
    static void check(D&) {}
};
template <typename D> struct copies<D, true> {
    static void check(D& d) { D other(d); }
};
}
H(c31_setup) {
    start();
    const int c = (int) vf_pick("channels", 1, 3), q = (int) vf_pick("quality", 0, 4);
    const float f = vf_float("ratio", 1.0f / 256, 256);
    {
        R r(c, (edsp::io::resample_quality) q, f);
        const int want[] = {SRC_SINC_BEST_QUALITY, SRC_SINC_MEDIUM_QUALITY, SRC_SINC_FASTEST, SRC_ZERO_ORDER_HOLD, SRC_LINEAR};
        vf_assert(created == 1 && states[0].converter == want[q], "the engine has the quality asked for");
        vf_assert(states[0].channels == c && r.channels() == c, "the engine has the channels asked for");
        vf_assert((int) r.quality() == q, "the quality reads back");
        vf_same(r.ratio(), f, "the ratio reads back");
        vf_assert(r.error() == 0, "no error at first");
    }
    vf_assert(created == 1 && destroyed == 1, "the engine is released exactly once");
    const edsp::io::resample_quality names[] = {edsp::io::best_quality, edsp::io::medium_quality, edsp::io::sinc_fastest, edsp::io::zero_order_hold, edsp::io::linear};
    vf_assert((int) names[q] == q, "the qualities are those of the engine");
}
//@ budget=120
H(c31_process) {
    start();
    const int c = (int) vf_pick("channels", 1, 3), frames = (int) vf_pick("frames", 1, 3), odd = (int) vf_pick("extra samples", 0, 1);
    const float f = vf_float("ratio", 1.0f / 256, 3);
    const int size = frames * c + (odd ? c - 1 : 0);
    std::vector<float> in((size_t) size + 2), out(24, 7.0f);
    for (auto& x : in) x = vf_float("x", -1, 1);
    const auto before = in;
    {
        R r(c, edsp::io::linear, f);
        const auto res = r.process(in.begin() + 1, in.begin() + 1 + size, out.begin() + 1);
        vf_assert(calls == 1 && last_state == &states[0], "the engine is asked once");
        vf_assert(last.data_in == &in[1] && last.data_out == &out[1], "the engine is given the ranges");
        vf_assert(last.input_frames == frames, "the engine is given every whole frame of the input");
        vf_assert((double) last.output_frames <= (double) f * frames && (double) last.output_frames + 1 > (double) f * frames,
                  "the engine may write as many frames as the ratio gives");
        vf_same(last.src_ratio, (double) f, "the engine is given the ratio");
        vf_assert(last.end_of_input == 0, "the stream goes on");
        vf_assert(res.first >= 0 && res.first <= frames && res.second >= 0 && res.second <= last.output_frames, "the counts are the engine's");
        vf_assert(r.error() == 0, "no error is reported");
        for (size_t i = 0; i < out.size(); ++i) {
            const bool written = i >= 1 && (long) i < 1 + res.second * c;
            vf_same(out[i], written ? (float) (100 + (long) i - 1) : 7.0f, "the output is what the engine produced");
        }
        for (size_t i = 0; i < in.size(); ++i) vf_same(in[i], before[i], "the input is left alone");
        vf_observe_int("used", res.first);
        vf_observe_int("generated", res.second);
    }
    vf_assert(created == 1 && destroyed == 1, "the engine is released exactly once");
}
// blocks, resets and refusals in any order
#ifdef VF_THOROUGH
constexpr int STEPS = 3;
#else
constexpr int STEPS = 2;
#endif
//@ budget=120
H(c31_history) {
    start();
    fail_new = vf_pick("no engine", 0, 1);
    {
        R r(2, edsp::io::sinc_fastest, 1.0f);
        vf_assert((r.error() != 0) == fail_new, "a failing start is reported");
        int blocks = 0;
        float in[6] = {1, 2, 3, 4, 5, 6}, out[6];
        for (int step = 0; step < STEPS; ++step) {
            next_error = vf_pick("fails", 0, 1) ? 16 : 0;
            const int expected = fail_new ? 2 : next_error;
            if (vf_pick("reset", 0, 1)) {
                const int before = resets;
                const int e = r.reset();
                vf_assert(resets == before + 1, "resetting resets the engine");
                vf_assert(e == expected && r.error() == expected, "the error of the engine is reported");
                blocks = 0;
            } else {
                std::fill(out, out + 6, 7.0f);
                const int n = (int) vf_pick("frames", 1, 3);
                const auto res = r.process(in, in + 2 * n, out);
                vf_assert(last.input_frames == n && last.data_in == in && last.data_out == out, "every block is handed over");
                vf_assert(r.error() == expected, "the error of the engine is reported");
                if (expected) vf_assert(res.first == 0 && res.second == 0, "a block that was refused consumed and produced nothing");
                else {
                    ++blocks;
                    vf_assert(states[0].blocks == blocks, "the engine keeps its state between blocks");
                    vf_assert(res.first <= n && res.second <= n, "no more than the block is consumed and produced");
                    for (int i = 0; i < 6; ++i) vf_same(out[i], i < 2 * res.second ? (float) (100 * blocks + i) : 7.0f, "the frames produced are reported");
                }
            }
            vf_assert(std::string(r.error_string().data()) == src_strerror(expected), "the error is described");
        }
    }
    vf_assert(created == destroyed, "the engine is released exactly once");
}
// what the engine says was consumed and produced is what is returned
H(c31_counts) {
    start();
    R r(1, edsp::io::linear, 2.0f);
    float in[4] = {1, 2, 3, 4}, out[8];
    for (int step = 0; step < 2; ++step) {
        std::fill(out, out + 8, 7.0f);
        const auto res = r.process(in, in + 4, out);
        long written = 0;
        for (float x : out) written += x != 7.0f;
        vf_assert(res.second == written, "the number of frames produced is returned");
        vf_observe_int("used", res.first);
    }
}
H(c31_ratio) {
    const float f = vf_float("ratio", -10, 1000);
    vf_assert(R::valid_ratio(f) == (f >= 1.0f / 256 && f <= 256), "the ratios the engine can do are valid, others not");
}
H(c31_copies) {
    start();
    {
        R r(1, edsp::io::linear, 1.0f);
        copies<R, std::is_copy_constructible<R>::value>::check(r);
        float in[2] = {1, 2}, out[2];
        r.process(in, in + 2, out);
    }
    vf_assert(created == destroyed, "the engine is released exactly once");
}
// long blocks
H(c31_long_blocks) {
    start();
    many_out = true;
    static const int channels[3] = {1, 2, 8}, lengths[2] = {48, 257};
    static const float ratios[3] = {0.25f, 1, 1.5f};
    const int c = channels[vf_pick("channels", 0, 2)], frames = lengths[vf_pick("frames", 0, 1)];
    const float f = ratios[vf_pick("ratio", 0, 2)];
    const long room = (long) (frames * (double) f);
    std::vector<float> in((size_t) (frames * c)), out((size_t) (room * c + 2), -7.0f);
    for (size_t i = 0; i < in.size(); ++i) in[i] = (float) (i % 61);
    in[in.size() / 2] = vf_float("x", -1, 1);
    R r(c, edsp::io::linear, f);
    {
        const auto res = r.process(in.begin(), in.end(), out.begin() + 1);
        vf_assert(calls == 1 && last.data_in == &in[0] && last.data_out == &out[1], "the engine is given the ranges");
        vf_assert(last.input_frames == frames && last.output_frames == room, "the engine is given every whole frame and the room for all it makes");
        vf_same(last.src_ratio, (double) f, "the engine is given the ratio");
        vf_assert(res.first == used && res.second == generated, "the counts are the engine's");
        vf_same(out[0], -7.0f, "nothing before the output");
        vf_same(out[out.size() - 1], -7.0f, "nothing behind the output");
    }
    many_out = false;
}
