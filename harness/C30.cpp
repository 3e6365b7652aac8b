//@file bounds="files of 0..4 frames and 1..3 channels with any content, block buffers of 3 and 4 samples, requests of 0..9 samples, files of up to 750 frames read in blocks of 16 and 1024 samples and written 300 samples at once with every 50th sample arbitrary, histories of 3 operations on two files, every schedule of failing opens and of reads and writes that fall short by whole frames" assume="libsndfile is modelled by its manual (read and write only whole frames, fewer only at the end of the file or on an error, null handles refused); the libaudiofile back end is not installed and not covered" flags="-std=c++14 -DUSE_LIBSNDFILE"
#include "vf.hpp"
#include "sndfile_stub.hpp"
#include <edsp/io/decoder.hpp>
#include <edsp/io/encoder.hpp>
namespace {
#ifdef VF_THOROUGH
constexpr int FRAMES = 6, REQUEST = 14;
#else
constexpr int FRAMES = 4, REQUEST = 9;
#endif
template <typename T> T sample() {
    static int k = 0;
    if (vf_wide && ++k % 50) return (T) (k * 5 % 1021);
    if (std::is_same<T, double>::value) return (T) vf_double("s", -1e6, 1e6);
    if (std::is_same<T, float>::value) return (T) vf_float("s", -1e6f, 1e6f);
    return (T) vf_int("s", std::is_same<T, short>::value ? -32768 : -2147483647ll - 1, std::is_same<T, short>::value ? 32767 : 2147483647);
}
template <typename T> void disk(int k, int channels, int frames) {
    auto& f = vf::files[k];
    f.exists = true;
    f.channels = channels;
    f.rate = 8000 + k;
    f.format = SF_FORMAT_WAV;
    f.seekable = true;
    f.data.clear();
    for (int i = 0; i < channels * frames; ++i) f.data.push_back(vf::cell::of(sample<T>()));
}
template <typename T> void same(T a, T b, const char* key) {
    if (std::is_integral<T>::value) vf_assert(a == b, key);
    else vf_same((double) a, (double) b, key);
}
void start() {
    for (auto& f : vf::files) f = vf::file{};
    for (auto& h : vf::handles) h = vf::handle{};
    vf::opened = vf::closed = vf::live = vf::short_calls = 0;
    vf::idle = 0;
    vf::faults = vf::stopped = false;
}
void done() {
    vf_assert(vf::opened == vf::closed && vf::live == 0, "every file opened is closed exactly once");
}
template <typename D> void properties(const D& d, int k) {
    const auto& f = vf::files[k];
    vf_assert(d.is_open(), "an open file says so");
    vf_assert(d.channels() == f.channels, "the channels of the file");
    vf_assert(d.samples() == (long) f.data.size(), "the samples of the file");
    vf_assert(d.frames() == (long) f.data.size() / f.channels, "the frames of the file");
    vf_assert(d.sample_rate() == f.rate, "the sample rate of the file");
    vf_assert(d.seekable() == f.seekable, "whether the file can be positioned");
}
template <typename D> void nothing(const D& d) {
    vf_assert(!d.is_open(), "without a file none is open");
    vf_assert(d.channels() == 0 && d.samples() == 0 && d.frames() == 0 && d.sample_rate() == 0 && !d.seekable(), "without a file there are no properties");
}
// one read of n samples at frame 'at': what it delivers are the next frames, complete unless a call fell short
template <typename T, typename D> long get(D& d, int k, long at, int n) {
    const auto& f = vf::files[k];
    std::vector<T> out((size_t) n + 2, (T) 7);
    vf::stopped = false;
    const long got = d.read(out.begin() + 1, out.begin() + 1 + n);
    const long whole = n - n % f.channels, left = (long) f.data.size() - at * f.channels;
    vf_assert(got >= 0 && got <= whole && got <= left && got % f.channels == 0, "no more is delivered than asked for and there");
    if (!vf::faults) vf_assert(got == (whole < left ? whole : left), "all the frames asked for are delivered");
    else if (!vf::stopped) vf_assert(got == (whole < left ? whole : left), "a read that falls short is continued");
    for (long i = 0; i < got; ++i) same(out[(size_t) i + 1], f.data[(size_t) (at * f.channels + i)].as<T>(), "the samples are those of the file, in order");
    for (size_t i = (size_t) got + 1; i < out.size(); ++i) same(out[i], (T) 7, "nothing else is written");
    same(out[0], (T) 7, "nothing else is written");
    return at + got / f.channels;
}
// reading a file block by block
template <typename T, int N> void decode() {
    start();
    const int c = (int) vf_pick("channels", 1, 3), n = (int) vf_pick("frames", 0, FRAMES);
    disk<T>(0, c, n);
    {
        edsp::io::decoder<T, N> d;
        nothing(d);
        vf_assert(d.open("a"), "a file that exists is opened");
        properties(d, 0);
        long at = 0;
        for (int i = 0; i < 2; ++i) {
            at = get<T>(d, 0, at, (int) vf_pick("request", 0, REQUEST));
            vf_assert(d.current() == at, "the position is behind what was read");
        }
        properties(d, 0);
    }
    done();
}
// any order of opening, closing, reading and positioning
template <typename T> void decoder_history(int steps) {
    start();
    disk<T>(0, 2, 3);
    disk<T>(1, 3, 1);
    vf::files[1].seekable = vf_pick("seekable", 0, 1);
    {
        edsp::io::decoder<T, 4> d;
        int k = -1;
        long at = 0;
        for (int i = 0; i < steps; ++i) {
            switch (vf_pick("operation", 0, 5)) {
                case 0: vf_assert(d.open("a"), "a file that exists is opened"); k = 0, at = 0; break;
                case 1: vf_assert(d.open("b"), "a file that exists is opened"); k = 1, at = 0; break;
                case 2: vf_assert(!d.open("c"), "a file that does not exist is refused"); k = -1; break;
                case 3: d.close(); k = -1; break;
                case 4: {
                    if (k >= 0) { at = get<T>(d, k, at, 3); break; }
                    std::vector<T> out(3, (T) 7);
                    vf_assert(d.read(out.begin(), out.end()) == 0, "without a file nothing is read");
                    for (auto x : out) same(x, (T) 7, "without a file nothing is read");
                    break;
                }
                default: {
                    const long to = vf_pick("to", -1, 4);
                    const long r = d.seek(to);
                    if (k < 0) break;
                    const auto& f = vf::files[k];
                    const bool ok = f.seekable && to >= 0 && to <= (long) f.data.size() / f.channels;
                    vf_assert(ok ? r == to : r < 0, "positioning goes where told or reports failure");
                    if (ok) at = to;
                }
            }
            if (k < 0) nothing(d);
            else {
                properties(d, k);
                if (vf::files[k].seekable) vf_assert(d.current() == at, "the position is where the history leads");
            }
            vf_assert(vf::live == (k >= 0), "exactly the file in use is open");
        }
    }
    done();
}
template <typename E> void encoder_props(const E& e, int rate, int c) {
    vf_assert(e.channels() == c && e.sample_rate() == rate, "the format is the one asked for");
}
// writes n samples to the file, which grows by exactly those it reports
template <typename T, typename E> void put(E& e, int k, int n) {
    auto& f = vf::files[k];
    const auto before = f.data;
    std::vector<T> in((size_t) n + 1);
    for (auto& x : in) x = sample<T>();
    const auto x = in;
    const long got = (long) e.write(in.begin(), in.begin() + n);
    for (size_t i = 0; i < x.size(); ++i) same(in[i], x[i], "the input is left alone");
    vf_assert(f.data.size() == before.size() + (size_t) got, "what is reported is what was written");
    if (!vf::faults && n % f.channels == 0) vf_assert(got == n, "all the samples are written");
    for (size_t i = 0; i < before.size(); ++i) same(f.data[i].as<T>(), before[i].as<T>(), "what was written stays");
    for (size_t i = before.size(); i < f.data.size(); ++i) same(f.data[i].as<T>(), x[i - before.size()], "the samples written are those given");
}
template <typename T> void encode(int format) {
    start();
    const int c = (int) vf_pick("channels", 1, 3), rate = 44100;
    {
        edsp::io::encoder<T> e((size_t) rate, (size_t) c);
        encoder_props(e, rate, c);
        vf_assert(!e.is_open(), "no file is open at first");
        vf_assert(e.open("a"), "a file is created");
        vf_assert(e.is_open(), "an open file says so");
        vf_assert(vf::files[0].channels == c && vf::files[0].rate == rate && (vf::files[0].format & SF_FORMAT_SUBMASK) == format,
                  "the file has the format asked for");
        for (int i = 0; i < 2; ++i) put<T>(e, 0, (int) vf_pick("samples", 1, 6));
        encoder_props(e, rate, c);
    }
    done();
}
template <typename T> void encoder_history(int steps) {
    start();
    {
        edsp::io::encoder<T> e(8000, 2);
        int k = -1;
        for (int i = 0; i < steps; ++i) {
            switch (vf_pick("operation", 0, 4)) {
                case 0: vf_assert(e.open("a"), "a file is created"); k = 0; vf_assert(vf::files[0].data.empty(), "a file created is empty"); break;
                case 1: vf_assert(e.open("b"), "a file is created"); k = 1; vf_assert(vf::files[1].data.empty(), "a file created is empty"); break;
                case 2: vf_assert(!e.open("nowhere"), "a file that cannot be created is refused"); k = -1; break;
                case 3: e.close(); k = -1; break;
                default:
                    if (k >= 0) put<T>(e, k, 2);
                    else {
                        std::vector<T> in(2, (T) 1);
                        vf_assert(e.write(in.begin(), in.end()) == 0, "without a file nothing is written");
                    }
            }
            encoder_props(e, 8000, 2);
            vf_assert(e.is_open() == (k >= 0), "an encoder knows whether its file is open");
            vf_assert(vf::live == (k >= 0), "exactly the file in use is open");
            if (k >= 0) vf_assert(vf::files[k].channels == 2 && vf::files[k].rate == 8000, "the file has the format asked for");
        }
    }
    done();
}
template <typename D, bool Copy> struct copies {
    static void check(D&) {}
};
template <typename D> struct copies<D, true> {
    static void check(D& d) { D other(d); vf_assert(other.is_open(), "a copy has the file too"); }
};
}
H(c30_decode_double) { decode<double, 4>(); }
H(c30_decode_float) { decode<float, 3>(); }
H(c30_decode_int) { decode<std::int32_t, 4>(); }
H(c30_decode_short) { decode<std::int16_t, 3>(); }
H(c30_decoder_history) { decoder_history<double>(3); }
//@ tier=thorough
H(c30_decoder_history4) { decoder_history<float>(4); }
H(c30_encode_double) { encode<double>(SF_FORMAT_DOUBLE); }
H(c30_encode_float) { encode<float>(SF_FORMAT_FLOAT); }
H(c30_encode_int) { encode<std::int32_t>(SF_FORMAT_PCM_32); }
H(c30_encode_short) { encode<std::int16_t>(SF_FORMAT_PCM_16); }
H(c30_encoder_history) { encoder_history<float>(4); }
// calls that fail or fall short at any point
H(c30_decoder_faults) {
    start();
    const int c = (int) vf_pick("channels", 1, 2);
    disk<double>(0, c, 3);
    vf::faults = true;
    {
        edsp::io::decoder<double, 4> d;
        for (int i = 0; i < 2; ++i) {
            const bool ok = d.open("a");
            vf_assert(ok == d.is_open() && vf::live == ok, "the result of opening is reported");
            if (ok) get<double>(d, 0, 0, 6);
            else nothing(d);
        }
    }
    done();
}
H(c30_encoder_faults) {
    start();
    vf::faults = true;
    {
        edsp::io::encoder<double> e(8000, 2);
        for (int i = 0; i < 2; ++i) {
            const bool ok = e.open("a");
            vf_assert(ok == e.is_open() && vf::live == ok, "the result of opening is reported");
            if (ok) put<double>(e, 0, 4);
        }
    }
    done();
}
// a copy, where one can be made, does not close the file of the original
H(c30_copies) {
    start();
    disk<double>(0, 1, 2);
    {
        edsp::io::decoder<double, 4> d;
        edsp::io::encoder<double> e(8000, 1);
        vf_assert(d.open("a") && e.open("b"), "files are opened");
        copies<decltype(d), std::is_copy_constructible<decltype(d)>::value>::check(d);
        copies<decltype(e), std::is_copy_constructible<decltype(e)>::value>::check(e);
        get<double>(d, 0, 0, 2);
        put<double>(e, 1, 2);
    }
    done();
}
H(c30_error_text) {
    start();
    disk<double>(0, 1, 1);
    edsp::io::libsndfile_decoder<double, 4> d;
    edsp::io::libsndfile_encoder<double> e(8000, 1);
    vf_assert(std::string(d.error().data()) == "bad" && std::string(e.error().data()) == "bad", "the library's message is passed on");
    vf_assert(d.open("a") && e.open("b"), "files are opened");
    vf_assert(std::string(d.error().data()) == "fine" && std::string(e.error().data()) == "fine", "the library's message is passed on");
}
namespace {
template <typename T, std::size_t N> void decode_wide(int c, int n, const std::vector<int>& requests) {
    vf_wide = 1;
    start();
    disk<T>(0, c, n);
    {
        edsp::io::decoder<T, N> d;
        vf_assert(d.open("a"), "a file that exists is opened");
        long at = 0;
        for (int r : requests) {
            at = get<T>(d, 0, at, r);
            vf_assert(d.current() == at, "the position is behind what was read");
        }
        if (n > 8) {
            vf_assert(d.seek(n - 7) == n - 7, "positioning goes where told or reports failure");
            get<T>(d, 0, n - 7, c * 6 + 1);
        }
        properties(d, 0);
    }
    done();
}
}
H(c30_decode_blocks_wide) { decode_wide<double, 16>((int) vf_pick("channels", 1, 3), 40 + (int) vf_pick("more", 0, 1) * 8, {37, 1, 64, 200}); }
H(c30_decode_default_wide) { decode_wide<float, 1024>(2, 750, {1400, 3, 200}); }
H(c30_encode_wide) {
    vf_wide = 1;
    start();
    const int c = (int) vf_pick("channels", 1, 2);
    {
        edsp::io::encoder<double> e(96000, (size_t) c);
        vf_assert(e.open("a"), "a file is created");
        for (int n : {44, 2, 300, 16}) put<double>(e, 0, n);
    }
    done();
}
