// libsndfile as its manual describes it, over files kept in memory, with every fault a call may report.  Both builds use
// it (instead of the library), so that every schedule of faults can be replayed.
#include <sndfile.h>
namespace vf {
struct cell {            // a sample: floating point or integer
    double d;
    std::int64_t i;
    template <typename T> static cell of(T x) { return std::is_integral<T>::value ? cell{0, (std::int64_t) x} : cell{(double) x, 0}; }
    template <typename T> T as() const { return std::is_integral<T>::value ? (T) i : (T) d; }
};
struct file {            // what is on the disk
    int channels = 0, rate = 0, format = 0;
    bool exists = false, seekable = true;
    std::vector<cell> data;
};
struct handle {
    bool open = false, reading = false;
    file* f = nullptr;
    sf_count_t at = 0;   // in frames
};
static file files[3];    // "a", "b", "c"
static handle handles[8];
static int opened, closed, live;
static bool faults;      // may reads and writes fall short?
static int short_calls;
static bool stopped;     // a call moved nothing although it could have
static int bad_info;
static file* named(const char* p) { return p && p[0] >= 'a' && p[0] <= 'c' && !p[1] ? &files[p[0] - 'a'] : nullptr; }
static handle* check(SNDFILE* s) {
    auto* h = reinterpret_cast<handle*>(s);
    vf_assert(h->open, "a file is not used after it was closed");
    return h;
}
// how many of the items asked for go through: all, or, when faults are on, any number of whole frames
static sf_count_t granted(sf_count_t items, int channels) {
    if (!faults || items <= 0) return items;
    const auto k = vf_pick("moved", 0, items / channels);
    if (k * channels < items) ++short_calls;
    if (!k) stopped = true;
    return k * channels;
}
inline int idle = 0;   // calls since one that read anything
template <typename T> sf_count_t read(SNDFILE* s, T* p, sf_count_t items) {
    if (!s) return 0;
    auto* h = check(s);
    vf_assert(h->reading, "only a file opened for reading is read");
    const int c = h->f->channels;
    vf_assert(++idle < 20, "a read comes to its end");
    if (items < 0 || items % c) { stopped = true; return 0; }   // SFE_BAD_READ_ALIGN
    const sf_count_t left = (sf_count_t) h->f->data.size() - h->at * c;
    items = granted(items < left ? items : left, c);
    for (sf_count_t i = 0; i < items; ++i) p[i] = h->f->data[(size_t) (h->at * c + i)].as<T>();
    h->at += items / c;
    if (items > 0) idle = 0;
    return items;
}
template <typename T> sf_count_t write(SNDFILE* s, const T* p, sf_count_t items) {
    if (!s) return 0;
    auto* h = check(s);
    vf_assert(!h->reading, "only a file opened for writing is written");
    const int c = h->f->channels;
    if (items < 0 || items % c) return 0;                       // SFE_BAD_WRITE_ALIGN
    items = granted(items, c);
    for (sf_count_t i = 0; i < items; ++i) h->f->data.push_back(cell::of(p[i]));
    h->at += items / c;
    return items;
}
}
extern "C" {
SNDFILE* sf_open(const char* path, int mode, SF_INFO* info) {
    auto* f = vf::named(path);
    if (!f || (mode == SFM_READ && !f->exists) || (mode != SFM_READ && mode != SFM_WRITE)) return nullptr;
    if (vf::faults && vf_pick("open fails", 0, 1)) return nullptr;
    int k = 0;
    while (vf::handles[k].open) ++k;
    auto& h = vf::handles[k];
    h = vf::handle{};
    h.open = true;
    h.f = f;
    h.reading = mode == SFM_READ;
    if (h.reading) {
        info->channels = f->channels;
        info->samplerate = f->rate;
        info->format = f->format;
        info->frames = (sf_count_t) f->data.size() / f->channels;
        info->seekable = f->seekable;
        info->sections = 1;
    } else {
        if (info->channels < 1 || info->samplerate < 1 || (info->format & SF_FORMAT_TYPEMASK) != SF_FORMAT_WAV) { h.open = false; return nullptr; }
        f->exists = true;
        f->data.clear();
        f->channels = info->channels;
        f->rate = info->samplerate;
        f->format = info->format;
        info->frames = 0;
        info->seekable = 1;
        info->sections = 1;
    }
    ++vf::opened, ++vf::live;
    return reinterpret_cast<SNDFILE*>(&h);
}
int sf_close(SNDFILE* s) {
    if (!s) return 1;
    auto* h = reinterpret_cast<vf::handle*>(s);
    vf_assert(h->open, "a file is closed once");
    h->open = false;
    ++vf::closed, --vf::live;
    return 0;
}
const char* sf_strerror(SNDFILE* s) {
    if (s) vf::check(s);
    return s ? "fine" : "bad";
}
sf_count_t sf_seek(SNDFILE* s, sf_count_t frames, int whence) {
    if (!s) return 0;
    auto* h = vf::check(s);
    const sf_count_t n = (sf_count_t) h->f->data.size() / h->f->channels;
    if (!h->f->seekable) return -1;
    const sf_count_t to = whence == SEEK_SET ? frames : whence == SEEK_CUR ? h->at + frames : n + frames;
    if (to < 0 || to > n) return -1;
    return h->at = to;
}
sf_count_t sf_read_float(SNDFILE* s, float* p, sf_count_t n) { return vf::read(s, p, n); }
sf_count_t sf_read_double(SNDFILE* s, double* p, sf_count_t n) { return vf::read(s, p, n); }
sf_count_t sf_read_int(SNDFILE* s, int* p, sf_count_t n) { return vf::read(s, p, n); }
sf_count_t sf_read_short(SNDFILE* s, short* p, sf_count_t n) { return vf::read(s, p, n); }
sf_count_t sf_write_float(SNDFILE* s, const float* p, sf_count_t n) { return vf::write(s, p, n); }
sf_count_t sf_write_double(SNDFILE* s, const double* p, sf_count_t n) { return vf::write(s, p, n); }
sf_count_t sf_write_int(SNDFILE* s, const int* p, sf_count_t n) { return vf::write(s, p, n); }
sf_count_t sf_write_short(SNDFILE* s, const short* p, sf_count_t n) { return vf::write(s, p, n); }
// the frame-wise calls, in case they are used instead
#define VF_FRAMES(T)                                                                                                   \
    sf_count_t sf_readf_##T(SNDFILE* s, T* p, sf_count_t n) {                                                          \
        if (!s) return 0;                                                                                              \
        const int c = vf::check(s)->f->channels;                                                                       \
        return vf::read(s, p, n * c) / c;                                                                              \
    }                                                                                                                  \
    sf_count_t sf_writef_##T(SNDFILE* s, const T* p, sf_count_t n) {                                                   \
        if (!s) return 0;                                                                                              \
        const int c = vf::check(s)->f->channels;                                                                       \
        return vf::write(s, p, n * c) / c;                                                                             \
    }
VF_FRAMES(float)
VF_FRAMES(double)
VF_FRAMES(int)
VF_FRAMES(short)
int sf_error(SNDFILE* s) { return s ? 0 : 1; }
}
