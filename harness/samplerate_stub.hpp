// libsamplerate as its manual describes it, with every failure a call may report.  Both builds use it.
#include <samplerate.h>
struct SRC_STATE_tag {
    bool live;
    int converter, channels, blocks;
};
namespace {
SRC_STATE states[6];
int created, destroyed, next_error, calls, resets;
SRC_DATA last;
long used, generated;
SRC_STATE* last_state;
bool fail_new, many_out;
bool known(SRC_STATE* s) {
    vf_assert(s->live, "the engine is not used after its release");
    return true;
}
}
extern "C" {
SRC_STATE* src_new(int converter, int channels, int* error) {
    if (fail_new) { *error = 1; return nullptr; }
    if (converter < 0 || converter > 4) { *error = 10; return nullptr; }
    vf_assert(channels >= 1, "an engine has channels");
    auto& s = states[created++];
    s.live = true;
    s.converter = converter;
    s.channels = channels;
    s.blocks = 0;
    *error = 0;
    return &s;
}
SRC_STATE* src_delete(SRC_STATE* s) {
    if (!s) return nullptr;
    vf_assert(s->live, "an engine is released once");
    s->live = false;
    ++destroyed;
    return nullptr;
}
// of many frames the first ones, all but one, or all
static long few(long k, long n) { return k < 3 || n <= 4 ? k : k == 3 ? n - 1 : n; }
int src_process(SRC_STATE* s, SRC_DATA* d) {
    ++calls;
    last.data_in = d->data_in;
    last.data_out = d->data_out;
    last.input_frames = d->input_frames;
    last.output_frames = d->output_frames;
    last.end_of_input = d->end_of_input;
    last.src_ratio = d->src_ratio;
    last_state = s;
    if (!s) return 2;
    known(s);
    if (next_error) return next_error;   // refused: nothing is set
    vf_assert(d->input_frames >= 0 && d->output_frames >= 0, "the engine is given the sizes of its ranges");
    s->blocks++;
    d->input_frames_used = used = few(vf_pick("used", 0, d->input_frames < 4 ? d->input_frames : 4), d->input_frames);
    d->output_frames_gen = generated = many_out ? few(vf_pick("generated", 0, d->output_frames < 4 ? d->output_frames : 4), d->output_frames) : vf_pick("generated", 0, d->output_frames < 3 ? d->output_frames : 3);
    for (long i = 0; i < d->output_frames_gen * s->channels; ++i) d->data_out[i] = (float) (100 * s->blocks + i);
    return 0;
}
int src_reset(SRC_STATE* s) {
    ++resets;
    if (!s) return 2;
    known(s);
    s->blocks = 0;
    return next_error;
}
const char* src_strerror(int e) { return e == 0 ? "No error." : e == 1 ? "Malloc failed." : e == 2 ? "bad state" : "other"; }
int src_is_valid_ratio(double r) { return !(r < 1.0 / 256 || r > 256); }
int src_error(SRC_STATE*) { return 0; }
int src_set_ratio(SRC_STATE*, double) { return 0; }
int src_get_channels(SRC_STATE* s) { return s->channels; }
const char* src_get_version() { return "vf"; }
}
