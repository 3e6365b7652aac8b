//@file bounds="every text of 0, 3 and 40 characters in every field, every year and track number; files that can be read and files that cannot" assume="TagLib is modelled by its documentation (a file that cannot be read has no tag)" flags="-DUSE_TAGLIB"
#include "vf.hpp"
#include <taglib/fileref.h>
#include <edsp/io/metadata.hpp>
namespace {
std::string text(const char* name) {
    static const int lengths[] = {0, 3, 40};
    std::string s((size_t) lengths[vf_pick("length", 0, 2)], 'x');
    for (auto& c : s) c = (char) vf_int(name, 0, 255);
    return s;
}
void same(const std::string& a, const std::string& b, const char* key) {
    vf_assert(a.size() == b.size(), key);
    for (size_t i = 0; i < b.size(); ++i) vf_assert(a[i] == b[i], key);
}
TagLib::vf_disk& disk() {
    auto& d = TagLib::vf_disk::one();
    d.path = "song";
    d.title = text("title");
    d.artist = text("artist");
    d.album = text("album");
    d.genre = text("genre");
    d.comment = "comment";
    d.year = (unsigned) vf_int("year", 0, 4294967295ll);
    d.track = (unsigned) vf_int("track", 0, 4294967295ll);
    return d;
}
}
H(c36_fields) {
    auto& d = disk();
    d.readable = true;
    edsp::io::metadata m("song");
    for (int i = 0; i < 2; ++i) {
        same(m.title(), d.title, "the title of the file");
        same(m.artist(), d.artist, "the artist of the file");
        same(m.album(), d.album, "the album of the file");
        same(m.genre(), d.genre, "the genre of the file");
        vf_assert(m.year() == d.year, "the year of the file");
        vf_assert(m.track() == d.track, "the track number of the file");
    }
}
H(c36_missing) {
    auto& d = disk();
    d.readable = vf_pick("readable", 0, 1);
    edsp::io::metadata m(d.readable ? "other" : "song");
    vf_assert(m.title().empty() && m.artist().empty() && m.album().empty() && m.genre().empty(), "a file that cannot be read has no texts");
    vf_assert(m.year() == 0 && m.track() == 0, "a file that cannot be read has no numbers");
}
