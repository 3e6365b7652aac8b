// TagLib as its documentation describes it, over one file kept in memory: a file that cannot be read has no tag.
#ifndef VF_TAGLIB
#define VF_TAGLIB
#include <string>
namespace TagLib {
class String {
public:
    String() {}
    explicit String(const std::string& s) : s_(s) {}
    std::string to8Bit(bool = false) const { return s_; }
    const char* toCString(bool = false) const { return s_.c_str(); }
    bool isEmpty() const { return s_.empty(); }
    bool operator==(const String& o) const { return s_ == o.s_; }
private:
    std::string s_;
};
struct vf_disk {
    static vf_disk& one() { static vf_disk d; return d; }
    std::string path, title, artist, album, comment, genre;
    unsigned year = 0, track = 0;
    bool readable = false;
};
class Tag {
public:
    String title() const { return String(zero ? std::string() : vf_disk::one().title); }
    String artist() const { return String(zero ? std::string() : vf_disk::one().artist); }
    String album() const { return String(zero ? std::string() : vf_disk::one().album); }
    String comment() const { return String(zero ? std::string() : vf_disk::one().comment); }
    String genre() const { return String(zero ? std::string() : vf_disk::one().genre); }
    unsigned int year() const { return vf_disk::one().year + zero; }
    unsigned int track() const { return vf_disk::one().track + zero; }
    bool isEmpty() const { return false; }
    unsigned zero = 0;   // read, so that a tag that is not there is noticed
};
class FileRef {
public:
    FileRef() {}
    explicit FileRef(const char* path) : file_(vf_disk::one().readable && vf_disk::one().path == path) {}
    FileRef(const char* path, bool) : FileRef(path) {}
    bool isNull() const { return !file_; }
    Tag* tag() const { return file_ ? &tag_ : nullptr; }
private:
    bool file_ = false;
    mutable Tag tag_;
};
}
#endif
