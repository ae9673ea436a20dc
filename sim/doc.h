// Synthetic media files and independent analysis of media files (shares no code with the library under test).
#pragma once
#include "sim.h"
#include <algorithm>
#include <array>

namespace sim {

// ---------------------------------------------------------------- byte helpers
struct BW {
    Bytes b;
    BW &u8_(u64 v) { b.push_back(static_cast<u8>(v)); return *this; }
    BW &be(u64 v, int n) { for (int i = n - 1; i >= 0; --i) b.push_back(static_cast<u8>(v >> (8 * i))); return *this; }
    BW &le(u64 v, int n) { for (int i = 0; i < n; ++i) b.push_back(static_cast<u8>(v >> (8 * i))); return *this; }
    BW &str(std::string_view s) { b.insert(b.end(), s.begin(), s.end()); return *this; }
    BW &bytes(const Bytes &o) { b.insert(b.end(), o.begin(), o.end()); return *this; }
    BW &zero(std::size_t n) { b.insert(b.end(), n, 0); return *this; }
    std::size_t size() const { return b.size(); }
};
inline void append(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
inline void putBe(Bytes &b, std::size_t at, u64 v, int n) { for (int i = 0; i < n; ++i) b[at + static_cast<std::size_t>(i)] = static_cast<u8>(v >> (8 * (n - 1 - i))); }
inline void putLe(Bytes &b, std::size_t at, u64 v, int n) { for (int i = 0; i < n; ++i) b[at + static_cast<std::size_t>(i)] = static_cast<u8>(v >> (8 * i)); }
struct BR { // bounds-checked view
    const u8 *p = nullptr;
    std::size_t n = 0;
    BR() = default;
    BR(const u8 *p_, std::size_t n_) : p(p_), n(n_) {}
    explicit BR(const Bytes &b) : p(b.data()), n(b.size()) {}
    bool has(std::size_t off, std::size_t len) const { return off <= n && len <= n - off; }
    u64 be(std::size_t off, int len) const { u64 v = 0; if (!has(off, static_cast<std::size_t>(len))) return 0; for (int i = 0; i < len; ++i) v = (v << 8) | p[off + static_cast<std::size_t>(i)]; return v; }
    u64 le(std::size_t off, int len) const { u64 v = 0; if (!has(off, static_cast<std::size_t>(len))) return 0; for (int i = len - 1; i >= 0; --i) v = (v << 8) | p[off + static_cast<std::size_t>(i)]; return v; }
    BR sub(std::size_t off, std::size_t len) const { if (off > n) return BR(p, 0); return BR(p + off, std::min(len, n - off)); }
    std::string s() const { return std::string(reinterpret_cast<const char *>(p), n); }
    std::string s(std::size_t off, std::size_t len) const { return sub(off, len).s(); }
    Bytes bytes() const { return Bytes(p, p + n); }
    u64 hash() const { return hashBytes(p, n); }
};
std::string hex(u64 v);
std::string printable(std::string_view s, std::size_t max = 60);
std::string latin1ToUtf8(std::string_view s);
std::string utf16ToUtf8(const u8 *p, std::size_t n, bool be);
std::string utf8ToUtf16(std::string_view s, bool be, bool bom);
Bytes randBytes(Rng &r, std::size_t n);

// ---------------------------------------------------------------- documents
enum class Fmt : u8 { Mp3, Adts, Wav, Ivf, Unknown, Flac, Ogg, Mp4, Mkv, Count };
const char *fmtName(Fmt f);

struct Doc {
    Fmt fmt = Fmt::Mp3;
    std::string sub; // variant description
    std::string ext;
    Bytes bytes;
    bool complete = true; // whether everything is found without going through the whole file
};

struct Span { u64 off = 0, len = 0; };
struct NField {
    std::string id; // native id
    std::string val; // text as UTF-8 or canonical representation
    int flag = -1; // Matroska: whether the value is for the default/original language
};
struct NTag {
    std::string type; // id3v1, id3v2.x, vorbis, mp4, mkv
    std::string target; // stream/track/target the tag belongs to
    std::vector<NField> fields;
    u64 off = 0, len = 0; // location in file
    bool mandatory = false; // an empty tag is left when removing it
    bool yearIsDate = false; // used by the model while editing
};
struct ATrack {
    std::string id;
    std::string cfg; // codec configuration (canonical)
    std::map<std::string, std::string> attr; // what can be edited: name, lang, ietf, enabled, default, forced
    std::vector<u64> samples; // hash per sample/packet/frame incl. length
    std::vector<i64> ts; // timing per sample
    std::vector<Span> spans;
};
struct Analysis {
    std::vector<std::string> err; // structural violations (P08)
    std::vector<ATrack> tracks;
    std::vector<NTag> tags;
    std::vector<std::pair<std::string, std::string>> other; // content to be preserved as-is: name -> canonical value
    std::vector<std::pair<std::string, std::string>> info; // content which may legitimately change
    std::vector<Span> media; // absolute ranges of media data
    std::string muxApp, writingApp; // Matroska: writer information
    std::vector<u64> paddings; // Ogg: padding within each comment packet (always rewritten)
    i64 padding = -1; // total padding as the settings define it; -1: not applicable
    u64 paddingHeaders = 0; // size of the headers of padding blocks (not part of the padding but reported by the library as such)
    int tagPos = 0; // 0: n/a, 1: all before data, 2: all after data, 3: mixed
    int indexPos = 0;
    i64 padBehind = 0; // MP4: part of the padding behind the first media data (of no use for a growing tag)
    u64 livePositions = 0; // Matroska: cluster positions which are zero
    u64 mediaBegin = 0, mediaEnd = 0;
    void error(std::string s) { if (err.size() < 40) err.emplace_back(std::move(s)); }
    u64 mediaDigest() const;
    std::string summary() const;
};

extern std::size_t docScale; // factor for the size of media data
Doc genDoc(Choices &c, const std::string &pfx, Fmt fmt);
Analysis analyze(const Bytes &b, Fmt fmt);
Bytes genPrefix(Choices &c, const std::string &pfx, bool zeros); // what might precede the actual file; it is ignored and not necessarily kept
std::size_t prefixLength(const Bytes &b);

// format specific parts
Doc genMp3(Choices &c, const std::string &pfx);
Doc genAdts(Choices &c, const std::string &pfx);
Doc genWav(Choices &c, const std::string &pfx);
Doc genIvf(Choices &c, const std::string &pfx);
Doc genUnknown(Choices &c, const std::string &pfx);
Doc genFlac(Choices &c, const std::string &pfx);
Doc genOgg(Choices &c, const std::string &pfx);
Doc genMp4(Choices &c, const std::string &pfx);
Doc genMkv(Choices &c, const std::string &pfx);
Analysis analyzeTagged(const Bytes &b, Fmt fmt); // MP3, ADTS, WAV, IVF, unknown: [ID3v2]* data [APE] [ID3v1]
Analysis analyzeFlac(const Bytes &b);
Analysis analyzeOgg(const Bytes &b);
Analysis analyzeMp4(const Bytes &b);
Analysis analyzeMkv(const Bytes &b);

// shared by generators
std::string genText(Rng &r, int sizeClass); // UTF-8 text without NUL, non-empty, no leading/trailing blanks
Bytes genPicture(Rng &r, int sizeClass, std::string &mime);
// the type of the i-th picture of a tag; the types are distinct
int pictureType(Rng &r, int i);
Bytes makeVorbisComment(Rng &r, bool framing, int fieldClass, bool withCover, const std::string &vendor);
bool parseVorbisComment(const BR &d, std::vector<NField> &fields, std::string &err, std::size_t *consumed);
Bytes makePictureBlock(Rng &r, int type, int sizeClass);
std::string canonPictureBlock(const BR &d);
std::string base64(const Bytes &b);
bool unbase64(std::string_view s, Bytes &out);
Bytes makeId3v2(Choices &c, const std::string &pfx, int version, Rng &r, int sizeClass);
bool analyzeId3v2(const BR &d, u64 off, NTag &tag, u64 &padding, Analysis &a);
bool analyzeId3v1(const BR &d, u64 off, NTag &tag);
u32 crc32zlib(const u8 *p, std::size_t n);

} // namespace sim
