// builders for small FLAC, Matroska and MP4 files and walkers to look at the result
#pragma once
#include "demo.h"
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/vorbis/vorbiscomment.h>
inline unsigned long long beAt(const std::string &s, std::size_t p, int n) { unsigned long long v = 0; for (int i = 0; i < n; ++i) v = v << 8 | static_cast<unsigned char>(p + i < s.size() ? s[p + i] : 0); return v; }
inline std::string pattern(std::size_t n, unsigned seed) { std::string s(n, '\0'); for (std::size_t i = 0; i < n; ++i) s[i] = static_cast<char>((i * 31 + seed * 17 + (i >> 7)) % 253); return s; }
// FLAC
inline std::string flacBlock(int type, bool last, const std::string &body) { return std::string(1, static_cast<char>(type | (last ? 0x80 : 0))) + be(body.size(), 3) + body; }
inline std::string flacInfo() { return std::string("\x10\0\x10\0", 4) + z(6) + std::string("\x0A\xC4\x42\xF0\0\0\x10\0", 8) + z(16); }
inline std::string flacComment(const std::string &title) { const auto c = "TITLE=" + title; return le(3, 4) + "xyz" + le(1, 4) + le(c.size(), 4) + c; }
inline std::string flacPicture(int type, const std::string &data) { return be(type, 4) + be(9, 4) + "image/png" + be(1, 4) + "d" + be(0, 16) + be(data.size(), 4) + data; }
struct FlacBlock { int type; bool last; std::string body; };
inline std::vector<FlacBlock> flacBlocks(const std::string &f, std::size_t &end)
{
    std::vector<FlacBlock> r;
    for (end = 4; end + 4 <= f.size();) {
        const auto size = beAt(f, end + 1, 3);
        r.push_back({ f[end] & 0x7F, (f[end] & 0x80) != 0, f.substr(end + 4, size) });
        end += 4 + size;
        if (r.back().last) break;
    }
    return r;
}
// Matroska
inline std::string ebmlId(unsigned long id) { return be(id, id > 0xFFFFFF ? 4 : id > 0xFFFF ? 3 : id > 0xFF ? 2 : 1); }
inline std::string el(unsigned long id, const std::string &body) { return ebmlId(id) + (body.size() < 127 ? std::string(1, static_cast<char>(0x80 | body.size())) : be(0x10000000u | body.size(), 4)) + body; }
inline std::string elU(unsigned long id, unsigned long long v, int n = 1) { return el(id, be(v, n)); }
struct El { unsigned long id; std::size_t start, data, size; std::string body; };
inline std::vector<El> els(const std::string &f, std::size_t from, std::size_t to)
{
    std::vector<El> r;
    for (auto p = from; p < to;) {
        int il = 1, sl = 1;
        while (il <= 4 && !(static_cast<unsigned char>(f[p]) & (0x100 >> il))) ++il;
        if (il > 4 || p + il >= to) return r.push_back({ 0, p, p, 0, "" }), r;
        const auto b = static_cast<unsigned char>(f[p + il]);
        while (sl <= 8 && !(b & (0x100 >> sl))) ++sl;
        if (sl > 8) return r.push_back({ 0, p, p, 0, "" }), r;
        const auto size = beAt(f, p + il, sl) & ((1ull << (7 * sl)) - 1);
        const auto data = p + il + sl;
        if (data + size > to) return r.push_back({ 0, p, data, 0, "" }), r;
        r.push_back({ static_cast<unsigned long>(beAt(f, p, il)), p, data, size, f.substr(data, size) });
        p = data + size;
    }
    return r;
}
inline std::vector<El> els(const std::string &f, const El &e) { return els(f, e.data, e.data + e.size); }
inline const El *findEl(const std::vector<El> &v, unsigned long id) { for (const auto &e : v) if (e.id == id) return &e; return nullptr; }
inline std::string mkvHead() { return el(0x1A45DFA3, elU(0x4286, 1) + elU(0x42F7, 1) + elU(0x42F2, 4) + elU(0x42F3, 8) + el(0x4282, "matroska") + elU(0x4287, 4) + elU(0x4285, 2)); }
inline std::string mkvInfo() { return el(0x1549A966, elU(0x2AD7B1, 1000000, 3) + el(0x4D80, "mux") + el(0x5741, "app")); }
inline std::string mkvTracks() { return el(0x1654AE6B, el(0xAE, elU(0xD7, 1) + elU(0x73C5, 77) + elU(0x83, 2) + el(0x86, "A_VORBIS") + el(0xE1, elU(0x9F, 2)))); }
inline std::string mkvTags(const std::string &title) { return el(0x1254C367, el(0x7373, el(0x63C0, elU(0x68CA, 50)) + el(0x67C8, el(0x45A3, "TITLE") + elU(0x4484, 1) + el(0x4487, title)))); }
inline std::string mkvVoid(std::size_t total) { return el(0xEC, z(total < 129 ? total - 2 : total - 5)); }
inline std::string mkvBlock(int t, std::size_t n) { return el(0xA3, std::string("\x81", 1) + be(t, 2) + "\x80" + pattern(n, t)); }
// MP4
inline std::string atom(const char *id, const std::string &body) { return be(body.size() + 8, 4) + std::string(id, 4) + body; }
inline std::string mp4Moov(const std::vector<unsigned> &chunks, unsigned sampleSize, const std::string &udta = std::string())
{
    const auto matrix = be(0x10000, 4) + z(12) + be(0x10000, 4) + z(12) + be(0x40000000, 4);
    std::string co;
    for (auto c : chunks) co += be(c, 4);
    const auto stbl = atom("stbl", atom("stsd", z(4) + be(1, 4) + atom("mp4a", z(6) + be(1, 2) + z(8) + be(2, 2) + be(16, 2) + z(4) + be(44100u << 16, 4))) + atom("stts", z(4) + be(1, 4) + be(chunks.size(), 4) + be(1024, 4))
        + atom("stsc", z(4) + be(1, 4) + be(1, 4) + be(1, 4) + be(1, 4)) + atom("stsz", z(4) + be(sampleSize, 4) + be(chunks.size(), 4)) + atom("stco", z(4) + be(chunks.size(), 4) + co));
    const auto mdia = atom("mdia", atom("mdhd", z(12) + be(44100, 4) + be(1024 * chunks.size(), 4) + be(0x55C4, 2) + z(2)) + atom("hdlr", z(8) + "soun" + z(13))
        + atom("minf", atom("smhd", z(8)) + atom("dinf", atom("dref", z(4) + be(1, 4) + atom("url ", be(1, 4)))) + stbl));
    return atom("moov", atom("mvhd", z(12) + be(44100, 4) + be(1024 * chunks.size(), 4) + be(0x10000, 4) + be(0x100, 2) + z(10) + matrix + z(24) + be(2, 4))
        + atom("trak", atom("tkhd", be(7, 4) + z(8) + be(1, 4) + z(4) + be(1024 * chunks.size(), 4) + z(8) + z(4) + be(0x100, 2) + z(2) + matrix + z(8)) + mdia) + udta);
}
inline std::string mp4Ftyp() { return atom("ftyp", "M4A " + z(4) + "M4A mp42isom"); }
struct Atom { std::string id; std::size_t start, size; };
inline std::vector<Atom> atoms(const std::string &f, std::size_t from, std::size_t to) { std::vector<Atom> r; for (auto p = from; p + 8 <= to;) { const auto s = beAt(f, p, 4); if (s < 8 || p + s > to) return r.push_back({ "?", p, to - p }), r; r.push_back({ f.substr(p + 4, 4), p, static_cast<std::size_t>(s) }); p += s; } return r; }
