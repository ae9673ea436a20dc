// ID3v1/ID3v2 and the formats handled as "tagged blob": MP3, ADTS, WAV, IVF, unknown
#include "doc.h"
#include <zlib.h>

namespace sim {

static void synchsafe(Bytes &b, u32 v) { for (int i = 3; i >= 0; --i) b.push_back(static_cast<u8>((v >> (7 * i)) & 0x7F)); }

static std::string encText(const std::string &utf8, int enc)
{
    switch (enc) {
    case 1: return utf8ToUtf16(utf8, false, true);
    case 2: return utf8ToUtf16(utf8, true, false);
    case 3: return utf8;
    default: return utf8; // caller ensures ASCII
    }
}
static std::string asciiOnly(std::string s)
{
    for (auto &ch : s) if (static_cast<unsigned char>(ch) >= 0x80) ch = '_';
    return s;
}

// avoids byte sequences which look like an MPEG frame header (and sequences which would be altered when reverting)
static Bytes unsynchronise(const Bytes &in)
{
    Bytes b;
    for (std::size_t i = 0; i < in.size(); ++i) {
        b.push_back(in[i]);
        if (in[i] == 0xFF && (i + 1 == in.size() || in[i + 1] == 0 || in[i + 1] >= 0xE0)) b.push_back(0);
    }
    return b;
}
static Bytes resynchronise(const BR &in)
{
    Bytes b;
    for (std::size_t i = 0; i < in.n; ++i) {
        b.push_back(in.p[i]);
        if (in.p[i] == 0xFF && i + 1 < in.n && in.p[i + 1] == 0) ++i;
    }
    return b;
}

static thread_local int unsyncFrames = 0; // 1: ID3v2.4 frames are unsynchronised, 2: with data length indicator as well

static Bytes id3Frame(int version, const char *id4, const char *id3, Bytes body, u16 flags = 0)
{
    BW w;
    if (version >= 4 && unsyncFrames && !flags) {
        const auto len = static_cast<u32>(body.size());
        body = unsynchronise(body);
        flags = 2;
        if (unsyncFrames == 2) {
            Bytes b;
            synchsafe(b, len);
            append(b, body);
            body = b;
            flags |= 1;
        }
    }
    if (version == 2) {
        w.str(id3).be(body.size(), 3);
    } else {
        w.str(id4);
        if (version >= 4) synchsafe(w.b, static_cast<u32>(body.size())); else w.be(body.size(), 4);
        w.be(flags, 2);
    }
    w.bytes(body);
    return w.b;
}

static Bytes textBody(Rng &r, int version, const std::vector<std::string> &vals, bool allowTerm = true)
{
    const int enc = static_cast<int>(r.below(version >= 4 ? 4 : 2));
    Bytes b;
    b.push_back(static_cast<u8>(enc));
    std::string s;
    for (std::size_t i = 0; i < vals.size(); ++i) {
        if (i) s += std::string(enc == 1 || enc == 2 ? 2 : 1, '\0');
        s += encText(enc == 0 ? asciiOnly(vals[i]) : vals[i], enc);
    }
    if (allowTerm && r.chance(1, 2)) s += std::string(enc == 1 || enc == 2 ? 2 : 1, '\0');
    b.insert(b.end(), s.begin(), s.end());
    return b;
}

Bytes makeId3v2(Choices &c, const std::string &pfx, int version, Rng &r, int sizeClass)
{
    Bytes frames;
    const int unsync = static_cast<int>(c.pick(pfx + ".unsync", 0, 9));
    unsyncFrames = version >= 4 && unsync >= 8 ? unsync - 7 : 0;
    const u64 mask = static_cast<u64>(c.pick(pfx + ".frames", 0, (1 << 20) - 1));
    auto on = [&](int bit) { return (mask >> bit) & 1; };
    struct T { const char *l, *s; };
    static const T texts[] = { { "TIT2", "TT2" }, { "TPE1", "TP1" }, { "TALB", "TAL" }, { "TCOM", "TCM" }, { "TPE2", "TP2" }, { "TSRC", "TRC" } };
    for (int i = 0; i < 6; ++i) {
        if (!on(i)) continue;
        std::vector<std::string> vals{ genText(r, i == 0 ? sizeClass : static_cast<int>(r.below(2))) };
        if (version >= 4 && r.chance(1, 4)) { vals.push_back(genText(r, 0)); if (r.chance(1, 2)) vals.push_back(genText(r, 0)); }
        append(frames, id3Frame(version, texts[i].l, texts[i].s, textBody(r, version, vals)));
    }
    if (on(6)) append(frames, id3Frame(version, "TRCK", "TRK", textBody(r, version, { std::to_string(1 + r.below(20)) + (r.chance(1, 2) ? "/" + std::to_string(20 + r.below(9)) : "") })));
    if (on(7)) append(frames, id3Frame(version, "TCON", "TCO", textBody(r, version, { r.chance(1, 2) ? std::to_string(r.below(80)) : "Some Genre" })));
    if (on(8)) {
        static const char *const dates[] = { "2004-05-06", "2004", "1987-10-31T17:45", "1999-12-01T09:08:07", "2011-02" };
        if (version >= 4) append(frames, id3Frame(version, "TDRC", "", textBody(r, version, { dates[r.below(5)] })));
        else {
            append(frames, id3Frame(version, "TYER", "TYE", textBody(r, version, { "1" + std::to_string(900 + r.below(99)) })));
            const auto more = r.below(4);
            if (more > 1) append(frames, id3Frame(version, "TDAT", "TDA", textBody(r, version, { more == 2 ? "0304" : "3112" })));
            if (more > 2) append(frames, id3Frame(version, "TIME", "TIM", textBody(r, version, { "2359" })));
            if (r.chance(1, 4)) append(frames, id3Frame(version, "TRDA", "TRD", textBody(r, version, { "4th-7th June, 12th June" })));
        }
    }
    if (on(9)) append(frames, id3Frame(version, "TLEN", "TLE", textBody(r, version, { std::to_string(1000 + r.below(900000)) })));
    auto comm = [&](const char *l, const char *s, int cls) {
        int enc = r.chance(1, 2) ? 1 : 0;
        Bytes b{ static_cast<u8>(enc) };
        const char *lang = r.chance(1, 2) ? "eng" : "deu";
        b.insert(b.end(), lang, lang + 3);
        std::string d = r.chance(1, 2) ? genText(r, 0) : std::string(), t = genText(r, cls);
        if (!enc) { d = asciiOnly(d); t = asciiOnly(t); }
        std::string e = encText(d, enc) + std::string(enc ? 2 : 1, '\0') + encText(t, enc);
        b.insert(b.end(), e.begin(), e.end());
        append(frames, id3Frame(version, l, s, b));
    };
    if (on(10)) { comm("COMM", "COM", 1); if (r.chance(1, 3)) comm("COMM", "COM", 1); }
    if (on(11)) comm("USLT", "ULT", sizeClass > 2 ? 2 : sizeClass);
    if (on(12)) append(frames, id3Frame(version, "PCNT", "CNT", BW().be(1 + r.below(0xFFFF), 4).b));
    if (on(13) && version >= 3) { // PRIV: owner + data
        Bytes b; std::string o = "owner@example"; b.insert(b.end(), o.begin(), o.end()); b.push_back(0); append(b, randBytes(r, 5 + r.below(60)));
        append(frames, id3Frame(version, "PRIV", "", b));
    }
    if (on(14)) { // TXXX
        std::vector<std::string> v{ "desc " + std::to_string(r.below(99)), genText(r, 0) };
        append(frames, id3Frame(version, "TXXX", "TXX", textBody(r, version, v, false)));
    }
    if (on(15)) append(frames, id3Frame(version, "UFID", "UFI", BW().str("http://x.y/").u8_(0).bytes(randBytes(r, 12)).b));
    if (on(16)) append(frames, id3Frame(version, "WOAF", "WAF", BW().str("http://example.org/f?x=" + std::to_string(r.below(999))).b));
    if (on(17)) append(frames, id3Frame(version, "GEOB", "GEO", BW().u8_(0).str("application/x-foo").u8_(0).str("file.bin").u8_(0).str("desc").u8_(0).bytes(randBytes(r, 20 + r.below(100))).b));
    if (on(18)) {
        int n = 1 + static_cast<int>(r.below(2));
        for (int i = 0; i < n; ++i) {
            std::string mime;
            Bytes pic = genPicture(r, sizeClass > 2 ? 2 : static_cast<int>(r.below(3)), mime);
            BW w;
            w.u8_(0);
            if (version == 2) w.str(mime == "image/png" ? "PNG" : "JPG"); else w.str(mime).u8_(0);
            w.u8_(static_cast<u64>(pictureType(r, i))).str("desc" + std::to_string(i)).u8_(0).bytes(pic);
            append(frames, id3Frame(version, "APIC", "PIC", w.b));
        }
    }
    if (on(19)) { // POPM
        BW body;
        body.str(r.chance(1, 3) ? "" : "who@where").u8_(0).u8_(r.chance(1, 4) ? 0 : 1 + r.below(255));
        if (!r.chance(1, 4)) body.be(r.chance(1, 4) ? 0 : 1 + r.below(1000), r.chance(1, 4) ? 5 : 4);
        append(frames, id3Frame(version, "POPM", "POP", body.b));
    }
    if (version >= 3 && c.pick(pfx + ".flagged", 0, 5) >= 4) { // a compressed and/or grouped frame, or one with status flags
        const bool comp = r.chance(2, 3), group = !comp || r.chance(1, 3);
        const u16 status = r.chance(1, 3) ? static_cast<u16>(1 + r.below(7)) : 0;
        Bytes body = textBody(r, version, { genText(r, 1) + " aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" });
        BW w;
        u16 flags = static_cast<u16>(status << (version == 3 ? 13 : 12));
        const u32 plain = static_cast<u32>(body.size());
        if (comp) {
            uLongf n = compressBound(plain);
            Bytes out(n);
            compress(out.data(), &n, body.data(), plain);
            out.resize(n);
            body = out;
        }
        if (version == 3) {
            if (comp) { flags |= 0x0080; w.be(plain, 4); }
            if (group) { flags |= 0x0020; w.u8_(0x81); }
        } else {
            if (group) { flags |= 0x0040; w.u8_(0x81); }
            if (comp) { flags |= 0x0009; synchsafe(w.b, plain); }
        }
        w.bytes(body);
        append(frames, id3Frame(version, "TPUB", "", w.b, flags));
    }
    const u64 padding = static_cast<u64>(c.weighted(pfx + ".padcls", { 3, 2, 3 })) == 0 ? 0 : r.below(2) ? 1 + r.below(30) : 100 + r.below(1500);
    if (frames.empty() && !padding) append(frames, id3Frame(version, "TIT2", "TT2", textBody(r, version, { "x" + genText(r, 0) })));
    BW w;
    if (unsync >= 8 && version < 4) frames = unsynchronise(frames);
    // an extended header (it is not written again) or a footer (ID3v2.4 only, excludes padding)
    const int ext = version >= 3 ? c.pick(pfx + ".ext", 0, 9) : 0;
    Bytes extHeader;
    u64 flags = 0, pad = padding;
    if (ext == 8) {
        BW e;
        if (version == 3) { if (r.chance(1, 2)) e.be(6, 4).be(0, 2).be(0, 4); else e.be(10, 4).be(0x8000, 2).be(0, 4).be(r.next() & 0xFFFFFFFF, 4); }
        else { if (r.chance(1, 2)) { synchsafe(e.b, 6); e.u8_(1).u8_(0); } else { synchsafe(e.b, 12); e.u8_(1).u8_(0x20).u8_(5).zero(5); } }
        extHeader = e.b;
        flags |= 0x40;
    } else if (ext == 9 && version == 4) {
        flags |= 0x10;
        pad = 0;
    }
    if (unsync >= 8) flags |= 0x80;
    w.str("ID3").u8_(static_cast<u64>(version)).u8_(0).u8_(flags);
    synchsafe(w.b, static_cast<u32>(extHeader.size() + frames.size() + pad));
    w.bytes(extHeader).bytes(frames).zero(pad);
    if (flags & 0x10) {
        w.str("3DI").u8_(static_cast<u64>(version)).u8_(0).u8_(flags);
        synchsafe(w.b, static_cast<u32>(frames.size()));
    }
    return w.b;
}

static std::string decodeId3Text(const BR &d, int enc)
{
    switch (enc) {
    case 1: {
        bool be = false;
        std::size_t off = 0;
        if (d.n >= 2 && d.p[0] == 0xFF && d.p[1] == 0xFE) off = 2;
        else if (d.n >= 2 && d.p[0] == 0xFE && d.p[1] == 0xFF) { off = 2; be = true; }
        return utf16ToUtf8(d.p + off, d.n - off, be);
    }
    case 2: {
        std::size_t off = d.n >= 2 && d.p[0] == 0xFE && d.p[1] == 0xFF ? 2 : 0;
        return utf16ToUtf8(d.p + off, d.n - off, true);
    }
    case 3: return d.s();
    default: return latin1ToUtf8(d.s());
    }
}
// splits at the encoding's terminator
static std::vector<std::string> splitId3Text(const BR &d, int enc, std::size_t maxParts, std::size_t *consumed = nullptr)
{
    std::vector<std::string> r;
    const std::size_t cs = enc == 1 || enc == 2 ? 2 : 1;
    std::size_t start = 0, i = 0;
    while (i + cs <= d.n && r.size() < maxParts) {
        bool zero = d.p[i] == 0 && (cs == 1 || d.p[i + 1] == 0);
        if (zero) {
            r.push_back(decodeId3Text(d.sub(start, i - start), enc));
            start = i + cs;
        }
        i += cs;
    }
    if (consumed) { *consumed = start; return r; }
    if (start < d.n) r.push_back(decodeId3Text(d.sub(start, d.n - start), enc));
    return r;
}

static std::string join(const std::vector<std::string> &v, const char *sep)
{
    std::string s;
    for (std::size_t i = 0; i < v.size(); ++i) { if (i) s += sep; s += v[i]; }
    return s;
}

bool analyzeId3v2(const BR &file, u64 off, NTag &tag, u64 &padding, Analysis &a)
{
    BR d = file;
    if (d.n < 10 || std::memcmp(d.p, "ID3", 3) != 0) return false;
    const int version = d.p[3];
    const u8 flags = d.p[5];
    for (int i = 6; i < 10; ++i) if (d.p[i] & 0x80) { a.error("ID3v2 size is not synchsafe"); return false; }
    const u64 size = static_cast<u64>(d.p[6]) << 21 | static_cast<u64>(d.p[7]) << 14 | static_cast<u64>(d.p[8]) << 7 | d.p[9];
    tag.type = "id3v2." + std::to_string(version);
    tag.off = off;
    tag.len = 10 + size + (flags & 0x10 ? 10 : 0);
    padding = 0;
    if (version < 2 || version > 4) { a.error("ID3v2 version " + std::to_string(version)); return true; }
    if (!d.has(10, size)) { a.error("ID3v2 tag exceeds file"); return true; }
    std::size_t pos = 10, end = 10 + size;
    if (flags & 0x10) {
        if (!d.has(end, 10) || std::memcmp(d.p + end, "3DI", 3) != 0) a.error("ID3v2 footer denoted but missing");
    }
    if ((flags & 0x40) && version >= 3) pos += version >= 4 ? (d.be(pos, 1) << 21 | d.be(pos + 1, 1) << 14 | d.be(pos + 2, 1) << 7 | d.be(pos + 3, 1)) : d.be(pos, 4) + 4;
    const std::size_t hdr = version == 2 ? 6 : 10;
    Bytes decoded;
    if ((flags & 0x80) && version < 4) {
        decoded = resynchronise(d.sub(pos, end - pos));
        d = BR(decoded);
        pos = 0;
        end = d.n;
    }
    while (pos < end) {
        if (d.p[pos] == 0) {
            for (std::size_t i = pos; i < end; ++i) if (d.p[i]) { a.error("ID3v2 padding at " + std::to_string(off + i) + " is not zero"); break; }
            padding = end - pos;
            break;
        }
        if (end - pos < hdr) { a.error("ID3v2 trailing garbage"); break; }
        std::string id(reinterpret_cast<const char *>(d.p + pos), version == 2 ? 3 : 4);
        for (unsigned char ch : id) if (!((ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || (ch == ' '))) { a.error("ID3v2 frame id invalid: " + printable(id) + " at " + std::to_string(off + pos)); return true; }
        u64 sz;
        u16 fl = 0;
        if (version == 2) sz = d.be(pos + 3, 3);
        else if (version == 3) sz = d.be(pos + 4, 4);
        else {
            for (int i = 4; i < 8; ++i) if (d.p[pos + static_cast<std::size_t>(i)] & 0x80) a.error("ID3v2.4 frame size of " + id + " is not synchsafe");
            sz = d.be(pos + 4, 1) << 21 | d.be(pos + 5, 1) << 14 | d.be(pos + 6, 1) << 7 | d.be(pos + 7, 1);
        }
        if (version > 2) fl = static_cast<u16>(d.be(pos + 8, 2));
        if (sz > end - pos - hdr) { a.error("ID3v2 frame " + id + " exceeds the tag"); return true; }
        if (!sz) a.error("ID3v2 frame " + id + " is empty");
        BR f = d.sub(pos + hdr, sz);
        Bytes inflated, resynced;
        std::string suffix;
        if (fl) {
            const bool comp = version == 3 ? fl & 0x80 : fl & 8, group = version == 3 ? fl & 0x20 : fl & 0x40, dli = version == 4 && (fl & 1);
            u64 plain = 0;
            auto take = [&](int n, bool ss) { u64 v = 0; if (f.n < static_cast<std::size_t>(n)) { a.error("ID3v2 frame header extension missing"); return v; } for (int i = 0; i < n; ++i) v = ss ? v << 7 | (f.p[i] & 0x7F) : v << 8 | f.p[i]; f = f.sub(static_cast<std::size_t>(n), f.n); return v; };
            if (version == 3) { if (comp) plain = take(4, false); if (group) suffix += " group" + std::to_string(take(1, false)); }
            else { if (group) suffix += " group" + std::to_string(take(1, false)); if (dli) plain = take(4, true); }
            if (version == 4 && (fl & 2)) {
                resynced = resynchronise(f);
                f = BR(resynced);
                if (dli && !comp && plain != f.n) a.error("ID3v2 frame " + id + " has wrong data length indicator");
            }
            if (comp) {
                suffix += " zlib";
                uLongf n = plain;
                if (plain > (1 << 24)) { a.error("ID3v2 decompressed size implausible"); n = 0; }
                inflated.resize(n);
                if (n && (uncompress(inflated.data(), &n, f.p, f.n) != Z_OK || n != plain)) a.error("ID3v2 frame " + id + " can not be decompressed");
                f = BR(inflated);
            }
            u16 relevant = version == 4 ? fl & ~2 : fl; // it does not matter how the data is represented
            if (!comp && version == 4) relevant &= static_cast<u16>(~1);
            if (relevant) suffix += " flags" + hex(relevant);
        }
        NField nf;
        nf.id = id;
        static const std::map<std::string, std::string> alias{ { "TT2", "TIT2" }, { "TP1", "TPE1" }, { "TAL", "TALB" }, { "TCM", "TCOM" }, { "TP2", "TPE2" }, { "TRC", "TSRC" }, { "TRK", "TRCK" }, { "TCO", "TCON" }, { "TYE", "TYER" }, { "TDA", "TDAT" }, { "TIM", "TIME" }, { "TRD", "TRDA" }, { "TLE", "TLEN" }, { "COM", "COMM" }, { "ULT", "USLT" }, { "CNT", "PCNT" }, { "TXX", "TXXX" }, { "UFI", "UFID" }, { "WAF", "WOAF" }, { "GEO", "GEOB" }, { "PIC", "APIC" }, { "POP", "POPM" }, { "TEN", "TENC" }, { "TBP", "TBPM" }, { "TPA", "TPOS" }, { "TCR", "TCOP" }, { "TPB", "TPUB" }, { "TSS", "TSSE" }, { "TXT", "TEXT" }, { "TT1", "TIT1" }, { "TT3", "TIT3" }, { "TP4", "TPE4" }, { "TKE", "TKEY" }, { "WPB", "WPUB" }, { "WAR", "WOAR" }, { "TLA", "TLAN" }, { "TMT", "TMED" } };
        if (version == 2) { auto it = alias.find(id); if (it != alias.end()) nf.id = it->second; }
        if (nf.id[0] == 'T' && nf.id != "TXXX" && f.n) {
            auto parts = splitId3Text(f.sub(1, f.n), f.p[0], 1000);
            while (!parts.empty() && parts.back().empty()) parts.pop_back();
            if (f.p[0] > 3 || (version < 4 && f.p[0] > 1)) a.error("ID3v2." + std::to_string(version) + " text encoding " + std::to_string(f.p[0]) + " in " + id + " is not defined for this version");
            nf.val = join(parts, "\x1F");
        } else if (nf.id[0] == 'W' && nf.id != "WXXX") {
            auto parts = splitId3Text(f, 0, 1000);
            nf.val = parts.empty() ? "" : parts[0];
        } else if ((nf.id == "COMM" || nf.id == "USLT") && f.n >= 4) {
            std::size_t used = 0;
            auto parts = splitId3Text(f.sub(4, f.n), f.p[0], 1, &used);
            auto rest = splitId3Text(f.sub(4 + used, f.n), f.p[0], 1000);
            while (!rest.empty() && rest.back().empty()) rest.pop_back();
            nf.val = f.s(1, 3) + "|" + (parts.empty() ? "<no desc>" : parts[0]) + "|" + join(rest, "\x1F");
        } else if (nf.id == "APIC" && f.n > 6) {
            std::size_t p = 1;
            std::string mime;
            if (version == 2) { mime = f.s(1, 3); mime = mime == "PNG" ? "image/png" : mime == "JPG" ? "image/jpeg" : mime; p = 4; }
            else { while (p < f.n && f.p[p]) mime += static_cast<char>(f.p[p++]); ++p; }
            const int type = p < f.n ? f.p[p++] : -1;
            std::size_t used = 0;
            auto desc = splitId3Text(f.sub(p, f.n), f.p[0], 1, &used);
            BR data = f.sub(p + used, f.n);
            nf.val = std::to_string(type) + "|" + mime + "|" + (desc.empty() ? "<none>" : desc[0]) + "|" + std::to_string(data.n) + ":" + hex(data.hash());
        } else if (nf.id == "PCNT") {
            u64 v = 0; for (std::size_t i = 0; i < f.n; ++i) v = v << 8 | f.p[i];
            nf.val = std::to_string(v);
        } else if (nf.id == "POPM") {
            std::string user; std::size_t p = 0;
            while (p < f.n && f.p[p]) user += static_cast<char>(f.p[p++]);
            ++p;
            const int rating = p < f.n ? f.p[p++] : -1;
            u64 v = 0; for (; p < f.n; ++p) v = v << 8 | f.p[p];
            nf.val = user + "|" + std::to_string(rating) + "|" + std::to_string(v);
        } else {
            nf.val = "raw:" + f.s();
        }
        nf.val += suffix;
        tag.fields.push_back(std::move(nf));
        pos += hdr + sz;
    }
    return true;
}

static std::string trimId3v1(const BR &d)
{
    std::size_t n = 0;
    while (n < d.n && d.p[n]) ++n;
    std::size_t full = d.n;
    while (full && (d.p[full - 1] == 0 || d.p[full - 1] == ' ')) --full;
    (void)n;
    std::string s(reinterpret_cast<const char *>(d.p), full);
    if (s.size() >= 3 && s.compare(0, 3, "\xEF\xBB\xBF") == 0) return s.substr(3);
    return latin1ToUtf8(s);
}

bool analyzeId3v1(const BR &d, u64 off, NTag &tag)
{
    if (d.n != 128 || std::memcmp(d.p, "TAG", 3) != 0) return false;
    tag.type = "id3v1";
    tag.off = off;
    tag.len = 128;
    auto put = [&](const char *id, std::string v) { if (!v.empty()) tag.fields.push_back({ id, std::move(v) }); };
    put("title", trimId3v1(d.sub(3, 30)));
    put("artist", trimId3v1(d.sub(33, 30)));
    put("album", trimId3v1(d.sub(63, 30)));
    put("year", trimId3v1(d.sub(93, 4)));
    const bool is11 = d.p[125] == 0;
    put("comment", trimId3v1(d.sub(97, is11 ? 28 : 30)));
    if (is11 && d.p[126]) put("track", std::to_string(d.p[126]));
    put("genre", std::to_string(d.p[127]));
    return true;
}

static Bytes makeId3v1(Rng &r, bool v11)
{
    Bytes b;
    auto put = [&](std::size_t n) {
        std::string s = asciiOnly(genText(r, 0)).substr(0, n);
        if (r.chance(1, 6)) s = s.substr(0, 1);
        if (r.chance(1, 5)) s.clear();
        while (!s.empty() && s.back() == ' ') s.pop_back();
        b.insert(b.end(), s.begin(), s.end());
        b.insert(b.end(), n - s.size(), 0);
    };
    b.insert(b.end(), { 'T', 'A', 'G' });
    put(30); put(30); put(30);
    if (r.chance(1, 3)) b.insert(b.end(), 4, 0); else { std::string y = std::to_string(1970 + r.below(50)); b.insert(b.end(), y.begin(), y.end()); }
    if (!v11 && r.chance(1, 2)) { // ID3v1.0
        std::string s = asciiOnly(genText(r, 1)).substr(0, 30);
        while (s.size() < 30) s += "xyz"[s.size() % 3];
        if (s.back() == ' ') s.back() = 'x';
        b.insert(b.end(), s.begin(), s.end());
        b.push_back(static_cast<u8>(r.below(100)));
        return b;
    }
    put(28);
    b.push_back(0);
    b.push_back(v11 ? static_cast<u8>(r.chance(1, 5) ? 0 : r.chance(1, 4) ? r.below(256) : r.below(100)) : 0);
    b.push_back(static_cast<u8>(r.chance(1, 6) ? r.below(256) : r.below(100)));
    return b;
}

static Bytes makeApe(Rng &r, bool header)
{
    BW items;
    const int n = 1 + static_cast<int>(r.below(3));
    for (int i = 0; i < n; ++i) {
        std::string v = genText(r, 1);
        items.le(v.size(), 4).le(0, 4).str(i == 0 ? "Title" : i == 1 ? "Artist" : "Foo").u8_(0).str(v);
    }
    if (header && 64 + items.size() == 131) items.u8_(0); // "TAG" of the header must not look like an ID3v1 tag
    auto part = [&](bool hdr) {
        BW w;
        w.str("APETAGEX").le(2000, 4).le(items.size() + 32, 4).le(static_cast<u64>(n), 4).le((header ? 0x80000000u : 0) | (hdr ? 0x20000000u : 0), 4).zero(8);
        return w.b;
    };
    BW w;
    if (header) w.bytes(part(true));
    w.bytes(items.b).bytes(part(false));
    return w.b;
}

static Bytes mp3Frames(Rng &r, std::size_t n)
{
    Bytes b;
    for (std::size_t i = 0; i < n; ++i) {
        const bool pad = r.chance(1, 3);
        const std::size_t len = 144 * 128000 / 44100 + (pad ? 1 : 0);
        Bytes f = randBytes(r, len);
        for (auto &x : f) if (x == 0xFF) x = 0xFE;
        f[0] = 0xFF; f[1] = 0xFB; f[2] = static_cast<u8>(0x90 | (pad ? 2 : 0)); f[3] = 0x40;
        if (i == 0 && r.chance(1, 3)) { // Xing header
            const u8 x[] = { 'X', 'i', 'n', 'g', 0, 0, 0, 3, 0, 0, 0, static_cast<u8>(n), 0, 0, 1, 0 };
            std::copy(x, x + sizeof x, f.begin() + 36);
        }
        append(b, f);
    }
    return b;
}

static Doc genTagged(Choices &c, const std::string &pfx, const Bytes &media, const char *ext, bool allowV1, bool allowPrefixJunk)
{
    Doc d;
    Rng r = c.rng(pfx + ".id3");
    d.ext = ext;
    const int nv2 = c.weighted(pfx + ".id3v2n", { 4, 5, 1 });
    const int sizeClass = c.weighted(pfx + ".id3size", { 4, 4, 2, 1 });
    for (int i = 0; i < nv2; ++i) {
        const int version = 2 + c.weighted(pfx + ".id3ver" + std::to_string(i), { 1, 3, 3 });
        append(d.bytes, makeId3v2(c, pfx + ".v2_" + std::to_string(i), version, r, sizeClass));
        d.sub += " v2." + std::to_string(version);
    }
    if (allowPrefixJunk && nv2 && c.pick(pfx + ".zeros", 0, 7) >= 6) {
        d.bytes.insert(d.bytes.end(), 4 + r.below(300), 0);
        d.sub += " zeros";
    }
    append(d.bytes, media);
    if (allowV1 && c.pick(pfx + ".ape", 0, 7) >= 6) { append(d.bytes, makeApe(r, r.chance(1, 2))); d.sub += " ape"; }
    if (allowV1 && c.flag(pfx + ".id3v1", 1, 2)) { append(d.bytes, makeId3v1(r, r.chance(1, 2))); d.sub += " v1"; }
    return d;
}

static std::size_t mediaCount(Choices &c, const std::string &pfx)
{
    switch (c.weighted(pfx + ".mediacls", { 4, 3, 1 })) {
    case 0: return static_cast<std::size_t>(c.pick(pfx + ".frames_n", 2, 6));
    case 1: return static_cast<std::size_t>(c.pick(pfx + ".frames_n", 10, 60));
    default: return static_cast<std::size_t>(c.pick(pfx + ".frames_n", 60, 200));
    }
}

Doc genMp3(Choices &c, const std::string &pfx)
{
    Rng r = c.rng(pfx + ".media");
    return genTagged(c, pfx, mp3Frames(r, mediaCount(c, pfx) * docScale), ".mp3", true, true);
}

Doc genAdts(Choices &c, const std::string &pfx)
{
    Rng r = c.rng(pfx + ".media");
    Bytes m;
    const std::size_t n = mediaCount(c, pfx) * docScale;
    for (std::size_t i = 0; i < n; ++i) {
        const std::size_t len = 7 + 60 + r.below(200);
        Bytes f = randBytes(r, len);
        // MPEG-4, no CRC, AAC LC, 44.1 kHz, stereo
        f[0] = 0xFF; f[1] = 0xF1; f[2] = static_cast<u8>((1 << 6) | (4 << 2)); f[3] = static_cast<u8>(0x80 | (len >> 11));
        f[4] = static_cast<u8>(len >> 3); f[5] = static_cast<u8>(((len & 7) << 5) | 0x1F); f[6] = 0xFC;
        append(m, f);
    }
    return genTagged(c, pfx, m, ".aac", true, false);
}

Doc genWav(Choices &c, const std::string &pfx)
{
    Rng r = c.rng(pfx + ".media");
    const std::size_t n = 2 * mediaCount(c, pfx) * 50;
    Bytes pcm = randBytes(r, n * 2);
    BW body;
    body.str("WAVE").str("fmt ").le(16, 4).le(1, 2).le(2, 2).le(44100, 4).le(44100 * 4, 4).le(4, 2).le(16, 2);
    if (r.chance(1, 3)) body.str("LIST").le(12, 4).str("INFOISFT").le(0, 4);
    body.str("data").le(pcm.size(), 4).bytes(pcm);
    BW w;
    w.str("RIFF").le(body.size(), 4).bytes(body.b);
    return genTagged(c, pfx, w.b, ".wav", true, false);
}

Doc genIvf(Choices &c, const std::string &pfx)
{
    Rng r = c.rng(pfx + ".media");
    BW w;
    const std::size_t n = mediaCount(c, pfx);
    w.str("DKIF").le(0, 2).le(32, 2).str("AV01").le(640, 2).le(360, 2).le(30, 4).le(1, 4).le(n, 4).le(0, 4);
    for (std::size_t i = 0; i < n; ++i) {
        Bytes f = randBytes(r, 40 + r.below(200));
        w.le(f.size(), 4).le(i, 8).bytes(f);
    }
    return genTagged(c, pfx, w.b, ".ivf", true, false);
}

Doc genUnknown(Choices &c, const std::string &pfx)
{
    Rng r = c.rng(pfx + ".media");
    Bytes m = randBytes(r, 3000 + r.below(9000));
    for (std::size_t i = 0; i < 2200; ++i) m[i] = static_cast<u8>('a' + m[i] % 12); // must not contain any signature
    return genTagged(c, pfx, m, ".dat", true, false);
}

Analysis analyzeTagged(const Bytes &b, Fmt fmt)
{
    (void)fmt;
    Analysis a;
    BR d(b);
    std::size_t pos = 0;
    u64 padding = 0;
    while (true) {
        NTag t;
        u64 pad = 0;
        if (!analyzeId3v2(d.sub(pos, d.n), pos, t, pad, a)) break;
        if (t.len > d.n - pos) break;
        padding += pad;
        pos += t.len;
        a.tags.push_back(std::move(t));
    }
    std::size_t end = d.n;
    if (end >= 128) {
        NTag t;
        if (analyzeId3v1(d.sub(end - 128, 128), end - 128, t) && end - 128 >= pos) {
            end -= 128;
            a.tags.push_back(std::move(t));
        }
    }
    std::size_t z = pos;
    while (z < end && d.p[z] == 0) ++z;
    padding += z - pos;
    a.padding = static_cast<i64>(padding);
    pos = z;
    a.mediaBegin = pos;
    a.mediaEnd = end;
    ATrack t;
    t.id = "data";
    BR m = d.sub(pos, end - pos);
    t.samples.push_back(hashBytes(m.p, m.n));
    t.ts.push_back(static_cast<i64>(m.n));
    t.spans.push_back({ pos, end - pos });
    a.media.push_back({ pos, end - pos });
    a.tracks.push_back(std::move(t));
    return a;
}

} // namespace sim
