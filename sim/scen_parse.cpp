// Parsing of arbitrary input under faults (P04), reproducibility and purity of parsing (P05).
#include "scen_int.h"

#include <tagparser/abstractattachment.h>
#include <tagparser/abstractchapter.h>
#include <tagparser/mp4/mp4container.h>

using namespace TagParser;

namespace sim {

namespace {

// ---------------------------------------------------------------- hostile documents
const u64 sizes[] = { 0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 32, 40, 64, 100, 127, 128, 129, 255, 256, 257, 1023, 4095, 4096, 16383, 16384, 32767, 32768, 65535, 65536, 0xFFFFFF, 0x1000000, 0x0FFFFFFF, 0x10000000, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFF0, 0xFFFFFFFE, 0xFFFFFFFF,
    0x100000000ull, 0x00FFFFFFFFFFFFFFull, 0x01FFFFFFFFFFFFFFull, 0x7FFFFFFFFFFFFFFEull, 0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, 0xFFFFFFFFFFFFFFF0ull, 0xFFFFFFFFFFFFFFFFull };

// a position of which it is likely that it belongs to metadata
std::size_t pickPos(Choices &c, const std::string &n, const Bytes &b, const std::vector<Span> &media)
{
    if (b.empty()) return 0;
    auto rng = c.rng(n + ".loc");
    const i64 mode = c.pick(n + ".mode", 0, 9);
    const std::size_t len = b.size();
    std::size_t p = 0;
    for (int tries = 0; tries < 40; ++tries) {
        switch (mode) {
        case 0: p = rng.below(std::min<std::size_t>(len, 16)); break;
        case 1: p = rng.below(std::min<std::size_t>(len, 64)); break;
        case 2: p = len - 1 - rng.below(std::min<std::size_t>(len, 192)); break;
        case 3: case 4: case 5: { // next to something that looks like an identifier
            p = rng.below(len);
            std::size_t k = 0;
            auto idc = [&](std::size_t i) { return i < len && ((b[i] >= 'A' && b[i] <= 'Z') || (b[i] >= 'a' && b[i] <= 'z') || (b[i] >= '0' && b[i] <= '9') || b[i] == 0xA9); };
            while (k < 20000 && p + 4 < len && !(idc(p) && idc(p + 1) && idc(p + 2))) { ++p; ++k; }
            const i64 d = static_cast<i64>(rng.below(13)) - 5;
            p = static_cast<std::size_t>(std::max<i64>(0, std::min<i64>(static_cast<i64>(len) - 1, static_cast<i64>(p) + d)));
            break;
        }
        default: p = rng.below(len);
        }
        bool inMedia = false;
        for (auto &s : media) if (p >= s.off + 4 && p < s.off + s.len) { inMedia = true; break; }
        if (!inMedia || rng.chance(1, 12)) break;
    }
    return p;
}

Bytes nested(Rng &rng, int kind, std::size_t depth)
{
    Bytes r;
    switch (kind) {
    case 0: { // EBML masters: Segment > Tags > Tag > SimpleTag > SimpleTag …
        BW hdr;
        hdr.be(0x1A45DFA3, 4).be(0x80 | 7, 1).be(0x4282, 2).be(0x84, 1).str("webm");
        static const u32 ids[] = { 0x67C8, 0xB6, 0x67C8, 0xE1, 0x80 };
        const u32 id = ids[rng.below(5)];
        const int idn = id > 0xFF ? 2 : 1;
        BW out;
        out.bytes(hdr.b).be(0x18538067, 4).be(0x01FFFFFFFFFFFFFFull, 8);
        out.be(id == 0xB6 || id == 0x80 ? 0x1043A770 : 0x1254C367, 4).be((1ull << 56) | (depth * static_cast<u64>(idn + 8) + 20), 8);
        if (id == 0xB6 || id == 0x80) out.be(0x45B9, 2).be((1ull << 56) | (depth * static_cast<u64>(idn + 8)), 8);
        else out.be(0x7373, 2).be((1ull << 56) | (depth * static_cast<u64>(idn + 8)), 8);
        for (std::size_t i = 0; i < depth; ++i) out.be(id, idn).be((1ull << 56) | ((depth - i - 1) * static_cast<u64>(idn + 8)), 8);
        return out.b;
    }
    case 1: { // MP4 container atoms
        static const char *const names[] = { "moov", "udta", "trak", "mdia", "minf", "stbl", "meta", "ilst", "moof", "traf" };
        BW out;
        out.be(16, 4).str("ftypisom").be(0, 4);
        const char *const n = names[rng.below(10)];
        out.be(depth * 8 + 8, 4).str("moov");
        for (std::size_t i = 0; i < depth; ++i) out.be((depth - i) * 8, 4).str(n);
        return out.b;
    }
    case 3: { // many small MP4 atoms next to each other
        BW out;
        out.be(16, 4).str("ftypisom").be(0, 4);
        static const char *const names[] = { "free", "uuid", "moof", "mdat", "trak", "\0\0\0\1" };
        const int n = static_cast<int>(rng.below(7));
        if (rng.chance(1, 2)) out.be(depth * 8 + 8, 4).str("moov");
        for (std::size_t i = 0; i < depth; ++i) out.be(8, 4).str(std::string(names[n == 6 ? rng.below(6) : static_cast<u64>(n) % 6], 4));
        return out.b;
    }
    case 4: { // many small EBML elements next to each other
        BW out;
        out.be(0x1A45DFA3, 4).be(0x80 | 7, 1).be(0x4282, 2).be(0x84, 1).str("webm");
        out.be(0x18538067, 4).be(0x01FFFFFFFFFFFFFFull, 8);
        static const u32 ids[] = { 0xEC80, 0, 0x7373, 0xA380, 0x67C8, 0xB680, 0xAE80 };
        static const u32 parents[] = { 0, 0x1F43B675, 0x1254C367, 0x1654AE6B, 0x1043A770, 0x1941A469, 0x1C53BB6B, 0x114D9B74 };
        const u32 parent = parents[rng.below(8)];
        if (parent) out.be(parent, 4).be(rng.chance(1, 2) ? 0x01FFFFFFFFFFFFFFull : (1ull << 56) | depth * 3, 8);
        const u32 id = ids[rng.below(7)];
        for (std::size_t i = 0; i < depth; ++i) {
            if (id == 0x7373 || id == 0x67C8) out.be(id, 2).be(0x80, 1);
            else if (!id) out.be(parent ? 0xEC80 : 0x1F43B675, parent ? 2 : 4), parent ? out : out.be(0x80, 1);
            else out.be(id, 2);
        }
        return out.b;
    }
    case 5: { // many small Ogg pages, ID3 frames, FLAC blocks, APE tags or ID3 tags next to each other
        BW out;
        switch (rng.below(6)) {
        case 0: for (std::size_t i = 0; i < depth; ++i) out.str("OggS").be(0, 1).be(rng.below(8), 1).be(0, 8).be(rng.chance(1, 2) ? i : 0, 4).be(0, 4).be(0, 4).be(0, 1); break;
        case 1: out.str("ID3").be(3, 1).be(0, 2).be(0x7F7F7F7F, 4); for (std::size_t i = 0; i < depth; ++i) out.str("TIT2").be(1, 4).be(0, 3); break;
        case 2: out.str("fLaC").be(0, 1).be(34, 3).zero(34); for (std::size_t i = 0; i < depth; ++i) out.be(rng.below(7), 1).be(0, 3); break;
        case 3: for (std::size_t i = 0; i < depth; ++i) out.str("APETAGEX").be(0, 24); break;
        case 4: for (std::size_t i = 0; i < depth; ++i) out.str("ID3").be(3, 1).be(0, 2).be(0, 4); break;
        default: for (std::size_t i = 0; i < depth; ++i) out.be(0xFFFB9000, 4); break;
        }
        return out.b;
    }
    default: { // EBML elements of unknown size
        BW out;
        out.be(0x1A45DFA3, 4).be(0x80, 1);
        for (std::size_t i = 0; i < depth; ++i) out.be(rng.chance(1, 2) ? 0x18538067u : 0x1F43B675u, 4).be(0xFF, 1);
        return out.b;
    }
    }
}

} // namespace

std::string corrupt(Choices &c, const std::string &pfx, Bytes &b, Fmt fmt)
{
    std::string log;
    const Analysis an = analyze(b, fmt);
    const int n = static_cast<int>(c.pick(pfx + ".n", 0, 6));
    for (int i = 0; i < n; ++i) {
        const std::string p = pfx + "." + std::to_string(i);
        auto rng = c.rng(p + ".r");
        const int kind = c.weighted(p + ".kind", { 3, 3, 6, 8, 3, 3, 2, 2, 3, 2 });
        const std::size_t pos = pickPos(c, p + ".pos", b, an.media);
        const std::size_t len = b.size();
        if (!len) break;
        switch (kind) {
        case 0: b.resize(pos); log += "truncate to " + std::to_string(pos) + "\n"; break;
        case 1: { const std::size_t m = std::min<std::size_t>(len - pos, 1 + rng.below(rng.chance(1, 6) ? 300 : 6)); rng.fill(b.data() + pos, m); log += "overwrite " + std::to_string(m) + " bytes at " + std::to_string(pos) + "\n"; break; }
        case 2: { static const u8 v[] = { 0, 1, 0x7F, 0x80, 0xFE, 0xFF, 0x40, 0x20, 0x10, 2, 3, 4, 0x0F }; b[pos] = rng.chance(1, 3) ? static_cast<u8>(b[pos] ^ (1u << rng.below(8))) : v[rng.below(13)]; log += "byte at " + std::to_string(pos) + " := " + std::to_string(b[pos]) + "\n"; break; }
        case 3: case 4: {
            static const int widths[] = { 4, 4, 2, 3, 8, 1 };
            const int w = widths[rng.below(6)];
            u64 v = sizes[rng.below(sizeof sizes / sizeof *sizes)];
            if (rng.chance(1, 4)) v = len - pos + rng.below(17) - 8;
            else if (rng.chance(1, 5)) v = len;
            if (pos + static_cast<std::size_t>(w) > len) break;
            if (rng.chance(1, 4)) { u64 old = 0; for (int k = 0; k < w; ++k) old = old << 8 | b[pos + static_cast<std::size_t>(k)]; v = old + rng.below(33) - 16; }
            if (kind == 3 || rng.chance(1, 2)) putBe(b, pos, v, w); else putLe(b, pos, v, w);
            log += "number at " + std::to_string(pos) + " (" + std::to_string(w) + " bytes) := " + std::to_string(v) + "\n";
            break;
        }
        case 5: { const std::size_t m = std::min<std::size_t>(len - pos, 1 + rng.below(rng.chance(1, 3) ? 2000 : 12)); b.erase(b.begin() + static_cast<i64>(pos), b.begin() + static_cast<i64>(pos + m)); log += "delete " + std::to_string(m) + " bytes at " + std::to_string(pos) + "\n"; break; }
        case 6: { const std::size_t m = std::min<std::size_t>(len - pos, 1 + rng.below(rng.chance(1, 3) ? 3000 : 64)); Bytes x(b.begin() + static_cast<i64>(pos), b.begin() + static_cast<i64>(pos + m)); const int reps = rng.chance(1, 6) ? 1 + static_cast<int>(rng.below(200)) : 1; const std::size_t at = rng.chance(1, 2) ? pos : rng.below(len); for (int k = 0; k < reps && b.size() < 3000000; ++k) b.insert(b.begin() + static_cast<i64>(at), x.begin(), x.end()); log += "copy " + std::to_string(m) + " bytes from " + std::to_string(pos) + " to " + std::to_string(at) + " " + std::to_string(reps) + " times\n"; break; }
        case 7: { const std::size_t m = 1 + rng.below(rng.chance(1, 4) ? 40000 : 20); Bytes x(m, 0); if (rng.chance(1, 2)) rng.fill(x.data(), m); else if (rng.chance(1, 2)) std::fill(x.begin(), x.end(), 0xFF); b.insert(b.begin() + static_cast<i64>(pos), x.begin(), x.end()); log += "insert " + std::to_string(m) + " bytes at " + std::to_string(pos) + "\n"; break; }
        case 8: { // a piece of another document
            const Fmt of = static_cast<Fmt>(c.pick(p + ".other", 0, static_cast<i64>(Fmt::Count) - 1));
            Doc o = genDoc(c, p + ".odoc", of);
            if (o.bytes.size() > 400000) o.bytes.resize(400000);
            const std::size_t from = rng.chance(1, 2) ? 0 : rng.below(std::max<std::size_t>(1, o.bytes.size()));
            if (rng.chance(1, 2)) b.resize(pos);
            b.insert(b.begin() + static_cast<i64>(std::min(pos, b.size())), o.bytes.begin() + static_cast<i64>(std::min(from, o.bytes.size())), o.bytes.end());
            log += "insert " + std::string(fmtName(of)) + " document at " + std::to_string(pos) + "\n";
            break;
        }
        default: { const std::size_t q = pickPos(c, p + ".pos2", b, an.media); const std::size_t m = std::min<std::size_t>({ len - pos, len - q, 1 + rng.below(16) }); for (std::size_t k = 0; k < m; ++k) std::swap(b[pos + k], b[q + k]); log += "swap " + std::to_string(m) + " bytes at " + std::to_string(pos) + " and " + std::to_string(q) + "\n"; }
        }
    }
    return log;
}

namespace {

Bytes magicDoc(Rng &rng)
{
    static const char *const magics[] = { "ID3\x03\0\0\0\0\x02\x10", "ID3\x04\0\0\0\0\x02\x10", "ID3\x02\0\0\0\0\x02\x10", "fLaC\0\0\0\x22", "OggS\0\x02", "\0\0\0\x18" "ftypisom", "\x1A\x45\xDF\xA3", "RIFF\xFF\xFF\0\0WAVEfmt ", "DKIF", "\xFF\xFB\x90\x00", "\xFF\xF1\x50\x80", "APETAGEX", "PK\3\4", "\0\0\0\x08" "free" };
    static const u8 lens[] = { 10, 10, 10, 8, 6, 12, 4, 16, 4, 4, 4, 8, 4, 8 };
    const int k = static_cast<int>(rng.below(14));
    Bytes b(magics[k], magics[k] + lens[k]);
    const std::size_t n = rng.below(rng.chance(1, 5) ? 60000 : 600);
    const int mode = static_cast<int>(rng.below(4));
    for (std::size_t i = 0; i < n; ++i) b.push_back(mode == 0 ? static_cast<u8>(rng.next()) : mode == 1 ? static_cast<u8>(rng.chance(1, 3) ? rng.next() : 0) : mode == 2 ? static_cast<u8>(rng.chance(1, 3) ? rng.next() : 0xFF) : static_cast<u8>(rng.below(8)));
    return b;
}

void walkChapter(AbstractChapter *ch, int depth)
{
    for (auto &n : ch->names()) (void)static_cast<const std::string &>(n).size();
    for (std::size_t i = 0; i < ch->nestedChapterCount() && depth < 100; ++i) walkChapter(ch->nestedChapter(i), depth + 1);
}

// uses whatever has been parsed
void useResults(MediaFileInfo &info)
{
    (void)info.technicalSummary();
    (void)info.availableLanguages();
    (void)info.duration();
    (void)info.overallAverageBitrate();
    (void)info.parsedTags();
    (void)info.hasTracksOfType(MediaType::Audio);
    for (auto *t : info.tracks()) {
        (void)t->label();
        (void)t->description();
        (void)t->format().name();
        (void)t->format().abbreviation();
        (void)t->pixelSize().toString();
    }
    for (auto *t : info.tags()) {
        (void)t->toString();
        for (auto f = firstKnownField; f != KnownField::Invalid; f = nextKnownField(f)) {
            for (auto *v : t->values(f)) {
                try {
                    (void)v->toString(TagTextEncoding::Utf8);
                } catch (const CppUtilities::ConversionException &) {
                } // documented
                try {
                    (void)v->toPositionInSet();
                } catch (const CppUtilities::ConversionException &) {
                }
                try {
                    (void)v->toInteger();
                } catch (const CppUtilities::ConversionException &) {
                }
                try {
                    (void)v->toDateTime();
                } catch (const CppUtilities::ConversionException &) {
                }
                try {
                    (void)v->toStandardGenreIndex();
                } catch (const CppUtilities::ConversionException &) {
                }
            }
        }
    }
    for (auto *ch : info.chapters()) walkChapter(ch, 0);
    for (auto *a : info.attachments()) { (void)a->label(); }
    if (info.container()) {
        (void)info.container()->version();
        (void)info.container()->documentType();
        (void)info.container()->supportsTitle();
    }
}

std::string permName(const std::vector<int> &perm)
{
    static const char *const n[] = { "tracks", "tags", "chapters", "attachments" };
    std::string s;
    for (auto i : perm) s += std::string(s.empty() ? "" : "+") + n[i];
    return s.empty() ? "everything" : s;
}

void parseIn(MediaFileInfo &info, const std::vector<int> &perm, Diagnostics &d, AbortableProgressFeedback &p)
{
    if (perm.empty()) { info.parseEverything(d, p); return; }
    info.parseContainerFormat(d, p);
    for (auto i : perm) {
        switch (i) {
        case 0: info.parseTracks(d, p); break;
        case 1: info.parseTags(d, p); break;
        case 2: info.parseChapters(d, p); break;
        case 3: info.parseAttachments(d, p); break;
        }
    }
}

std::vector<int> genPerm(Choices &c, const std::string &n)
{
    std::vector<int> perm{ 0, 1, 2, 3 };
    auto rng = c.rng(n);
    const i64 k = c.pick(n, 0, 24);
    if (!k) return {};
    for (std::size_t i = 3; i > 0; --i) std::swap(perm[i], perm[rng.below(i + 1)]);
    return perm;
}

// the sorted set of messages (the order follows the order of the calls)
std::string messages(const Diagnostics &d)
{
    std::set<std::string> s;
    for (auto &m : d) s.insert(std::to_string(static_cast<int>(m.level())) + " " + m.context() + ": " + m.message());
    std::string r;
    for (auto &m : s) r += "diag " + m + "\n";
    return r;
}

} // namespace

std::string firstDiff(const std::string &a, const std::string &b)
{
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    auto line = [&](const std::string &s) {
        const auto st = i ? s.rfind('\n', std::min(i, s.size()) - 1) : std::string::npos;
        const auto from = st == std::string::npos ? 0 : st + 1;
        const auto e = s.find('\n', from);
        return printable(s.substr(from, e == std::string::npos ? e : e - from), 200);
    };
    return "\"" + line(a) + "\" vs. \"" + line(b) + "\"";
}

void scenParse(Run &r)
{
    auto &c = r.c;
    auto &fs = S().fs;
    const bool safety = r.prop == "P04";
    // ---- the input
    Fmt fmt = pickFmt(r);
    Doc doc;
    const int src = c.weighted("source", { safety ? 14 : 24, safety ? 2 : 1, 1 });
    if (src == 0) {
        doc = genDoc(c, "doc", fmt);
        if (!safety && c.flag("pristine", 1, 2)) r.hit("input.valid");
        else {
            const auto log = corrupt(c, "x", doc.bytes, fmt);
            r.note(log);
            r.hit("input.corrupted");
        }
    } else if (src == 1) {
        auto rng = c.rng("magic");
        doc.bytes = magicDoc(rng);
        doc.fmt = fmt = Fmt::Unknown;
        doc.ext = ".bin";
        r.hit("input.random");
    } else {
        auto rng = c.rng("nest");
        const int kind = static_cast<int>(c.pick("nest.kind", 0, 5));
        doc.bytes = nested(rng, kind, static_cast<std::size_t>(c.pick("nest.depth", 1, 20000) * c.pick("nest.depthmul", 1, safety ? 3 : 1)));
        doc.fmt = fmt = Fmt::Unknown;
        doc.ext = ".bin";
        r.hit("input.nested");
    }
    Paths paths = setupFs(doc, c.flag("symlink", 1, 12));
    spellPaths(c, paths);
    const u64 size = doc.bytes.size();
    r.note("document: " + std::string(fmtName(fmt)) + " " + doc.sub + ", " + std::to_string(size) + " bytes");
    if (r.verbose) if (const char *d = std::getenv("SIM_DUMP")) if (FILE *f = std::fopen((std::string(d) + "/input").c_str(), "wb")) { std::fwrite(doc.bytes.data(), 1, size, f); std::fclose(f); }
    S().freezeClock = true;
    const bool full = c.flag("full", 1, 3);
    const bool ro = !c.flag("rw", 1, 3);
    const Bytes before = doc.bytes;
    std::string wrote;
    fs.observer = [&](const Event &e) {
        if (e.mutating && wrote.empty()) wrote = std::string(opName(e.op)) + " " + e.path;
    };
    const auto unchanged = [&](const std::string &what) {
        if (!wrote.empty()) r.fail("P05", "modified", what + "parsing did " + wrote);
        else if (fs.content(paths.real) != before) r.fail("P05", "modified", what + "parsing changed the file");
    };

    if (safety) {
        // ---- P04
        const int fault = c.weighted("fault", { 6, 2, 1, 2, 1, 1, 1 });
        static const char *const fn[] = { "none", "read-error", "persistent-read-error", "alloc", "short-io", "abort", "alloc-repeat" };
        std::unique_ptr<MediaFileInfo> info = std::make_unique<MediaFileInfo>(paths.file);
        info->setForceFullParse(full);
        const auto perm = genPerm(c, "perm");
        AbortableProgressFeedback progress;
        FaultRule fr;
        if (fault == 1 || fault == 2) {
            fr.opMask = 1u << static_cast<int>(Op::Read) | 1u << static_cast<int>(Op::Seek);
            if (c.flag("anyop", 1, 4)) fr.opMask |= 1u << static_cast<int>(Op::Open) | 1u << static_cast<int>(Op::Stat) | 1u << static_cast<int>(Op::Close);
            fr.kind = FK::Eio;
            fr.nth = c.flag("late", 1, 2) ? c.pick("nthlate", 0, 400) : c.pick("nth", 0, 12);
            fr.repeat = fault == 2 ? -1 : 1;
            fs.rules.push_back(fr);
            fs.arm();
        }
        if (fault == 4) { fs.shortIoSeed = c.rng("shortio").next() | 1; if (c.flag("eintr", 1, 2)) fs.eintrSeed = c.rng("eintr").next() | 1; }
        if (fault == 3 || fault == 6) {
            S().failAllocAt = static_cast<i64>(S().allocs) + (c.flag("alate", 1, 2) ? c.pick("alloc2", 0, 3000) : c.pick("alloc", 0, 150));
            S().failAllocRepeat = fault == 6 ? -1 : 1;
        }
        bool aborted = false;
        if (fault == 5) setStepTrap(stepCount() + static_cast<u64>(c.pick("abortstep", 0, 60000)), [&] { aborted = true; progress.tryToAbort(); });
        trackMemory(true);
        S().maxAlloc = 0;
        const u64 steps0 = stepCount(), ops0 = fs.opCount, fired0 = fs.totalFired(), af0 = S().allocFaults;
        const u64 stepBound = 3000000 + size * 4000; // measured: see DESIGN.md
        setStepLimit(steps0 + stepBound * 20);
        const Result res = guarded([&](Diagnostics &d) {
            info->open(ro);
            parseIn(*info, perm, d, progress);
        });
        const u64 steps = stepCount() - steps0, ops = fs.opCount - ops0;
        const i64 peak = S().peakLive;
        trackMemory(false);
        fs.disarm();
        S().failAllocAt = -1;
        setStepTrap(~0ull, nullptr);
        fs.shortIoSeed = fs.eintrSeed = 0;
        ++r.executions;
        const u64 firedIo = fs.totalFired() - fired0, firedAlloc = S().allocFaults - af0;
        const std::string what = std::string(fmtName(fmt)) + " " + permName(perm) + (full ? " full" : "") + ", fault " + fn[fault] + ": ";
        r.note(what + res.describe());
        r.hit(std::string("pfault.") + fn[fault]);
        r.hit(std::string("out.") + outName(res.out));
        if (info->containerParsingStatus() != ParsingStatus::NotParsedYet) ++r.nontrivial;
        r.count["max.steps"] = steps;
        r.count["max.stepsPerByte"] = steps / (size + 256);
        r.count["max.opsPerKiB"] = ops * 1024 / (size + 1024);
        r.count["max.peak"] = static_cast<u64>(peak);
        r.count["max.peakRatio"] = static_cast<u64>(peak) / (size + 4096);
        {
            SimScope sc;
            r.states.insert(hashStr(outName(res.out) + std::to_string(static_cast<int>(info->containerFormat())) + messages(res.diag)));
        }
        if (res.out == Out::OtherStd || res.out == Out::Unknown) r.fail("P04", "exception-type", what + "undocumented exception: " + res.describe());
        if (res.out == Out::BadAlloc && !firedAlloc) r.fail("P04", "out-of-memory", what + "out of memory reported although no allocation failed");
        if (res.out == Out::Aborted && !aborted) r.fail("P04", "exception-type", what + "cancellation reported although nobody cancelled");
        if (steps > stepBound) r.fail("P04", "time", what + std::to_string(steps) + " steps for a file of " + std::to_string(size) + " bytes");
        // the EBML parser skips up to 16 KiB of garbage byte by byte (two system calls per byte)
        const bool ebml = fmt == Fmt::Mkv || info->containerFormat() == ContainerFormat::Matroska || info->containerFormat() == ContainerFormat::Webm
            || info->containerFormat() == ContainerFormat::Ebml;
        if (fault != 4 && ops > (ebml ? 270000 + size * 16 : 20000 + size * 4)) r.fail("P04", "syscalls", what + std::to_string(ops) + " system calls for a file of " + std::to_string(size) + " bytes");
        if (peak > static_cast<i64>((8u << 20) + size * 512)) r.fail("P04", "memory", what + std::to_string(peak) + " bytes of memory for a file of " + std::to_string(size) + " bytes");
        // ---- the results can be used
        setStepLimit(stepCount() + 400000000ull);
        if (!firedAlloc) {
            const Result use = guarded([&](Diagnostics &d) { useResults(*info); });
            if (use.out != Out::Ok) r.fail("P04", "use", what + "using the results failed: " + use.describe());
            (void)guarded([&](Diagnostics &) { (void)dumpInfo(*info, false, nullptr); });
        }
        unchanged(what);
        // again after reset
        if (c.flag("again", 1, 3)) {
            const Result res2 = guarded([&](Diagnostics &d) {
                AbortableProgressFeedback p2;
                info->clearParsingResults();
                info->reopen(true);
                info->parseEverything(d, p2);
            });
            ++r.executions;
            if (res2.out == Out::OtherStd || res2.out == Out::Unknown || res2.out == Out::BadAlloc || res2.out == Out::Aborted) r.fail("P04", "exception-type", what + "undocumented exception when parsing again: " + res2.describe());
        }
        guarded([&](Diagnostics &) { info.reset(); });
        (void)firedIo;
        fs.observer = nullptr;
        return;
    }

    // ---- P05
    struct P { Result res; std::string dump, msgs; };
    auto finish = [&](MediaFileInfo &info, P &p) {
        const auto u = guarded([&](Diagnostics &) { p.dump = dumpInfo(info, false, nullptr); });
        if (u.out != Out::Ok) p.dump = "dump failed: " + u.describe();
        p.msgs = messages(p.res.diag);
        ++r.executions;
    };
    auto parseFresh = [&](const std::vector<int> &perm, bool readOnly) {
        P p;
        auto info = std::make_unique<MediaFileInfo>(paths.file);
        info->setForceFullParse(full);
        AbortableProgressFeedback pr;
        p.res = guarded([&](Diagnostics &d) { info->open(readOnly); parseIn(*info, perm, d, pr); });
        finish(*info, p);
        return p;
    };
    const P ref = parseFresh({}, ro);
    if (ref.res.out == Out::Ok) ++r.nontrivial;
    { SimScope sc; r.states.insert(hashStr(ref.dump)); }
    unchanged("");
    auto compare = [&](const P &p, const std::string &what, bool msgs) {
        if (p.res.out != ref.res.out) r.fail("P05", "outcome", std::string(fmtName(fmt)) + " " + what + ": " + p.res.describe() + " instead of " + ref.res.describe());
        else if (p.dump != ref.dump) r.fail("P05", std::string(fmtName(fmt)) + "-results", std::string(fmtName(fmt)) + " " + what + ": other results: " + firstDiff(ref.dump, p.dump));
        else if (msgs && p.msgs != ref.msgs) r.fail("P05", std::string(fmtName(fmt)) + "-messages", std::string(fmtName(fmt)) + " " + what + ": other messages: " + firstDiff(ref.msgs, p.msgs));
    };
    // repeated
    if (c.flag("rep", 1, 2)) compare(parseFresh({}, !ro), "parsed a second time (" + std::string(ro ? "read/write" : "read-only") + ")", true);
    // other order of calls
    const auto perm = genPerm(c, "perm");
    if (!perm.empty() && ref.res.out == Out::Ok) compare(parseFresh(perm, ro), "parsed in the order " + permName(perm), true);
    // called repeatedly with the same object
    if (c.flag("twice", 1, 2) && ref.res.out == Out::Ok) {
        P p;
        auto info = std::make_unique<MediaFileInfo>(paths.file);
        info->setForceFullParse(full);
        AbortableProgressFeedback pr;
        p.res = guarded([&](Diagnostics &d) { info->open(ro); info->parseEverything(d, pr); info->parseEverything(d, pr); parseIn(*info, perm, d, pr); });
        finish(*info, p);
        compare(p, "parsed repeatedly with the same object", true);
        // and again after a reset
        P q;
        q.res = guarded([&](Diagnostics &d) { info->clearParsingResults(); info->reopen(ro); info->parseEverything(d, pr); });
        finish(*info, q);
        compare(q, "parsed again after clearing the results", true);
    }
    // after a failed or cancelled attempt
    const int trials = static_cast<int>(c.pick("trials", 1, 3));
    for (int t = 0; t < trials; ++t) {
        const std::string pfx = "t" + std::to_string(t);
        auto info = std::make_unique<MediaFileInfo>(paths.file);
        info->setForceFullParse(full);
        const int kind = c.weighted(pfx + ".kind", { 3, 3, 2 });
        AbortableProgressFeedback pr;
        if (kind == 0) {
            FaultRule fr;
            fr.opMask = 1u << static_cast<int>(Op::Read) | 1u << static_cast<int>(Op::Seek);
            fr.kind = FK::Eio;
            fr.nth = c.flag(pfx + ".late", 1, 2) ? c.pick(pfx + ".nthlate", 0, 300) : c.pick(pfx + ".nth", 0, 20);
            fr.repeat = c.flag(pfx + ".rep", 1, 3) ? -1 : 1;
            fs.rules.push_back(fr);
            fs.arm();
        } else if (kind == 1) {
            setStepTrap(stepCount() + static_cast<u64>(c.flag(pfx + ".alate", 1, 2) ? c.pick(pfx + ".stepl", 0, 100000) : c.pick(pfx + ".step", 0, 5000)), [&] { pr.tryToAbort(); });
        } else {
            S().failAllocAt = static_cast<i64>(S().allocs) + (c.flag(pfx + ".mlate", 1, 2) ? c.pick(pfx + ".alloc2", 0, 2000) : c.pick(pfx + ".alloc", 0, 200));
            S().failAllocRepeat = 1;
        }
        P p;
        const std::vector<int> tperm = c.flag(pfx + ".perm", 1, 2) ? perm : std::vector<int>{};
        p.res = guarded([&](Diagnostics &d) { info->open(ro); parseIn(*info, tperm, d, pr); });
        ++r.executions;
        fs.disarm();
        fs.rules.clear();
        S().failAllocAt = -1;
        setStepTrap(~0ull, nullptr);
        static const char *const kn[] = { "an I/O error", "a cancellation", "a failed allocation" };
        r.hit(std::string("after.") + kn[kind] + " -> " + outName(p.res.out));
        unchanged(std::string("with ") + kn[kind] + ": ");
        P q;
        AbortableProgressFeedback pr2;
        q.res = guarded([&](Diagnostics &d) { info->clearParsingResults(); info->reopen(ro); info->parseEverything(d, pr2); });
        finish(*info, q);
        compare(q, std::string("parsed again after ") + kn[kind] + " (" + p.res.describe() + ")", true);
        if (!r.viol.empty()) return;
    }
    unchanged("");
    fs.observer = nullptr;
}

} // namespace sim
