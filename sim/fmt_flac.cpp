// raw FLAC: [ID3v2]* fLaC metadata-blocks frames [ID3v1]; Vorbis comments and picture blocks (shared with Ogg)
#include "doc.h"

namespace sim {

static std::string upper(std::string s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); return s; }

Bytes makePictureBlock(Rng &r, int type, int sizeClass)
{
    std::string mime;
    Bytes pic = genPicture(r, sizeClass, mime);
    const std::string desc = r.chance(1, 3) ? std::string() : genText(r, 0);
    BW w;
    w.be(static_cast<u64>(type), 4).be(mime.size(), 4).str(mime).be(desc.size(), 4).str(desc).be(0, 4).be(0, 4).be(0, 4).be(0, 4).be(pic.size(), 4).bytes(pic);
    return w.b;
}

std::string canonPictureBlock(const BR &d)
{
    const u64 type = d.be(0, 4), ml = d.be(4, 4);
    if (!d.has(8, ml + 4)) return "invalid picture block (mime)";
    const std::string mime = d.s(8, ml);
    const u64 dl = d.be(8 + ml, 4);
    if (!d.has(12 + ml, dl + 20)) return "invalid picture block (description)";
    const std::string desc = d.s(12 + ml, dl);
    const std::size_t p = 12 + ml + dl + 16;
    const u64 n = d.be(p, 4);
    if (!d.has(p + 4, n)) return "invalid picture block (data)";
    if (p + 4 + n != d.n) return "invalid picture block (trailing " + std::to_string(d.n - p - 4 - n) + " bytes)";
    return std::to_string(type) + "|" + mime + "|" + desc + "|" + std::to_string(n) + ":" + hex(hashBytes(d.p + p + 4, n));
}

Bytes makeVorbisComment(Rng &r, bool framing, int fieldClass, bool withCover, const std::string &vendor)
{
    static const char *const keys[] = { "TITLE", "ARTIST", "ALBUM", "GENRE", "DATE", "COMMENT", "TRACKNUMBER", "DISCNUMBER", "COMPOSER", "LYRICS", "ENCODER", "DESCRIPTION", "COPYRIGHT", "ALBUMARTIST", "PERFORMER", "ISRC", "REPLAYGAIN_TRACK_GAIN", "X-CUSTOM", "CONTACT", "LOCATION", "ORGANIZATION", "title", "Artist", "RATING", "LANGUAGE", "WEBSITE" };
    const int nk = static_cast<int>(sizeof keys / sizeof *keys);
    std::vector<std::string> fields;
    int n = fieldClass == 0 ? static_cast<int>(r.below(3)) : static_cast<int>(1 + r.below(fieldClass == 1 ? 8 : 20));
    for (int i = 0; i < n; ++i) {
        const std::string k = keys[r.below(static_cast<u64>(nk))];
        std::string v;
        if (k == "TRACKNUMBER" || k == "DISCNUMBER") v = std::to_string(1 + r.below(20)) + (r.chance(1, 2) ? "/" + std::to_string(20 + r.below(9)) : "");
        else if (k == "RATING") { static const char *const ratings[] = { "0", "20", "72.5", "100", "five stars", "4/5" }; v = ratings[r.below(6)]; }
        else if (k == "DATE") v = "2004-05-06";
        else v = genText(r, fieldClass >= 2 && r.chance(1, 6) ? fieldClass : static_cast<int>(r.below(2)));
        fields.push_back(k + "=" + v);
        if (r.chance(1, 6)) fields.push_back(k + "=" + genText(r, 0));
    }
    if (r.chance(1, 6)) { // how many there are in total
        static const char *const totals[] = { "TRACKTOTAL", "DISCTOTAL", "PARTTOTAL" };
        const auto which = r.below(3);
        if (which == 2) fields.push_back("PARTNUMBER=" + std::to_string(1 + r.below(9)));
        if (r.chance(1, 2)) fields.insert(fields.begin(), std::string(totals[which]) + "=" + std::to_string(5 + r.below(30)));
        else fields.push_back(std::string(totals[which]) + "=" + std::to_string(5 + r.below(30)));
    }
    if (r.chance(1, 8)) // an unofficial way to denote the date (in addition to DATE or not)
        for (u64 n = 1 + r.below(4) / 3; n; --n) fields.insert(fields.begin() + static_cast<std::ptrdiff_t>(r.below(fields.size() + 1)), "YEAR=" + std::to_string(1990 + r.below(40)));
    if (withCover) fields.push_back("METADATA_BLOCK_PICTURE=" + base64(makePictureBlock(r, pictureType(r, 0), fieldClass >= 2 ? static_cast<int>(r.below(4)) : 1)));
    BW w;
    w.le(vendor.size(), 4).str(vendor).le(fields.size(), 4);
    for (auto &f : fields) w.le(f.size(), 4).str(f);
    if (framing) w.u8_(1);
    return w.b;
}

bool parseVorbisComment(const BR &d, std::vector<NField> &fields, std::string &err, std::size_t *consumed)
{
    std::size_t p = 0;
    if (!d.has(p, 4)) { err = "truncated"; return false; }
    u64 n = d.le(p, 4);
    p += 4;
    if (!d.has(p, n)) { err = "vendor truncated"; return false; }
    fields.push_back({ "<vendor>", d.s(p, n) });
    p += n;
    if (!d.has(p, 4)) { err = "field count truncated"; return false; }
    u64 count = d.le(p, 4);
    p += 4;
    for (u64 i = 0; i < count; ++i) {
        if (!d.has(p, 4)) { err = "field " + std::to_string(i) + " of " + std::to_string(count) + " truncated"; return false; }
        n = d.le(p, 4);
        p += 4;
        if (!d.has(p, n)) { err = "field " + std::to_string(i) + " exceeds comment"; return false; }
        const std::string f = d.s(p, n);
        p += n;
        const auto eq = f.find('=');
        if (eq == std::string::npos) { err = "field without separator"; return false; }
        NField nf;
        nf.id = upper(f.substr(0, eq));
        nf.val = f.substr(eq + 1);
        if (nf.id == "METADATA_BLOCK_PICTURE") {
            Bytes b;
            nf.val = unbase64(nf.val, b) ? canonPictureBlock(BR(b)) : "invalid base64";
        }
        fields.push_back(std::move(nf));
    }
    if (consumed) *consumed = p;
    return true;
}

static Bytes block(int type, const Bytes &body, bool last)
{
    BW w;
    w.u8_(static_cast<u64>(type | (last ? 0x80 : 0))).be(body.size(), 3).bytes(body);
    return w.b;
}

static Bytes streamInfo(Rng &r, u64 samples)
{
    BW w;
    w.be(4096, 2).be(4096, 2).be(14, 3).be(14000, 3);
    // 44100 Hz, 2 channels, 16 bit
    const u64 v = (static_cast<u64>(44100) << 44) | (static_cast<u64>(1) << 41) | (static_cast<u64>(15) << 36) | samples;
    w.be(v, 8).bytes(randBytes(r, 16));
    return w.b;
}

Doc genFlac(Choices &c, const std::string &pfx)
{
    Rng r = c.rng(pfx + ".flac");
    Doc d;
    d.ext = ".flac";
    const int nv2 = c.weighted(pfx + ".id3v2n", { 8, 2, 1 });
    for (int i = 0; i < nv2; ++i) {
        const int version = 2 + c.weighted(pfx + ".id3ver" + std::to_string(i), { 1, 3, 3 });
        append(d.bytes, makeId3v2(c, pfx + ".v2_" + std::to_string(i), version, r, 1));
        d.sub += " v2." + std::to_string(version);
    }
    append(d.bytes, { 'f', 'L', 'a', 'C' });
    const int sizeClass = c.weighted(pfx + ".vcsize", { 3, 4, 2, 1 });
    const int frames = c.weighted(pfx + ".mediacls", { 4, 3, 1 });
    const u64 n = static_cast<u64>(c.pick(pfx + ".frames_n", frames == 0 ? 1 : frames == 1 ? 5 : 30, frames == 0 ? 4 : frames == 1 ? 30 : 90));
    struct B { int type; Bytes body; };
    std::vector<B> blocks;
    if (c.flag(pfx + ".vc", 5, 6)) blocks.push_back({ 4, makeVorbisComment(r, false, sizeClass, false, "reference libFLAC 1.3.2") });
    const int pics = c.weighted(pfx + ".pics", { 3, 2, 1 });
    for (int i = 0; i < pics; ++i) blocks.push_back({ 6, makePictureBlock(r, pictureType(r, i), sizeClass >= 2 ? static_cast<int>(r.below(4)) : 1) });
    if (c.flag(pfx + ".app", 1, 3)) blocks.push_back({ 2, BW().str("riff").bytes(randBytes(r, 10 + r.below(300))).b });
    if (c.flag(pfx + ".seek", 1, 3)) blocks.push_back({ 3, randBytes(r, 18 * (1 + r.below(20))) });
    if (c.flag(pfx + ".cue", 1, 6)) blocks.push_back({ 5, randBytes(r, 396 + r.below(50)) });
    if (c.flag(pfx + ".unk", 1, 6)) blocks.push_back({ static_cast<int>(20 + r.below(80)), randBytes(r, r.below(600)) });
    if (c.flag(pfx + ".pad", 1, 2)) blocks.push_back({ 1, Bytes(r.below(3) ? r.below(3000) : r.below(8), 0) });
    if (c.flag(pfx + ".shuffle", 1, 2))
        for (std::size_t i = blocks.size(); i > 1; --i) std::swap(blocks[i - 1], blocks[r.below(i)]);
    append(d.bytes, block(0, streamInfo(r, n * 4096), blocks.empty()));
    for (std::size_t i = 0; i < blocks.size(); ++i) {
        append(d.bytes, block(blocks[i].type, blocks[i].body, i + 1 == blocks.size()));
        d.sub += " b" + std::to_string(blocks[i].type);
    }
    for (u64 i = 0; i < n; ++i) {
        Bytes f = randBytes(r, (100 + r.below(2000)) * docScale);
        f[0] = 0xFF; f[1] = 0xF8; f[2] = 0xC9; f[3] = 0x18; f[4] = static_cast<u8>(i);
        append(d.bytes, f);
    }
    if (c.pick(pfx + ".id3v1", 0, 7) >= 6) {
        Bytes t{ 'T', 'A', 'G' };
        std::string s = "title of flac";
        t.insert(t.end(), s.begin(), s.end());
        t.resize(127, 0);
        t.push_back(static_cast<u8>(r.below(80)));
        append(d.bytes, t);
        d.sub += " v1";
    }
    return d;
}

Analysis analyzeFlac(const Bytes &b)
{
    Analysis a;
    BR d(b);
    std::size_t pos = 0;
    u64 id3pad = 0;
    for (;;) {
        NTag t;
        u64 pad = 0;
        if (!analyzeId3v2(d.sub(pos, d.n), pos, t, pad, a) || t.len > d.n - pos) break;
        id3pad += pad;
        pos += t.len;
        a.tags.push_back(std::move(t));
    }
    while (pos < d.n && d.p[pos] == 0) { ++pos; ++id3pad; }
    if (d.s(pos, 4) != "fLaC") { a.error("no FLAC signature at " + std::to_string(pos)); return a; }
    pos += 4;
    u64 padding = 0;
    int paddingBlocks = 0;
    bool last = false;
    bool first = true;
    NTag vc;
    bool haveVc = false;
    ATrack t;
    t.id = "flac";
    int unknownIdx = 0;
    while (!last) {
        if (!d.has(pos, 4)) { a.error("FLAC metadata truncated"); return a; }
        last = d.p[pos] & 0x80;
        const int type = d.p[pos] & 0x7F;
        const u64 n = d.be(pos + 1, 3);
        if (!d.has(pos + 4, n)) { a.error("FLAC metadata block of type " + std::to_string(type) + " exceeds the file"); return a; }
        BR body = d.sub(pos + 4, n);
        if (first != (type == 0)) a.error("STREAMINFO is not the first block or occurs twice");
        first = false;
        switch (type) {
        case 0: t.cfg = "streaminfo " + hex(body.hash()); break;
        case 1:
            for (std::size_t i = 0; i < n; ++i) if (body.p[i]) { a.error("FLAC padding is not zero"); break; }
            padding += n;
            ++paddingBlocks;
            break;
        case 4: {
            if (haveVc) a.error("more than one Vorbis comment");
            haveVc = true;
            vc.off = pos;
            vc.len = n + 4;
            std::string err;
            std::size_t used = 0;
            std::vector<NField> fields;
            if (!parseVorbisComment(body, fields, err, &used)) a.error("Vorbis comment: " + err);
            else if (used != n) a.error("Vorbis comment block has " + std::to_string(n - used) + " trailing bytes");
            for (auto &f : fields) if (f.id == "<vendor>") a.info.emplace_back("vendor", f.val); else vc.fields.push_back(f);
            break;
        }
        case 6: {
            const auto canon = canonPictureBlock(body);
            if (canon.compare(0, 7, "invalid") == 0) a.error(canon);
            vc.fields.push_back({ "METADATA_BLOCK_PICTURE", canon });
            break;
        }
        case 127: a.error("FLAC block type 127"); break;
        default: a.other.emplace_back("flac-block-" + std::to_string(unknownIdx++), std::to_string(type) + " " + std::to_string(n) + ":" + hex(body.hash()));
        }
        pos += 4 + n;
    }
    if (haveVc || !vc.fields.empty()) {
        vc.type = "vorbis";
        a.tags.push_back(vc);
    }
    std::size_t end = d.n;
    if (end - pos >= 128) {
        NTag v1;
        if (analyzeId3v1(d.sub(end - 128, 128), end - 128, v1)) { end -= 128; a.tags.push_back(std::move(v1)); }
    }
    if (pos < end && d.p[pos] != 0xFF) a.error("FLAC metadata is not followed by a frame");
    a.padding = static_cast<i64>(padding + id3pad);
    a.paddingHeaders = 4 * static_cast<u64>(paddingBlocks);
    a.mediaBegin = pos;
    a.mediaEnd = end;
    t.samples.push_back(hashBytes(d.p + pos, end - pos));
    t.ts.push_back(static_cast<i64>(end - pos));
    t.spans.push_back({ pos, end - pos });
    a.media.push_back({ pos, end - pos });
    a.tracks.push_back(std::move(t));
    return a;
}

} // namespace sim
