// MP4/MOV: classic layout (32/64-bit offsets, several mdat atoms, moov before/after/between) and fragmented layout
#include "doc.h"

namespace sim {

namespace {

Bytes atom(std::string_view id, const Bytes &payload) { return BW().be(payload.size() + 8, 4).str(id).bytes(payload).b; }
Bytes full(std::string_view id, unsigned version, unsigned flags, const Bytes &payload) { return atom(id, BW().u8_(version).be(flags, 3).bytes(payload).b); }

struct GTrack {
    u32 id = 1;
    bool video = false;
    std::vector<Bytes> samples;
    std::vector<std::vector<std::size_t>> chunks; // sample indices per chunk
    std::vector<u64> chunkOffset;
    u32 delta = 1024;
    bool ctts = false, v1 = false;
    std::string name, lang;
};

Bytes sampleDescription(Rng &r, const GTrack &t)
{
    if (t.video) {
        Bytes avcc = atom("avcC", BW().u8_(1).u8_(0x42).u8_(0xC0).u8_(0x1E).u8_(0xFF).u8_(0xE1).be(7, 2).str("\x67\x42\xC0\x1E\xDA\x02\x80").u8_(1).be(4, 2).str("\x68\xCE\x3C\x80").b);
        BW e;
        e.zero(6).be(1, 2).zero(16).be(640, 2).be(480, 2).be(0x00480000, 4).be(0x00480000, 4).be(0, 4).be(1, 2).zero(32).be(24, 2).be(0xFFFF, 2).bytes(avcc);
        if (r.chance(1, 2)) e.bytes(atom("pasp", BW().be(1, 4).be(1, 4).b));
        return full("stsd", 0, 0, BW().be(1, 4).bytes(atom("avc1", e.b)).b);
    }
    // esds with AAC-LC
    BW dsi; dsi.u8_(0x05).u8_(2).u8_(0x12).u8_(0x10);
    BW dcd; dcd.u8_(0x04).u8_(13 + dsi.size()).u8_(0x40).u8_(0x15).be(0, 3).be(128000, 4).be(128000, 4).bytes(dsi.b);
    BW es; es.u8_(0x03).u8_(3 + dcd.size() + 3).be(t.id, 2).u8_(0).bytes(dcd.b).u8_(0x06).u8_(1).u8_(2);
    BW e;
    e.zero(6).be(1, 2).zero(8).be(2, 2).be(16, 2).zero(4).be(static_cast<u64>(44100) << 16, 4).bytes(full("esds", 0, 0, es.b));
    return full("stsd", 0, 0, BW().be(1, 4).bytes(atom("mp4a", e.b)).b);
}

Bytes makeTrak(Rng &r, const GTrack &t, bool co64, bool fragmented, bool constSize, bool extra, bool stz2)
{
    BW tkhd;
    const u64 ct = 3600000000u + r.below(1000000), mt = ct + r.below(5000);
    const u64 dur = t.samples.size() * t.delta;
    if (t.v1) tkhd.be(ct, 8).be(mt, 8).be(t.id, 4).zero(4).be(dur, 8); else tkhd.be(ct, 4).be(mt, 4).be(t.id, 4).zero(4).be(dur, 4);
    tkhd.zero(8).be(0, 2).be(t.video ? 0 : 1, 2).be(t.video ? 0 : 0x100, 2).zero(2);
    for (u32 v : { 0x10000u, 0u, 0u, 0u, 0x10000u, 0u, 0u, 0u, 0x40000000u }) tkhd.be(v, 4);
    tkhd.be(t.video ? 640u << 16 : 0, 4).be(t.video ? 480u << 16 : 0, 4);
    BW mdhd;
    u32 lang = 0;
    for (char ch : t.lang) lang = (lang << 5) | static_cast<u32>(ch - 0x60);
    if (t.v1) mdhd.be(ct, 8).be(mt, 8).be(44100, 4).be(dur, 8); else mdhd.be(ct, 4).be(mt, 4).be(44100, 4).be(dur, 4);
    mdhd.be(lang, 2).be(0, 2);
    BW hdlr;
    hdlr.be(0, 4).str(t.video ? "vide" : "soun").zero(12).str(t.name).u8_(0);
    BW stbl;
    stbl.bytes(sampleDescription(r, t));
    if (fragmented) {
        stbl.bytes(full("stts", 0, 0, BW().be(0, 4).b)).bytes(full("stsc", 0, 0, BW().be(0, 4).b)).bytes(full("stsz", 0, 0, BW().be(0, 4).be(0, 4).b)).bytes(full("stco", 0, 0, BW().be(0, 4).b));
    } else {
        // two delta runs to make the timing less uniform
        const std::size_t half = t.samples.size() / 2;
        BW stts;
        if (half) stts.be(2, 4).be(half, 4).be(t.delta, 4).be(t.samples.size() - half, 4).be(t.delta + 1, 4); else stts.be(1, 4).be(t.samples.size(), 4).be(t.delta, 4);
        stbl.bytes(full("stts", 0, 0, stts.b));
        if (t.ctts) stbl.bytes(full("ctts", 0, 0, BW().be(1, 4).be(t.samples.size(), 4).be(2 * t.delta, 4).b));
        if (t.video) stbl.bytes(full("stss", 0, 0, BW().be(1, 4).be(1, 4).b));
        BW stsc;
        std::vector<std::pair<std::size_t, std::size_t>> runs;
        for (std::size_t i = 0; i < t.chunks.size(); ++i) if (runs.empty() || runs.back().second != t.chunks[i].size()) runs.emplace_back(i + 1, t.chunks[i].size());
        stsc.be(runs.size(), 4);
        for (auto &x : runs) stsc.be(x.first, 4).be(x.second, 4).be(1, 4);
        stbl.bytes(full("stsc", 0, 0, stsc.b));
        if (constSize) stbl.bytes(full("stsz", 0, 0, BW().be(t.samples[0].size(), 4).be(t.samples.size(), 4).b));
        else if (stz2) {
            BW z;
            z.be(16, 4).be(t.samples.size(), 4);
            for (auto &s : t.samples) z.be(s.size(), 2);
            stbl.bytes(full("stz2", 0, 0, z.b));
        } else {
            BW z;
            z.be(0, 4).be(t.samples.size(), 4);
            for (auto &s : t.samples) z.be(s.size(), 4);
            stbl.bytes(full("stsz", 0, 0, z.b));
        }
        BW co;
        co.be(t.chunks.size(), 4);
        for (std::size_t i = 0; i < t.chunks.size(); ++i) co.be(i < t.chunkOffset.size() ? t.chunkOffset[i] : 0, co64 ? 8 : 4);
        stbl.bytes(full(co64 ? "co64" : "stco", 0, 0, co.b));
        if (extra) stbl.bytes(full("sgpd", 1, 0, BW().str("roll").be(2, 4).be(1, 4).be(0xFFFF, 2).b));
    }
    BW minf;
    minf.bytes(t.video ? full("vmhd", 0, 1, BW().zero(8).b) : full("smhd", 0, 0, BW().zero(4).b));
    minf.bytes(atom("dinf", full("dref", 0, 0, BW().be(1, 4).bytes(full("url ", 0, 1, {})).b)));
    minf.bytes(atom("stbl", stbl.b));
    BW mdia;
    mdia.bytes(full("mdhd", t.v1, 0, mdhd.b)).bytes(full("hdlr", 0, 0, hdlr.b)).bytes(atom("minf", minf.b));
    BW trak;
    trak.bytes(full("tkhd", t.v1, 7, tkhd.b));
    if (extra) trak.bytes(atom("edts", full("elst", 0, 0, BW().be(1, 4).be(dur, 4).be(0, 4).be(0x10000, 4).b)));
    trak.bytes(atom("mdia", mdia.b));
    if (extra) trak.bytes(atom("udta", atom("name", BW().str("trk").b)));
    return atom("trak", trak.b);
}

Bytes ilstEntry(std::string_view id, u32 type, const Bytes &v) { return atom(id, atom("data", BW().be(type, 4).be(0, 4).bytes(v).b)); }

Bytes makeIlst(Rng &r, int cls, bool cover)
{
    BW w;
    auto text = [&](std::string_view id, int c) {
        // there might be multiple values and each might have a country and language
        BW values;
        for (int n = r.chance(1, 12) ? 2 + static_cast<int>(r.below(2)) : 1; n; --n) {
            const auto s = genText(r, c);
            const auto locale = r.chance(1, 12) ? r.next() & 0xFFFFFFFF : 0;
            const bool utf16 = r.chance(1, 10);
            values.bytes(atom("data", BW().be(utf16 ? 2 : 1, 4).be(locale, 4).str(utf16 ? utf8ToUtf16(s, true, false) : s).b));
        }
        w.bytes(atom(id, values.b));
    };
    text("\xA9" "nam", std::min(cls, 3));
    if (r.chance(2, 3)) text("\xA9" "ART", 1);
    if (r.chance(1, 2)) text("\xA9" "alb", 1);
    if (r.chance(1, 3)) text("\xA9" "cmt", std::min(cls, 2));
    if (r.chance(1, 3)) text("aART", 0);
    if (r.chance(1, 3)) text("\xA9" "too", 1);
    if (r.chance(1, 3)) w.bytes(ilstEntry("trkn", 0, BW().zero(2).be(1 + r.below(20), 2).be(r.below(30), 2).zero(2).b));
    if (r.chance(1, 4)) w.bytes(ilstEntry("disk", 0, BW().zero(2).be(1 + r.below(5), 2).be(r.below(6), 2).b));
    if (r.chance(1, 4)) w.bytes(ilstEntry("tmpo", r.chance(1, 3) ? 22 : 21, BW().be(60 + r.below(120), 2).b));
    if (r.chance(1, 4)) w.bytes(ilstEntry("cpil", 21, BW().u8_(1).b));
    if (r.chance(1, 4)) w.bytes(ilstEntry("\xA9" "day", 1, BW().str(std::to_string(1960 + r.below(60))).b));
    if (r.chance(1, 4)) text("\xA9" "gen", 0);
    else if (r.chance(1, 4)) w.bytes(ilstEntry("gnre", 0, BW().be(1 + r.below(60), 2).b));
    if (r.chance(1, 6)) text("\xA9" "lab", 0);
    if (r.chance(1, 8)) w.bytes(ilstEntry("rtng", 21, BW().u8_(static_cast<u8>("\0\2\4"[r.below(3)])).b));
    if (r.chance(1, 8)) w.bytes(ilstEntry("stik", 21, BW().u8_(static_cast<u8>("\0\1\2\6\12\77"[r.below(6)])).b));
    if (r.chance(1, 6)) w.bytes(ilstEntry("cnID", 21, BW().be(r.below(u64(1) << 31), 4).b));
    if (r.chance(1, 6)) { const int len = static_cast<int>(1 + r.below(4)); w.bytes(ilstEntry("plID", 21, BW().be(r.next() >> (8 * (8 - (len == 4 ? 8 : len))), len == 4 ? 8 : len).b)); }
    if (r.chance(1, 6)) { const int len = static_cast<int>(1 + r.below(4)); w.bytes(ilstEntry("atID", 22, BW().be(r.next() >> (8 * (8 - (len == 4 ? 8 : len))), len == 4 ? 8 : len).b)); }
    if (r.chance(1, 3)) text("\xA9" "xyz", 0); // not known to the library
    for (int n = static_cast<int>(r.below(3)); n; --n) {
        BW f;
        f.bytes(full("mean", 0, 0, BW().str(r.chance(1, 4) ? "org.example.other" : "com.apple.iTunes").b)).bytes(full("name", 0, 0, BW().str(r.chance(1, 3) ? "LABEL" : r.chance(1, 3) ? "cdec" : "iTun" + std::to_string(r.below(10))).b)).bytes(atom("data", BW().be(1, 4).be(0, 4).str(genText(r, 1)).b));
        w.bytes(atom("----", f.b));
    }
    if (cover) {
        BW c;
        for (std::size_t i = 0, n = 1 + r.below(2); i < n; ++i) {
            std::string mime;
            Bytes p = genPicture(r, std::min(cls, 3), mime);
            c.bytes(atom("data", BW().be(mime == "image/png" ? 14 : 13, 4).be(0, 4).bytes(p).b));
        }
        w.bytes(atom("covr", c.b));
    }
    return atom("ilst", w.b);
}

} // namespace

Doc genMp4(Choices &c, const std::string &pfx)
{
    Doc d;
    d.ext = c.flag(pfx + ".m4a", 1, 2) ? ".m4a" : ".mp4";
    const bool frag = c.flag(pfx + ".frag", 1, 5);
    const int tracks = c.weighted(pfx + ".tracks", { 3, 3, 1 }) + 1;
    const bool co64 = c.flag(pfx + ".co64", 1, 4);
    const Bytes prefix = genPrefix(c, pfx, false);
    const bool big = c.flag(pfx + ".mdat64", 1, 6);
    const bool moovFirst = c.flag(pfx + ".moovfirst", 1, 2) || frag;
    const int mdats = frag ? 1 : c.weighted(pfx + ".mdats", { 5, 2, 1 }) + 1;
    const int udtaKind = c.weighted(pfx + ".udta", { 2, 1, 6, 2 }); // none, other only, meta, meta+other
    const int tagCls = c.weighted(pfx + ".tagcls", { 4, 4, 2, 1 });
    const bool cover = c.flag(pfx + ".cover", 1, 4);
    const bool metaFree = c.flag(pfx + ".metafree", 1, 5);
    Rng r = c.rng(pfx + ".body");
    std::vector<GTrack> ts;
    const int maxSamples = c.weighted(pfx + ".len", { 4, 2, 1 }) == 0 ? 14 : 120;
    for (int i = 0; i < tracks; ++i) {
        GTrack t;
        t.id = static_cast<u32>(i + 1);
        t.video = i == 0 ? r.chance(1, 3) : r.chance(1, 2);
        t.v1 = r.chance(1, 6);
        t.ctts = t.video && r.chance(1, 2);
        t.name = r.chance(1, 2) ? "Handler" + std::to_string(i) : "";
        static const char *const langs[] = { "und", "eng", "deu" };
        t.lang = langs[r.below(3)];
        const std::size_t n = 1 + r.below(static_cast<u64>(maxSamples));
        const bool cs = r.chance(1, 5);
        const std::size_t csize = 16 + r.below(200);
        for (std::size_t k = 0; k < n; ++k) t.samples.push_back(randBytes(r, (cs ? csize : 8 + r.below(300)) * docScale));
        for (std::size_t k = 0; k < n;) {
            std::vector<std::size_t> ch;
            for (std::size_t m = 1 + r.below(4); m && k < n; --m) ch.push_back(k++);
            t.chunks.push_back(std::move(ch));
        }
        ts.push_back(std::move(t));
    }
    Bytes ftyp = atom("ftyp", BW().str(d.ext == ".m4a" ? "M4A " : "isom").be(512, 4).str("isomiso2mp41").b);
    Bytes pdin = c.flag(pfx + ".pdin", 1, 8) ? full("pdin", 0, 0, BW().be(10000, 4).be(500, 4).b) : Bytes();
    const bool extra = c.flag(pfx + ".extra", 1, 3);
    Bytes udta;
    {
        Rng u = c.rng(pfx + ".udtabody");
        BW w;
        if (udtaKind == 1 || udtaKind == 3) w.bytes(atom("Xtra", randBytes(u, 20 + u.below(200))));
        if (udtaKind >= 2) {
            BW m;
            m.bytes(full("hdlr", 0, 0, BW().be(0, 4).str("mdirappl").zero(9).b)).bytes(makeIlst(u, tagCls, cover));
            if (metaFree) m.bytes(atom("free", Bytes(u.below(900), 0)));
            w.bytes(full("meta", 0, 0, m.b));
        }
        if (udtaKind == 3) w.bytes(atom("chpl", BW().u8_(1).be(0, 3).be(0, 4).u8_(1).be(0, 8).u8_(2).str("c1").b));
        if (udtaKind) udta = atom("udta", w.b);
    }
    const u64 bodySeed = r.next();
    auto moov = [&](bool fragmented) {
        Rng m(bodySeed);
        BW w;
        BW mvhd;
        mvhd.be(3600000000u, 4).be(3600000001u, 4).be(44100, 4).be(44100, 4).be(0x10000, 4).be(0x100, 2).zero(10);
        for (u32 v : { 0x10000u, 0u, 0u, 0u, 0x10000u, 0u, 0u, 0u, 0x40000000u }) mvhd.be(v, 4);
        mvhd.zero(24).be(ts.size() + 1, 4);
        w.bytes(full("mvhd", 0, 0, mvhd.b));
        if (extra) w.bytes(full("iods", 0, 0, BW().str("\x10\x07").u8_(0).str("O\xFF\xFF").u8_(0x7F).u8_(0xFF).b));
        const bool udtaFirst = extra && m.chance(1, 3);
        if (udtaFirst) w.bytes(udta);
        for (auto &t : ts) {
            bool cs = t.samples.size() > 1;
            for (auto &s : t.samples) if (s.size() != t.samples[0].size()) cs = false;
            w.bytes(makeTrak(m, t, co64, fragmented, cs, extra, !cs && (bodySeed & 7) == 3));
        }
        if (fragmented) {
            BW x;
            if (bodySeed & 16) x.bytes(full("mehd", 0, 0, BW().be(44100, 4).b));
            for (auto &t : ts) x.bytes(full("trex", 0, 0, BW().be(t.id, 4).be(1, 4).be(t.delta, 4).be(0, 4).be(0, 4).b));
            w.bytes(atom("mvex", x.b));
        }
        if (!udtaFirst) w.bytes(udta);
        return atom("moov", w.b);
    };
    auto freeAtom = [&](const std::string &name) -> Bytes {
        switch (c.weighted(pfx + "." + name, { 3, 1, 2 })) {
        case 1: return atom(r.chance(1, 2) ? "free" : "skip", {});
        case 2: return atom("free", Bytes(static_cast<std::size_t>(c.pick(pfx + "." + name + ".n", 0, 1500)), 0));
        default: return {};
        }
    };
    const Bytes f1 = freeAtom("free1"), f2 = freeAtom("free2"), f3 = freeAtom("free3");
    const Bytes uuid = c.flag(pfx + ".uuid", 1, 5) ? atom("uuid", randBytes(r, 16 + r.below(60))) : Bytes();
    const bool uuidFirst = c.flag(pfx + ".uuidfirst", 1, 2);

    d.sub = (frag ? "fragmented" : moovFirst ? "moov first" : "moov last") + std::string(co64 ? " co64" : "") + " tracks=" + std::to_string(tracks) + " mdats=" + std::to_string(mdats) + " udta=" + std::to_string(udtaKind);
    if (!frag) {
        // chunks are interleaved and distributed over the mdat atoms
        std::vector<std::pair<std::size_t, std::size_t>> order;
        std::vector<std::size_t> next(ts.size(), 0);
        for (;;) {
            std::vector<std::size_t> cand;
            for (std::size_t i = 0; i < ts.size(); ++i) if (next[i] < ts[i].chunks.size()) cand.push_back(i);
            if (cand.empty()) break;
            const std::size_t i = cand[r.below(cand.size())];
            order.emplace_back(i, next[i]++);
        }
        const bool between = mdats > 1 && c.flag(pfx + ".between", 1, 3);
        const bool freeBetween = mdats > 1 && c.flag(pfx + ".freebetween", 1, 2);
        const bool gap = c.flag(pfx + ".gap", 1, 6); // unreferenced bytes within mdat
        for (auto &t : ts) t.chunkOffset.assign(t.chunks.size(), 0);
        const std::size_t moovSize = moov(false).size();
        Bytes b = prefix;
        append(b, ftyp);
        append(b, pdin);
        std::size_t moovPos = 0;
        if (moovFirst && !between) { moovPos = b.size(); b.resize(b.size() + moovSize); }
        append(b, f1);
        if (uuidFirst) append(b, uuid);
        std::size_t at = 0;
        for (int m = 0; m < mdats; ++m) {
            const std::size_t end = m + 1 == mdats ? order.size() : order.size() * static_cast<std::size_t>(m + 1) / static_cast<std::size_t>(mdats);
            Bytes payload;
            const std::size_t hdr = big ? 16 : 8;
            for (; at < end; ++at) {
                if (gap && r.chance(1, 5)) append(payload, randBytes(r, r.below(30)));
                auto &t = ts[order[at].first];
                t.chunkOffset[order[at].second] = b.size() + hdr + payload.size();
                for (auto s : t.chunks[order[at].second]) append(payload, t.samples[s]);
            }
            if (big) append(b, BW().be(1, 4).str("mdat").be(payload.size() + 16, 8).bytes(payload).b);
            else append(b, atom("mdat", payload));
            if (m == 0 && between) { moovPos = b.size(); b.resize(b.size() + moovSize); }
            if (m == 0 && freeBetween) append(b, atom("free", Bytes(40 + r.below(400), 0)));
        }
        append(b, f2);
        if (!uuidFirst) append(b, uuid);
        if (!moovFirst && !between) { moovPos = b.size(); b.resize(b.size() + moovSize); }
        append(b, f3);
        Bytes mv = moov(false);
        std::copy(mv.begin(), mv.end(), b.begin() + static_cast<std::ptrdiff_t>(moovPos));
        d.bytes = std::move(b);
        return d;
    }
    // fragmented
    const int baseMode = c.weighted(pfx + ".base", { 3, 2, 1 }); // default-base-is-moof, base offset = moof start, base offset = mdat start
    Bytes b = prefix;
    append(b, ftyp);
    append(b, pdin);
    append(b, moov(true));
    append(b, f1);
    const bool sidx = c.flag(pfx + ".sidx", 1, 4);
    const bool mfra = c.flag(pfx + ".mfra", 1, 4);
    const std::size_t sidxPos = b.size();
    if (sidx) b.resize(b.size() + 8 + 4 + 4 + 4 + 8 + 4 + 12);
    const std::size_t mediaStart = b.size();
    std::vector<std::vector<std::pair<u64, u64>>> tfra(ts.size());
    std::vector<std::size_t> next(ts.size(), 0);
    u32 seq = 1;
    for (;;) {
        bool any = false;
        for (std::size_t i = 0; i < ts.size(); ++i) any = any || next[i] < ts[i].samples.size();
        if (!any) break;
        std::vector<std::size_t> count(ts.size());
        for (std::size_t i = 0; i < ts.size(); ++i) count[i] = std::min<std::size_t>(ts[i].samples.size() - next[i], 1 + r.below(20));
        const u64 moofPos = b.size();
        auto build = [&](u64 moofSize) {
            BW w;
            w.bytes(full("mfhd", 0, 0, BW().be(seq, 4).b));
            u64 data = 0;
            for (std::size_t i = 0; i < ts.size(); ++i) {
                if (!count[i]) continue;
                BW tf, tr;
                tf.be(ts[i].id, 4);
                u64 dataOffset = moofSize + 8 + data;
                unsigned flags = 0x020000;
                if (baseMode == 1) { flags = 1; tf.be(moofPos, 8); }
                if (baseMode == 2) { flags = 1; tf.be(moofPos + moofSize + 8, 8); dataOffset = data; }
                tr.be(count[i], 4).be(dataOffset, 4);
                for (std::size_t k = 0; k < count[i]; ++k) { tr.be(ts[i].delta + k, 4).be(ts[i].samples[next[i] + k].size(), 4); data += ts[i].samples[next[i] + k].size(); }
                w.bytes(atom("traf", BW().bytes(full("tfhd", 0, flags, tf.b)).bytes(full("tfdt", 0, 0, BW().be(next[i] * ts[i].delta, 4).b)).bytes(full("trun", 0, 0x301, tr.b)).b));
            }
            return atom("moof", w.b);
        };
        const u64 moofSize = build(0).size();
        append(b, build(moofSize));
        Bytes payload;
        for (std::size_t i = 0; i < ts.size(); ++i) {
            if (count[i]) tfra[i].emplace_back(next[i] * ts[i].delta, moofPos);
            for (std::size_t k = 0; k < count[i]; ++k) append(payload, ts[i].samples[next[i] + k]);
            next[i] += count[i];
        }
        append(b, atom("mdat", payload));
        ++seq;
    }
    if (sidx) {
        Bytes s = full("sidx", 0, 0, BW().be(1, 4).be(44100, 4).be(0, 4).be(0, 4).be(0, 2).be(1, 2).be(b.size() - mediaStart, 4).be(44100, 4).be(0x90000000u, 4).b);
        std::copy(s.begin(), s.end(), b.begin() + static_cast<std::ptrdiff_t>(sidxPos));
    }
    if (mfra) {
        BW w;
        for (std::size_t i = 0; i < ts.size(); ++i) {
            BW x;
            x.be(ts[i].id, 4).be(0, 4).be(tfra[i].size(), 4);
            for (auto &e : tfra[i]) x.be(e.first, 4).be(e.second, 4).u8_(1).u8_(1).u8_(1);
            w.bytes(full("tfra", 0, 0, x.b));
        }
        w.bytes(full("mfro", 0, 0, BW().be(w.size() + 16 + 8, 4).b));
        append(b, atom("mfra", w.b));
    }
    d.bytes = std::move(b);
    return d;
}

// ---------------------------------------------------------------- analysis
namespace {

struct At { std::string id; std::size_t off = 0, hdr = 0, size = 0; std::size_t data() const { return off + hdr; } std::size_t end() const { return off + size; } };

std::vector<At> children(const BR &d, std::size_t from, std::size_t to, Analysis &a, const std::string &path)
{
    std::vector<At> r;
    while (from < to) {
        if (to - from < 8) {
            bool zero = true;
            for (std::size_t i = from; i < to; ++i) zero = zero && !d.p[i];
            if (!(zero && path.find("udta") != std::string::npos)) a.error(std::to_string(to - from) + " stray bytes at the end of " + (path.empty() ? "file" : path));
            break;
        }
        At x;
        x.off = from;
        x.id = d.s(from + 4, 4);
        u64 size = d.be(from, 4);
        x.hdr = 8;
        if (size == 1) { size = d.be(from + 8, 8); x.hdr = 16; }
        else if (size == 0) size = to - from;
        if (size < x.hdr || size > to - from) { a.error("atom " + printable(path + "/" + x.id) + " at " + std::to_string(from) + " has invalid size " + std::to_string(size)); break; }
        x.size = static_cast<std::size_t>(size);
        r.push_back(x);
        from += x.size;
    }
    return r;
}
const At *find(const std::vector<At> &v, std::string_view id) { for (auto &x : v) if (x.id == id) return &x; return nullptr; }

void parseIlst(const BR &d, const At &il, NTag &tag, Analysis &a)
{
    for (auto &e : children(d, il.data(), il.end(), a, "ilst")) {
        std::string id = latin1ToUtf8(e.id), mean, name;
        if (e.id == "free") continue;
        auto ch = children(d, e.data(), e.end(), a, "ilst/" + id);
        for (auto &x : ch) {
            if (x.id == "mean") mean = d.s(x.data() + 4, x.size - x.hdr - 4);
            else if (x.id == "name") name = d.s(x.data() + 4, x.size - x.hdr - 4);
        }
        if (id == "----") id += ":" + mean + ":" + name;
        std::size_t n = 0;
        for (auto &x : ch) {
            if (x.id != "data") continue;
            ++n;
            if (x.size - x.hdr < 8) { a.error("data atom of " + printable(id) + " is truncated"); continue; }
            const u64 type = d.be(x.data(), 4) & 0xFFFFFF;
            BR v = d.sub(x.data() + 8, x.size - x.hdr - 8);
            std::string val;
            const std::string blob = std::to_string(v.n) + ":" + hex(v.hash());
            if (e.id == "covr") val = (type == 14 ? "image/png|" : type == 13 ? "image/jpeg|" : "type" + std::to_string(type) + "|") + blob;
            else if (e.id == "trkn" || e.id == "disk") val = std::to_string(v.be(2, 2)) + "/" + std::to_string(v.be(4, 2));
            else if (type == 1) val = v.s();
            else if (type == 2) val = utf16ToUtf8(v.p, v.n, true);
            else if (type == 21 || type == 22 || e.id == "gnre") {
                // the number of bytes used to store the number doesn't matter
                u64 n = v.n <= 8 ? v.be(0, static_cast<int>(v.n)) : 0;
                if (type == 21 && v.n && v.n < 8 && (n >> (8 * v.n - 1))) n -= u64(1) << (8 * v.n);
                val = std::to_string(type == 21 ? static_cast<i64>(n) : static_cast<i64>(n));
            }
            else val = "type" + std::to_string(type) + "|" + blob;
            if (const auto locale = d.be(x.data() + 4, 4)) val += " loc=" + hex(locale);
            tag.fields.push_back({ id, val });
        }
        if (!n) a.error("ilst entry " + printable(id) + " has no value");
    }
}

} // namespace

Analysis analyzeMp4(const Bytes &b)
{
    Analysis a;
    const BR d(b);
    const auto begin = prefixLength(b);
    auto top = children(d, begin, d.n, a, "");
    std::vector<At> mdats;
    u64 firstMedia = ~0ull;
    std::size_t moovs = 0;
    const At *moov = nullptr;
    a.padding = 0;
    bool frag = false;
    for (auto &x : top) {
        if (x.id == "mdat") { mdats.push_back(x); a.media.push_back({ x.data(), x.size - x.hdr }); }
        if (x.id == "moov") { ++moovs; moov = &x; }
        else if (x.id == "free" || x.id == "skip") a.padding += static_cast<i64>(x.size);
        else if (x.id != "ftyp" && x.id != "pdin") firstMedia = std::min<u64>(firstMedia, x.off);
        if (x.id == "moof") frag = true;
        if (x.id == "ftyp" || x.id == "pdin" || x.id == "uuid") a.other.emplace_back("/" + x.id, std::to_string(x.size) + ":" + hex(d.sub(x.off, x.size).hash()));
        else if (x.id != "mdat" && x.id != "moov" && x.id != "moof" && x.id != "free" && x.id != "skip" && x.id != "sidx" && x.id != "mfra") a.error("unexpected top-level atom " + printable(x.id) + " at " + std::to_string(x.off));
    }
    if (moovs != 1) { a.error(std::to_string(moovs) + " moov atoms"); return a; }
    if (!find(top, "ftyp")) a.error("no ftyp atom");
    if (firstMedia != ~0ull && !frag) a.tagPos = a.indexPos = moov->off < firstMedia ? 1 : 2;
    for (auto &x : top) if ((x.id == "free" || x.id == "skip") && x.off > firstMedia) a.padBehind += static_cast<i64>(x.size);
    a.mediaBegin = mdats.empty() ? d.n : mdats.front().off;
    a.mediaEnd = mdats.empty() ? d.n : mdats.back().end();
    auto inMdat = [&](u64 off, u64 len) {
        for (auto &m : mdats) if (off >= m.data() && off <= m.end() && len <= m.end() - off) return true;
        return false;
    };
    auto leaf = [&](const std::string &path, const At &x) { a.other.emplace_back(path, std::to_string(x.size) + ":" + hex(d.sub(x.off, x.size).hash())); };
    struct TI { u64 id = 0; u64 trexDur = 0; };
    std::vector<TI> tis;
    int ti = 0;
    auto mc = children(d, moov->data(), moov->end(), a, "moov");
    for (auto &x : mc) {
        if (x.id == "udta") {
            for (auto &u : children(d, x.data(), x.end(), a, "moov/udta")) {
                if (u.id != "meta") { leaf("moov/udta/" + u.id, u); continue; }
                NTag tag;
                tag.type = "mp4";
                tag.off = u.off;
                tag.len = u.size;
                bool has = false;
                for (auto &m : children(d, u.data() + 4, u.end(), a, "meta")) {
                    if (m.id == "ilst") { has = true; parseIlst(d, m, tag, a); }
                }
                if (has) a.tags.push_back(std::move(tag));
            }
        } else if (x.id == "mvex") {
            for (auto &u : children(d, x.data(), x.end(), a, "mvex")) leaf("moov/mvex/" + u.id, u);
        } else if (x.id != "trak") {
            leaf("moov/" + x.id, x);
        } else {
            std::string tp = "trak-" + std::to_string(ti++);
            ATrack t;
            auto tc = children(d, x.data(), x.end(), a, tp);
            const At *tkhd = find(tc, "tkhd"), *mdia = find(tc, "mdia");
            if (tkhd) tp = "trak" + std::to_string(d.be(tkhd->data() + (d.be(tkhd->data(), 1) == 1 ? 20 : 12), 4));
            if (!tkhd || !mdia) { a.error(tp + " is incomplete"); continue; }
            for (auto &y : tc) if (y.id != "tkhd" && y.id != "mdia") leaf(tp + "/" + y.id, y);
            const bool v1 = d.be(tkhd->data(), 1) == 1;
            const std::size_t p = tkhd->data() + 4;
            const u64 id = d.be(p + (v1 ? 16 : 8), 4);
            t.id = std::to_string(id);
            t.attr["enabled"] = std::to_string(d.be(tkhd->data() + 1, 3) & 1);
            t.cfg = "tkhd " + std::to_string(d.be(tkhd->data() + 1, 3) & ~1ull) + " " + std::to_string(d.be(p, v1 ? 8 : 4)) + " " + std::to_string(d.be(p + (v1 ? 8 : 4), v1 ? 8 : 4)) + " " + std::to_string(d.be(p + (v1 ? 24 : 16), v1 ? 8 : 4)) + " "
                + hex(d.sub(p + (v1 ? 32 : 20), 60).hash());
            if (tkhd->end() != p + (v1 ? 32 : 20) + 60) a.error(tp + "/tkhd has a wrong size");
            auto md = children(d, mdia->data(), mdia->end(), a, tp + "/mdia");
            const At *mdhd = find(md, "mdhd"), *hdlr = find(md, "hdlr"), *minf = find(md, "minf");
            if (!mdhd || !hdlr || !minf) { a.error(tp + "/mdia is incomplete"); continue; }
            for (auto &y : md) if (y.id != "mdhd" && y.id != "hdlr" && y.id != "minf") leaf(tp + "/mdia/" + y.id, y);
            {
                const bool m1 = d.be(mdhd->data(), 1) == 1;
                const std::size_t q = mdhd->data() + 4;
                const int w = m1 ? 8 : 4;
                const std::size_t ws = static_cast<std::size_t>(w);
                t.cfg += " mdhd " + std::to_string(d.be(q, w)) + " " + std::to_string(d.be(q + ws, w)) + " " + std::to_string(d.be(q + 2 * ws, 4)) + " " + std::to_string(d.be(q + 2 * ws + 4, w));
                const u64 lc = d.be(q + 3 * ws + 4, 2);
                if (lc) for (int sh = 10; sh >= 0; sh -= 5) t.attr["lang"] += static_cast<char>((lc >> sh & 0x1F) + 0x60);
                if (mdhd->size != (m1 ? 44u : 32u)) a.error(tp + "/mdhd has a wrong size");
            }
            {
                std::string name = d.s(hdlr->data() + 24, hdlr->size - hdlr->hdr - 24);
                while (!name.empty() && !name.back()) name.pop_back();
                t.cfg += " hdlr " + d.s(hdlr->data() + 8, 4);
                t.attr["name"] = name;
            }
            auto mi = children(d, minf->data(), minf->end(), a, tp + "/minf");
            const At *stbl = find(mi, "stbl");
            for (auto &y : mi) if (y.id != "stbl") leaf(tp + "/minf/" + y.id, y);
            if (!stbl) { a.error(tp + " has no stbl"); continue; }
            auto sc = children(d, stbl->data(), stbl->end(), a, tp + "/stbl");
            const At *stsd = find(sc, "stsd"), *stts = find(sc, "stts"), *stsc = find(sc, "stsc"), *stsz = find(sc, "stsz"), *stz2 = find(sc, "stz2"), *stco = find(sc, "stco"), *co64 = find(sc, "co64"), *ctts = find(sc, "ctts");
            for (auto &y : sc) if (y.id != "stsd" && y.id != "stco" && y.id != "co64") leaf(tp + "/stbl/" + y.id, y);
            if (!stsd || !stts || !stsc || !(stsz || stz2) || !(stco || co64)) { a.error(tp + "/stbl is incomplete"); continue; }
            t.cfg += " stsd " + hex(d.sub(stsd->off, stsd->size).hash());
            // samples
            std::vector<u64> sizes;
            if (stsz) {
                const u64 cs = d.be(stsz->data() + 4, 4), n = d.be(stsz->data() + 8, 4);
                for (u64 i = 0; i < n && i < 100000; ++i) sizes.push_back(cs ? cs : d.be(stsz->data() + 12 + static_cast<std::size_t>(i) * 4, 4));
            } else {
                const u64 fs = d.be(stz2->data() + 4, 4), n = d.be(stz2->data() + 8, 4);
                for (u64 i = 0; i < n && i < 100000; ++i) sizes.push_back(d.be(stz2->data() + 12 + static_cast<std::size_t>(i) * (fs / 8), static_cast<int>(fs / 8)));
            }
            const At *co = co64 ? co64 : stco;
            const u64 chunks = d.be(co->data() + 4, 4);
            if (co->size - co->hdr != 8 + chunks * (co64 ? 8 : 4)) a.error(tp + ": size of the chunk offset table is wrong");
            const u64 runs = d.be(stsc->data() + 4, 4);
            std::size_t s = 0;
            u64 ri = 0;
            for (u64 i = 0; i < chunks; ++i) {
                u64 off = d.be(co->data() + 8 + static_cast<std::size_t>(i) * (co64 ? 8 : 4), co64 ? 8 : 4);
                while (ri + 1 < runs && d.be(stsc->data() + 8 + static_cast<std::size_t>(ri + 1) * 12, 4) <= i + 1) ++ri;
                const u64 n = d.be(stsc->data() + 8 + static_cast<std::size_t>(ri) * 12 + 4, 4);
                for (u64 k = 0; k < n && s < sizes.size(); ++k, ++s) {
                    if (!inMdat(off, sizes[s])) { if (a.err.size() < 3) a.error(tp + ": sample " + std::to_string(s) + " at " + std::to_string(off) + " is not within an mdat atom"); }
                    t.samples.push_back(d.sub(static_cast<std::size_t>(off), static_cast<std::size_t>(sizes[s])).hash() ^ sizes[s]);
                    t.spans.push_back({ off, sizes[s] });
                    off += sizes[s];
                }
            }
            if (s != sizes.size()) a.error(tp + ": chunks hold " + std::to_string(s) + " of " + std::to_string(sizes.size()) + " samples");
            {
                std::vector<i64> dts;
                i64 now = 0;
                const u64 n = d.be(stts->data() + 4, 4);
                for (u64 i = 0; i < n; ++i) for (u64 k = 0, m = d.be(stts->data() + 8 + static_cast<std::size_t>(i) * 8, 4); k < m && dts.size() < 100000; ++k) { dts.push_back(now); now += static_cast<i64>(d.be(stts->data() + 12 + static_cast<std::size_t>(i) * 8, 4)); }
                if (ctts) { const u64 off = d.be(ctts->data() + 12, 4); for (auto &v : dts) v += static_cast<i64>(off); }
                t.ts = dts;
            }
            a.tracks.push_back(std::move(t));
        }
    }
    // fragments
    std::vector<u64> moofs;
    for (auto &x : top) {
        if (x.id == "moof") {
            moofs.push_back(x.off);
            auto ch = children(d, x.data(), x.end(), a, "moof");
            for (auto &tr : ch) {
                if (tr.id != "traf") { leaf("moof/" + tr.id, tr); continue; }
                auto tc = children(d, tr.data(), tr.end(), a, "traf");
                const At *tfhd = find(tc, "tfhd"), *trun = find(tc, "trun"), *tfdt = find(tc, "tfdt");
                if (!tfhd || !trun || !tfdt) { a.error("traf is incomplete"); continue; }
                for (auto &y : tc) if (y.id != "tfhd") leaf("traf/" + y.id, y);
                const u64 flags = d.be(tfhd->data() + 1, 3);
                const std::string id = std::to_string(d.be(tfhd->data() + 4, 4));
                const u64 base = flags & 1 ? d.be(tfhd->data() + 8, 8) : x.off;
                ATrack *t = nullptr;
                for (auto &y : a.tracks) if (y.id == id) t = &y;
                if (!t) { a.error("traf refers to unknown track " + id); continue; }
                const u64 n = d.be(trun->data() + 4, 4);
                u64 off = base + static_cast<u64>(static_cast<i64>(static_cast<std::int32_t>(d.be(trun->data() + 8, 4))));
                i64 ts = static_cast<i64>(d.be(tfdt->data() + 4, 4));
                for (u64 i = 0; i < n && i < 10000; ++i) {
                    const u64 dur = d.be(trun->data() + 12 + static_cast<std::size_t>(i) * 8, 4), size = d.be(trun->data() + 16 + static_cast<std::size_t>(i) * 8, 4);
                    if (!inMdat(off, size)) { if (a.err.size() < 3) a.error("sample of fragment at " + std::to_string(x.off) + " (offset " + std::to_string(off) + ") is not within an mdat atom"); }
                    t->samples.push_back(d.sub(static_cast<std::size_t>(off), static_cast<std::size_t>(size)).hash() ^ size);
                    t->ts.push_back(ts);
                    ts += static_cast<i64>(dur);
                    off += size;
                }
            }
        } else if (x.id == "sidx") {
            // the first byte behind the sidx is the anchor; the referenced data must begin with a moof and end behind an mdat
            const std::size_t p = x.data();
            const u64 firstOff = d.be(p + 16, 4), size = d.be(p + 24, 4) & 0x7FFFFFFF;
            bool okBegin = false, okEnd = false;
            for (auto &y : top) { if (y.id == "moof" && y.off == x.end() + firstOff) okBegin = true; if (y.id == "mdat" && y.end() == x.end() + firstOff + size) okEnd = true; }
            if (!okBegin || !okEnd) a.error("segment index at " + std::to_string(x.off) + " refers to " + std::to_string(x.end() + firstOff) + "+" + std::to_string(size) + " which is not a segment");
            leaf("/sidx", x);
        }
    }
    for (auto &x : top) {
        if (x.id != "mfra") continue;
        for (auto &y : children(d, x.data(), x.end(), a, "mfra")) {
            if (y.id != "tfra") { leaf("mfra/" + y.id, y); continue; }
            const u64 n = d.be(y.data() + 12, 4);
            for (u64 i = 0; i < n && i < 10000; ++i) {
                const u64 off = d.be(y.data() + 16 + static_cast<std::size_t>(i) * 11 + 4, 4);
                if (std::find(moofs.begin(), moofs.end(), off) == moofs.end()) { a.error("fragment random access entry refers to " + std::to_string(off) + " where no moof atom is"); break; }
            }
        }
    }
    return a;
}

} // namespace sim
