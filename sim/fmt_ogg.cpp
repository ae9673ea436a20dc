// Ogg with Vorbis, Opus, FLAC, Speex and Theora streams, multiplexed and chained
#include "doc.h"

namespace sim {

static u32 oggCrc(const u8 *p, std::size_t n)
{
    static u32 table[256];
    static bool init = false;
    if (!init) {
        for (u32 i = 0; i < 256; ++i) { u32 c = i << 24; for (int k = 0; k < 8; ++k) c = c & 0x80000000u ? (c << 1) ^ 0x04C11DB7u : c << 1; table[i] = c; }
        init = true;
    }
    u32 c = 0;
    for (std::size_t i = 0; i < n; ++i) c = (c << 8) ^ table[((c >> 24) ^ p[i]) & 0xFF];
    return c;
}

struct Packet { Bytes data; i64 granule = 0; bool flush = false; }; // flush: page ends after this packet
struct OggPg { Bytes data; };

// builds the pages of one logical stream
static std::vector<OggPg> paginate(Rng &r, u32 serial, const std::vector<Packet> &packets, std::size_t maxSegs, bool nilEos)
{
    struct Raw { std::vector<u8> segs; Bytes data; i64 granule = -1; bool continued = false; };
    std::vector<Raw> raws;
    Raw cur;
    auto finish = [&](bool continuedNext) {
        raws.push_back(cur);
        cur = Raw();
        cur.continued = continuedNext;
    };
    for (auto &p : packets) {
        std::size_t off = 0;
        for (;;) {
            const std::size_t n = std::min<std::size_t>(255, p.data.size() - off);
            cur.segs.push_back(static_cast<u8>(n));
            cur.data.insert(cur.data.end(), p.data.begin() + static_cast<std::ptrdiff_t>(off), p.data.begin() + static_cast<std::ptrdiff_t>(off + n));
            off += n;
            const bool done = n < 255;
            if (done) cur.granule = p.granule;
            if (cur.segs.size() >= maxSegs && !(done && p.flush)) finish(!done);
            if (done) break;
        }
        if (p.flush && !cur.segs.empty()) finish(false);
    }
    if (!cur.segs.empty()) finish(false);
    if (nilEos) raws.emplace_back(); // end of stream is marked by a page without segments
    std::vector<OggPg> pages;
    for (std::size_t i = 0; i < raws.size(); ++i) {
        BW w;
        w.str("OggS").u8_(0).u8_((raws[i].continued ? 1u : 0u) | (i == 0 ? 2u : 0u) | (i + 1 == raws.size() ? 4u : 0u)).le(static_cast<u64>(raws[i].granule), 8).le(serial, 4).le(i, 4).le(0, 4).u8_(raws[i].segs.size());
        w.b.insert(w.b.end(), raws[i].segs.begin(), raws[i].segs.end());
        w.bytes(raws[i].data);
        const u32 crc = oggCrc(w.b.data(), w.b.size());
        putLe(w.b, 22, crc, 4);
        pages.push_back({ w.b });
    }
    (void)r;
    return pages;
}

// pads a comment packet; a negative size means padding to the boundary of lacing values/pages
static void padPacket(Bytes &c, int pad)
{
    if (pad >= 0) { c.insert(c.end(), static_cast<std::size_t>(pad), 0); return; }
    const std::size_t unit = pad == -1 ? 255 : 65025;
    c.insert(c.end(), (unit - c.size() % unit) % unit, 0);
}

static std::vector<Packet> makeStream(Rng &r, int kind, int vcClass, bool cover, int packetsN, bool separate, int pad)
{
    std::vector<Packet> ps;
    auto add = [&](Bytes b, i64 g, bool flush) { ps.push_back({ std::move(b), g, flush }); };
    switch (kind) {
    case 0: { // Vorbis
        add(BW().u8_(1).str("vorbis").le(0, 4).u8_(2).le(44100, 4).le(0, 4).le(128000, 4).le(0, 4).u8_(0xB8).u8_(1).b, 0, true);
        Bytes c = BW().u8_(3).str("vorbis").bytes(makeVorbisComment(r, true, vcClass, cover, "Xiph.Org libVorbis I 20150105")).b;
        padPacket(c, pad);
        add(c, 0, separate);
        add(BW().u8_(5).str("vorbis").bytes(randBytes(r, 200 + r.below(4000))).b, 0, true);
        break;
    }
    case 1: { // Opus
        add(BW().str("OpusHead").u8_(1).u8_(2).le(312, 2).le(48000, 4).le(0, 2).u8_(0).b, 0, true);
        Bytes c = BW().str("OpusTags").bytes(makeVorbisComment(r, false, vcClass, cover, "libopus 1.3")).b;
        padPacket(c, pad);
        add(c, 0, true);
        break;
    }
    case 2: { // FLAC
        BW si;
        si.be(4096, 2).be(4096, 2).be(14, 3).be(14000, 3).be((static_cast<u64>(44100) << 44) | (1ull << 41) | (15ull << 36) | 4096, 8).bytes(randBytes(r, 16));
        const bool more = r.chance(1, 2);
        add(BW().u8_(0x7F).str("FLAC").u8_(1).u8_(0).be(more ? 2 : 1, 2).str("fLaC").u8_(0).be(34, 3).bytes(si.b).b, 0, true);
        Bytes vc = makeVorbisComment(r, false, vcClass, cover, "reference libFLAC 1.3.2");
        add(BW().u8_(more ? 0x04 : 0x84).be(vc.size(), 3).bytes(vc).b, 0, separate || !more);
        if (more) { const std::size_t n = r.below(300); add(BW().u8_(0x81).be(n, 3).zero(n).b, 0, true); }
        break;
    }
    case 3: // Theora (tags not supported by the library)
        add(BW().u8_(0x80).str("theora").bytes(randBytes(r, 35)).b, 0, true);
        add(BW().u8_(0x81).str("theora").bytes(makeVorbisComment(r, false, 1, false, "Xiph.Org libtheora 1.1")).b, 0, false);
        add(BW().u8_(0x82).str("theora").bytes(randBytes(r, 300 + r.below(3000))).b, 0, true);
        break;
    default: // Speex (tags not supported by the library)
        add(BW().str("Speex   ").str("1.2rc1").zero(14).bytes(randBytes(r, 52)).b, 0, true);
        add(makeVorbisComment(r, false, 1, false, "Encoded with Speex 1.2"), 0, true);
    }
    i64 g = 0;
    const bool dense = packetsN > 90; // pages with many (small) packets
    for (int i = 0; i < packetsN; ++i) {
        std::size_t n = dense ? 2 + r.below(30) : 20 + r.below(400);
        if (r.chance(1, 12)) n = 255 * (1 + r.below(3));
        if (kind == 3 && r.chance(1, 10)) n = 0;
        if (kind == 3 && r.chance(1, 20)) n = 66000 + r.below(9000);
        n *= docScale;
        g += 960;
        Bytes b = randBytes(r, n);
        if (kind == 2) { b[0] = 0xFF; b[1] = 0xF8; }
        else if (!b.empty()) b[0] &= 0x7E; // data packets of Vorbis/Theora have the lowest/highest bit cleared
        add(std::move(b), g, r.chance(1, dense ? 600 : 6));
    }
    return ps;
}

Doc genOgg(Choices &c, const std::string &pfx)
{
    static const char *const names[] = { "vorbis", "opus", "flac", "theora", "speex" };
    Doc d;
    const int chain = c.weighted(pfx + ".chain", { 6, 1 }) + 1;
    u32 serial = static_cast<u32>(c.pick(pfx + ".serial", 1, 1000000));
    d.ext = ".ogg";
    for (int ch = 0; ch < chain; ++ch) {
        const std::string cp = pfx + ".c" + std::to_string(ch);
        const int mux = c.weighted(cp + ".mux", { 5, 2 }) + 1;
        std::vector<std::vector<OggPg>> streams;
        for (int m = 0; m < mux; ++m) {
            const std::string sp = cp + ".s" + std::to_string(m);
            Rng r = c.rng(sp);
            const int kind = c.weighted(sp + ".kind", { 6, 4, 3, m || ch ? 3 : 1, 1 });
            const int vc = c.weighted(sp + ".vc", { 3, 4, 2, 1, 1 });
            const bool cover = c.flag(sp + ".cover", 1, 4);
            const int len = c.weighted(sp + ".len", { 8, 4, 2, 1 });
            const int n = static_cast<int>(c.pick(sp + ".packets", 2, len == 0 ? 12 : len == 3 ? 1500 : 90));
            const bool sep = c.flag(sp + ".sep", 1, 2);
            static const int padKinds[] = { 0, 500, -1, -2, 200000 };
            const int padKind = padKinds[c.weighted(sp + ".pad", { 12, 3, 2, 1, 1 })];
            const int pad = padKind > 0 ? static_cast<int>(r.below(static_cast<u64>(padKind))) : padKind;
            const std::size_t maxSegs = c.flag(sp + ".small", 1, 3) ? 2 + r.below(20) : 255;
            const bool nilEos = c.flag(sp + ".nileos", 1, 8);
            streams.push_back(paginate(r, serial, makeStream(r, kind, vc, cover, n, sep, pad), maxSegs, nilEos));
            serial += 7;
            d.sub += std::string(m ? "+" : ch ? " / " : " ") + names[kind];
        }
        // all BOS pages first, then interleaved
        for (auto &s : streams) append(d.bytes, s[0].data);
        Rng r = c.rng(cp + ".interleave");
        std::vector<std::size_t> idx(streams.size(), 1);
        const bool headersFirst = true;
        (void)headersFirst;
        for (;;) {
            std::vector<std::size_t> cand;
            for (std::size_t i = 0; i < streams.size(); ++i) if (idx[i] < streams[i].size()) cand.push_back(i);
            if (cand.empty()) break;
            const std::size_t i = cand[r.below(cand.size())];
            append(d.bytes, streams[i][idx[i]++].data);
        }
    }
    return d;
}

Analysis analyzeOgg(const Bytes &b)
{
    Analysis a;
    BR d(b);
    struct Str {
        u32 serial = 0;
        std::vector<Bytes> packets;
        std::vector<i64> granule; // -2: another packet completes later on the same page
        Bytes cur;
        bool open = false, eos = false;
        u64 seq = 0;
        u64 pages = 0;
    };
    std::vector<Str> streams;
    std::size_t pos = 0;
    while (pos < d.n) {
        if (!d.has(pos, 27) || d.s(pos, 4) != "OggS") { a.error("no Ogg page at " + std::to_string(pos)); break; }
        const u8 flags = d.p[pos + 5];
        const i64 gp = static_cast<i64>(d.le(pos + 6, 8));
        const u32 serial = static_cast<u32>(d.le(pos + 14, 4));
        const u64 seq = d.le(pos + 18, 4);
        const std::size_t segs = d.p[pos + 26];
        if (!d.has(pos + 27, segs)) { a.error("segment table truncated"); break; }
        std::size_t size = 27 + segs, data = pos + 27 + segs;
        for (std::size_t i = 0; i < segs; ++i) size += d.p[pos + 27 + i];
        if (!d.has(pos, size)) { a.error("page at " + std::to_string(pos) + " exceeds file"); break; }
        Bytes pg = d.sub(pos, size).bytes();
        const u32 crc = static_cast<u32>(d.le(pos + 22, 4));
        putLe(pg, 22, 0, 4);
        if (oggCrc(pg.data(), pg.size()) != crc) a.error("checksum of page at " + std::to_string(pos) + " is wrong");
        Str *s = nullptr;
        for (auto &x : streams) if (x.serial == serial) s = &x;
        if (!s) {
            streams.emplace_back();
            s = &streams.back();
            s->serial = serial;
            if (!(flags & 2)) a.error("first page of stream " + std::to_string(serial) + " lacks BOS flag");
        } else if (flags & 2) a.error("BOS flag in the middle of stream " + std::to_string(serial));
        if (s->eos) a.error("page at " + std::to_string(pos) + " follows the EOS page of stream " + std::to_string(serial));
        if (flags & 4) s->eos = true;
        if (s->pages && seq != s->seq) a.error("page sequence number at " + std::to_string(pos) + " is " + std::to_string(seq) + " instead of " + std::to_string(s->seq));
        if (!s->pages && seq != 0) a.error("page sequence number of first page is " + std::to_string(seq));
        s->seq = seq + 1;
        ++s->pages;
        if (((flags & 1) != 0) != s->open) a.error("continued flag of page at " + std::to_string(pos) + " is wrong");
        bool completed = false;
        for (std::size_t i = 0; i < segs; ++i) {
            const std::size_t n = d.p[pos + 27 + i];
            s->cur.insert(s->cur.end(), d.p + data, d.p + data + n);
            data += n;
            s->open = true;
            if (n < 255) {
                s->packets.push_back(std::move(s->cur));
                s->cur.clear();
                s->granule.push_back(-2);
                s->open = false;
                completed = true;
            }
        }
        if (completed) {
            s->granule.back() = gp;
            if (gp == -1) a.error("granule position of page at " + std::to_string(pos) + " is -1 although a packet ends there");
        } else if (gp != -1) a.error("granule position of page at " + std::to_string(pos) + " is " + std::to_string(gp) + " although no packet ends there");
        pos += size;
    }
    for (auto &s : streams) {
        if (!s.eos) a.error("last page of stream " + std::to_string(s.serial) + " lacks EOS flag");
        if (s.open) a.error("last packet of stream " + std::to_string(s.serial) + " is incomplete");
        ATrack t;
        t.id = std::to_string(s.serial);
        const std::string target = "serial:" + t.id;
        std::size_t headers = 1;
        int kind = -1;
        if (!s.packets.empty()) {
            const BR p(s.packets[0]);
            if (p.s(0, 7) == "\x01vorbis") kind = 0;
            else if (p.s(0, 8) == "OpusHead") kind = 1;
            else if (p.s(0, 5) == "\x7F" "FLAC") kind = 2;
            else if (p.s(0, 7) == "\x80theora") kind = 3;
            else if (p.s(0, 8) == "Speex   ") kind = 4;
            t.cfg = std::to_string(kind) + " " + hex(p.hash());
        }
        std::size_t comment = ~std::size_t(0);
        if (s.packets.size() > 1 && kind >= 0 && kind < 3) {
            BR p(s.packets[1]);
            bool is = false;
            std::size_t skip = 0;
            if (kind == 0 && p.s(0, 7) == "\x03vorbis") { is = true; skip = 7; }
            if (kind == 1 && p.s(0, 8) == "OpusTags") { is = true; skip = 8; }
            if (kind == 2 && p.n >= 4 && (p.p[0] & 0x7F) == 4) {
                is = true;
                skip = 4;
                if (p.be(1, 3) != p.n - 4) a.error("size of the FLAC metadata block holding the Vorbis comment is wrong");
                const bool last = p.p[0] & 0x80, more = s.packets.size() > 2 && !s.packets[2].empty() && s.packets[2][0] != 0xFF;
                if (last == more) a.error("\"last metadata block\" flag of the Vorbis comment of stream " + t.id + " is wrong");
            }
            if (is) {
                comment = 1;
                NTag tag;
                tag.type = "vorbis";
                tag.target = target;
                tag.mandatory = kind == 2;
                std::string err;
                std::size_t used = 0;
                std::vector<NField> fields;
                if (!parseVorbisComment(p.sub(skip, p.n), fields, err, &used)) a.error("Vorbis comment of stream " + t.id + ": " + err);
                else {
                    if (kind == 0 && (skip + used >= p.n || !(p.p[skip + used] & 1))) a.error("framing bit of Vorbis comment is missing");
                    const std::size_t end = skip + used + (kind == 0 ? 1 : 0);
                    if (kind != 2 && end <= p.n) { a.paddings.push_back(p.n - end); }
                    for (std::size_t i = end; i < p.n; ++i) if (p.p[i]) { a.error("garbage behind Vorbis comment"); break; }
                }
                for (auto &f : fields) if (f.id == "<vendor>") a.info.emplace_back("vendor " + t.id, f.val); else tag.fields.push_back(f);
                a.tags.push_back(std::move(tag));
            }
        }
        if (kind == 0) headers = comment == 1 ? 3 : 2;
        else if (kind == 1) headers = comment == 1 ? 2 : 1;
        else if (kind == 2) { headers = 1; while (headers < s.packets.size() && !s.packets[headers].empty() && s.packets[headers][0] != 0xFF) ++headers; }
        else if (kind == 3) headers = 3;
        else if (kind == 4) headers = 2;
        for (std::size_t i = 0; i < s.packets.size(); ++i) {
            if (i == comment) continue;
            t.samples.push_back(hashBytes(s.packets[i].data(), s.packets[i].size(), s.packets[i].size() + 99));
            t.ts.push_back(i < headers ? 0 : s.granule[i]);
            if (i < headers && s.granule[i] != 0 && s.granule[i] != -2) a.error("granule position of a header page of stream " + t.id + " is " + std::to_string(s.granule[i]));
        }
        a.tracks.push_back(std::move(t));
    }
    return a;
}

} // namespace sim
