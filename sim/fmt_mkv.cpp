// Matroska/WebM
#include <set>
#include "doc.h"

namespace sim {

namespace {

Bytes vint(u64 v, int len = 0)
{
    int n = 1;
    while (n < 8 && v >= (1ull << (7 * n)) - 1) ++n;
    if (len > n) n = len;
    BW w;
    w.be(v | (1ull << (7 * n)), n);
    return w.b;
}
Bytes idBytes(u32 id) { return BW().be(id, id > 0xFFFFFF ? 4 : id > 0xFFFF ? 3 : id > 0xFF ? 2 : 1).b; }
Bytes el(u32 id, const Bytes &data, int sizeLen = 0) { return BW().bytes(idBytes(id)).bytes(vint(data.size(), sizeLen)).bytes(data).b; }
Bytes uintData(u64 v, int min = 1)
{
    int n = min;
    while (n < 8 && (v >> (8 * n))) ++n;
    return BW().be(v, n).b;
}
Bytes elU(u32 id, u64 v, int min = 1) { return el(id, uintData(v, min)); }
Bytes elS(u32 id, std::string_view s) { return el(id, BW().str(s).b); }
Bytes elF(u32 id, double d) { u64 v; std::memcpy(&v, &d, 8); return el(id, BW().be(v, 8).b); }
Bytes elVoid(std::size_t total)
{
    if (total < 2) total = 2;
    if (total < 66) return el(0xEC, Bytes(total - 2, 0));
    return el(0xEC, Bytes(total - 9, 0), 8);
}
// master element with optional checksum
Bytes master(u32 id, const Bytes &data, bool crc, int sizeLen = 0)
{
    if (!crc) return el(id, data, sizeLen);
    return el(id, BW().bytes(el(0xBF, BW().le(crc32zlib(data.data(), data.size()), 4).b)).bytes(data).b, sizeLen);
}

struct GT { u64 number, uid; int type; };

Bytes simpleTag(Rng &r, std::string_view name, std::string_view value, bool lang, int depth)
{
    BW w;
    w.bytes(elS(0x45A3, name));
    if (lang) { static const char *const langs[] = { "ger", "fre", "eng", "en", "zh-Hans" }; w.bytes(elS(0x447A, langs[r.below(5)])); }
    else if (r.chance(1, 2)) w.bytes(elS(0x447A, "und"));
    if (lang && r.chance(1, 3)) w.bytes(elS(0x447B, r.chance(1, 2) ? "de-CH" : "zh-Hant-TW"));
    if (r.chance(1, 2)) w.bytes(elU(0x4484, r.chance(2, 3)));
    w.bytes(elS(0x4487, value));
    if (depth > 0) w.bytes(simpleTag(r, "SORT_WITH", r.chance(1, 4) ? std::string(100 + r.below(300), 's') : genText(r, 0), false, depth - 1));
    return el(0x67C8, w.b);
}

Bytes makeTags(Rng &r, const std::vector<GT> &tracks, int n, int cls)
{
    BW tags;
    for (int i = 0; i < n; ++i) {
        BW t;
        const int level = i == 0 ? 50 : 30 + 10 * static_cast<int>(r.below(4));
        BW targets;
        if (!(level == 50 && r.chance(1, 3))) targets.bytes(elU(0x68CA, static_cast<u64>(level)));
        if (level == 50 && i == 0 && r.chance(1, 3)) targets.bytes(elS(0x63CA, "ALBUM"));
        if (i > 0 && r.chance(1, 6)) { static const char *const names[] = { "TRACK", "MOVEMENT", "Teil", "COLLECTION" }; targets.bytes(elS(0x63CA, names[r.below(4)])); }
        if (i > 0 && r.chance(1, 3)) targets.bytes(elU(0x63C5, tracks[r.below(tracks.size())].uid));
        if (i > 0 && r.chance(1, 8)) targets.bytes(elU(0x63C5, tracks[r.below(tracks.size())].uid));
        if (i > 0 && r.chance(1, 6)) for (u64 n = 1 + r.below(2); n; --n) { static const u64 ids[] = { 0x63C9, 0x63C4, 0x63C6 }; targets.bytes(elU(ids[r.below(3)], 1 + (r.next() >> r.below(60)))); }
        t.bytes(el(0x63C0, targets.b));
        t.bytes(simpleTag(r, "TITLE", genText(r, std::min(cls, 3)), false, 0));
        if (r.chance(1, 2)) t.bytes(simpleTag(r, r.chance(1, 8) ? "Artist" : "ARTIST", genText(r, 1), false, r.chance(1, 3)));
        if (r.chance(1, 6)) { static const char *const names[] = { "composer", "Description", "lyrics", "encoded_by", "Bpm" }; t.bytes(simpleTag(r, names[r.below(4)], genText(r, 0), false, 0)); }
        if (r.chance(1, 3)) t.bytes(simpleTag(r, "COMMENT", genText(r, std::min(cls, 2)), false, 0));
        if (r.chance(1, 3)) t.bytes(simpleTag(r, r.chance(1, 6) ? "genre" : "GENRE", "Genre " + std::to_string(r.below(9)), false, 0));
        if (r.chance(1, 4)) { static const char *const ratings[] = { "0", "1", "2.5", "5", "good" }; t.bytes(simpleTag(r, "RATING", ratings[r.below(5)], false, 0)); }
        if (r.chance(1, 4)) t.bytes(simpleTag(r, "PART_NUMBER", std::to_string(1 + r.below(20)), false, 0));
        if (r.chance(1, 3)) t.bytes(simpleTag(r, "X_OWN_" + std::to_string(r.below(5)), genText(r, 0), r.chance(1, 2), r.chance(1, 2) ? 1 + static_cast<int>(r.below(2)) : 0));
        if (r.chance(1, 5)) t.bytes(el(0x67C8, BW().bytes(elS(0x45A3, "X_BINARY")).bytes(el(0x4485, randBytes(r, 5 + r.below(60)))).b));
        tags.bytes(el(0x7373, t.b));
    }
    return tags.b;
}

} // namespace

Doc genMkv(Choices &c, const std::string &pfx)
{
    Doc d;
    const bool webm = c.flag(pfx + ".webm", 1, 5);
    d.ext = webm ? ".webm" : ".mkv";
    Rng r = c.rng(pfx + ".body");
    const int tracksN = c.weighted(pfx + ".tracks", { 3, 3, 1 }) + 1;
    const int clusterKind = c.weighted(pfx + ".clusters", { 1, 40, 30, 9 });
    const int clusters = clusterKind == 0 ? 0 : clusterKind == 3 ? static_cast<int>(c.pick(pfx + ".nclusters", 4, 60)) : static_cast<int>(c.pick(pfx + ".fewclusters", 1, 5));
    const int tagsN = c.weighted(pfx + ".tags", { 2, 4, 3, 1 });
    const int tagCls = c.weighted(pfx + ".tagcls", { 4, 4, 2, 1 });
    const int attN = c.weighted(pfx + ".atts", { 4, 2, 1 });
    const bool chapters = c.flag(pfx + ".chapters", 1, 3);
    const bool tagsFirst = c.flag(pfx + ".tagsfirst", 1, 2), attFirst = c.flag(pfx + ".attfirst", 1, 8) ? !tagsFirst : tagsFirst;
    const int cuesKind = c.weighted(pfx + ".cues", { 3, 1, 1, 2 }); // after, none, before, after with relative positions
    const bool seekHead = !c.flag(pfx + ".noseek", 1, 6);
    const bool segCrc = c.flag(pfx + ".segcrc", 1, 12), crc = c.flag(pfx + ".crc", 1, 6);
    const bool position = c.flag(pfx + ".position", 1, 3), prevSize = c.flag(pfx + ".prevsize", 1, 4);
    static const std::size_t posLens[] = { 4, 8, 3, 1 };
    const std::size_t posLen = posLens[c.weighted(pfx + ".poslen", { 5, 1, 1, 3 })];
    static const int cueLens[] = { 4, 8, 3 };
    const int cueLen = cueLens[c.weighted(pfx + ".cuelen", { 5, 1, 1 })];
    const bool clusterVoid = c.flag(pfx + ".clvoid", 1, 6), clusterCrc = c.flag(pfx + ".clcrc", 1, 10);
    const int segLen = c.weighted(pfx + ".seglen", { 4, 2, 1 }) == 0 ? 8 : c.weighted(pfx + ".seglen2", { 1, 1 }) ? 4 : 5;
    const int clusterLen = c.weighted(pfx + ".cllen", { 2, 2, 1 }); // minimal, 8, 4
    const bool chaptersLast = c.flag(pfx + ".chlast", 1, 4);
    const i64 voidN = c.weighted(pfx + ".void", { 2, 2, 1 }) == 1 ? c.pick(pfx + ".void.n", 2, 2000) : 0;
    const i64 void2 = c.flag(pfx + ".void2", 1, 6) ? c.pick(pfx + ".void2.n", 2, 400) : 0;
    const bool voidEnd = c.flag(pfx + ".voidend", 1, 8);
    const bool tags2 = c.flag(pfx + ".tags2", 1, 14), cueRef = c.flag(pfx + ".cueref", 1, 5);
    const int cueRepeat = c.flag(pfx + ".cuerep", 1, 6) ? static_cast<int>(c.pick(pfx + ".cuerep.n", 2, 12)) : 1; // makes the size of entries need more bytes
    const bool between = c.flag(pfx + ".between", 1, 14); // cues/tags between the clusters
    d.sub = std::string(webm ? "webm" : "matroska") + " tracks=" + std::to_string(tracksN) + " clusters=" + std::to_string(clusters) + " tags=" + std::to_string(tagsN) + (tagsFirst ? " first" : " last") + " cues=" + std::to_string(cuesKind) + " atts=" + std::to_string(attN);

    std::vector<GT> ts;
    for (int i = 0; i < tracksN; ++i) ts.push_back({ static_cast<u64>(i + 1), 1000 + r.below(1u << 30), i == 0 ? 1 : 2 });

    Bytes ebml = el(0x1A45DFA3, BW().bytes(elU(0x4286, 1)).bytes(elU(0x42F7, 1)).bytes(elU(0x42F2, 4)).bytes(elU(0x42F3, 8)).bytes(elS(0x4282, webm ? "webm" : "matroska")).bytes(elU(0x4287, 4)).bytes(elU(0x4285, 2)).b);

    // level 1 elements
    BW info;
    info.bytes(elU(0x2AD7B1, 1000000)).bytes(elF(0x4489, 1000.0 * clusters)).bytes(elS(0x4D80, "libmatroska sim")).bytes(elS(0x5741, "simulator" + std::string(r.chance(1, 4) ? r.below(150) : 0, '+')));
    if (r.chance(1, 2)) info.bytes(elS(0x7BA9, genText(r, 1)));
    if (r.chance(1, 2)) info.bytes(el(0x73A4, randBytes(r, 16)));
    if (r.chance(1, 2)) info.bytes(el(0x4461, BW().be(500000000000000000ull + r.below(1u << 30), 8).b));
    if (r.chance(1, 5)) info.bytes(elVoid(2 + r.below(30)));
    const Bytes infoEl = master(0x1549A966, info.b, crc && r.chance(1, 2));
    BW tracks;
    for (auto &t : ts) {
        BW e;
        e.bytes(elU(0xD7, t.number)).bytes(elU(0x73C5, t.uid)).bytes(elU(0x83, static_cast<u64>(t.type)));
        if (r.chance(1, 2)) e.bytes(elU(0xB9, 1));
        if (r.chance(1, 2)) e.bytes(elU(0x88, r.below(2)));
        if (r.chance(1, 3)) e.bytes(elU(0x55AA, r.below(2)));
        e.bytes(elU(0x9C, 0));
        if (r.chance(1, 2)) e.bytes(elS(0x536E, genText(r, 0)));
        if (r.chance(2, 3)) e.bytes(elS(0x22B59C, r.chance(1, 2) ? "ger" : "eng"));
        if (c.flag(pfx + ".ietf" + std::to_string(t.number), 1, 5)) e.bytes(elS(0x22B59D, t.number % 2 ? "de-AT" : "en")); // LanguageIETF
        if (r.chance(1, 4)) e.bytes(elU(0x6DE7, 1)); // MinCache
        e.bytes(elS(0x86, t.type == 1 ? "V_VP9" : "A_VORBIS"));
        if (r.chance(1, 2)) e.bytes(elU(0x23E383, 40000000));
        if (t.type == 1) e.bytes(el(0xE0, BW().bytes(elU(0xB0, 320 + r.below(900))).bytes(elU(0xBA, 200 + r.below(500))).bytes(elU(0x9A, 2)).b));
        else {
            e.bytes(el(0xE1, BW().bytes(elF(0xB5, 48000)).bytes(elU(0x9F, 2)).b));
            e.bytes(el(0x63A2, randBytes(r, 30 + r.below(200))));
        }
        if (r.chance(1, 5)) e.bytes(elVoid(2 + r.below(40)));
        tracks.bytes(el(0xAE, e.b));
    }
    const Bytes tracksEl = master(0x1654AE6B, tracks.b, crc && r.chance(1, 2));
    Bytes chaptersEl;
    if (chapters) {
        BW ed;
        ed.bytes(elU(0x45BC, 1 + r.below(1u << 30))).bytes(elU(0x45DB, 1));
        for (std::size_t i = 0, n = 1 + r.below(4); i < n; ++i) {
            BW ca;
            ca.bytes(elU(0x73C4, 1 + r.below(1u << 30))).bytes(elU(0x91, i * 1000000000ull)).bytes(elU(0x92, (i + 1) * 1000000000ull));
            if (r.chance(1, 3)) ca.bytes(el(0xB6, BW().bytes(elU(0x73C4, 77 + i)).bytes(elU(0x91, i * 1000000000ull)).bytes(el(0x80, BW().bytes(elS(0x85, "nested")).bytes(elS(0x437C, "eng")).b)).b));
            ca.bytes(el(0x80, BW().bytes(elS(0x85, genText(r, 0))).bytes(elS(0x437C, "eng")).b));
            ed.bytes(el(0xB6, ca.b));
        }
        chaptersEl = master(0x1043A770, el(0x45B9, ed.b), crc && r.chance(1, 2));
    }
    Bytes attEl;
    if (attN) {
        BW a;
        for (int i = 0; i < attN; ++i) {
            BW f;
            if (r.chance(2, 3)) f.bytes(elS(0x467E, genText(r, 0)));
            f.bytes(elS(0x466E, "file" + std::to_string(i) + ".bin")).bytes(elS(0x4660, "application/octet-stream")).bytes(elU(0x46AE, 1 + (r.next() >> r.below(60))));
            f.bytes(el(0x465C, randBytes(r, 10 + r.below(r.chance(1, 4) ? 20000 : 600))));
            if (r.chance(1, 4)) f.bytes(elU(0x4661, 5)); // FileUsedStartTime
            a.bytes(el(0x61A7, f.b));
        }
        attEl = master(0x1941A469, a.b, crc && r.chance(1, 2));
    }
    Bytes tagsEl;
    if (tagsN) tagsEl = master(0x1254C367, makeTags(r, ts, tagsN, tagCls), crc && r.chance(1, 2));

    // clusters (positions are filled in later, hence fixed width)
    struct GC { Bytes head, body; std::vector<std::tuple<u64, u64, u64>> cues; std::size_t posAt = 0, prevAt = 0; };
    std::vector<GC> cs;
    u64 prevTotal = 0;
    for (int i = 0; i < clusters; ++i) {
        GC g;
        const u64 tc = static_cast<u64>(i) * 1000;
        BW b;
        b.bytes(elU(0xE7, tc));
        if (position) { g.posAt = b.size() + 2; b.bytes(el(0xA7, Bytes(posLen, 0))); }
        if (prevSize && i) { b.bytes(elU(0xAB, prevTotal, 4)); }
        if (clusterVoid && r.chance(1, 2)) b.bytes(elVoid(2 + r.below(80)));
        const std::size_t blocks = 1 + r.below(8);
        for (std::size_t k = 0; k < blocks; ++k) {
            const auto &t = ts[r.below(ts.size())];
            const i64 rel = static_cast<i64>(k) * 40;
            if (k == 0 || r.chance(1, 5)) g.cues.emplace_back(tc + static_cast<u64>(rel), t.number, b.size());
            BW blk;
            blk.bytes(vint(t.number)).be(static_cast<u64>(rel) & 0xFFFF, 2).u8_(k == 0 ? 0x80 : 0).bytes(randBytes(r, (10 + r.below(r.chance(1, 8) ? 3000 : 300)) * docScale));
            if (r.chance(1, 3)) b.bytes(el(0xA0, BW().bytes(el(0xA1, blk.b)).bytes(elU(0x9B, 40)).b));
            else b.bytes(el(0xA3, blk.b));
            if (clusterVoid && r.chance(1, 6)) b.bytes(elVoid(2 + r.below(80)));
        }
        if (clusterCrc) {
            // checksum element shifts everything behind it
            g.posAt = g.posAt ? g.posAt + 6 : 0;
            for (auto &x : g.cues) std::get<2>(x) += 6;
            b.b.insert(b.b.begin(), { 0xBF, 0x84, 0, 0, 0, 0 });
        }
        g.body = b.b;
        g.head = BW().bytes(idBytes(0x1F43B675)).bytes(vint(b.size(), clusterLen == 0 ? 0 : clusterLen == 1 ? 8 : 4)).b;
        prevTotal = g.head.size() + g.body.size();
        cs.push_back(std::move(g));
    }
    // cues: fixed width positions
    auto makeCues = [&](const std::vector<u64> &pos) {
        BW w;
        for (std::size_t i = 0; i < cs.size(); ++i) {
            for (auto &x : cs[i].cues) {
                BW tp;
                tp.bytes(elU(0xF7, std::get<1>(x))).bytes(elU(0xF1, i < pos.size() ? pos[i] : 0, cueLen));
                if (cuesKind == 3) tp.bytes(elU(0xF0, std::get<2>(x), 2));
                if (cueRef) tp.bytes(elU(0xB2, 40)).bytes(elU(0x5378, 1 + i)).bytes(elU(0xEA, 0));
                if (cueRef && i % 2) tp.bytes(el(0xDB, BW().bytes(elU(0x96, std::get<0>(x) - 1)).bytes(elU(0x97, i - 1 < pos.size() ? pos[i - 1] : 0, cueLen)).bytes(elU(0x535F, 1)).b));
                BW cp;
                cp.bytes(elU(0xB3, std::get<0>(x)));
                for (int k = 0; k < cueRepeat; ++k) cp.bytes(el(0xB7, tp.b));
                w.bytes(el(0xBB, cp.b));
                if (cuesKind != 3) break;
            }
        }
        return master(0x1C53BB6B, w.b, crc);
    };
    const std::size_t cuesSize = cuesKind == 1 ? 0 : makeCues({}).size();
    const bool cuesFirst = cuesKind == 2;

    // layout of the segment data
    struct Seek { u32 id; std::size_t pos; };
    std::vector<Seek> seeks;
    std::vector<u64> clusterPos;
    std::size_t cuesPos = 0;
    int seekEntries = 2 + (cuesKind != 1) + (tagsN > 0) + (attN > 0) + chapters + tags2;
    if (r.chance(1, 3) && clusters) ++seekEntries; // entry for the first cluster
    const bool seekCluster = seekEntries == 3 + (cuesKind != 1) + (tagsN > 0) + (attN > 0) + chapters + tags2;
    auto makeSeek = [&]() {
        BW w;
        for (auto &s : seeks) w.bytes(el(0x4DBB, BW().bytes(el(0x53AB, idBytes(s.id))).bytes(elU(0x53AC, s.pos, 4)).b));
        return master(0x114D9B74, w.b, crc);
    };
    for (int i = 0; i < seekEntries; ++i) seeks.push_back({ 0x1549A966, 0 });
    const std::size_t seekSize = seekHead ? makeSeek().size() : 0;
    seeks.clear();
    Bytes seg;
    if (segCrc) seg.resize(6);
    const std::size_t seekAt = seg.size();
    seg.resize(seg.size() + seekSize);
    auto add = [&](u32 id, const Bytes &b) { if (b.empty()) return; seeks.push_back({ id, seg.size() }); append(seg, b); };
    if (voidN && r.chance(1, 3)) append(seg, elVoid(static_cast<std::size_t>(voidN)));
    add(0x1549A966, infoEl);
    add(0x1654AE6B, tracksEl);
    if (!chaptersLast) add(0x1043A770, chaptersEl);
    if (attFirst) add(0x1941A469, attEl);
    if (tagsFirst) add(0x1254C367, tagsEl);
    if (cuesKind != 1 && cuesFirst) { cuesPos = seg.size(); seeks.push_back({ 0x1C53BB6B, cuesPos }); seg.resize(seg.size() + cuesSize); }
    if (voidN) append(seg, elVoid(static_cast<std::size_t>(voidN)));
    if (void2) append(seg, elVoid(static_cast<std::size_t>(void2)));
    if (seekCluster) seeks.push_back({ 0x1F43B675, seg.size() });
    bool cuesDone = cuesFirst || cuesKind == 1, tagsDone = tagsFirst;
    for (std::size_t i = 0; i < cs.size(); ++i) {
        if (i == 1 && between) {
            if (!cuesDone) { cuesPos = seg.size(); seeks.push_back({ 0x1C53BB6B, cuesPos }); seg.resize(seg.size() + cuesSize); cuesDone = true; }
            if (!tagsDone) { add(0x1254C367, tagsEl); tagsDone = true; }
        }
        clusterPos.push_back(seg.size());
        auto &g = cs[i];
        if (position && posLen > 1) putBe(g.body, g.posAt, seg.size(), static_cast<int>(posLen)); // otherwise zero as in a live stream
        if (clusterCrc) putLe(g.body, 2, crc32zlib(g.body.data() + 6, g.body.size() - 6), 4);
        append(seg, g.head);
        append(seg, g.body);
    }
    if (!cuesDone) { cuesPos = seg.size(); seeks.push_back({ 0x1C53BB6B, cuesPos }); seg.resize(seg.size() + cuesSize); }
    if (chaptersLast) add(0x1043A770, chaptersEl);
    if (tags2) add(0x1254C367, el(0x1254C367, makeTags(r, ts, 2, 0)));
    if (!attFirst) add(0x1941A469, attEl);
    if (!tagsDone) add(0x1254C367, tagsEl);
    if (voidEnd) append(seg, elVoid(2 + r.below(300)));
    if (cuesKind != 1) { Bytes q = makeCues(clusterPos); std::copy(q.begin(), q.end(), seg.begin() + static_cast<std::ptrdiff_t>(cuesPos)); }
    if (seekHead) { Bytes q = makeSeek(); std::copy(q.begin(), q.end(), seg.begin() + static_cast<std::ptrdiff_t>(seekAt)); }
    if (segCrc) {
        seg[0] = 0xBF;
        seg[1] = 0x84;
        putLe(seg, 2, crc32zlib(seg.data() + 6, seg.size() - 6), 4);
    }
    d.bytes = BW().bytes(ebml).bytes(el(0x18538067, seg, segLen)).b;
    d.complete = seekHead;
    return d;
}

// ---------------------------------------------------------------- analysis
namespace {

struct El { u32 id = 0; std::size_t off = 0, hdr = 0, size = 0; std::size_t data() const { return off + hdr; } std::size_t end() const { return off + hdr + size; } };

std::vector<El> kids(const BR &d, std::size_t from, std::size_t to, Analysis &a, const std::string &path)
{
    std::vector<El> r;
    while (from < to) {
        El e;
        e.off = from;
        const u8 f = d.p[from];
        int n = 1;
        while (n < 5 && !(f & (0x80 >> (n - 1)))) ++n;
        if (n > 4 || from + static_cast<std::size_t>(n) >= to) { a.error("no EBML element at " + std::to_string(from) + " in " + path); break; }
        e.id = static_cast<u32>(d.be(from, n));
        const u8 s = d.p[from + static_cast<std::size_t>(n)];
        int m = 1;
        while (m < 9 && !(s & (0x80 >> (m - 1)))) ++m;
        if (m > 8 || from + static_cast<std::size_t>(n + m) > to) { a.error("invalid EBML size at " + std::to_string(from) + " in " + path); break; }
        const u64 raw = d.be(from + static_cast<std::size_t>(n), m) & ((1ull << (7 * m)) - 1);
        e.hdr = static_cast<std::size_t>(n + m);
        if (raw > to - from - e.hdr) { a.error("EBML element " + hex(e.id) + " at " + std::to_string(from) + " in " + path + " exceeds its parent"); break; }
        e.size = static_cast<std::size_t>(raw);
        r.push_back(e);
        from = e.end();
    }
    // checksum
    if (!r.empty() && r[0].id == 0xBF && r[0].size == 4) {
        const u32 want = static_cast<u32>(d.le(r[0].data(), 4)), have = crc32zlib(d.p + r[0].end(), to - r[0].end());
        if (want != have) a.error("CRC-32 of " + path + " is wrong");
    }
    return r;
}
u64 U(const BR &d, const El &e) { return d.be(e.data(), static_cast<int>(std::min<std::size_t>(e.size, 8))); }
std::string Str(const BR &d, const El &e) { std::string s = d.s(e.data(), e.size); while (!s.empty() && !s.back()) s.pop_back(); return s; }

// canonical form of an element tree: Void and CRC-32 elements are left out, the order of children is irrelevant
std::string canon(const BR &d, const El &e, int depth)
{
    const bool isMaster = depth > 0 && (e.id == 0xAE || e.id == 0xE0 || e.id == 0xE1 || e.id == 0x6D80);
    if (!isMaster) return hex(e.id) + "=" + std::to_string(e.size) + ":" + hex(d.sub(e.data(), e.size).hash());
    Analysis ignored;
    std::vector<std::string> v;
    for (auto &k : kids(d, e.data(), e.end(), ignored, "")) {
        if (k.id == 0xEC || k.id == 0xBF) continue;
        if (e.id == 0xAE && (k.id == 0x536E || k.id == 0x22B59C || k.id == 0x22B59D || k.id == 0xB9 || k.id == 0x88 || k.id == 0x55AA)) continue; // attributes of the track
        // integers may be stored with a different width, defaults may be written explicitly
        if (k.id == 0xB9 || k.id == 0x88 || k.id == 0x55AA || k.id == 0x9C || k.id == 0xD7 || k.id == 0x73C5 || k.id == 0x83) {
            const u64 x = U(d, k);
            if ((k.id == 0xB9 || k.id == 0x88 || k.id == 0x9C) && x == 1) continue;
            if (k.id == 0x55AA && x == 0) continue;
            v.push_back(hex(k.id) + "=" + std::to_string(x));
        } else if (k.id == 0x22B59C || k.id == 0x536E || k.id == 0x86) {
            if (k.id == 0x22B59C && Str(d, k) == "eng") continue; // default
            v.push_back(hex(k.id) + "=" + Str(d, k));
        } else v.push_back(canon(d, k, depth - 1));
    }
    std::sort(v.begin(), v.end());
    std::string s = hex(e.id) + "{";
    for (auto &x : v) s += x + ";";
    return s + "}";
}

void parseSimple(const BR &d, const El &st, const std::string &prefix, NTag &tag, Analysis &a)
{
    std::string name, val, lang, ietf;
    bool hasVal = false;
    int flag = 1;
    std::vector<El> nested;
    for (auto &k : kids(d, st.data(), st.end(), a, "SimpleTag")) {
        if (k.id == 0x45A3) name = Str(d, k);
        else if (k.id == 0x447A) lang = Str(d, k);
        else if (k.id == 0x447B) ietf = Str(d, k);
        else if (k.id == 0x4484) flag = U(d, k) != 0;
        else if (k.id == 0x4487) { val = Str(d, k); hasVal = true; }
        else if (k.id == 0x4485) { val = "bin|" + std::to_string(k.size) + ":" + hex(d.sub(k.data(), k.size).hash()); hasVal = true; }
        else if (k.id == 0x67C8) nested.push_back(k);
    }
    if (name.empty()) a.error("SimpleTag without name at " + std::to_string(st.off));
    const std::string id = prefix + name + (lang.empty() || lang == "und" ? "" : "@" + lang) + (ietf.empty() ? "" : "@@" + ietf);
    if (hasVal) tag.fields.push_back({ id, val, flag });
    for (auto &n : nested) parseSimple(d, n, id + "/", tag, a);
}

} // namespace

Analysis analyzeMkv(const Bytes &b)
{
    Analysis a;
    const BR d(b);
    auto top = kids(d, 0, d.n, a, "file");
    if (top.empty() || top[0].id != 0x1A45DFA3) { a.error("no EBML header"); return a; }
    for (auto &k : kids(d, top[0].data(), top[0].end(), a, "EBML")) {
        if (k.id == 0x4282) a.other.emplace_back("doctype", Str(d, k));
        else if (k.id != 0xEC && k.id != 0xBF) a.other.emplace_back("ebml " + hex(k.id), std::to_string(U(d, k)));
    }
    const El *seg = nullptr;
    for (auto &t : top) {
        if (t.id == 0x18538067) { if (seg) a.error("several segments"); seg = &t; }
        else if (t.id != 0x1A45DFA3 && t.id != 0xEC) a.error("unexpected top-level element " + hex(t.id));
    }
    if (!seg) { a.error("no segment"); return a; }
    const std::size_t base = seg->data();
    auto l1 = kids(d, base, seg->end(), a, "Segment");
    std::size_t firstCluster = ~std::size_t(0);
    for (auto &e : l1) if (e.id == 0x1F43B675) { firstCluster = e.off; break; }
    a.padding = firstCluster == ~std::size_t(0) ? -1 : 0;
    struct Blk { std::size_t rel; u64 track; i64 ts; };
    struct Cl { std::size_t off; i64 tc = 0; std::vector<Blk> blocks; };
    std::vector<Cl> cls;
    std::map<u64, std::size_t> trackIdx;
    std::size_t prevTotal = 0;
    int infos = 0, trackEls = 0, cuesEls = 0, tagsEls = 0, attEls = 0;
    for (auto &e : l1) {
        const int pos = firstCluster == ~std::size_t(0) ? 0 : e.off < firstCluster ? 1 : 2;
        switch (e.id) {
        case 0xEC:
            if (e.off < firstCluster && a.padding >= 0) a.padding += static_cast<i64>(e.hdr + e.size);
            break;
        case 0xBF: case 0x114D9B74: break;
        case 0x1549A966: {
            if (++infos > 1) a.error("several Info elements");
            for (auto &k : kids(d, e.data(), e.end(), a, "Info")) {
                if (k.id == 0x4D80) a.muxApp = Str(d, k);
                if (k.id == 0x5741) a.writingApp = Str(d, k);
                if (k.id == 0xEC || k.id == 0xBF || k.id == 0x4D80 || k.id == 0x5741) continue;
                a.other.emplace_back("info " + hex(k.id), canon(d, k, 0));
            }
            break;
        }
        case 0x1654AE6B: {
            if (++trackEls > 1) a.error("several Tracks elements");
            for (auto &k : kids(d, e.data(), e.end(), a, "Tracks")) {
                if (k.id != 0xAE) continue;
                ATrack t;
                u64 no = 0;
                for (auto &x : kids(d, k.data(), k.end(), a, "TrackEntry")) {
                    if (x.id == 0xD7) no = U(d, x);
                    if (x.id == 0x73C5) t.id = std::to_string(U(d, x));
                    if (x.id == 0x536E) t.attr["name"] = Str(d, x);
                    if (x.id == 0x22B59C) t.attr["lang"] = Str(d, x);
                    if (x.id == 0x22B59D) t.attr["ietf"] = Str(d, x);
                    if (x.id == 0xB9) t.attr["enabled"] = std::to_string(U(d, x));
                    if (x.id == 0x88) t.attr["default"] = std::to_string(U(d, x));
                    if (x.id == 0x55AA) t.attr["forced"] = std::to_string(U(d, x));
                }
                t.cfg = canon(d, k, 3);
                for (auto *x : { "enabled", "default" }) if (t.attr[x].empty()) t.attr[x] = "1";
                if (t.attr["forced"].empty()) t.attr["forced"] = "0";
                if (t.attr["lang"].empty()) t.attr["lang"] = "eng";
                trackIdx[no] = a.tracks.size();
                a.tracks.push_back(std::move(t));
            }
            break;
        }
        case 0x1043A770:
            kids(d, e.data(), e.end(), a, "Chapters");
            a.other.emplace_back("chapters", std::to_string(e.size) + ":" + hex(d.sub(e.data(), e.size).hash()));
            break;
        case 0x1941A469:
            if (++attEls > 1) a.error("several Attachments elements");
            a.tagPos |= pos;
            for (auto &k : kids(d, e.data(), e.end(), a, "Attachments")) {
                if (k.id != 0x61A7) continue;
                std::string name, mime, desc, data, uid, rest;
                for (auto &x : kids(d, k.data(), k.end(), a, "AttachedFile")) {
                    if (x.id == 0x466E) name = Str(d, x);
                    else if (x.id == 0x4660) mime = Str(d, x);
                    else if (x.id == 0x467E) desc = Str(d, x);
                    else if (x.id == 0x46AE) uid = std::to_string(U(d, x));
                    else if (x.id == 0x465C) data = std::to_string(x.size) + ":" + hex(d.sub(x.data(), x.size).hash());
                    else if (x.id != 0xEC && x.id != 0xBF) rest += "|" + canon(d, x, 0);
                }
                a.other.emplace_back("attachment", name + "|" + mime + "|" + desc + "|" + data + rest);
                a.info.emplace_back("attachment id " + name, uid);
            }
            break;
        case 0x1254C367:
            if (++tagsEls > 1) a.other.emplace_back("additional Tags element", "");
            a.tagPos |= pos;
            for (auto &k : kids(d, e.data(), e.end(), a, "Tags")) {
                if (k.id != 0x7373) continue;
                NTag tag;
                tag.type = "mkv";
                tag.off = k.off;
                tag.len = k.hdr + k.size;
                std::string level = "50", levelName;
                std::multiset<std::string> ids;
                for (auto &x : kids(d, k.data(), k.end(), a, "Tag")) {
                    if (x.id == 0x63C0) {
                        for (auto &y : kids(d, x.data(), x.end(), a, "Targets")) {
                            if (y.id == 0x68CA) level = std::to_string(U(d, y));
                            else if (y.id == 0x63C5 || y.id == 0x63C4 || y.id == 0x63C9 || y.id == 0x63C6) ids.insert(" " + hex(y.id) + ":" + std::to_string(U(d, y)));
                            else if (y.id == 0x63CA) levelName = " '" + Str(d, y) + "'";
                        }
                    } else if (x.id == 0x67C8) parseSimple(d, x, "", tag, a);
                }
                tag.target = level + levelName;
                for (const auto &id : ids) tag.target += id;
                a.tags.push_back(std::move(tag));
            }
            break;
        case 0x1C53BB6B:
            if (++cuesEls > 1) a.error("several Cues elements");
            a.indexPos |= pos;
            break;
        case 0x1F43B675: {
            Cl c;
            c.off = e.off;
            if (a.media.empty()) a.mediaBegin = e.off;
            a.mediaEnd = e.end();
            auto ks = kids(d, e.data(), e.end(), a, "Cluster");
            for (auto &k : ks) if (k.id == 0xE7) c.tc = static_cast<i64>(U(d, k));
            for (auto &k : ks) {
                auto block = [&](const El &x, std::size_t rel, u64 extraHash) {
                    const u8 f = d.p[x.data()];
                    int n = 1;
                    while (n < 8 && !(f & (0x80 >> (n - 1)))) ++n;
                    const u64 no = d.be(x.data(), n) & ((1ull << (7 * n)) - 1);
                    const i64 ts = c.tc + static_cast<std::int16_t>(d.be(x.data() + static_cast<std::size_t>(n), 2));
                    auto it = trackIdx.find(no);
                    if (it == trackIdx.end()) { a.error("block of unknown track " + std::to_string(no)); return; }
                    auto &t = a.tracks[it->second];
                    t.samples.push_back(d.sub(x.data() + static_cast<std::size_t>(n) + 2, x.size - static_cast<std::size_t>(n) - 2).hash() ^ extraHash);
                    t.ts.push_back(ts);
                    c.blocks.push_back({ rel, no, ts });
                    a.media.push_back({ x.data(), x.size });
                };
                if (k.id == 0xA3) block(k, k.off - e.data(), 1);
                else if (k.id == 0xA0) {
                    u64 h = 2;
                    const El *blk = nullptr;
                    auto gs = kids(d, k.data(), k.end(), a, "BlockGroup");
                    for (auto &g : gs) { if (g.id == 0xA1) blk = &g; else if (g.id != 0xEC && g.id != 0xBF) h = hashStr(canon(d, g, 0), h); }
                    if (blk) block(*blk, k.off - e.data(), h);
                } else if (k.id == 0xA7) {
                    if (!U(d, k)) ++a.livePositions; // used in live streams
                    else if (U(d, k) != e.off - base) a.error("Position of cluster at " + std::to_string(e.off) + " is " + std::to_string(U(d, k)) + " instead of " + std::to_string(e.off - base));
                } else if (k.id == 0xAB) {
                    if (U(d, k) != prevTotal) a.error("PrevSize of cluster at " + std::to_string(e.off) + " is " + std::to_string(U(d, k)) + " instead of " + std::to_string(prevTotal));
                } else if (k.id != 0xE7 && k.id != 0xEC && k.id != 0xBF) a.other.emplace_back("cluster element", canon(d, k, 0));
            }
            prevTotal = e.hdr + e.size;
            cls.push_back(std::move(c));
            break;
        }
        default:
            a.other.emplace_back("segment element " + hex(e.id), canon(d, e, 0));
        }
    }
    // seek head
    for (auto &e : l1) {
        if (e.id != 0x114D9B74) continue;
        for (auto &k : kids(d, e.data(), e.end(), a, "SeekHead")) {
            if (k.id != 0x4DBB) continue;
            u64 id = 0, pos = 0;
            for (auto &x : kids(d, k.data(), k.end(), a, "Seek")) { if (x.id == 0x53AB) id = U(d, x); if (x.id == 0x53AC) pos = U(d, x); }
            bool ok = false;
            for (auto &x : l1) if (x.id == id && x.off == base + pos) ok = true;
            if (!ok) a.error("seek entry for " + hex(id) + " refers to " + std::to_string(base + pos) + " where no such element is");
        }
    }
    for (auto &e : l1) {
        if (e.id != 0x1C53BB6B) continue;
        const auto clusterAt = [&](u64 pos) {
            for (std::size_t i = 0; i < cls.size(); ++i) if (cls[i].off == base + pos) return "cluster " + std::to_string(i);
            a.error("cue reference to " + std::to_string(base + pos) + " where no cluster is");
            return std::string("?");
        };
        for (auto &cp : kids(d, e.data(), e.end(), a, "Cues")) {
            if (cp.id != 0xBB) continue;
            i64 time = 0;
            std::string entry;
            auto cks = kids(d, cp.data(), cp.end(), a, "CuePoint");
            for (auto &k : cks) if (k.id == 0xB3) time = static_cast<i64>(U(d, k));
            for (auto &k : cks) {
                if (k.id != 0xB7) continue;
                u64 track = 0, pos = 0, rel = 0;
                bool hasRel = false;
                for (auto &x : kids(d, k.data(), k.end(), a, "CueTrackPositions")) { if (x.id == 0xF7) track = U(d, x); if (x.id == 0xF1) pos = U(d, x); if (x.id == 0xF0) { rel = U(d, x); hasRel = true; } if (x.id == 0xB2 || x.id == 0x5378 || x.id == 0xEA) entry += hex(x.id) + "=" + std::to_string(U(d, x)) + " "; if (x.id == 0xDB) for (auto &y : kids(d, x.data(), x.end(), a, "CueReference")) entry += hex(y.id) + "=" + (y.id == 0x97 ? clusterAt(U(d, y)) : std::to_string(U(d, y))) + " "; }
                const Cl *c = nullptr;
                for (auto &y : cls) if (y.off == base + pos) c = &y;
                if (!c) { a.error("cue for time " + std::to_string(time) + " refers to " + std::to_string(base + pos) + " where no cluster is"); continue; }
                bool ok = false;
                for (auto &bl : c->blocks) if (bl.ts == time && bl.track == track && (!hasRel || bl.rel == rel)) ok = true;
                if (!ok) a.error("cue for time " + std::to_string(time) + " of track " + std::to_string(track) + (hasRel ? " at relative position " + std::to_string(rel) : std::string()) + " does not lead to the block");
                entry += std::to_string(time) + "/" + std::to_string(track) + (hasRel ? "r" : "") + " ";
            }
            a.other.emplace_back("cue", entry);
        }
    }
    return a;
}

} // namespace sim
