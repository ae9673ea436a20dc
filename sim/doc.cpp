#include "doc.h"
#include <cstdio>

namespace sim {

std::string hex(u64 v) { char b[20]; std::snprintf(b, sizeof b, "%llx", static_cast<unsigned long long>(v)); return b; }

std::string printable(std::string_view s, std::size_t max)
{
    std::string r;
    for (unsigned char c : s) {
        if (r.size() >= max) { r += "..(" + std::to_string(s.size()) + ")"; break; }
        if (c >= 32 && c < 127) r += static_cast<char>(c);
        else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r;
}

std::string latin1ToUtf8(std::string_view s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c < 0x80) r += static_cast<char>(c);
        else { r += static_cast<char>(0xC0 | (c >> 6)); r += static_cast<char>(0x80 | (c & 0x3F)); }
    }
    return r;
}

static void putUtf8(std::string &r, u32 c)
{
    if (c < 0x80) r += static_cast<char>(c);
    else if (c < 0x800) { r += static_cast<char>(0xC0 | (c >> 6)); r += static_cast<char>(0x80 | (c & 0x3F)); }
    else if (c < 0x10000) { r += static_cast<char>(0xE0 | (c >> 12)); r += static_cast<char>(0x80 | ((c >> 6) & 0x3F)); r += static_cast<char>(0x80 | (c & 0x3F)); }
    else { r += static_cast<char>(0xF0 | (c >> 18)); r += static_cast<char>(0x80 | ((c >> 12) & 0x3F)); r += static_cast<char>(0x80 | ((c >> 6) & 0x3F)); r += static_cast<char>(0x80 | (c & 0x3F)); }
}

std::string utf16ToUtf8(const u8 *p, std::size_t n, bool be)
{
    std::string r;
    auto get = [&](std::size_t i) -> u32 { return be ? static_cast<u32>(p[i] << 8 | p[i + 1]) : static_cast<u32>(p[i + 1] << 8 | p[i]); };
    for (std::size_t i = 0; i + 2 <= n; i += 2) {
        u32 c = get(i);
        if (c >= 0xD800 && c < 0xDC00 && i + 4 <= n) {
            u32 d = get(i + 2);
            if (d >= 0xDC00 && d < 0xE000) { c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00); i += 2; }
        }
        putUtf8(r, c);
    }
    return r;
}

std::string utf8ToUtf16(std::string_view s, bool be, bool bom)
{
    std::string r;
    auto put = [&](u32 u) { if (be) { r += static_cast<char>(u >> 8); r += static_cast<char>(u); } else { r += static_cast<char>(u); r += static_cast<char>(u >> 8); } };
    if (bom) put(0xFEFF);
    for (std::size_t i = 0; i < s.size();) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        u32 cp; int n;
        if (c < 0x80) { cp = c; n = 1; } else if (c < 0xE0) { cp = c & 0x1F; n = 2; } else if (c < 0xF0) { cp = c & 0x0F; n = 3; } else { cp = c & 7; n = 4; }
        for (int k = 1; k < n && i + static_cast<std::size_t>(k) < s.size(); ++k) cp = (cp << 6) | (static_cast<unsigned char>(s[i + static_cast<std::size_t>(k)]) & 0x3F);
        i += static_cast<std::size_t>(n);
        if (cp >= 0x10000) { cp -= 0x10000; put(0xD800 + (cp >> 10)); put(0xDC00 + (cp & 0x3FF)); } else put(cp);
    }
    return r;
}

Bytes randBytes(Rng &r, std::size_t n) { Bytes b(n); r.fill(b.data(), n); return b; }

const char *fmtName(Fmt f)
{
    static const char *n[] = { "mp3", "adts", "wav", "ivf", "unknown", "flac", "ogg", "mp4", "mkv" };
    return n[static_cast<int>(f)];
}

u64 Analysis::mediaDigest() const
{
    u64 h = 1;
    for (auto &t : tracks) {
        h = hashStr(t.id, h); h = hashStr(t.cfg, h);
        h = hashBytes(t.samples.data(), t.samples.size() * 8, h);
        h = hashBytes(t.ts.data(), t.ts.size() * 8, h);
    }
    return h;
}

std::string Analysis::summary() const
{
    std::string s;
    for (auto &t : tracks) s += "track " + t.id + " samples=" + std::to_string(t.samples.size()) + " cfg=" + printable(t.cfg, 40) + "\n";
    for (auto &t : tags) {
        s += "tag " + t.type + " " + t.target + " @" + std::to_string(t.off) + "+" + std::to_string(t.len) + "\n";
        for (auto &f : t.fields) s += "   " + printable(f.id) + " = " + printable(f.val) + "\n";
    }
    for (auto &o : other) s += "other " + printable(o.first) + " = " + printable(o.second) + "\n";
    for (auto &o : info) s += "info " + printable(o.first) + " = " + printable(o.second) + "\n";
    s += "padding " + std::to_string(padding) + " tagPos " + std::to_string(tagPos) + " indexPos " + std::to_string(indexPos) + "\n";
    for (auto &e : err) s += "ERR " + e + "\n";
    return s;
}

// text: mixture of ASCII, Latin-1, BMP and astral characters
std::string genText(Rng &r, int sizeClass)
{
    static const char *const words[] = { "alpha", "Bravo", "charlie", "Delta 7", "echo-ö", "fox/trot", "gölf", "hôtel", "индиа", "日本", "kilo&lima", "🎵mike", "n", "O'scar", "p=q" };
    std::size_t want;
    switch (sizeClass) {
    case 0: want = 1 + r.below(12); break;
    case 1: want = 8 + r.below(60); break;
    case 2: want = 200 + r.below(400); break;
    case 3: want = 3000 + r.below(9000); break;
    default: want = 60000 + r.below(80000); break;
    }
    std::string s;
    while (s.size() < want) {
        if (!s.empty()) s += ' ';
        s += words[r.below(sizeof words / sizeof *words)];
        s += std::to_string(r.below(100));
    }
    return s;
}

int pictureType(Rng &r, int i)
{
    static constexpr int ranges[][2] = { { 0, 10 }, { 10, 7 }, { 17, 4 } };
    if (i == 0 && r.chance(1, 2)) return 3;
    const auto &range = ranges[std::min(i, 2)];
    return range[0] + static_cast<int>(r.below(static_cast<u64>(range[1])));
}

Bytes genPicture(Rng &r, int sizeClass, std::string &mime)
{
    std::size_t n = sizeClass == 0 ? 20 + r.below(60) : sizeClass == 1 ? 300 + r.below(900) : sizeClass == 2 ? 5000 + r.below(20000) : 66000 + r.below(60000);
    Bytes b = randBytes(r, n);
    if (r.chance(1, 2)) {
        const u8 sig[] = { 0xFF, 0xD8, 0xFF, 0xE0, 0, 0x10, 'J', 'F', 'I', 'F' };
        std::copy(sig, sig + sizeof sig, b.begin());
        mime = "image/jpeg";
    } else {
        const u8 sig[] = { 0x89, 'P', 'N', 'G', 0x0D, 0x0A, 0x1A, 0x0A };
        std::copy(sig, sig + sizeof sig, b.begin());
        mime = "image/png";
    }
    return b;
}

std::string base64(const Bytes &b)
{
    static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    for (std::size_t i = 0; i < b.size(); i += 3) {
        u32 v = static_cast<u32>(b[i]) << 16;
        if (i + 1 < b.size()) v |= static_cast<u32>(b[i + 1]) << 8;
        if (i + 2 < b.size()) v |= b[i + 2];
        r += t[v >> 18]; r += t[(v >> 12) & 63];
        r += i + 1 < b.size() ? t[(v >> 6) & 63] : '=';
        r += i + 2 < b.size() ? t[v & 63] : '=';
    }
    return r;
}

bool unbase64(std::string_view s, Bytes &out)
{
    auto val = [](char c) -> int {
        if (c >= 'A' && c <= 'Z') return c - 'A';
        if (c >= 'a' && c <= 'z') return c - 'a' + 26;
        if (c >= '0' && c <= '9') return c - '0' + 52;
        if (c == '+') return 62;
        if (c == '/') return 63;
        return -1;
    };
    if (s.size() % 4) return false;
    for (std::size_t i = 0; i < s.size(); i += 4) {
        int a = val(s[i]), b = val(s[i + 1]), c = s[i + 2] == '=' ? 0 : val(s[i + 2]), d = s[i + 3] == '=' ? 0 : val(s[i + 3]);
        if (a < 0 || b < 0 || c < 0 || d < 0) return false;
        u32 v = static_cast<u32>(a << 18 | b << 12 | c << 6 | d);
        out.push_back(static_cast<u8>(v >> 16));
        if (s[i + 2] != '=') out.push_back(static_cast<u8>(v >> 8));
        if (s[i + 3] != '=') out.push_back(static_cast<u8>(v));
    }
    return true;
}

u32 crc32zlib(const u8 *p, std::size_t n)
{
    static u32 table[256];
    static bool init = false;
    if (!init) {
        for (u32 i = 0; i < 256; ++i) { u32 c = i; for (int k = 0; k < 8; ++k) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1; table[i] = c; }
        init = true;
    }
    u32 c = 0xFFFFFFFFu;
    for (std::size_t i = 0; i < n; ++i) c = table[(c ^ p[i]) & 0xFF] ^ (c >> 8);
    return ~c;
}

std::size_t docScale = 1;

Bytes genPrefix(Choices &c, const std::string &pfx, bool zeros)
{
    if (!c.flag(pfx + ".prefix", 1, 16)) return {};
    Rng r = c.rng(pfx + ".prefix.seed");
    if (zeros && r.chance(1, 2)) return Bytes(r.chance(1, 2) ? 4 + r.below(20) : 4 + r.below(1500), 0);
    const auto frame = BW().u8_(0).str("Prefix " + std::to_string(r.below(100))).b;
    const u64 n = 10 + frame.size() + r.below(r.chance(1, 2) ? 20 : 3000);
    BW w;
    w.str("ID3").be(0x0300, 2).u8_(0).u8_(static_cast<u8>(n >> 21)).u8_(static_cast<u8>(n >> 14 & 0x7F)).u8_(static_cast<u8>(n >> 7 & 0x7F)).u8_(static_cast<u8>(n & 0x7F));
    w.str("TIT2").be(frame.size(), 4).be(0, 2).bytes(frame).zero(n - 10 - frame.size());
    return w.b;
}

std::size_t prefixLength(const Bytes &b)
{
    std::size_t n = 0;
    while (n < b.size() && !b[n]) ++n;
    if (n >= 4) return n;
    if (b.size() < 10 || b[0] != 'I' || b[1] != 'D' || b[2] != '3') return 0;
    return std::min<std::size_t>(b.size(), 10 + ((b[6] & 0x7Fu) << 21 | (b[7] & 0x7Fu) << 14 | (b[8] & 0x7Fu) << 7 | (b[9] & 0x7Fu)));
}

// analyses what follows the prefix
static Analysis analyzePrefixed(const Bytes &b, Analysis (*f)(const Bytes &))
{
    const auto n = prefixLength(b);
    if (!n) return f(b);
    Analysis a = f(Bytes(b.begin() + static_cast<std::ptrdiff_t>(n), b.end()));
    for (auto &t : a.tags) t.off += n;
    for (auto &m : a.media) m.off += n;
    for (auto &t : a.tracks) for (auto &x : t.spans) x.off += n;
    a.mediaBegin += n, a.mediaEnd += n;
    return a;
}

Doc genDoc(Choices &c, const std::string &pfx, Fmt fmt)
{
    Doc d;
    switch (fmt) {
    case Fmt::Mp3: d = genMp3(c, pfx); break;
    case Fmt::Adts: d = genAdts(c, pfx); break;
    case Fmt::Wav: d = genWav(c, pfx); break;
    case Fmt::Ivf: d = genIvf(c, pfx); break;
    case Fmt::Unknown: d = genUnknown(c, pfx); break;
    case Fmt::Flac: d = genFlac(c, pfx); break;
    case Fmt::Ogg: d = genOgg(c, pfx); break;
    case Fmt::Mp4: d = genMp4(c, pfx); break;
    case Fmt::Mkv: d = genMkv(c, pfx); break;
    default:;
    }
    d.fmt = fmt;
    if (fmt == Fmt::Mkv || fmt == Fmt::Ogg) {
        const auto prefix = genPrefix(c, pfx, true);
        d.bytes.insert(d.bytes.begin(), prefix.begin(), prefix.end());
    }
    if (prefixLength(d.bytes) && fmt >= Fmt::Ogg) d.sub += " prefix=" + std::to_string(prefixLength(d.bytes));
    return d;
}

Analysis analyze(const Bytes &b, Fmt fmt)
{
    switch (fmt) {
    case Fmt::Flac: return analyzeFlac(b);
    case Fmt::Ogg: return analyzePrefixed(b, analyzeOgg);
    case Fmt::Mp4: return analyzeMp4(b);
    case Fmt::Mkv: return analyzePrefixed(b, analyzeMkv);
    default: return analyzeTagged(b, fmt);
    }
}

} // namespace sim
