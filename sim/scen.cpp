#include "scen_int.h"

#include <tagparser/abstractcontainer.h>
#include <tagparser/abstracttrack.h>
#include <tagparser/exceptions.h>

#include "resources/config.h"

#include <cstdio>
#include <optional>

using namespace TagParser;

namespace sim {

void Run::fail(const std::string &p, const std::string &cls, const std::string &msg)
{
    SimScope sc;
    viol.push_back({ p, cls, msg });
    if (verbose) std::fprintf(stderr, "!! %s %s: %s\n", p.c_str(), cls.c_str(), msg.c_str());
}
void Run::note(const std::string &s)
{
    SimScope sc;
    log += s + "\n";
    if (verbose) std::fprintf(stderr, "%s\n", s.c_str());
}

static void statDelta(u64 *dst, const u64 *before) { for (int i = 0; i < static_cast<int>(Op::Count); ++i) dst[i] = S().fs.opStat[i] - before[i]; }

Attempt attempt(Run &r, std::unique_ptr<MediaFileInfo> &info, const Paths &paths, const Step &step, const Model &before, Fmt fmt, const Hooks &h)
{
    Attempt a;
    a.model = before;
    Monitor mon;
    auto progress = mon.make(h.callbacks, h.pctCallback);
    const bool fresh = !info;
    if (fresh) info = std::make_unique<MediaFileInfo>(paths.file);
    else S().fs.fds.size();
    info->setForceFullParse(step.fullParse);
    applyHandling(*info, step.st);
    auto &fs = S().fs;
    u64 st[static_cast<int>(Op::Count)];
    std::copy(fs.opStat, fs.opStat + static_cast<int>(Op::Count), st);
    u64 ops0 = fs.opCount, steps0 = stepCount(), al0 = S().allocs;
    if (h.beforeParse) h.beforeParse(*info, *progress);
    mon.inCall = true;
    a.parse = guarded([&](Diagnostics &d) {
        info->open(step.readOnly);
        info->parseEverything(d, *progress);
    });
    mon.inCall = false;
    if (h.afterParse) h.afterParse(*info, *progress);
    a.parseOps = fs.opCount - ops0;
    a.parseSteps = stepCount() - steps0;
    a.parseAllocs = S().allocs - al0;
    statDelta(a.parseOpStat, st);
    ++r.executions;
    if (a.parse.out != Out::Ok) { a.progressProblem = mon.problem; return a; }
    a.parsed = true;
    const auto edit = [&] {
        applyEdits(*info, step.edits, a.model, fmt, a.editLog);
        applySettings(*info, step.st, paths.saveArg);
        a.tagDump = dumpTags(*info);
    };
    if (h.editsInSut) {
        SutScope sut;
        edit();
    } else {
        edit();
    }
    if (step.closeFirst) info->close();
    mon.hook = h.onApplyCallback;
    const u64 calls0 = mon.calls;
    if (mon.hook) {
        auto hook = mon.hook;
        mon.hook = [hook, calls0](AbortableProgressFeedback &f, u64 n) { hook(f, n - calls0); };
    }
    std::copy(fs.opStat, fs.opStat + static_cast<int>(Op::Count), st);
    ops0 = fs.opCount, steps0 = stepCount(), al0 = S().allocs;
    if (h.beforeApply) h.beforeApply(*info, *progress);
    mon.inCall = true;
    a.apply = guarded([&](Diagnostics &d) { info->applyChanges(d, *progress); });
    mon.inCall = false;
    if (h.afterApply) h.afterApply(*info, *progress);
    a.applied = true;
    a.ops = fs.opCount - ops0;
    a.steps = stepCount() - steps0;
    a.allocs = S().allocs - al0;
    a.calls = mon.calls - calls0;
    statDelta(a.opStat, st);
    a.progressProblem = mon.problem;
    ++r.executions;
    return a;
}

Fmt pickFmt(Run &r, const std::string &name)
{
    static const Fmt order[] = { Fmt::Mp3, Fmt::Flac, Fmt::Ogg, Fmt::Mp4, Fmt::Mkv, Fmt::Adts, Fmt::Wav, Fmt::Ivf, Fmt::Unknown };
    // weights of the formats; formats are disabled for properties which are known not to hold for them (see DESIGN.md)
    static const int weights[] = { 5, 4, 4, 5, 5, 1, 1, 1, 1 };
    i64 total = 0;
    for (auto w : weights) total += w;
    if (r.c.overrides.count(name)) return order[r.c.pick(name, 0, 8)];
    i64 v = static_cast<i64>(r.c.rng(name + ".w").below(static_cast<u64>(total)));
    int i = 0;
    while (v >= weights[i]) v -= weights[i++];
    r.c.log[name] = { i, 0, 8 };
    return order[i];
}

std::string diffBytes(const Bytes &a, const Bytes &b)
{
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    return "sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + ", first difference at " + std::to_string(i);
}

// ---------------------------------------------------------------- fault-free consequences of one applied step
Before capture(const std::string &real, Fmt fmt)
{
    SimScope sc;
    Before b;
    b.content = S().fs.content(real);
    b.an = analyze(b.content, fmt);
    if (auto *f = S().fs.file(real)) b.fileId = f->id;
    for (auto &p : S().fs.list()) {
        b.files.insert(p);
        b.hashes[p] = S().fs.file(p)->hash();
    }
    return b;
}

std::string cmpTracks(const Analysis &a, const Analysis &b, std::string &cls)
{
    if (a.tracks.size() != b.tracks.size()) { cls = "track-count"; return "number of tracks changed from " + std::to_string(a.tracks.size()) + " to " + std::to_string(b.tracks.size()); }
    for (std::size_t i = 0; i < a.tracks.size(); ++i) {
        const auto &x = a.tracks[i], &y = b.tracks[i];
        if (x.id != y.id) { cls = "track-order"; return "track " + std::to_string(i) + " is " + y.id + " instead of " + x.id; }
        if (x.cfg != y.cfg) { cls = "codec-config"; return "codec configuration of track " + x.id + " changed from " + printable(x.cfg, 160) + " to " + printable(y.cfg, 160); }
        for (auto *k : { "name", "lang", "ietf", "enabled", "default", "forced" }) {
            const auto get = [&](const ATrack &t) { const auto i = t.attr.find(k); return i == t.attr.end() ? std::string() : i->second; };
            if (get(x) != get(y)) { cls = "attribute"; return std::string(k) + " of track " + x.id + " is \"" + printable(get(y)) + "\" instead of \"" + printable(get(x)) + "\""; }
        }
        if (x.samples.size() != y.samples.size()) { cls = "sample-count"; return "track " + x.id + " has " + std::to_string(y.samples.size()) + " instead of " + std::to_string(x.samples.size()) + " samples"; }
        for (std::size_t k = 0; k < x.samples.size(); ++k) if (x.samples[k] != y.samples[k]) { cls = "sample-data"; return "sample " + std::to_string(k) + " of track " + x.id + " has different bytes"; }
        if (x.ts != y.ts) { cls = "timing"; return "timing of track " + x.id + " changed"; }
    }
    return {};
}

std::string cmpOther(const Analysis &a, const Analysis &b, const Model &m)
{
    auto exp = a.other, act = b.other;
    exp.erase(std::remove_if(exp.begin(), exp.end(), [](auto &x) { return x.first == "additional Tags element"; }), exp.end()); // merged when saving
    if (m.tracksAltered)
        for (auto &t : a.tracks)
            if (m.foreign.count(t.id) || std::find(m.trackOrder.begin(), m.trackOrder.end(), t.id) == m.trackOrder.end())
                exp.erase(std::remove_if(exp.begin(), exp.end(), [&](auto &x) { return x.first.compare(0, t.id.size() + 5, "trak" + t.id + "/") == 0; }), exp.end());
    for (auto &[id, old] : m.foreign)
        for (auto &x : m.foreignAn.other)
            if (x.first.compare(0, old.size() + 5, "trak" + old + "/") == 0) exp.emplace_back("trak" + id + x.first.substr(old.size() + 4), x.second);
    for (auto &[old, now] : m.attachmentsChanged)
        for (auto &x : exp) if (x.first == "attachment" && x.second == old) { x.second = now; break; }
    for (auto &name : m.attachmentsRemoved) {
        for (auto i = exp.begin(); i != exp.end(); ++i)
            if (i->first == "attachment" && i->second.compare(0, name.size() + 1, name + "|") == 0) { exp.erase(i); break; }
    }
    exp.insert(exp.end(), m.attachmentsAdded.begin(), m.attachmentsAdded.end());
    if (m.titleChanged) { // only the last of several title elements is kept
        const std::string id = "info " + hex(0x7BA9);
        exp.erase(std::remove_if(exp.begin(), exp.end(), [&](auto &x) { return x.first == id; }), exp.end());
        if (!m.title.empty()) exp.emplace_back(id, hex(0x7BA9) + "=" + std::to_string(m.title.size()) + ":" + hex(hashBytes(m.title.data(), m.title.size())));
    }
    for (auto &i : a.info)
        for (auto &k : b.info)
            if (i.first == k.first && i.second != k.second && !(m.tagsRemoved && i.first.compare(0, 6, "vendor") == 0)) return "\"" + i.first + "\" changed from " + printable(i.second, 80) + " to " + printable(k.second, 80);
    std::stable_sort(exp.begin(), exp.end(), [](auto &x, auto &y) { return x.first < y.first; });
    std::stable_sort(act.begin(), act.end(), [](auto &x, auto &y) { return x.first < y.first; });
    for (std::size_t i = 0; i < std::max(exp.size(), act.size()); ++i) {
        if (i >= act.size()) return "\"" + exp[i].first + "\" (" + printable(exp[i].second, 80) + ") is missing";
        if (i >= exp.size()) return "unexpected \"" + act[i].first + "\" (" + printable(act[i].second, 80) + ")";
        if (exp[i] != act[i]) return "expected \"" + exp[i].first + "\" (" + printable(exp[i].second, 120) + ") but found \"" + act[i].first + "\" (" + printable(act[i].second, 120) + ")";
    }
    return {};
}

bool isId3Fmt(Fmt f) { return f <= Fmt::Unknown; }

std::string dirOf(const std::string &p) { return p.substr(0, p.rfind('/')); }

// where a backup has been requested
std::string backupLocation(const Paths &p, const std::string &backupDir)
{
    if (backupDir.empty()) return dirOf(p.real);
    if (backupDir[0] == '/') return S().fs.resolve(backupDir);
    return S().fs.resolve(dirOf(p.real) + "/" + backupDir);
}

// tells which field has neither been changed by an edit nor is present anymore
static std::string lostUntouched(const std::vector<NTag> &before, const std::vector<NTag> &model, const std::vector<NTag> &after)
{
    for (std::size_t i = 0; i < before.size(); ++i) {
        // a tag which no edit concerns at all
        auto same = [&](const NTag &a, const NTag &b) {
            if (a.type != b.type || a.target != b.target || a.fields.size() != b.fields.size()) return false;
            for (std::size_t k = 0; k < a.fields.size(); ++k) if (a.fields[k].id != b.fields[k].id || a.fields[k].val != b.fields[k].val) return false;
            return true;
        };
        if (std::none_of(model.begin(), model.end(), [&](auto &t) { return same(before[i], t); })) continue;
        bool found = before[i].fields.empty();
        for (auto &t : after) if (compareTags({ before[i] }, { t }).empty()) found = true;
        if (!found) return "the tag " + before[i].type + " " + printable(before[i].target) + " has not been edited but is not present anymore as it was";
    }
    for (auto &t : before)
        for (auto &f : t.fields) {
            auto has = [&](const std::vector<NTag> &v, bool exact) {
                for (auto &x : v) {
                    if (x.type != t.type || x.target != t.target) continue;
                    for (auto &y : x.fields) if (y.id == f.id && (!exact || y.val == f.val)) return true;
                }
                return false;
            };
            if (has(model, true) && !has(after, false)) return "field " + printable(f.id) + " of tag " + t.type + " " + printable(t.target) + " has not been edited but is missing";
        }
    return {};
}

// checks everything which must hold after a successful, undisturbed apply; returns the new analysis
Analysis checkApplied(Run &r, const Before &b, const Paths &paths, const Step &step, const Attempt &a, Fmt fmt, const std::string &what)
{
    SimScope sc;
    auto &fs = S().fs;
    const auto target = step.st.saveAs ? paths.save : paths.real;
    const auto content = fs.content(target);
    Analysis an = analyze(content, fmt);
    const std::string f = fmtName(fmt);
    std::string cls;
    // note: Some facts are covered by more than one property.
    Analysis expected;
    expected.tracks = expectedTracks(b.an.tracks, a.model);
    if (auto m = cmpTracks(expected, an, cls); !m.empty()) {
        r.fail("P07", f + "-" + cls, what + m);
        r.fail("P22", f + "-" + cls, what + m);
        if (cls == "codec-config" || cls == "track-count" || cls == "attribute") r.fail("P09", f + "-" + cls, what + m);
        else if (!isId3Fmt(fmt)) r.fail("P08", f + "-" + cls, what + m);
    }
    if (b.an.err.empty() && !an.err.empty()) {
        r.fail("P22", f + "-structure", what + an.err.front());
        r.fail("P08", f + "-structure", what + an.err.front() + (an.err.size() > 1 ? " (and " + std::to_string(an.err.size() - 1) + " more)" : ""));
        for (auto &e : an.err) {
            bool ofTag = isId3Fmt(fmt);
            for (auto *s : { "ID3v2", "Vorbis comment", "ilst", "data atom", "SimpleTag" }) ofTag = ofTag || e.find(s) != std::string::npos;
            if (ofTag) { r.fail("P10", f + "-malformed", what + e); break; }
        }
    }
    if (auto m = cmpOther(b.an, an, a.model); !m.empty()) {
        r.fail("P09", f + "-other", what + m);
        r.fail("P22", f + "-other", what + m);
    }
    if (auto m = compareTags(a.model.tags, an.tags); !m.empty()) {
        r.fail("P10", f + "-tags", what + m);
        if (auto u = lostUntouched(b.an.tags, a.model.tags, an.tags); !u.empty()) r.fail("P09", f + "-tags", what + u);
    }

    // rewritten?
    const bool rewritten = step.st.saveAs || (fs.file(target) && fs.file(target)->id != b.fileId);
    std::vector<std::string> fresh;
    for (auto &p : fs.list()) if (!b.files.count(p) && p != target) fresh.push_back(p);
    r.hit(rewritten ? (step.st.saveAs ? "apply.saveas" : "apply.rewrite") : "apply.inplace");
    if (rewritten && !step.st.saveAs) {
        // a complete backup is left at the requested location
        if (fresh.size() != 1) {
            r.fail("P15", "backup-count", what + std::to_string(fresh.size()) + " new files besides the rewritten one");
            if (fresh.empty() && step.st.forceRewrite) r.fail("P11", f + "-backup", what + "rewriting was forced but no backup was left");
        }
        else {
            if (fs.content(fresh[0]) != b.content) r.fail("P15", "backup-content", what + "the backup " + fresh[0] + " is not identical to the original");
            if (dirOf(fresh[0]) != backupLocation(paths, step.st.backupDir)) r.fail("P15", "backup-location", what + "the backup is " + fresh[0] + " but was requested in " + backupLocation(paths, step.st.backupDir));
        }
    } else if (!fresh.empty()) {
        r.fail("P20", "stray-file", what + "stray file " + fresh[0]);
    }
    for (auto &p : b.files) {
        if (p == paths.real) continue;
        if (!fs.file(p) || fs.file(p)->hash() != b.hashes.at(p)) {
            if (p == target) continue;
            r.fail("P15", "existing-file-touched", what + "the existing file " + p + " was changed or removed");
        }
    }
    if (step.st.saveAs && fs.content(paths.real) != b.content) r.fail("P12", "source-changed", what + "the source file was changed");
    if (step.st.forceRewrite && !rewritten) r.fail("P11", f + "-force", what + "rewriting was forced but the file was not rewritten");

    if (an.livePositions && content != b.content) r.fail("P08", f + "-position", what + std::to_string(an.livePositions) + " cluster positions are zero");

    // padding and placement
    const auto &s = step.st;
    if (fmt == Fmt::Mkv) {
        const auto mux = s.preserveMux && !b.an.muxApp.empty() ? b.an.muxApp : std::string(APP_NAME " v" APP_VERSION);
        const auto writing = s.preserveWrite && !b.an.writingApp.empty() ? b.an.writingApp : s.app.empty() ? mux : s.app;
        if (an.muxApp != mux) r.fail("P09", f + "-app", what + "the muxing application is " + printable(an.muxApp) + " instead of " + printable(mux) + " (" + s.describe() + ")");
        if (an.writingApp != writing) r.fail("P09", f + "-app", what + "the writing application is " + printable(an.writingApp) + " instead of " + printable(writing) + " (" + s.describe() + ")");
    }
    if (an.padding >= 0) {
        const u64 pad = static_cast<u64>(an.padding);
        if (rewritten) {
            bool hasPadCarrier = true;
            if (isId3Fmt(fmt)) { hasPadCarrier = false; for (auto &t : an.tags) if (t.type.compare(0, 5, "id3v2") == 0) hasPadCarrier = true; }
            u64 expect = hasPadCarrier ? s.prefPad : 0;
            if (fmt == Fmt::Mp4 || fmt == Fmt::Mkv) { // smallest possible padding element
                if (fmt == Fmt::Mp4 && expect && expect < 8) expect = 8;
                if (fmt == Fmt::Mkv && expect == 1) expect = 2;
            }
            if (expect != ~0ull && pad != expect) r.fail("P11", f + "-padding", what + "padding is " + std::to_string(pad) + " after rewriting but " + std::to_string(expect) + " was preferred (" + s.describe() + ")");
        } else if (!(pad - static_cast<u64>(an.padBehind) >= s.minPad && pad <= s.maxPad) && !(fmt == Fmt::Flac && pad + 4 >= s.minPad && pad + 4 <= s.maxPad) && content != b.content) {
            // note: The header of the padding block of FLAC files may or may not be counted as padding.
            bool trailingOnly = isId3Fmt(fmt);
            for (auto &t : an.tags) if (t.type.compare(0, 5, "id3v2") == 0) trailingOnly = false;
            for (auto &t : b.an.tags) if (t.type.compare(0, 5, "id3v2") == 0) trailingOnly = false;
            if (!trailingOnly) r.fail("P11", f + "-padding-range", what + "padding is " + std::to_string(pad) + " after updating in place (" + s.describe() + ")");
        }
    }
    for (const auto pad : an.paddings)
        if (pad != s.prefPad) r.fail("P11", f + "-padding", what + "padding of a comment is " + std::to_string(pad) + " after rewriting but " + std::to_string(s.prefPad) + " was preferred (" + s.describe() + ")");
    if (s.forceTagPos && s.tagPos != 2 && an.tagPos && an.tagPos != s.tagPos + 1) r.fail("P11", f + "-tagpos", what + "tags are " + (an.tagPos == 1 ? "before" : an.tagPos == 2 ? "behind" : "before and behind") + " the media data (" + s.describe() + ")");
    if (s.forceIndexPos && !(fmt == Fmt::Mp4 && s.forceTagPos) && s.indexPos != 2 && an.indexPos && an.indexPos != s.indexPos + 1) r.fail("P11", f + "-indexpos", what + "index is " + (an.indexPos == 1 ? "before" : an.indexPos == 2 ? "behind" : "before and behind") + " the media data (" + s.describe() + ")");
    if (!a.progressProblem.empty()) r.fail("P18", "progress", what + a.progressProblem);
    return an;
}

std::string criticalsOf(const Result &res, std::size_t max)
{
    std::string s;
    for (auto &m : res.diag) if (m.level() >= DiagLevel::Critical && max--) s += m.context() + ": " + m.message() + "; ";
    return s;
}

// reparses a file with the library alone
Parsed parseFile(Run &r, const std::string &path, bool full, const Analysis *an)
{
    Parsed p;
    MediaFileInfo info(path);
    info.setForceFullParse(full);
    AbortableProgressFeedback progress;
    p.res = guarded([&](Diagnostics &d) { info.open(true); info.parseEverything(d, progress); });
    if (p.res.out == Out::Ok) {
        p.dump = dumpInfo(info, true, &p.res.diag);
        p.tags = dumpTags(info);
        p.padding = info.paddingSize();
        if (an) {
            p.trackProblem = compareTrackInfo(info, *an);
            p.tagProblem = compareTagInfo(info, *an);
        }
    }
    ++r.executions;
    return p;
}

void checkFdsClosed(Run &r, const std::string &what)
{
    auto &fs = S().fs;
    if (!fs.fds.empty()) {
        r.fail("P20", "fd-leak", what + std::to_string(fs.fds.size()) + " descriptor(s) left open, e.g. " + fs.fds.begin()->second.path);
        fs.fds.clear();
    }
}

struct HistOpts {
    int maxSteps = 4, maxEdits = 4;
    bool noop = false, saveAs = false, shortIo = false, oldBackups = false, tracks = false, padRange = false;
};

void backupOptions(Run &r, const std::string &pfx, Settings &s)
{
    switch (r.c.weighted(pfx + ".backup", { 5, 1, 1, 1 })) {
    case 1: s.backupDir = "/sim/bak"; break;
    case 2: s.backupDir = "rel"; break;
    case 3: s.backupDir = "../bak"; break;
    default:;
    }
}

void addOldBackups(Run &r, const Paths &p)
{
    const int n = static_cast<int>(r.c.pick("oldbackups", 0, 3));
    Rng g = r.c.rng("oldbackups.content");
    for (int i = 0; i < n; ++i) {
        const auto suffix = i ? "." + std::to_string(i) + ".bak" : std::string(".bak");
        S().fs.addFile(p.real + suffix, randBytes(g, 10 + g.below(4000)));
        const auto ext = p.real.substr(p.real.rfind('.'));
        const std::string stem = p.real.substr(p.real.rfind('/') + 1, p.real.size() - p.real.rfind('/') - 1 - ext.size());
        for (auto *dir : { "/sim/bak/", "/sim/d/rel/" })
            S().fs.addFile(dir + (i ? stem + "." + std::to_string(i) + ext : stem + ext), randBytes(g, 10 + g.below(4000)));
    }
}

// makes an edit which consumes the present padding almost or exactly
static void tuneEdit(Choices &c, const std::string &pfx, Fmt fmt, const Before &b, const Model &model, Step &step)
{
    const i64 left = static_cast<i64>(c.pick(pfx + ".left", 0, 18)) - 6;
    i64 overhead = fmt == Fmt::Mp4 ? 24 : fmt == Fmt::Mkv ? 22 : fmt == Fmt::Flac ? 10 : 11, bytesPerChar = 1;
    for (const auto &t : model.tags) {
        if (t.type == "id3v1") continue;
        if (t.type.compare(0, 5, "id3v2") == 0 && t.type != "id3v2.4") bytesPerChar = 2;
        for (const auto &f : t.fields)
            if (f.id == "©nam" || f.id == "\xA9nam" || f.id == "TITLE" || f.id == "TIT2" || f.id == "TT2") { overhead = -static_cast<i64>(f.val.size()) * bytesPerChar; break; }
        break;
    }
    const i64 len = (b.an.padding - left - overhead) / bytesPerChar;
    if (len < 1) return;
    Edit e;
    Val v;
    v.text.assign(static_cast<std::size_t>(len), 'x');
    e.vals.push_back(std::move(v));
    step.edits.assign(1, std::move(e));
    step.st.forceRewrite = step.st.forceTagPos = step.st.forceIndexPos = step.st.saveAs = false;
    step.st.tagPos = step.st.indexPos = 2;
    step.st.minPad = 0, step.st.maxPad = 100000;
}

// determines what padding is left when updating in place and adjusts the limits to be just met or just missed; returns whether rewriting is expected
static int aimAtPadding(Run &r, const std::string &pfx, const Paths &paths, Fmt fmt, const Before &b, const Model &model, Step &step)
{
    auto &fs = S().fs;
    Step trial = step;
    trial.st.forceRewrite = false;
    trial.st.minPad = 0;
    trial.st.maxPad = 1u << 30;
    const auto snap = fs.snapshot();
    Model m = model;
    std::unique_ptr<MediaFileInfo> info;
    Attempt a = attempt(r, info, paths, trial, m, fmt, Hooks());
    info.reset();
    int res = -1;
    if (a.applied && a.apply.out == Out::Ok && !a.apply.critical() && fs.file(paths.real) && fs.file(paths.real)->id == b.fileId) {
        const auto an = analyze(fs.content(paths.real), fmt);
        bool carrier = an.err.empty() && an.padding >= 0;
        if (isId3Fmt(fmt)) {
            carrier = false;
            for (auto &t : an.tags) if (t.type.compare(0, 5, "id3v2") == 0) carrier = true;
        }
        if (carrier) {
            const u64 pad = static_cast<u64>(an.padding), front = pad - static_cast<u64>(an.padBehind), slack = fmt == Fmt::Flac ? 4 : 0; // the header of the padding may or may not be counted
            trial.st.prefPad = pad;
            switch (r.c.pick(pfx + ".kind", 0, 2)) {
            case 0: trial.st.minPad = front, trial.st.maxPad = pad + slack, res = 0; break;
            case 1: trial.st.minPad = front + slack + 1, trial.st.maxPad = trial.st.minPad + r.c.pick(pfx + ".more", 0, 1000), trial.st.prefPad = trial.st.minPad, res = 1; break;
            default: if (pad) trial.st.minPad = 0, trial.st.maxPad = pad - 1, trial.st.prefPad = 0, res = 1;
            }
            if (res >= 0) { step = trial; r.hit(std::string("range.") + (res ? "missed" : "met")); }
        }
    }
    fs.restore(snap);
    return res;
}

// ---------------------------------------------------------------- scenario: histories of edits without faults
static void scenHistory(Run &r, const HistOpts &o)
{
    auto &c = r.c;
    const Fmt fmt = o.tracks ? (c.flag("tfmt", 1, 2) ? Fmt::Mp4 : Fmt::Mkv) : pickFmt(r);
    Doc doc = genDoc(c, "doc", fmt);
    Paths paths = setupFs(doc, c.flag("symlink", 1, 6));
    spellPaths(c, paths);
    if (c.flag("oldbak", 1, o.oldBackups ? 1 : 5)) addOldBackups(r, paths);
    r.note("document: " + std::string(fmtName(fmt)) + " " + doc.sub + ", " + std::to_string(doc.bytes.size()) + " bytes");
    r.hit(std::string("fmt.") + fmtName(fmt));
    auto &fs = S().fs;
    if (o.shortIo && c.flag("shortio", 1, 3)) { fs.shortIoSeed = c.seed | 1; fs.eintrSeed = c.seed | 1; }
    S().freezeClock = true;
    Before b = capture(paths.real, fmt);
    if (r.verbose) r.note(b.an.summary());
    Model model;
    model.tags = b.an.tags;
    std::unique_ptr<MediaFileInfo> info;
    const int steps = static_cast<int>(c.pick("steps", 1, o.maxSteps));
    Settings handling;
    if (o.tracks && fmt == Fmt::Mp4 && c.flag("foreign", 1, 2)) { // tracks of another file can be added
        const Doc other = genDoc(c, "fdoc", fmt);
        model.foreignAn = analyze(other.bytes, fmt);
        if (!model.foreignAn.err.empty()) r.fail("HARNESS", "generator", model.foreignAn.err.front());
        if (other.sub.find("frag") == std::string::npos) {
            model.foreignPath = "/sim/d/other.m4a";
            S().fs.addFile(model.foreignPath, other.bytes);
        }
    }
    if (c.flag("handling", 1, 2)) genHandling(c, "handling", fmt, handling);
    if (!doc.complete) handling.partialParse = false;
    Step step;
    bool sound = b.an.err.empty();
    if (!sound) r.fail("HARNESS", "generator", b.an.err.front());
    if (sound && c.flag("readback", 1, 3)) { // what is told about a file made by other software
        Parsed p = parseFile(r, paths.real, c.flag("readback.full", 1, 2), &b.an);
        if (p.res.out != Out::Ok) r.fail("P10", std::string(fmtName(fmt)) + "-parse", "initial file: parsing a valid file failed: " + p.res.describe());
        if (!p.trackProblem.empty()) r.fail("P22", std::string(fmtName(fmt)) + "-initial", "initial file: " + p.trackProblem);
        if (!p.tagProblem.empty()) r.fail("P10", std::string(fmtName(fmt)) + "-initial", "initial file: " + p.tagProblem);
    }
    for (int i = 0; i < steps + (o.noop ? 2 : 0); ++i) {
        const std::string pfx = "s" + std::to_string(i);
        const bool noop = i >= steps;
        const std::string what = "step " + std::to_string(i) + (noop ? " (no change): " : ": ");
        if (!noop) {
            step = Step();
            if (c.flag(pfx + ".edit", 9, 10)) step.edits = genEdits(c, pfx + ".e", fmt, o.maxEdits);
            if (fmt == Fmt::Mp4 && c.flag(pfx + ".wild", 1, 12)) for (auto &e : step.edits) for (auto &v : e.vals) v.wild = true;
            if ((fmt == Fmt::Mp4 || fmt == Fmt::Mkv) && c.flag(pfx + ".tracks", o.tracks ? 4 : 1, o.tracks ? 5 : 12)) genTrackEdits(c, pfx + ".t", fmt, step.edits);
            step.st = genSettings(c, pfx + ".st", fmt);
            backupOptions(r, pfx, step.st);
            step.st.partialParse = handling.partialParse, step.st.noNormalise = handling.noNormalise, step.st.preserveMux = handling.preserveMux, step.st.preserveWrite = handling.preserveWrite, step.st.convertTotal = handling.convertTotal, step.st.app = handling.app;
            step.fullParse = c.flag(pfx + ".full", 1, 4);
            step.readOnly = c.flag(pfx + ".ro", 1, 4);
            step.closeFirst = isId3Fmt(fmt) && c.flag(pfx + ".closefirst", 1, 8);
            step.st.saveAs = o.saveAs && c.flag(pfx + ".saveas", 1, 8);
        } else {
            step.edits.clear();
            step.st.saveAs = false;
        }
        const bool same = i && c.flag(pfx + ".same", 1, 3);
        if (!same) { info.reset(); model.unrepresentable = false; }
        b = capture(paths.real, fmt);
        model.attachmentsAdded.clear();
        model.titleChanged = false;
        model.attachmentsRemoved.clear();
        model.attachmentsChanged.clear();
        model.attachmentRest = [&b, &model](const std::string &x) {
            for (auto &o : b.an.other) if (o.first == "attachment" && o.second.compare(0, x.size(), x) == 0 && (o.second.size() == x.size() || o.second[x.size()] == '|')) return o.second.substr(x.size());
            return std::string("?");
        };
        model.tracksAltered = false;
        model.trackOrder.clear();
        model.trackAttr.clear();
        model.foreign.clear();
        model.foreignInfo.reset();
        if (!noop && b.an.padding > 0 && b.an.padding < 20000 && c.flag(pfx + ".tune", 1, 6)) tuneEdit(c, pfx + ".tune", fmt, b, model, step);
        int expectRewritten = -1;
        if (o.padRange && !noop && !same && sound && !step.st.saveAs && c.flag(pfx + ".range", 1, 3)) expectRewritten = aimAtPadding(r, pfx + ".range", paths, fmt, b, model, step);
        Hooks h;
        h.callbacks = c.flag(pfx + ".cb", 3, 4);
        h.pctCallback = c.flag(pfx + ".pcb", 1, 2);
        Attempt a = attempt(r, info, paths, step, model, fmt, h);
        r.note(what + step.st.describe() + (same ? " [same object]" : " [restart]"));
        if (!a.editLog.empty()) r.note(a.editLog);
        if (!a.parsed) {
            if (sound) r.fail("P10", std::string(fmtName(fmt)) + "-parse", what + "parsing a valid file failed: " + a.parse.describe());
            return;
        }
        if (sound && a.parse.critical()) r.fail(i ? "P08" : "P10", std::string(fmtName(fmt)) + (i ? "-reparse" : "-parse"), what + "critical messages when parsing: " + criticalsOf(a.parse));
        if (a.apply.out != Out::Ok) {
            r.hit("apply.refused");
            r.fail("P22", std::string(fmtName(fmt)) + "-apply", what + "applying failed without any fault: " + a.apply.describe());
            r.fail("P10", std::string(fmtName(fmt)) + "-apply", what + "applying failed without any fault: " + a.apply.describe());
            if (noop) r.fail("P14", std::string(fmtName(fmt)) + "-apply", what + "applying failed without any fault: " + a.apply.describe());
            return;
        }
        const bool critical = a.apply.critical() && !a.model.unrepresentable;
        if (a.model.unrepresentable) r.hit("apply.unrepresentable");
        if (critical) r.fail("P22", std::string(fmtName(fmt)) + "-apply-critical", what + "critical messages when applying without any fault: " + criticalsOf(a.apply));
        if (critical) r.fail("P10", std::string(fmtName(fmt)) + "-apply-critical", what + "critical messages when applying without any fault: " + criticalsOf(a.apply));
        const auto viol0 = r.viol.size();
        if (const bool rewritten = fs.file(paths.real) && fs.file(paths.real)->id != b.fileId; expectRewritten >= 0 && rewritten != !!expectRewritten)
            r.fail("P11", std::string(fmtName(fmt)) + "-range", what + (rewritten ? "the file was rewritten although the padding left would have been within the limits" : "the file was not rewritten although the padding left is not within the limits") + " (" + step.st.describe() + ")");
        Analysis an = checkApplied(r, b, paths, step, a, fmt, what);
        if (r.verbose) r.note("result:\n" + an.summary());
        r.states.insert(hashStr(an.summary()));
        const auto target = step.st.saveAs ? paths.save : paths.real;
        if (r.viol.size() == viol0) {
            // the library reads back what was written
            const bool refull = c.flag(pfx + ".refull", 1, 2);
            Parsed p = parseFile(r, target, refull, &an);
            if (!p.trackProblem.empty()) r.fail("P22", std::string(fmtName(fmt)) + "-readback", what + p.trackProblem);
            if (!p.tagProblem.empty()) r.fail("P10", std::string(fmtName(fmt)) + "-readback", what + p.tagProblem);
            if (p.res.out != Out::Ok) r.fail("P10", std::string(fmtName(fmt)) + "-reparse", what + "the library can not parse the result: " + p.res.describe());
            if (p.res.out != Out::Ok) r.fail("P08", std::string(fmtName(fmt)) + "-reparse", what + "the library can not parse the result: " + p.res.describe());
            else if (p.res.critical()) r.fail("P08", std::string(fmtName(fmt)) + "-reparse", what + "critical messages when parsing the result: " + criticalsOf(p.res));
            // the library tells the padding as it is (of Matroska files only if the whole structure is validated and including elements which are not at the place for padding)
            if (an.padding >= 0 && p.res.out == Out::Ok && fmt != Fmt::Unknown && (fmt != Fmt::Mkv || refull)) {
                const auto padding = static_cast<u64>(an.padding) + an.paddingHeaders;
                if (fmt == Fmt::Mkv ? p.padding < padding : p.padding != padding) r.fail("P11", std::string(fmtName(fmt)) + "-reported", what + "the library reports a padding of " + std::to_string(p.padding) + " bytes but there are " + std::to_string(padding));
            }
        }
        const Bytes now = fs.content(target);
        if (noop && i > steps) {
            if (now != b.content) r.fail("P14", std::string(fmtName(fmt)) + "-fixpoint", what + "applying nothing for the second time changed the file: " + diffBytes(b.content, now));
        }
        if (noop && r.viol.size() == viol0) ++r.nontrivial;
        if (noop && r.viol.size() != viol0 && r.viol[viol0].prop != "P14") r.fail("P14", r.viol[viol0].cls, r.viol[viol0].msg);
        if (step.st.saveAs) {
            if (info->path() != (paths.saveArg.empty() ? paths.save : paths.saveArg)) r.fail("P12", "path", what + "the file information does not refer to the new file but to " + info->path());
            // continue with the saved file
            paths.file = paths.real = paths.save;
            paths.save = paths.save == "/sim/out/saved" + doc.ext ? "/sim/out/saved2" + doc.ext : "/sim/out/saved" + doc.ext;
            return;
        }
        model.tags = an.tags;
        sound = an.err.empty();
        ++r.nontrivial;
        if (r.viol.size() > viol0) return; // do not cascade
    }
    info.reset();
    checkFdsClosed(r, "after the history: ");
}

// makes the same document with media data of several MiB
void enlargeDoc(Choices &c, const std::string &pfx, Doc &doc)
{
    if (doc.bytes.empty() || doc.bytes.size() > 2u << 20) return;
    // clusters of Matroska files are copied as a whole so there need to be many of them
    if (const auto i = doc.sub.find("clusters="); i != std::string::npos && std::atoi(doc.sub.c_str() + i + 9) < 10) return;
    docScale = std::min<std::size_t>(4000, (doc.fmt == Fmt::Mkv ? 7u << 20 : 5u << 20) / doc.bytes.size() + 1);
    Doc big = genDoc(c, pfx, doc.fmt);
    docScale = 1;
    if (big.bytes.size() < 20u << 20) doc = std::move(big);
}

// ---------------------------------------------------------------- dispatch
void executeRun(Run &r)
{
    HistOpts o;
    if (r.prop == "P07" || r.prop == "P08" || r.prop == "P09") { scenHistory(r, o); return; }
    if (r.prop == "P10") { o.maxSteps = 5; o.maxEdits = 6; o.shortIo = true; scenHistory(r, o); return; }
    if (r.prop == "P22") { o.tracks = true; o.maxEdits = 2; scenHistory(r, o); return; }
    if (r.prop == "P11") { o.padRange = true; o.maxSteps = 3; o.maxEdits = 3; scenHistory(r, o); return; }
    if (r.prop == "P14") { o.maxSteps = 2; o.maxEdits = 3; o.noop = true; scenHistory(r, o); return; }
    static const std::set<std::string> faultProps = { "P01", "P02", "P03", "P06", "P12", "P13", "P15", "P18", "P19", "P20" };
    if (faultProps.count(r.prop)) { scenFault(r); return; }
    if (r.prop == "P04" || r.prop == "P05") { scenParse(r); return; }
    if (r.prop == "P16") { scenChunk(r); return; }
    if (r.prop == "P21") { scenDamage(r); return; }
    if (r.prop == "P17") { scenThreads(r); return; }
    r.fail("HARNESS", "unknown", "unknown property " + r.prop);
}

} // namespace sim
