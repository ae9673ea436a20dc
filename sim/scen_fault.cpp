// Faults, crashes and cancellations while changes are applied (P01, P02, P03, P06, P12, P13, P15, P18, P19, P20).
#include "scen_int.h"

using namespace TagParser;

namespace sim {

namespace {

constexpr int opCountMax = static_cast<int>(Op::Count);
u32 bit(Op o) { return 1u << static_cast<int>(o); }

// ---------------------------------------------------------------- invariants at every point where the process could die
struct Watch {
    Run &r;
    const Before &b;
    const Paths &paths;
    const Settings &st;
    bool rewritten, inPlaceOnlyTrailing;
    const Bytes *golden = nullptr;
    std::string what;
    std::set<u64> protectedIds;
    std::string holder; // path of a file which holds the complete original
    u64 mutations = 0, bytesWritten = 0, crashPoints = 0;
    bool failed = false;
    bool mutatedSource = false;

    void start()
    {
        auto &fs = S().fs;
        for (auto &p : b.files) {
            if (p == paths.real || (st.saveAs && p == paths.save)) continue;
            if (auto *f = fs.file(p)) protectedIds.insert(f->id);
        }
        holder = paths.real;
        fs.observer = [this](const Event &e) { on(e); };
    }
    void stop() { S().fs.observer = nullptr; }

    bool holds(const std::string &p) const
    {
        const auto i = S().fs.nodes.find(p);
        return i != S().fs.nodes.end() && i->second.file && i->second.file->sameContent(b.content);
    }

    void on(const Event &e)
    {
        if (!e.mutating) return;
        auto &fs = S().fs;
        ++mutations;
        ++crashPoints;
        if (e.op == Op::Write || e.op == Op::Sendfile) bytesWritten += static_cast<u64>(std::max<i64>(0, e.result));
        if (failed) return;
        const auto at = what + "after operation #" + std::to_string(e.idx) + " (" + opName(e.op) + " " + e.path + (e.path2.empty() ? "" : " => " + e.path2) + " at " + std::to_string(e.off) + "): ";
        // P15: files which were there before
        const bool prot = (e.path != paths.real && !(st.saveAs && e.path == paths.save) && b.files.count(e.path)) || (!e.path2.empty() && e.path2 != paths.real && b.files.count(e.path2)) || (e.fileId && protectedIds.count(e.fileId) && e.op != Op::Rename);
        if (prot) { r.fail("P15", "existing-file-touched", at + "an already existing file was modified, replaced or removed"); failed = true; }
        const bool onSource = e.path == paths.real || e.path2 == paths.real || e.fileId == b.fileId;
        if (onSource) mutatedSource = true;
        if (st.saveAs) {
            // P12: the source is never touched
            if (onSource) { r.fail("P12", "source-touched", at + "the source file was modified although saving under a new path"); failed = true; }
        } else if (rewritten) {
            // P01: the complete original or the complete result is on the disk
            const auto i = fs.nodes.find(holder);
            const bool untouched = i != fs.nodes.end() && e.path != holder && e.path2 != holder && e.fileId != (i->second.file ? i->second.file->id : 0);
            if (!untouched && !holds(holder)) {
                holder.clear();
                const std::string d1 = dirOf(paths.real), d2 = backupLocation(paths, st.backupDir);
                for (auto &p : fs.list()) {
                    if (dirOf(p) != d1 && dirOf(p) != d2) continue;
                    if (holds(p)) { holder = p; break; }
                }
                if (holder.empty() && !(golden && fs.file(paths.real) && fs.file(paths.real)->sameContent(*golden))) {
                    r.fail("P01", "original-lost", at + "neither the complete original nor the complete new file would survive a crash at this point");
                    failed = true;
                }
            }
        } else if (onSource) {
            // P19: in-place update
            checkInPlace(e, at);
        }
    }
    void checkInPlace(const Event &e, const std::string &at)
    {
        auto &fs = S().fs;
        const auto *f = fs.file(paths.real);
        if (!f) { r.fail("P19", "file-gone", at + "the file does not exist anymore during an in-place update"); failed = true; return; }
        u64 lo = 0, hi = ~0ull;
        if (e.op == Op::Write || e.op == Op::Sendfile) { lo = static_cast<u64>(e.off); hi = lo + static_cast<u64>(std::max<i64>(0, e.result)); }
        if (e.op == Op::Truncate) lo = static_cast<u64>(e.len);
        if (inPlaceOnlyTrailing && lo < b.an.mediaEnd) {
            r.fail("P19", "not-trailing", at + "the file was modified at " + std::to_string(lo) + " although only the trailing tag changes (media data ends at " + std::to_string(b.an.mediaEnd) + ")");
            failed = true;
            return;
        }
        for (auto &s : b.an.media) {
            const u64 o = std::max(s.off, lo), en = std::min(s.off + s.len, hi);
            if (o >= en) continue;
            const auto now = f->range(o, en - o);
            if (now.size() != en - o || std::memcmp(now.data(), b.content.data() + o, now.size())) {
                r.fail("P19", "media-damaged", at + "media data within " + std::to_string(s.off) + "-" + std::to_string(s.off + s.len) + " was overwritten or cut");
                failed = true;
                return;
            }
        }
    }
};

struct Golden {
    Attempt a;
    Bytes content;
    bool rewritten = false;
    std::string target;
};

struct Trial {
    std::string desc;
    bool io = false, alloc = false, abort = false, thrown = false, persistent = false, quota = false, closeOnly = false, exdev = false, parsePhase = false, noCallbacks = false;
};

void dumpPair(const Run &r, const Bytes &orig, const Bytes &a, const Bytes &b)
{
    const char *d = std::getenv("SIM_DUMP");
    if (!d || !r.verbose) return;
    SimScope sc;
    int i = 0;
    for (auto *x : { &orig, &a, &b }) {
        static const char *n[] = { "orig", "golden", "actual" };
        if (FILE *f = std::fopen((std::string(d) + "/" + n[i++]).c_str(), "wb")) { std::fwrite(x->data(), 1, x->size(), f); std::fclose(f); }
    }
}

const char *kindName(int k)
{
    static const char *n[] = { "single", "persistent", "full-disk", "alloc", "abort", "throw", "exdev", "no-callbacks", "exdev+fault", "exdev+abort" };
    return n[k];
}

} // namespace

void scenFault(Run &r)
{
    auto &c = r.c;
    auto &fs = S().fs;
    const std::string P = r.prop;
    const bool wantInPlace = P == "P19", wantSaveAs = P == "P12", wantRewrite = P == "P01" || P == "P02" || P == "P15" || P == "P06";
    Fmt fmt = pickFmt(r);
    Doc doc = genDoc(c, "doc", fmt);
    const bool enlarged = P == "P06" && c.flag("enlarge", 1, 8);
    if (enlarged) enlargeDoc(c, "doc", doc);
    Paths paths = setupFs(doc, c.flag("symlink", 1, 6));
    spellPaths(c, paths);
    if (c.flag("oldbak", 1, P == "P15" ? 1 : 5)) addOldBackups(r, paths);
    if (wantSaveAs && c.flag("savexists", 1, 4)) { Rng g = c.rng("savexists"); fs.addFile(paths.save, randBytes(g, 1 + g.below(200000))); }
    r.note("document: " + std::string(fmtName(fmt)) + " " + doc.sub + ", " + std::to_string(doc.bytes.size()) + " bytes");
    S().freezeClock = true;

    Step step;
    step.edits = genEdits(c, "e", fmt, 3);
    if (!wantInPlace && (fmt == Fmt::Mp4 || fmt == Fmt::Mkv) && c.flag("tracks", 1, 8)) genTrackEdits(c, "t", fmt, step.edits);
    step.st = genSettings(c, "st", fmt);
    backupOptions(r, "b", step.st);
    if (wantRewrite && c.flag("force", 2, 3)) step.st.forceRewrite = true;
    if (wantSaveAs) step.st.saveAs = true;
    else if (!wantInPlace && !wantRewrite) step.st.saveAs = c.flag("saveas", 1, 8);
    if (wantInPlace) {
        step.st.forceRewrite = false;
        if (c.flag("keeppos", 3, 4)) { step.st.tagPos = step.st.indexPos = 2; }
        step.st.minPad = 0;
        step.st.maxPad = 1000000;
    }
    step.fullParse = c.flag("full", 1, 4);
    step.readOnly = c.flag("ro", 1, 6);

    const auto before = capture(paths.real, fmt);
    const auto snap = fs.snapshot();
    Model model;
    model.tags = before.an.tags;

    // ---- the undisturbed run
    Golden g;
    bool trailing = isId3Fmt(fmt);
    std::string goldenDump;
    const auto runGolden = [&](bool callbacks) {
        fs.restore(snap);
        fs.fds.clear();
        std::unique_ptr<MediaFileInfo> info;
        Hooks h;
        h.callbacks = callbacks;
        h.pctCallback = true;
        h.afterParse = [&](MediaFileInfo &i, AbortableProgressFeedback &) { if (goldenDump.empty()) goldenDump = dumpInfo(i, false, nullptr); };
        Golden x;
        x.a = attempt(r, info, paths, step, model, fmt, h);
        x.target = step.st.saveAs ? paths.save : paths.real;
        x.content = fs.content(x.target);
        info.reset();
        fs.fds.clear();
        for (auto &p : fs.list()) if (!before.files.count(p) && p != paths.save) x.rewritten = true;
        return x;
    };
    {
        g = runGolden(true);
        if (!g.a.parsed || g.a.apply.out != Out::Ok || g.a.apply.critical() || g.a.parse.critical()) {
            r.hit("golden.unusable");
            return;
        }
        // again, observed: now it is known whether the file is rewritten
        for (auto &t : before.an.tags) if (t.type.compare(0, 5, "id3v2") == 0) trailing = false;
        for (auto &t : g.a.model.tags) if (t.type.compare(0, 5, "id3v2") == 0) trailing = false;
        if (g.rewritten) trailing = false;
    }
    r.hit(std::string("fmt.") + fmtName(fmt));
    r.hit(step.st.saveAs ? "mode.saveas" : g.rewritten ? "mode.rewrite" : "mode.inplace");
    r.note("edits:\n" + g.a.editLog + "settings: " + step.st.describe() + (step.st.saveAs ? " [save as]" : g.rewritten ? " [rewrites]" : " [in place]"));

    const int trials = P == "P06" ? 3 : 4;
    for (int t = 0; t < trials; ++t) {
        const std::string pfx = "t" + std::to_string(t);
        if (t && !c.flag(pfx + ".on", 3, 4)) continue;
        fs.restore(snap);
        fs.fds.clear();
        fs.rules.clear();
        fs.quota = ~0ull;
        // ---- choose the fault
        int kind;
        if (P == "P06") kind = c.weighted(pfx + ".kind", { 0, 0, 0, 0, 8, 0, 0, 0, 0, 2 });
        else if (P == "P18") kind = c.weighted(pfx + ".kind", { 0, 0, 0, 0, 2, 7, 0, 2, 0, 0 });
        else if (P == "P15") kind = c.weighted(pfx + ".kind", { 8, 2, 1, 1, 1, 1, 3, 0, 4, 1 });
        else kind = c.weighted(pfx + ".kind", { 10, 3, 2, 3, 2, 1, 1, 0, 2, 1 });
        Trial tr;
        auto pickOp = [&](const std::string &n, const u64 *stat) -> Op {
            // an operation type which occurs
            static const Op ops[] = { Op::Write, Op::Read, Op::Open, Op::Create, Op::Rename, Op::Truncate, Op::Seek, Op::Stat, Op::Close, Op::Sendfile, Op::Remove };
            std::vector<Op> avail;
            for (auto o : ops) if (stat[static_cast<int>(o)]) for (int k = 0; k < (o == Op::Write ? 6 : o == Op::Read || o == Op::Open || o == Op::Create || o == Op::Rename || o == Op::Truncate || o == Op::Stat ? 2 : 1); ++k) avail.push_back(o);
            if (avail.empty()) return Op::Write;
            return avail[static_cast<std::size_t>(c.pick(n, 0, static_cast<i64>(avail.size()) - 1))];
        };
        auto fkFor = [&](const std::string &n, Op o) -> FK {
            switch (o) {
            case Op::Write: { static const FK k[] = { FK::Eio, FK::Enospc, FK::ShortThenEio, FK::Eio }; const FK f = k[c.pick(n, 0, 3)]; return f == FK::ShortThenEio && !g.rewritten && !step.st.saveAs ? FK::Eio : f; }
            case Op::Open: case Op::Create: { static const FK k[] = { FK::Eio, FK::Eacces, FK::Emfile, FK::Enospc }; return k[c.pick(n, 0, 3)]; }
            case Op::Rename: { static const FK k[] = { FK::Eio, FK::Exdev, FK::Eacces, FK::Enospc }; return k[c.pick(n, 0, 3)]; }
            case Op::Close: return FK::CloseEio;
            default: return FK::Eio;
            }
        };
        auto addRule = [&](const std::string &n, const u64 *stat, i64 repeat, Op only = Op::Count) {
            const Op o = only != Op::Count ? only : pickOp(n + ".op", stat);
            FaultRule fr;
            fr.opMask = bit(o);
            fr.kind = fkFor(n + ".fk", o);
            const u64 cnt = std::max<u64>(1, stat[static_cast<int>(o)]);
            // early and late operations are the interesting ones: mix of uniform and near the ends
            const i64 mx = static_cast<i64>(cnt) - 1;
            switch (c.pick(n + ".where", 0, 3)) {
            case 0: fr.nth = mx - std::min<i64>(mx, c.pick(n + ".end", 0, 3)); break;
            case 1: fr.nth = std::min<i64>(mx, c.pick(n + ".begin", 0, 4)); break;
            default: fr.nth = mx ? c.pick(n + ".nth", 0, mx) : 0;
            }
            fr.repeat = repeat;
            fs.rules.push_back(fr);
            tr.io = true;
            if (o == Op::Close && repeat > 0) tr.closeOnly = true;
            return std::string(fkName(fr.kind)) + " at " + opName(o) + " #" + std::to_string(fr.nth) + (repeat < 0 ? " and all following" : "");
        };
        auto addExdev = [&] {
            FaultRule fr;
            fr.opMask = bit(Op::Rename);
            static const FK kinds[] = { FK::Exdev, FK::Eacces, FK::Eio };
            fr.kind = kinds[c.weighted(pfx + ".renerr", { 3, 1, 1 })];
            fr.nth = 0;
            fr.repeat = -1;
            fs.rules.push_back(fr);
            tr.exdev = true;
        };
        tr.parsePhase = (kind <= 4) && c.flag(pfx + ".parsephase", 1, P == "P20" || P == "P13" || P == "P06" ? 3 : 12);
        const u64 *stat = tr.parsePhase ? g.a.parseOpStat : g.a.opStat;
        const u64 steps = tr.parsePhase ? g.a.parseSteps : g.a.steps, allocs = tr.parsePhase ? g.a.parseAllocs : g.a.allocs;
        i64 abortKind = -1, abortAt = 0, throwAt = -1, allocAt = -1, allocRepeat = 1;
        // with renames failing across devices the numbers of operations differ from those of the undisturbed run
        u64 xstat[opCountMax];
        std::copy(stat, stat + opCountMax, xstat);
        xstat[static_cast<int>(Op::Sendfile)] = 2 + before.content.size() / 65536;
        xstat[static_cast<int>(Op::Create)] += 1;
        xstat[static_cast<int>(Op::Open)] += 2;
        switch (kind) {
        case 0: tr.desc = addRule(pfx + ".r", stat, 1); break;
        case 1: tr.desc = addRule(pfx + ".r", stat, -1); tr.persistent = true; break;
        case 2: {
            // the disk is full after so many further bytes
            const u64 grow = std::max<u64>(g.content.size(), before.content.size()) + 8192;
            fs.quota = ~0ull;
            tr.quota = tr.io = true;
            tr.desc = "disk full after " + std::to_string(c.pick(pfx + ".quota", 0, static_cast<i64>(grow / pageSize))) + " pages";
            break;
        }
        case 3:
            allocAt = allocs ? c.pick(pfx + ".alloc", 0, static_cast<i64>(allocs) - 1) : 0;
            allocRepeat = c.flag(pfx + ".allocrep", 1, 4) ? -1 : 1;
            tr.alloc = true;
            tr.persistent = allocRepeat < 0;
            tr.desc = "allocation #" + std::to_string(allocAt) + " fails" + (allocRepeat < 0 ? " and all following" : "");
            break;
        case 9: addExdev(); [[fallthrough]];
        case 4: {
            tr.abort = true;
            abortKind = c.pick(pfx + ".abortkind", 0, 2);
            if (abortKind == 0 && !g.a.calls) abortKind = 1;
            if (abortKind == 0 && tr.parsePhase) abortKind = 1;
            const u64 ops = tr.parsePhase ? g.a.parseOps : g.a.ops;
            abortAt = c.pick(pfx + ".abortat", 0, static_cast<i64>(std::max<u64>(1, abortKind == 0 ? g.a.calls : abortKind == 1 ? ops : steps)) - 1);
            static const char *kn[] = { "callback", "system call", "step" };
            tr.desc = std::string("cancelled at ") + kn[abortKind] + " #" + std::to_string(abortAt);
            break;
        }
        case 5: {
            if (!g.a.calls) { r.hit("trial.void"); continue; }
            throwAt = c.pick(pfx + ".throwat", 0, static_cast<i64>(g.a.calls) - 1);
            tr.thrown = true;
            tr.desc = "callback #" + std::to_string(throwAt) + " throws";
            break;
        }
        case 6: addExdev(); tr.desc = "rename fails across devices"; break;
        case 7: tr.noCallbacks = true; tr.desc = "no callbacks"; break;
        case 8: addExdev(); tr.desc = "rename fails across devices and " + addRule(pfx + ".r", xstat, c.flag(pfx + ".rep", 1, 4) ? -1 : 1, c.flag(pfx + ".sf", 1, 3) ? Op::Sendfile : Op::Count); tr.persistent = fs.rules.back().repeat < 0; break;
        }
        const std::string what = std::string(fmtName(fmt)) + (step.st.saveAs ? " save-as, " : g.rewritten ? " rewrite, " : " in-place, ") + tr.desc + (tr.parsePhase ? " while parsing" : "") + ": ";

        // ---- the trial
        const u64 fired0 = fs.totalFired(), af0 = S().allocFaults;
        std::unique_ptr<MediaFileInfo> info;
        Watch w{ r, before, paths, step.st, g.rewritten, trailing, nullptr, {}, {}, {}, 0, 0, 0, false, false };
        w.golden = &g.content;
        w.what = what;
        bool aborted = false, threw = false, parseAborted = false;
        u64 endOp = 0, endStep = 0;
        u64 abortOp = 0, abortBytes = 0, abortStep = 0;
        std::atomic<AbortableProgressFeedback *> fb{ nullptr };
        auto doAbort = [&] {
            SimScope sc;
            if (aborted || !fb.load()) return;
            aborted = true;
            abortOp = fs.opCount;
            abortBytes = w.bytesWritten;
            abortStep = stepCount();
            fb.load()->tryToAbort();
        };
        auto arm = [&](MediaFileInfo &, AbortableProgressFeedback &p) {
            fb = &p;
            if (tr.quota) fs.quota = fs.allocatedTotal() + static_cast<u64>(c.pick(pfx + ".quota", 0, 0x7fffffff)) * pageSize;
            fs.arm();
            if (tr.alloc) { S().failAllocAt = static_cast<i64>(S().allocs) + allocAt; S().failAllocRepeat = allocRepeat; }
            if (abortKind == 2) setStepTrap(stepCount() + static_cast<u64>(abortAt), doAbort);
            if (abortKind == 1) {
                auto base = fs.opCount;
                auto prev = fs.observer;
                fs.observer = [&, base, prev](const Event &e) { if (prev) prev(e); if (e.idx - base >= static_cast<u64>(abortAt)) doAbort(); };
            }
        };
        // the faults may also go on until the object has been destroyed
        const bool sticky = tr.io && c.flag(pfx + ".sticky", 1, P == "P20" ? 2 : 6);
        auto disarm = [&](MediaFileInfo &, AbortableProgressFeedback &) {
            if (!sticky) fs.disarm();
            S().failAllocAt = -1;
            setStepTrap(~0ull, nullptr);
            fb = nullptr;
        };
        Hooks h;
        h.callbacks = !tr.noCallbacks;
        std::string parsedDump;
        if (tr.parsePhase) {
            h.beforeParse = arm;
            h.afterParse = [&](MediaFileInfo &i, AbortableProgressFeedback &p) {
                endOp = fs.opCount;
                endStep = stepCount();
                disarm(i, p);
                parseAborted = p.isAborted();
                if (tr.abort) parsedDump = dumpInfo(i, false, nullptr);
            };
        }
        h.beforeApply = [&](MediaFileInfo &i, AbortableProgressFeedback &p) {
            // the standard library turns failed allocations into conversion errors in some cases so values might
            // legitimately not be read (which is reported as warning); what is to be written is different then
            if (tr.parsePhase && tr.alloc && dumpTags(i) != g.a.tagDump) return;
            w.start();
            if (!tr.parsePhase) arm(i, p);
        };
        h.afterApply = [&](MediaFileInfo &i, AbortableProgressFeedback &p) {
            if (!tr.parsePhase) {
                endOp = fs.opCount;
                endStep = stepCount();
                disarm(i, p);
            }
            if (!sticky) fs.quota = ~0ull;
        };
        h.onApplyCallback = [&](AbortableProgressFeedback &p, u64 n) {
            if (abortKind == 0 && n >= static_cast<u64>(abortAt)) doAbort();
            if (throwAt >= 0 && static_cast<i64>(n) == throwAt) { threw = true; throw CallbackError(); }
        };
        Attempt a = attempt(r, info, paths, step, model, fmt, h);
        w.stop();
        fs.observer = nullptr;
        if (sticky) {
            const bool watching = a.parsed;
            if (watching) w.start();
            info.reset();
            if (watching) w.stop();
            fs.disarm();
            if (tr.alloc) fs.fds.clear(); else checkFdsClosed(r, what + "after destroying the object while the fault persists: ");
        }
        fs.quota = ~0ull;
        const u64 firedIo = fs.totalFired() - fired0, firedAlloc = S().allocFaults - af0;
        const bool any = firedIo || firedAlloc || aborted || threw || tr.noCallbacks;
        r.hit(std::string("trial.") + kindName(kind));
        if (any) { r.hit(std::string("effective.") + kindName(kind)); ++r.nontrivial; }
        r.hit("crashpoints", w.crashPoints);
        {
            SimScope sc;
            std::string key = std::string(fmtName(fmt)) + kindName(kind) + outName(a.parsed ? a.apply.out : a.parse.out) + (g.rewritten ? "r" : "i") + std::to_string(w.mutations) + (tr.parsePhase ? "p" : "a") + what;
            r.states.insert(hashStr(key));
        }
        if (r.verbose) r.note(what + (a.parsed ? "apply -> " + a.apply.describe() : "parse -> " + a.parse.describe()));
        const Result &res = a.parsed ? a.apply : a.parse;
        const bool ok = a.parsed && a.apply.out == Out::Ok;

        // ---- exceptions as documented
        const std::string excProp = a.parsed ? "P02" : "P04";
        if (res.out == Out::OtherStd || res.out == Out::Unknown) r.fail(excProp, "exception-type", what + "undocumented exception: " + res.describe());
        if (res.out == Out::BadAlloc && !firedAlloc) r.fail(excProp, "exception-type", what + "out of memory reported although no allocation failed");
        if (res.out == Out::Aborted && !aborted) r.fail(excProp, "exception-type", what + "cancellation reported although nobody cancelled");
        if (res.out == Out::Injected && !threw) r.fail(excProp, "exception-type", what + "unexpected exception of callback");
        if (a.parsed && aborted && (res.out == Out::OtherStd || res.out == Out::Unknown || (res.out == Out::BadAlloc && !firedAlloc))) r.fail("P06", "exception-type", what + "cancellation lead to " + res.describe());

        const Bytes now = fs.content(g.target);
        const Bytes nowReal = step.st.saveAs ? fs.content(paths.real) : now;
        if (a.parsed) {
            if (ok && !a.apply.critical() && !a.parse.critical()) {
                const bool excused = tr.closeOnly;
                const std::string p3 = tr.abort ? "P06" : tr.thrown || tr.noCallbacks ? "P18" : tr.exdev && !firedAlloc && kind == 6 ? "P15" : "P03";
                // faults while parsing may legitimately lead to other results (e.g. a tag not read): reported by warnings at least
                const bool sameInput = !tr.parsePhase || a.tagDump == g.a.tagDump;
                if (now != g.content && !excused && sameInput && !(tr.parsePhase && firedIo)) {
                    dumpPair(r, before.content, g.content, now);
                    const auto g2 = runGolden(!tr.noCallbacks);
                    if (g2.content == g.content && p3 == "P15") r.fail("P03", std::string(fmtName(fmt)) + "-silent", what + "success was reported but the file differs from the one of an undisturbed run: " + diffBytes(g.content, now));
                    if (g2.content == g.content) r.fail(p3, std::string(fmtName(fmt)) + "-silent", what + "success was reported but the file differs from the one of an undisturbed run: " + diffBytes(g.content, now));
                    else r.fail("HARNESS", "golden", "undisturbed runs differ: " + diffBytes(g.content, g2.content));
                    return;
                }
                if (tr.exdev && g.rewritten && !step.st.saveAs) {
                    bool backup = false;
                    for (auto &p : fs.list()) if (!before.files.count(p) && p != paths.real && fs.content(p) == before.content && dirOf(p) == backupLocation(paths, step.st.backupDir)) backup = true;
                    if (!backup) r.fail("P15", "backup-copy", what + "there is no complete backup at the requested location");
                }
            }
            if (!ok && g.rewritten && !step.st.saveAs) {
                const std::string p2 = tr.thrown ? "P18" : "P02";
                if (nowReal != before.content) {
                    bool backup = false;
                    for (auto &p : fs.list()) if (!before.files.count(p) && p != paths.real && fs.content(p) == before.content) backup = true;
                    const bool impossible = tr.persistent;
                    if (!impossible) r.fail("P13", std::string(fmtName(fmt)) + "-not-restored", what + "the call failed (" + a.apply.describe() + ") and the previous content is not back once faults stopped");
                    if (!impossible) r.fail(p2, std::string(fmtName(fmt)) + "-not-restored", what + "the call failed (" + a.apply.describe() + ") but the original was not put back: " + (fs.file(paths.real) ? diffBytes(before.content, nowReal) : std::string("file does not exist")));
                    else if (!backup) r.fail(p2, std::string(fmtName(fmt)) + "-lost", what + "the original was neither restored nor is it left as backup");
                    else if (!a.apply.critical() && !tr.alloc) r.fail(p2, std::string(fmtName(fmt)) + "-untold", what + "the original could not be restored but there is no critical message");
                }
                if (!tr.persistent) {
                    for (auto &p : fs.list()) {
                        if (before.files.count(p) || p == paths.real) continue;
                        if (fs.content(p) != before.content) r.fail("P20", "partial-file", what + "the incomplete file " + p + " was left over");
                        if (fs.content(p) != before.content) r.fail(p2, "partial-file", what + "the incomplete file " + p + " (" + std::to_string(fs.content(p).size()) + " bytes) was left over");
                    }
                }
            }
            if (!ok && !g.rewritten && !step.st.saveAs) {
                for (auto &p : fs.list()) if (!before.files.count(p)) r.fail("P20", "stray-file", what + "stray file " + p);
            }
            if (tr.abort && aborted) {
                // bounded amount of further work
                const u64 bytes = w.bytesWritten - abortBytes;
                r.count["abort.maxbytes"] = std::max(r.count["abort.maxbytes"], bytes);
                if (!ok && res.out != Out::Aborted && !tr.parsePhase) r.fail("P06", "report", what + "cancellation was reported as " + res.describe());
                if (bytes > (enlarged && fmt == Fmt::Mkv ? 4u << 20 : 2u << 20) + (tr.exdev ? 2 * before.content.size() : 0)) r.fail("P06", std::string(fmtName(fmt)) + "-bound", what + std::to_string(bytes) + " bytes were written after cancelling");
            }
        }
        if (tr.abort && aborted && tr.parsePhase) {
            bool told = a.parse.out == Out::Aborted;
            for (auto &m : a.parse.diag) if (m.message().find("abort") != std::string::npos) told = true;
            if (!told && !parseAborted && parsedDump != goldenDump) r.fail("P06", "parse-report", what + "parsing was cancelled (parsing returned normally) and gave an incomplete result without telling so");
            // what is claimed to be parsed must be what is there
            if (a.parse.out == Out::Ok) {
                const auto split = [](const std::string &dump, std::string &status) {
                    std::array<std::string, 4> parts; // tracks, tags, chapters, attachments
                    std::size_t part = 0;
                    for (std::size_t i = 0; i < dump.size();) {
                        auto e = dump.find('\n', i);
                        if (e == std::string::npos) e = dump.size();
                        const auto line = dump.substr(i, e - i);
                        i = e + 1;
                        if (line.compare(0, 7, "status ") == 0) { status = line.substr(8); continue; }
                        if (line.compare(0, 10, "container ") == 0) continue;
                        if (line.compare(0, 6, "track ") == 0) part = 0;
                        else if (line.compare(0, 4, "tag ") == 0) part = 1;
                        else if (line.compare(0, 8, "chapter ") == 0) part = 2;
                        else if (line.compare(0, 11, "attachment ") == 0) part = 3;
                        parts[part] += line + "\n";
                    }
                    return parts;
                };
                static const char *const names[] = { "tracks", "tags", "chapters", "attachments" };
                std::string status, goldenStatus;
                const auto parts = split(parsedDump, status), goldenParts = split(goldenDump, goldenStatus);
                for (std::size_t k = 0; k < 4 && status.size() >= 4 && goldenStatus.size() >= 4; ++k) {
                    if (status[k] == '0') continue;
                    if (status[k] != goldenStatus[k]) r.fail("P06", "parse-status", what + "parsing was cancelled and the state of the " + names[k] + " is " + status[k] + " instead of not parsed or " + goldenStatus[k]);
                    else if (parts[k] != goldenParts[k]) r.fail("P06", "parse-incomplete", what + "parsing was cancelled and the " + names[k] + " are incomplete although they are reported as parsed: " + firstDiff(goldenParts[k], parts[k]));
                }
            }
        }
        if (tr.abort && aborted && endStep > abortStep) {
            r.hit("abort.checked");
            if (enlarged) r.hit("abort.checked-big");
            if (tr.parsePhase && endOp > abortOp && endOp - abortOp > 3000) r.fail("P06", std::string(fmtName(fmt)) + "-bound", what + std::to_string(endOp - abortOp) + " system calls were made after cancelling");
        }
        if (step.st.saveAs && nowReal != before.content) r.fail("P12", "source-changed", what + "the source file was changed");
        if (step.st.saveAs && ok && info && info->path() != (paths.saveArg.empty() ? paths.save : paths.saveArg)) r.fail("P12", "path", what + "the file information does not refer to the new file but to " + info->path());
        if (!a.progressProblem.empty() && P == "P18") r.fail("P18", "progress", what + a.progressProblem);

        // ---- try again
        const bool unchanged = nowReal == before.content && fs.file(paths.real);
        if (!ok && unchanged && r.viol.empty() && c.flag(pfx + ".retry", 3, 4)) {
            const bool same = info && c.flag(pfx + ".retrysame", 1, 2);
            if (same) {
                info->clearParsingResults();
                const auto ro = guarded([&](Diagnostics &) { info->reopen(c.flag(pfx + ".retryro", 1, 4)); });
                if (ro.out != Out::Ok) r.fail("P13", "reopen", what + "opening the file again with the same object failed: " + ro.describe());
            }
            else {
                info.reset();
                // (the I/O classes of c++utilities leak their descriptor when running out of memory on opening)
                if (tr.alloc) fs.fds.clear(); else checkFdsClosed(r, what + "after destroying the object: ");
            }
            const bool stillUnchanged = fs.content(paths.real) == before.content;
            if (!stillUnchanged && (g.rewritten || step.st.saveAs)) r.fail("P02", "late-change", what + "closing the object after the failure changed the original file");
            if (!stillUnchanged) { info.reset(); fs.rules.clear(); if (!r.viol.empty()) return; continue; }
            const bool tryAgainRecover = !same || info->path() == paths.file;
            if (!tryAgainRecover) r.fail("P13", "path", what + "the object refers to " + info->path() + " after the failure");
            Hooks h2;
            Attempt b2 = attempt(r, info, paths, step, model, fmt, h2);
            const std::string how = same ? "with the same object " : "with a new object ";
            r.hit("retry");
            if (!b2.parsed) r.fail("P13", std::string(fmtName(fmt)) + "-reparse", what + "parsing again " + how + "failed: " + b2.parse.describe());
            else if (b2.parse.critical()) r.fail("P13", std::string(fmtName(fmt)) + "-reparse", what + "parsing again " + how + "gave critical messages: " + criticalsOf(b2.parse));
            else if (b2.apply.out != Out::Ok) r.fail("P13", std::string(fmtName(fmt)) + "-reapply", what + "applying again " + how + "failed: " + b2.apply.describe());
            else if (b2.apply.critical()) r.fail("P13", std::string(fmtName(fmt)) + "-reapply", what + "applying again " + how + "gave critical messages: " + criticalsOf(b2.apply));
            else if (fs.content(g.target) != g.content) dumpPair(r, before.content, g.content, fs.content(g.target)), r.fail("P13", std::string(fmtName(fmt)) + "-result", what + "applying again " + how + "gave another file than the undisturbed run: " + diffBytes(g.content, fs.content(g.target)));
        } else if (info && c.flag(pfx + ".reuse", 1, 3)) {
            // the object can be used in whatever way after a failure
            guarded([&](Diagnostics &d) {
                AbortableProgressFeedback p;
                info->clearParsingResults();
                info->reopen(true);
                info->parseEverything(d, p);
            });
        }
        info.reset();
        if (tr.alloc) fs.fds.clear(); else checkFdsClosed(r, what + "after destroying the object: ");
        fs.disarm();
        fs.rules.clear();
        if (!r.viol.empty()) return;
    }
}

} // namespace sim
