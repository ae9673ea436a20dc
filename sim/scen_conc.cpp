// Influence of the transfer granularity (P16) and of other threads (P17): the same parse/edit/apply is executed under
// a disturbed and an undisturbed schedule of the environment and all observable results are compared.
#include "scen_int.h"

using namespace TagParser;

namespace sim {

namespace {

// everything a caller can observe of one parse + edit + apply
struct Observed {
    Attempt a;
    std::string dump; // parsed information and messages
    std::map<std::string, u64> files; // the task's files and their content
    bool ok() const { return a.parsed && a.apply.out == Out::Ok; }
};

std::string messages(const Diagnostics &d)
{
    std::string s;
    for (auto &m : d) s += std::to_string(static_cast<int>(m.level())) + " " + m.context() + ": " + m.message() + "\n";
    return s;
}

void collectFiles(Observed &o, const std::string &prefix)
{
    SimScope sc;
    for (auto &p : S().fs.list())
        if (p.compare(0, prefix.size(), prefix) == 0) o.files[p] = S().fs.file(p)->hash();
}

std::string compare(const Observed &ref, const Observed &x, std::string &cls)
{
    auto first = [](const std::string &a, const std::string &b) {
        std::size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
        i = i > 40 ? i - 40 : 0;
        return "\"" + printable(std::string_view(a).substr(i), 160) + "\" vs. \"" + printable(std::string_view(b).substr(std::min(i, b.size())), 160) + "\"";
    };
    if (ref.a.parse.out != x.a.parse.out) { cls = "parse-outcome"; return "parsing: " + ref.a.parse.describe() + " vs. " + x.a.parse.describe(); }
    if (ref.dump != x.dump) { cls = "parse-results"; return "parsed information: " + first(ref.dump, x.dump); }
    if (messages(ref.a.parse.diag) != messages(x.a.parse.diag)) { cls = "parse-messages"; return "messages when parsing: " + first(messages(ref.a.parse.diag), messages(x.a.parse.diag)); }
    if (ref.a.tagDump != x.a.tagDump) { cls = "edit-results"; return "edited tags: " + first(ref.a.tagDump, x.a.tagDump); }
    if (ref.a.parsed != x.a.parsed || ref.a.apply.out != x.a.apply.out) { cls = "apply-outcome"; return "applying: " + ref.a.apply.describe() + " vs. " + x.a.apply.describe(); }
    if (messages(ref.a.apply.diag) != messages(x.a.apply.diag)) { cls = "apply-messages"; return "messages when applying: " + first(messages(ref.a.apply.diag), messages(x.a.apply.diag)); }
    for (auto &[p, h] : ref.files) {
        const auto i = x.files.find(p);
        if (i == x.files.end()) { cls = "files"; return "file " + p + " does not exist"; }
        if (i->second != h) { cls = "file-content"; return "file " + p + " has another content"; }
    }
    for (auto &[p, h] : x.files)
        if (!ref.files.count(p)) { cls = "files"; return "additional file " + p; }
    return {};
}

// one thread's job
struct Job {
    Fmt fmt;
    Doc doc;
    Paths paths;
    Step step;
    Model model;
    std::string prefix;
    Bytes orig;
};

Observed perform(Run &r, const Job &j, Hooks h, bool inSut)
{
    Observed o;
    std::unique_ptr<MediaFileInfo> info;
    h.editsInSut = inSut;
    const auto after = h.afterParse;
    h.afterParse = [&](MediaFileInfo &i, AbortableProgressFeedback &p) {
        if (after) after(i, p);
        o.dump = dumpInfo(i, false, nullptr);
    };
    o.a = attempt(r, info, j.paths, j.step, j.model, j.fmt, h);
    info.reset();
    return o;
}

void genJob(Run &r, Job &j, const std::string &pfx, Fmt fmt, bool corruptible)
{
    auto &c = r.c;
    j.fmt = fmt;
    j.doc = genDoc(c, pfx + "doc", fmt);
    if (corruptible && c.flag(pfx + "corrupted", 1, 5)) r.note(corrupt(c, pfx + "x", j.doc.bytes, fmt));
    j.step.edits = genEdits(c, pfx + "e", fmt, 4);
    j.step.st = genSettings(c, pfx + "st", fmt);
    backupOptions(r, pfx + "b", j.step.st);
    j.step.st.saveAs = c.flag(pfx + "saveas", 1, 6);
    j.step.fullParse = c.flag(pfx + "full", 1, 4);
    j.step.readOnly = c.flag(pfx + "ro", 1, 6);
    r.note("document " + pfx + ": " + fmtName(fmt) + " " + j.doc.sub + ", " + std::to_string(j.doc.bytes.size()) + " bytes");
}

} // namespace

void scenChunk(Run &r)
{
    auto &c = r.c;
    auto &fs = S().fs;
    Job j;
    genJob(r, j, "", pickFmt(r), true);
    j.paths = setupFs(j.doc, c.flag("symlink", 1, 6));
    spellPaths(c, j.paths);
    j.prefix = "/sim";
    S().freezeClock = true;
    const auto before = capture(j.paths.real, j.fmt);
    j.model.tags = before.an.tags;
    const auto snap = fs.snapshot();
    const bool exdev = c.flag("exdev", 1, 6); // backups are copied then (via sendfile)
    const auto arm = [&] {
        if (!exdev) return;
        FaultRule fr;
        fr.opMask = 1u << static_cast<int>(Op::Rename);
        fr.kind = FK::Exdev;
        fr.nth = 0;
        fr.repeat = -1;
        fs.rules.assign(1, fr);
        fs.arm();
    };
    arm();
    Observed ref = perform(r, j, Hooks(), false);
    collectFiles(ref, "/sim");
    r.note("edits:\n" + ref.a.editLog + "settings: " + j.step.st.describe());
    r.note("undisturbed: parse -> " + ref.a.parse.describe() + ", apply -> " + ref.a.apply.describe());
    r.hit(std::string("fmt.") + fmtName(j.fmt));
    const int trials = 4;
    for (int t = 0; t < trials; ++t) {
        const std::string pfx = "t" + std::to_string(t);
        if (t && !c.flag(pfx + ".on", 3, 4)) continue;
        fs.restore(snap);
        fs.fds.clear();
        fs.disarm();
        fs.maxIo = 0;
        fs.shortIoSeed = fs.eintrSeed = 0;
        static const i64 sizes[] = { 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 64, 100, 511, 512, 513, 1000, 4095, 4096, 4097, 8190, 8191, 8192 };
        const int kind = c.weighted(pfx + ".kind", { 4, 4, 2, 4 });
        std::string what;
        if (kind == 0 || kind == 3) {
            fs.maxIo = sizes[c.pick(pfx + ".max", 0, static_cast<i64>(std::size(sizes)) - 1)];
            if (j.doc.bytes.size() > 300000 && fs.maxIo < 64) fs.maxIo = 64 + fs.maxIo;
            what += "at most " + std::to_string(fs.maxIo) + " bytes per transfer ";
        }
        if (kind == 1) { fs.shortIoSeed = 1 + static_cast<u64>(c.pick(pfx + ".seed", 0, 1000000)); what += "random transfer lengths "; }
        if (kind == 2 || kind == 3) {
            fs.eintrSeed = 1 + static_cast<u64>(c.pick(pfx + ".eseed", 0, 1000000));
            fs.eintrDen = static_cast<unsigned>(c.pick(pfx + ".eden", 2, 40));
            what += "interruptions ";
        }
        what = std::string(fmtName(j.fmt)) + ", " + what;
        const u64 s0 = fs.shortCount, e0 = fs.eintrCount;
        arm();
        Observed x = perform(r, j, Hooks(), false);
        fs.disarm();
        fs.maxIo = 0;
        fs.shortIoSeed = fs.eintrSeed = 0;
        collectFiles(x, "/sim");
        checkFdsClosed(r, what);
        if (fs.shortCount != s0 || fs.eintrCount != e0) ++r.nontrivial;
        static const char *const kn[] = { "limited", "random", "interrupted", "limited+interrupted" };
        r.hit(std::string("granularity.") + kn[kind]);
        { SimScope sc; r.states.insert(hashStr(what, fs.traceHash)); }
        std::string cls;
        const std::string d = compare(ref, x, cls);
        if (!d.empty()) {
            r.fail("P16", cls, what + "has an influence on the results: " + d);
            return;
        }
    }
}

void scenThreads(Run &r)
{
    auto &c = r.c;
    auto &fs = S().fs;
    const int n = static_cast<int>(c.pick("threads", 2, 3));
    std::vector<Job> jobs(static_cast<std::size_t>(n));
    fs.reset();
    S().freezeClock = true;
    const Fmt first = pickFmt(r);
    const bool same = c.flag("samefmt", 1, 2), twins = same && c.flag("twins", 1, 4);
    for (int i = 0; i < n; ++i) {
        auto &j = jobs[static_cast<std::size_t>(i)];
        const std::string pfx = "j" + std::to_string(twins ? 0 : i) + ".";
        genJob(r, j, pfx, !i || same ? first : pickFmt(r, pfx + "fmt"), true);
        j.prefix = "/sim/t" + std::to_string(i);
        j.paths = addDocument(j.doc, c.flag(pfx + "symlink", 1, 8), j.prefix, "file" + std::to_string(i));
        if (j.step.st.backupDir == "/sim/bak") j.step.st.backupDir = j.prefix + "/bak";
        j.orig = j.doc.bytes;
        j.model.tags = capture(j.paths.real, j.fmt).an.tags;
    }
    const auto snap = fs.snapshot();

    // ---- concurrently (first, so lazy initialisation takes place concurrently as well)
    const int cancel = c.flag("cancel", 1, 3) ? static_cast<int>(c.pick("cancel.who", 0, n - 1)) : -1;
    const i64 cancelAt = cancel >= 0 ? c.pick("cancel.at", 0, 400000) : 0;
    static const u64 quanta[] = { 20000, 5000, 1000, 200, 60, 0 };
    const u64 quantum = quanta[c.weighted("quantum", { 2, 3, 3, 2, 1, 1 })];
    const bool atIo = quantum ? c.flag("atio", 1, 2) : true;
    std::vector<Observed> conc(static_cast<std::size_t>(n));
    std::vector<AbortableProgressFeedback *> feedback(static_cast<std::size_t>(n), nullptr);
    bool cancelled = false, cancelledDuringApply = false;
    std::vector<int> phase(static_cast<std::size_t>(n), 0); // 1: parsing, 2: applying
    std::vector<std::function<void()>> tasks;
    for (int i = 0; i < n; ++i) {
        tasks.emplace_back([&, i] {
            SimScope *none = nullptr;
            (void)none;
            const auto k = static_cast<std::size_t>(i);
            Hooks h;
            h.beforeParse = [&, k](MediaFileInfo &, AbortableProgressFeedback &p) { feedback[k] = &p; phase[k] = 1; };
            h.beforeApply = [&, k](MediaFileInfo &, AbortableProgressFeedback &) { phase[k] = 2; };
            h.afterApply = [&, k](MediaFileInfo &, AbortableProgressFeedback &) { feedback[k] = nullptr; phase[k] = 3; };
            conc[k] = perform(r, jobs[k], h, true);
            feedback[k] = nullptr;
        });
    }
    if (cancel >= 0) {
        setStepTrap(stepCount() + static_cast<u64>(cancelAt), [&] {
            SimScope sc;
            if (auto *p = feedback[static_cast<std::size_t>(cancel)]) {
                cancelled = true;
                cancelledDuringApply = phase[static_cast<std::size_t>(cancel)] == 2;
                p->tryToAbort();
            }
        });
    }
    const u64 sseed = 1 + static_cast<u64>(c.pick("schedule", 0, 1000000000));
    const auto stats = runThreads(tasks, sseed, quantum, atIo);
    setStepTrap(~0ull, nullptr);
    for (int i = 0; i < n; ++i) collectFiles(conc[static_cast<std::size_t>(i)], jobs[static_cast<std::size_t>(i)].prefix + "/");
    checkFdsClosed(r, "after all threads have finished: ");
    r.hit("switches", stats.switches);
    if (stats.switches > static_cast<u64>(n) + 1) ++r.nontrivial;
    r.hit("threads." + std::to_string(n));
    if (cancelled) r.hit(cancelledDuringApply ? "cancelled.apply" : "cancelled.parse");
    { SimScope sc; r.states.insert(stats.hash); fs.traceHash ^= stats.hash; }
    r.note(std::to_string(n) + " threads, " + std::to_string(stats.switches) + " switches, quantum " + std::to_string(quantum) + (cancelled ? ", thread " + std::to_string(cancel) + " cancelled" : ""));

    // ---- one after another
    fs.restore(snap);
    fs.fds.clear();
    for (int i = 0; i < n; ++i) {
        const auto k = static_cast<std::size_t>(i);
        const auto &j = jobs[k];
        Observed ref = perform(r, j, Hooks(), true);
        collectFiles(ref, j.prefix + "/");
        auto &x = conc[k];
        const std::string what = std::string(fmtName(j.fmt)) + " (thread " + std::to_string(i) + " of " + std::to_string(n) + "): ";
        r.hit(std::string("fmt.") + fmtName(j.fmt));
        std::string cls;
        const std::string d = compare(ref, x, cls);
        if (d.empty()) continue;
        if (cancelled && i == cancel) {
            // only this one may differ and needs to report the cancellation
            const Result &res = x.a.parsed ? x.a.apply : x.a.parse;
            if (cancelledDuringApply && ref.a.apply.out == Out::Ok && x.a.apply.out != Out::Aborted) r.fail("P17", "cancelled", what + "cancelled by another thread but reported " + res.describe() + " with different results: " + d);
            continue;
        }
        r.fail("P17", cls, what + "other results than without concurrency: " + d);
        return;
    }
}

} // namespace sim
