// Applying changes to damaged files (P21): bounded, memory-safe, documented exceptions only, nothing lost on failure.
#include "scen_int.h"

using namespace TagParser;

namespace sim {

void scenDamage(Run &r)
{
    auto &c = r.c;
    auto &fs = S().fs;
    Fmt fmt = pickFmt(r);
    Doc doc = genDoc(c, "doc", fmt);
    if (!c.flag("pristine", 1, 12)) r.note(corrupt(c, "x", doc.bytes, fmt));
    const u64 size = doc.bytes.size();
    Paths paths = setupFs(doc, c.flag("symlink", 1, 12));
    r.note("document: " + std::string(fmtName(fmt)) + " " + doc.sub + ", " + std::to_string(size) + " bytes");
    if (r.verbose) if (const char *d = std::getenv("SIM_DUMP")) if (FILE *f = std::fopen((std::string(d) + "/input").c_str(), "wb")) { std::fwrite(doc.bytes.data(), 1, size, f); std::fclose(f); }
    S().freezeClock = true;
    const Bytes orig = doc.bytes;
    Step step;
    step.edits = genEdits(c, "e", fmt, 3);
    step.st = genSettings(c, "st", fmt);
    backupOptions(r, "b", step.st);
    step.st.saveAs = c.flag("saveas", 1, 8);
    if (c.flag("padding", 1, 2)) { step.st.minPad = 0; step.st.maxPad = 1000000; } // enforces less rewriting
    step.fullParse = c.flag("full", 1, 4);
    step.readOnly = c.flag("ro", 1, 6);
    const auto before = capture(paths.real, fmt);
    Model model;
    model.tags = before.an.tags;
    const int fault = c.weighted("fault", { 8, 2, 2, 1, 1 });
    static const char *const fn[] = { "none", "io", "alloc", "short-io", "abort" };

    std::unique_ptr<MediaFileInfo> info;
    Hooks h;
    bool aborted = false;
    u64 written = 0, steps0 = 0, ops0 = 0, alloc0 = 0;
    const u64 stepBound = 20000000 + size * 10000;
    std::string srcWrite;
    fs.observer = [&](const Event &e) {
        if (e.op == Op::Write || e.op == Op::Sendfile) written += e.len;
        if (e.mutating && step.st.saveAs && srcWrite.empty() && e.path == paths.real) srcWrite = opName(e.op);
    };
    h.beforeParse = [&](MediaFileInfo &, AbortableProgressFeedback &) { setStepLimit(stepCount() + (3000000 + size * 4000) * 20); };
    h.beforeApply = [&](MediaFileInfo &, AbortableProgressFeedback &p) {
        setStepLimit(stepCount() + stepBound * 10);
        if (fault == 1) {
            FaultRule fr;
            fr.opMask = 1u << static_cast<int>(c.flag("rd", 1, 2) ? Op::Read : Op::Write);
            if (c.flag("anyop", 1, 4)) fr.opMask |= 1u << static_cast<int>(Op::Open) | 1u << static_cast<int>(Op::Create) | 1u << static_cast<int>(Op::Seek) | 1u << static_cast<int>(Op::Truncate) | 1u << static_cast<int>(Op::Rename);
            fr.kind = FK::Eio;
            fr.nth = c.pick("nth", 0, 60);
            fr.repeat = c.flag("repeat", 1, 3) ? -1 : 1;
            fs.rules.push_back(fr);
            fs.arm();
        }
        if (fault == 2) { S().failAllocAt = static_cast<i64>(S().allocs) + c.pick("alloc", 0, 1500); S().failAllocRepeat = c.flag("arep", 1, 3) ? -1 : 1; }
        if (fault == 3) { fs.shortIoSeed = c.rng("shortio").next() | 1; if (c.flag("eintr", 1, 2)) fs.eintrSeed = c.rng("eintr").next() | 1; }
        if (fault == 4) setStepTrap(stepCount() + static_cast<u64>(c.pick("abortstep", 0, 100000)), [&] { aborted = true; p.tryToAbort(); });
        trackMemory(true);
        S().maxAlloc = 0;
        written = 0;
        steps0 = stepCount(), ops0 = fs.opCount, alloc0 = S().allocFaults;
    };
    u64 steps = 0, ops = 0;
    i64 peak = 0;
    h.afterApply = [&](MediaFileInfo &, AbortableProgressFeedback &) {
        steps = stepCount() - steps0, ops = fs.opCount - ops0, peak = S().peakLive;
        trackMemory(false);
        fs.disarm();
        S().failAllocAt = -1;
        setStepTrap(~0ull, nullptr);
        fs.shortIoSeed = fs.eintrSeed = 0;
    };
    const u64 fired0 = fs.totalFired();
    Attempt a = attempt(r, info, paths, step, model, fmt, h);
    const u64 firedIo = fs.totalFired() - fired0, firedAlloc = a.applied ? S().allocFaults - alloc0 : 0;
    r.note("edits:\n" + a.editLog + "settings: " + step.st.describe());
    r.note("parse -> " + a.parse.describe() + ", apply -> " + a.apply.describe());
    r.hit(std::string("fmt.") + fmtName(fmt));
    if (!a.parsed) { r.hit("unparsable"); fs.observer = nullptr; return; }
    ++r.nontrivial;
    const std::string what = std::string(fmtName(fmt)) + ", fault " + fn[fault] + ": ";
    r.hit(std::string("afault.") + fn[fault]);
    r.hit(std::string("apply.") + outName(a.apply.out));
    r.count["max.steps"] = steps;
    r.count["max.stepsPerByte"] = steps / (size + 4096);
    r.count["max.opsPerKiB"] = ops * 1024 / (size + 65536);
    r.count["max.peak"] = static_cast<u64>(peak);
    r.count["max.written"] = written;
    r.count["max.writtenRatio"] = written / (size + 65536);
    {
        SimScope sc;
        std::string k = std::string(outName(a.apply.out)) + std::to_string(static_cast<int>(info->containerFormat()));
        for (auto &m : a.apply.diag) k += m.message();
        r.states.insert(hashStr(k));
    }
    if (a.apply.out == Out::OtherStd || a.apply.out == Out::Unknown) r.fail("P21", "exception-type", what + "undocumented exception: " + a.apply.describe());
    if (a.apply.out == Out::BadAlloc && !firedAlloc) r.fail("P21", "out-of-memory", what + "out of memory reported although no allocation failed");
    if (a.apply.out == Out::Aborted && !aborted) r.fail("P21", "exception-type", what + "cancellation reported although nobody cancelled");
    if (steps > stepBound) r.fail("P21", "time", what + std::to_string(steps) + " steps for a file of " + std::to_string(size) + " bytes");
    if (fault != 3 && ops > 270000 + size * 16) r.fail("P21", "syscalls", what + std::to_string(ops) + " system calls for a file of " + std::to_string(size) + " bytes");
    if (peak > static_cast<i64>((16u << 20) + size * 512)) r.fail("P21", "memory", what + std::to_string(peak) + " bytes of memory for a file of " + std::to_string(size) + " bytes");
    if (written > (8u << 20) + size * 16) r.fail("P21", "space", what + std::to_string(written) + " bytes written for a file of " + std::to_string(size) + " bytes");
    if (!srcWrite.empty()) r.fail("P21", "source-modified", what + "save-as did " + srcWrite + " on the source");
    // nothing is lost if applying fails
    if (a.apply.out != Out::Ok) {
        bool found = false;
        for (auto &p : fs.list()) if (fs.content(p) == orig) { found = true; break; }
        const bool rewritten = fs.content(paths.real) == orig;
        if (!found && !firedIo && !aborted && !firedAlloc) r.fail("P21", "content-lost", what + "applying failed (" + a.apply.describe() + ") and the original content is gone");
        (void)rewritten;
    }
    setStepLimit(stepCount() + 400000000ull);
    guarded([&](Diagnostics &) { info.reset(); });
    fs.observer = nullptr;
    if (fault == 2) fs.fds.clear(); else checkFdsClosed(r, what); // closing a stream allocates memory
}

} // namespace sim
