// Building blocks shared by the scenarios.
#pragma once
#include "scen.h"

#include <tagparser/abstractcontainer.h>
#include <tagparser/abstracttrack.h>
#include <tagparser/exceptions.h>

#include <atomic>
#include <functional>
#include <memory>

namespace sim {

// ---------------------------------------------------------------- progress monitor (P18)
struct Monitor {
    std::string problem;
    bool inCall = false;
    std::string lastStep;
    int lastPct = -1, lastOverall = -1;
    u64 calls = 0;
    std::function<void(TagParser::AbortableProgressFeedback &, u64)> hook; // may throw or abort
    void onCall(TagParser::AbortableProgressFeedback &f, bool newStep)
    {
        {
            SimScope sc;
            const int pct = f.stepPercentage(), ov = f.overallPercentage();
            if (!inCall && problem.empty()) problem = "feedback given outside of a call";
            if ((pct > 100 || ov > 100) && problem.empty()) problem = "percentage out of range: step \"" + f.step() + "\" " + std::to_string(pct) + " % / overall " + std::to_string(ov) + " %";
            if (!newStep && f.step() == lastStep && (pct < lastPct || ov < lastOverall) && problem.empty())
                problem = "percentage of step \"" + f.step() + "\" decreased from " + std::to_string(lastPct) + "/" + std::to_string(lastOverall) + " to " + std::to_string(pct) + "/" + std::to_string(ov);
            lastStep = f.step();
            lastPct = pct;
            lastOverall = ov;
        }
        const u64 n = calls++;
        if (hook) hook(f, n);
    }
    std::unique_ptr<TagParser::AbortableProgressFeedback> make(bool callbacks, bool percentageCallback)
    {
        SimScope sc;
        if (!callbacks) return std::make_unique<TagParser::AbortableProgressFeedback>();
        if (!percentageCallback) return std::make_unique<TagParser::AbortableProgressFeedback>([this](TagParser::AbortableProgressFeedback &f) { onCall(f, f.step() != lastStep || f.stepPercentage() == 0); });
        return std::make_unique<TagParser::AbortableProgressFeedback>([this](TagParser::AbortableProgressFeedback &f) { onCall(f, true); }, [this](TagParser::AbortableProgressFeedback &f) { onCall(f, false); });
    }
};

// ---------------------------------------------------------------- one parse + edit + apply
struct Hooks {
    bool callbacks = true, pctCallback = true;
    bool editsInSut = false; // treat editing tags as part of the code under test (so threads are switched there, too)
    std::function<void(TagParser::MediaFileInfo &, TagParser::AbortableProgressFeedback &)> beforeParse, afterParse, beforeApply, afterApply;
    std::function<void(TagParser::AbortableProgressFeedback &, u64)> onApplyCallback;
};
struct Attempt {
    Result parse, apply;
    bool parsed = false, applied = false;
    Model model;
    std::string editLog, progressProblem;
    u64 ops = 0, steps = 0, allocs = 0, calls = 0; // during apply
    u64 parseOps = 0, parseSteps = 0, parseAllocs = 0;
    u64 opStat[static_cast<int>(Op::Count)] = {}, parseOpStat[static_cast<int>(Op::Count)] = {};
    std::string tagDump; // library's view of tags right before applying
};

struct Before {
    Analysis an;
    Bytes content;
    u64 fileId = 0;
    std::set<std::string> files;
    std::map<std::string, u64> hashes;
};
struct Parsed { Result res; std::string dump, tags; u64 padding = 0; std::string trackProblem, tagProblem; };

Attempt attempt(Run &r, std::unique_ptr<TagParser::MediaFileInfo> &info, const Paths &paths, const Step &step, const Model &before, Fmt fmt, const Hooks &h);
Fmt pickFmt(Run &r, const std::string &name = "fmt");
std::string diffBytes(const Bytes &a, const Bytes &b);
Before capture(const std::string &real, Fmt fmt);
std::string cmpTracks(const Analysis &a, const Analysis &b, std::string &cls);
std::string cmpOther(const Analysis &a, const Analysis &b, const Model &m);
bool isId3Fmt(Fmt f);
std::string dirOf(const std::string &p);
std::string backupLocation(const Paths &p, const std::string &backupDir);
Analysis checkApplied(Run &r, const Before &b, const Paths &paths, const Step &step, const Attempt &a, Fmt fmt, const std::string &what);
std::string criticalsOf(const Result &res, std::size_t max = 3);
Parsed parseFile(Run &r, const std::string &path, bool full = false, const Analysis *an = nullptr);
std::string firstDiff(const std::string &a, const std::string &b);
void checkFdsClosed(Run &r, const std::string &what);
void backupOptions(Run &r, const std::string &pfx, Settings &s);
void addOldBackups(Run &r, const Paths &p);
std::string corrupt(Choices &c, const std::string &pfx, Bytes &b, Fmt fmt); // damages a document
void enlargeDoc(Choices &c, const std::string &pfx, Doc &doc);
// scenarios
void scenFault(Run &r);
void scenParse(Run &r);
void scenAbort(Run &r);
void scenDamage(Run &r);
void scenChunk(Run &r);
void scenThreads(Run &r);

} // namespace sim
