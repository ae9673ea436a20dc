// Drives the library through its public API inside the simulator and keeps the reference model of the tags.
#pragma once
#include "doc.h"
#include "sim.h"

#include <set>
#include <tagparser/diagnostics.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/tag.h>

#include <optional>

namespace sim {

struct Violation {
    std::string prop, cls, msg;
};

enum class Out : u8 { Ok, IoFail, Failure, Aborted, BadAlloc, Injected, OtherStd, Unknown };
const char *outName(Out o);

struct Result {
    Out out = Out::Ok;
    std::string what;
    TagParser::Diagnostics diag;
    bool critical() const;
    std::string firstCritical() const;
    std::string describe() const;
};

// exception thrown by a feedback callback (an application's own exception)
struct CallbackError { };

struct Val {
    std::string text; // UTF-8
    int enc = 0; // 0: UTF-8, 1: Latin-1 (ASCII content only), 2: UTF-16 LE
    i64 a = 0, b = 0;
    Bytes pic;
    std::string mime;
    int picType = 3;
    i64 edge = -1; // number to use instead of a (if not negative)
    bool wild = false; // use a value the format can not represent
};
enum class EK : u8 { Set, Clear, CreateTag, RemoveTag, RemoveAll, Attach, IgnoreAttachment, NewTarget, ClearAll, Custom, Track, Title, Retarget };
struct Edit {
    EK kind = EK::Set;
    int tagSel = 0;
    int field = 0; // index into fieldTable
    std::vector<Val> vals;
    int p1 = 0, p2 = 0, p3 = 0; // usage options
};
struct Settings {
    bool forceRewrite = false;
    int tagPos = 2; // 0 before, 1 after, 2 keep
    bool forceTagPos = false;
    int indexPos = 2;
    bool forceIndexPos = false;
    u64 minPad = 0, maxPad = 0, prefPad = 0;
    bool saveAs = false;
    std::string backupDir;
    // further ways of handling files, constant for a run
    bool partialParse = false, noNormalise = false, preserveMux = false, preserveWrite = false, convertTotal = false;
    std::string app; // writing application
    std::string describe() const;
};
struct Step {
    std::vector<Edit> edits;
    Settings st;
    bool sameObject = false; // continue with the object of the previous step (otherwise: restart)
    bool fullParse = false;
    bool readOnly = false; // open the file read-only
    bool closeFirst = false; // close the file before applying
};

struct FieldSpec {
    TagParser::KnownField f;
    const char *name;
    char kind; // T text, P position, G genre, I integer, D date, C cover
    const char *id3v1, *id3v2, *vorbis, *mp4, *mkv;
};
extern const FieldSpec fieldTable[];
extern const int fieldTableSize;

Settings genSettings(Choices &c, const std::string &pfx, Fmt fmt);
std::vector<Edit> genEdits(Choices &c, const std::string &pfx, Fmt fmt, int maxEdits);
void genTrackEdits(Choices &c, const std::string &pfx, Fmt fmt, std::vector<Edit> &edits);

// model operations
struct Model {
    std::vector<NTag> tags;
    std::vector<std::string> touched; // "type|id"
    std::vector<std::pair<std::string, std::string>> attachmentsAdded; // canonical "other" entries to be added
    std::vector<std::pair<std::string, std::string>> attachmentsChanged; // canonical "other" entries before/after
    std::vector<std::string> attachmentsRemoved; // names
    std::function<std::string(const std::string &)> attachmentRest; // what else there is about an attachment; "?" if there is no such
    bool tagsRemoved = false;
    bool titleChanged = false;
    std::string title; // title of the (first) segment if changed
    bool unrepresentable = false; // a value which can not be represented has been assigned, it is expected to be dropped with a critical message
    // track edits
    bool tracksAltered = false; // removed/re-added, not just other attributes
    std::vector<std::string> trackOrder; // IDs of the tracks to be present (if altered)
    std::map<std::string, std::map<std::string, std::string>> trackAttr;
    std::string foreignPath; // other file to take tracks from
    Analysis foreignAn;
    std::shared_ptr<TagParser::MediaFileInfo> foreignInfo;
    std::map<std::string, std::string> foreign; // ID within this file -> ID within the other file
};
std::vector<ATrack> expectedTracks(const std::vector<ATrack> &before, const Model &m);
// applies the edits to the parsed file and to the model; returns a description
void applyEdits(TagParser::MediaFileInfo &info, const std::vector<Edit> &edits, Model &model, Fmt fmt, std::string &log);
// compares the tags found in the file with the model
std::string compareTags(const std::vector<NTag> &expected, const std::vector<NTag> &actual);
void applySettings(TagParser::MediaFileInfo &info, const Settings &s, const std::string &savePath = std::string());
void genHandling(Choices &c, const std::string &pfx, Fmt fmt, Settings &s);
void applyHandling(TagParser::MediaFileInfo &info, const Settings &s);

Result guarded(const std::function<void(TagParser::Diagnostics &)> &f);
// deterministic dump of everything the library tells about a parsed file
std::string dumpInfo(TagParser::MediaFileInfo &info, bool withDiag, const TagParser::Diagnostics *diag);
std::string dumpTags(TagParser::MediaFileInfo &info);
// compares what the library tells about the tracks with an independent analysis
std::string compareTrackInfo(TagParser::MediaFileInfo &info, const Analysis &an);
// compares what the library tells about the tags with an independent analysis
std::string compareTagInfo(TagParser::MediaFileInfo &info, const Analysis &an);

struct Paths {
    std::string file; // path given to the library
    std::string real; // canonical path
    std::string save; // save-as path
    std::string saveArg; // save-as path as given to the library (empty: like save)
};
void spellPaths(Choices &c, Paths &p); // uses relative paths, URLs and so on
Paths setupFs(const Doc &doc, bool symlink); // empties the file system and adds the document to it
Paths addDocument(const Doc &doc, bool symlink, const std::string &prefix, const std::string &name);

} // namespace sim
