#include "world.h"

#include <tagparser/abstractattachment.h>
#include <tagparser/abstractchapter.h>
#include <tagparser/abstractcontainer.h>
#include <tagparser/abstracttrack.h>
#include <tagparser/exceptions.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/matroska/matroskaattachment.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4ids.h>
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/mp4/mp4track.h>
#include <tagparser/margin.h>
#include <tagparser/mediaformat.h>
#include <tagparser/size.h>
#include <tagparser/aspectratio.h>
#include <tagparser/tag.h>
#include <tagparser/vorbis/vorbiscomment.h>
#include <tagparser/ogg/oggcontainer.h>
#include <tagparser/flac/flacstream.h>

using namespace TagParser;

namespace sim {

const char *outName(Out o)
{
    static const char *n[] = { "ok", "io-failure", "failure", "aborted", "bad_alloc", "callback-exception", "other-std-exception", "unknown-exception" };
    return n[static_cast<int>(o)];
}

bool Result::critical() const
{
    for (auto &m : diag) if (m.level() >= DiagLevel::Critical) return true;
    return false;
}
std::string Result::firstCritical() const
{
    for (auto &m : diag) if (m.level() >= DiagLevel::Critical) return m.context() + ": " + m.message();
    return {};
}
std::string Result::describe() const
{
    std::string s = outName(out);
    if (!what.empty()) s += " (" + printable(what, 120) + ")";
    const auto c = firstCritical();
    if (!c.empty()) s += " critical: " + printable(c, 200);
    return s;
}

Result guarded(const std::function<void(Diagnostics &)> &f)
{
    Result r;
    try {
        SutScope sut;
        f(r.diag);
    } catch (const OperationAbortedException &) {
        r.out = Out::Aborted;
    } catch (const Failure &e) {
        r.out = Out::Failure;
        r.what = e.what();
    } catch (const std::ios_base::failure &e) {
        r.out = Out::IoFail;
        r.what = e.what();
    } catch (const std::bad_alloc &) {
        r.out = Out::BadAlloc;
    } catch (const CallbackError &) {
        r.out = Out::Injected;
    } catch (const std::exception &e) {
        r.out = Out::OtherStd;
        r.what = e.what();
    } catch (...) {
        r.out = Out::Unknown;
    }
    return r;
}

const FieldSpec fieldTable[] = {
    { KnownField::Title, "Title", 'T', "title", "TIT2", "TITLE", "©nam", "TITLE" },
    { KnownField::Artist, "Artist", 'T', "artist", "TPE1", "ARTIST", "©ART", "ARTIST" },
    { KnownField::Album, "Album", 'T', "album", "TALB", "ALBUM", "©alb", "ALBUM" },
    { KnownField::Comment, "Comment", 'T', "comment", "COMM", "COMMENT", "©cmt", "COMMENT" },
    { KnownField::Genre, "Genre", 'G', "genre", "TCON", "GENRE", "©gen", "GENRE" },
    { KnownField::TrackPosition, "TrackPosition", 'P', "track", "TRCK", "TRACKNUMBER", "trkn", "" },
    { KnownField::RecordDate, "RecordDate", 'D', "year", "TDRC", "DATE", "©day", "DATE_RECORDED" },
    { KnownField::Composer, "Composer", 'T', "", "TCOM", "COMPOSER", "©wrt", "COMPOSER" },
    { KnownField::Lyrics, "Lyrics", 'T', "", "USLT", "LYRICS", "©lyr", "LYRICS" },
    { KnownField::AlbumArtist, "AlbumArtist", 'T', "", "TPE2", "ALBUMARTIST", "aART", "ACCOMPANIMENT" },
    { KnownField::Bpm, "Bpm", 'I', "", "TBPM", "BPM", "tmpo", "BPM" },
    { KnownField::DiskPosition, "DiskPosition", 'P', "", "TPOS", "DISCNUMBER", "disk", "" },
    { KnownField::Cover, "Cover", 'C', "", "APIC", "METADATA_BLOCK_PICTURE", "covr", "" },
    { KnownField::Encoder, "Encoder", 'T', "", "TENC", "ENCODER", "©too", "ENCODER" },
    { KnownField::Description, "Description", 'T', "", "", "DESCRIPTION", "desc", "DESCRIPTION" },
    { KnownField::Copyright, "Copyright", 'T', "", "TCOP", "COPYRIGHT", "cprt", "COPYRIGHT" },
    { KnownField::RecordLabel, "RecordLabel", 'T', "", "", "LABEL", "©lab", "LABEL" },
    { KnownField::EncoderSettings, "EncoderSettings", 'T', "", "TSSE", "ENCODER_OPTIONS", "----:com.apple.iTunes:cdec", "ENCODER_SETTINGS" },
    { KnownField::Lyricist, "Lyricist", 'T', "", "TEXT", "LYRICIST", "©swf", "LYRICIST" },
    { KnownField::Grouping, "Grouping", 'T', "", "TIT1", "GROUPING", "©grp", "" },
    { KnownField::RemixedBy, "RemixedBy", 'T', "", "TPE4", "", "", "REMIXED_BY" },
    { KnownField::InitialKey, "InitialKey", 'T', "", "TKEY", "", "", "INITIAL_KEY" },
    { KnownField::Director, "Director", 'T', "", "", "DIRECTOR", "@dir", "DIRECTOR" },
    { KnownField::Rating, "Rating", 'R', "", "POPM", "RATING", "", "RATING" },
    { KnownField::PlayCounter, "PlayCounter", 'N', "", "PCNT", "", "", "PLAY_COUNTER" },
    { KnownField::MediaType, "MediaType", 'B', "", "", "", "stik", "" },
    { KnownField::ContentRating, "ContentRating", 'B', "", "", "", "rtng", "" },
    { KnownField::Length, "Length", 'L', "", "TLEN", "", "", "" },
    { KnownField::PublisherWebpage, "PublisherWebpage", 'W', "", "WPUB", "WWWPUBLISHER", "", "" },
    { KnownField::PerformerWebpage, "PerformerWebpage", 'W', "", "WOAR", "WEBSITE", "", "" },
    { KnownField::PurchaseItem, "PurchaseItem", 'W', "", "WPAY", "", "", "PURCHASE_ITEM" },
    { KnownField::ReleaseDate, "ReleaseDate", 'D', "", "TDRL", "", "", "DATE_RELEASED" },
    { KnownField::TaggingDate, "TaggingDate", 'D', "", "TDTG", "", "", "DATE_TAGGED" },
    { KnownField::EncodingDate, "EncodingDate", 'D', "", "TDEN", "", "", "DATE_ENCODED" },
    { KnownField::OriginalReleaseDate, "OriginalReleaseDate", 'D', "", "TDOR", "", "", "" },
    { KnownField::Performers, "Performers", 'T', "", "", "PERFORMER", "©prf", "ACTOR" },
    { KnownField::Publisher, "Publisher", 'T', "", "TPUB", "PUBLISHER", "©pub", "PUBLISHER" },
    { KnownField::Language, "Language", 'T', "", "TLAN", "LANGUAGE", "", "LANGUAGE" },
    { KnownField::Subtitle, "Subtitle", 'T', "", "TIT3", "", "", "SUBTITLE" },
    { KnownField::Synopsis, "Synopsis", 'T', "", "TDES", "", "ldes", "SYNOPSIS" },
    { KnownField::StoreDescription, "StoreDescription", 'T', "", "", "", "sdes", "" },
    { KnownField::OriginalMediaType, "OriginalMediaType", 'T', "", "TMED", "", "", "ORIGINAL_MEDIA_TYPE" },
    { KnownField::Mood, "Mood", 'T', "", "TMOO", "", "", "MOOD" },
    { KnownField::EncodedBy, "EncodedBy", 'T', "", "", "ENCODED_BY", "©enc", "ENCODED_BY" },
    { KnownField::Conductor, "Conductor", 'T', "", "", "CONDUCTOR", "@con", "CONDUCTOR" },
    { KnownField::Arranger, "Arranger", 'T', "", "", "ARRANGER", "©arg", "ARRANGER" },
    { KnownField::SoundEngineer, "SoundEngineer", 'T', "", "", "", "©sne", "SOUND_ENGINEER" },
    { KnownField::Producer, "Producer", 'T', "", "", "", "©prd", "PRODUCER" },
    { KnownField::ExecutiveProducer, "ExecutiveProducer", 'T', "", "", "", "©xpd", "EXECUTIVE_PRODUCER" },
    { KnownField::ArtDirector, "ArtDirector", 'T', "", "", "", "©ard", "ART_DIRECTOR" },
    { KnownField::License, "License", 'T', "", "", "LICENSE", "", "LICENSE" },
    { KnownField::ISRC, "ISRC", 'T', "", "", "ISRC", "", "ISRC" },
    { KnownField::PartNumber, "PartNumber", 'I', "", "", "PARTNUMBER", "", "PART_NUMBER" },
    { KnownField::TotalParts, "TotalParts", 'I', "", "", "", "", "TOTAL_PARTS" },
    { KnownField::LeadPerformer, "LeadPerformer", 'T', "", "", "", "", "LEAD_PERFORMER" },
    { KnownField::AssistantDirector, "AssistantDirector", 'T', "", "", "", "", "ASSISTANT_DIRECTOR" },
    { KnownField::DirectorOfPhotography, "DirectorOfPhotography", 'T', "", "", "", "", "DIRECTOR_OF_PHOTOGRAPHY" },
    { KnownField::ProductionDesigner, "ProductionDesigner", 'T', "", "", "", "", "PRODUCTION_DESIGNER" },
    { KnownField::Choregrapher, "Choregrapher", 'T', "", "", "", "", "CHOREGRAPHER" },
    { KnownField::CostumeDesigner, "CostumeDesigner", 'T', "", "", "", "", "COSTUME_DESIGNER" },
    { KnownField::Character, "Character", 'T', "", "", "", "", "CHARACTER" },
    { KnownField::WrittenBy, "WrittenBy", 'T', "", "", "", "", "WRITTEN_BY" },
    { KnownField::ScreenplayBy, "ScreenplayBy", 'T', "", "", "", "", "SCREENPLAY_BY" },
    { KnownField::EditedBy, "EditedBy", 'T', "", "", "", "", "EDITED_BY" },
    { KnownField::Coproducer, "Coproducer", 'T', "", "", "", "", "COPRODUCER" },
    { KnownField::DistributedBy, "DistributedBy", 'T', "", "", "", "", "DISTRIBUTED_BY" },
    { KnownField::MasteredBy, "MasteredBy", 'T', "", "", "", "", "MASTERED_BY" },
    { KnownField::MixedBy, "MixedBy", 'T', "", "", "", "", "MIXED_BY" },
    { KnownField::ProductionStudio, "ProductionStudio", 'T', "", "", "", "", "PRODUCTION_STUDIO" },
    { KnownField::ThanksTo, "ThanksTo", 'T', "", "", "", "", "THANKS_TO" },
    { KnownField::Keywords, "Keywords", 'T', "", "", "", "", "KEYWORDS" },
    { KnownField::Summary, "Summary", 'T', "", "", "", "", "SUMMARY" },
    { KnownField::LawRating, "LawRating", 'T', "", "", "", "", "LAW_RATING" },
    { KnownField::RecordingLocation, "RecordingLocation", 'T', "", "", "", "", "RECORDING_LOCATION" },
    { KnownField::Barcode, "Barcode", 'T', "", "", "", "", "BARCODE" },
    { KnownField::CatalogNumber, "CatalogNumber", 'T', "", "", "", "", "CATALOG_NUMBER" },
    { KnownField::IMDB, "IMDB", 'T', "", "", "", "", "IMDB" },
    { KnownField::TermsOfUse, "TermsOfUse", 'T', "", "", "", "", "TERMS_OF_USE" },
};
const int fieldTableSize = sizeof fieldTable / sizeof *fieldTable;
static constexpr int commonFieldCount = 23; // fields which are picked more often

static std::string nativeId(const NTag &t, const FieldSpec &f)
{
    if (t.type == "id3v1") return f.id3v1;
    if (t.type.compare(0, 5, "id3v2") == 0) return f.id3v2;
    if (t.type == "vorbis") return f.vorbis;
    if (t.type == "mp4") return f.mp4;
    return f.mkv;
}

std::string Settings::describe() const
{
    static const char *p[] = { "before", "after", "keep" };
    return std::string(forceRewrite ? "rewrite " : "") + "tags=" + p[tagPos] + (forceTagPos ? "!" : "") + " index=" + p[indexPos] + (forceIndexPos ? "!" : "") + " pad="
        + std::to_string(minPad) + "/" + std::to_string(maxPad) + "/" + std::to_string(prefPad) + (saveAs ? " saveAs" : "") + (backupDir.empty() ? "" : " backup=" + backupDir)
        + (partialParse ? " partial-parse" : "") + (noNormalise ? " no-normalising" : "") + (preserveMux ? " preserve-muxing-app" : "") + (preserveWrite ? " preserve-writing-app" : "") + (convertTotal ? " convert-total" : "") + (app.empty() ? "" : " app=" + app);
}

Settings genSettings(Choices &c, const std::string &pfx, Fmt fmt)
{
    Settings s;
    s.forceRewrite = c.flag(pfx + ".force", 1, 4);
    if (fmt == Fmt::Mp4 || fmt == Fmt::Mkv) {
        s.tagPos = 2 - static_cast<int>(c.pick(pfx + ".tagpos", 0, 2));
        s.forceTagPos = c.flag(pfx + ".forcetag", 1, 2);
        s.indexPos = 2 - static_cast<int>(c.pick(pfx + ".idxpos", 0, 2));
        s.forceIndexPos = c.flag(pfx + ".forceidx", 1, 2);
    }
    switch (c.weighted(pfx + ".padmode", { 3, 4, 2, 1 })) {
    case 0: break;
    case 1: // usual configuration: use what is there
        s.minPad = 0;
        s.maxPad = 100000;
        s.prefPad = static_cast<u64>(c.pick(pfx + ".pref", 0, 2000));
        break;
    case 2:
        s.minPad = static_cast<u64>(c.pick(pfx + ".min", 0, 300));
        s.maxPad = s.minPad + static_cast<u64>(c.pick(pfx + ".max", 0, 900));
        s.prefPad = static_cast<u64>(c.pick(pfx + ".pref", static_cast<i64>(s.minPad), static_cast<i64>(s.maxPad)));
        break;
    default: // tiny
        s.minPad = 0;
        s.maxPad = static_cast<u64>(c.pick(pfx + ".max", 0, 12));
        s.prefPad = static_cast<u64>(c.pick(pfx + ".pref", 0, static_cast<i64>(s.maxPad)));
    }
    if (c.flag(pfx + ".prefedge", 1, 8)) { // sizes where the size denotation of padding changes
        static const u64 edges[] = { 1, 2, 3, 4, 5, 7, 8, 9, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 131, 132, 255, 256, 257, 511, 512, 16383, 16384, 16385, 16386, 16387, 65535, 65536, 65537, 100000 };
        s.prefPad = edges[c.pick(pfx + ".edge", 0, static_cast<i64>(sizeof(edges) / sizeof(*edges)) - 1)];
        s.maxPad = std::max(s.maxPad, s.prefPad);
    }
    return s;
}

std::vector<Edit> genEdits(Choices &c, const std::string &pfx, Fmt fmt, int maxEdits)
{
    std::vector<Edit> r;
    const int n = static_cast<int>(c.pick(pfx + ".n", 0, maxEdits));
    for (int i = 0; i < n; ++i) {
        const std::string p = pfx + "." + std::to_string(i);
        Edit e;
        const bool id3 = fmt <= Fmt::Unknown;
        switch (c.weighted(p + ".kind", { 12, 3, id3 ? 5 : 3, 1, 1, fmt == Fmt::Mkv ? 3 : 0, fmt == Fmt::Mkv ? 1 : 0, fmt == Fmt::Mkv ? 2 : 0, 1, 2, fmt == Fmt::Mkv ? 1 : 0, fmt == Fmt::Mkv ? 1 : 0 })) {
        case 0: e.kind = EK::Set; break;
        case 1: e.kind = EK::Clear; break;
        case 2: e.kind = EK::CreateTag; break;
        case 3: e.kind = EK::RemoveTag; break;
        case 4: e.kind = EK::RemoveAll; break;
        case 5: e.kind = EK::Attach; break;
        case 6: e.kind = EK::IgnoreAttachment; break;
        case 7: e.kind = EK::NewTarget; break;
        case 8: e.kind = EK::ClearAll; break;
        case 10: e.kind = EK::Title; break;
        case 11: e.kind = EK::Retarget; break;
        default: e.kind = EK::Custom;
        }
        e.tagSel = static_cast<int>(c.pick(p + ".tag", 0, 3));
        e.field = static_cast<int>(c.flag(p + ".rare", 1, 3) ? c.pick(p + ".field2", commonFieldCount, fieldTableSize - 1) : c.pick(p + ".field", 0, commonFieldCount - 1));
        e.p1 = static_cast<int>(c.pick(p + ".p1", 0, 5));
        e.p2 = static_cast<int>(c.pick(p + ".p2", 0, 5));
        if (e.kind == EK::Set || (e.kind == EK::CreateTag && id3) || e.kind == EK::NewTarget) e.p3 = static_cast<int>(c.pick(p + ".p3", 0, 7));
        const int nv = c.weighted(p + ".nv", { 6, 2, 1 }) + 1;
        Rng rng = c.rng(p + ".val");
        const int cls = c.weighted(p + ".size", { 5, 5, 3, 1, fmt == Fmt::Ogg ? 1 : 0 });
        for (int k = 0; k < nv; ++k) {
            Val v;
            v.text = genText(rng, k ? std::min(cls, 1) : cls);
            v.enc = static_cast<int>(rng.below(3));
            v.a = static_cast<i64>(1 + rng.below(60));
            v.b = rng.chance(1, 2) ? v.a + static_cast<i64>(rng.below(30)) : 0;
            v.pic = genPicture(rng, std::min(cls, 3), v.mime);
            v.picType = static_cast<int>(rng.below(21));
            static constexpr i64 edges[] = { 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x1FFFF, 0x7FFFFFFF };
            if (rng.chance(1, 2)) v.edge = edges[rng.below(std::size(edges))];
            e.vals.push_back(std::move(v));
        }
        r.push_back(std::move(e));
    }
    return r;
}

void genTrackEdits(Choices &c, const std::string &pfx, Fmt fmt, std::vector<Edit> &edits)
{
    const int n = static_cast<int>(c.pick(pfx + ".n", 1, 4));
    for (int i = 0; i < n; ++i) {
        const std::string p = pfx + "." + std::to_string(i);
        Edit e;
        e.kind = EK::Track;
        e.tagSel = static_cast<int>(c.pick(p + ".track", 0, 5));
        e.p1 = fmt == Fmt::Mkv ? c.weighted(p + ".kind", { 3, 3, 1, 1, 1 }) : c.weighted(p + ".kind", { 3, 3, 2, 0, 0, 2, 1, 2 });
        e.p2 = static_cast<int>(c.pick(p + ".p2", 0, 7));
        Rng rng = c.rng(p + ".val");
        Val v;
        v.text = genText(rng, c.weighted(p + ".size", { 5, 3, 1 }));
        e.vals.push_back(std::move(v));
        edits.push_back(std::move(e));
    }
}

std::vector<ATrack> expectedTracks(const std::vector<ATrack> &before, const Model &m)
{
    std::vector<ATrack> r;
    if (!m.tracksAltered) r = before;
    else
        for (auto &id : m.trackOrder) {
            const auto f = m.foreign.find(id);
            for (auto &t : f != m.foreign.end() ? m.foreignAn.tracks : before)
                if (t.id == (f != m.foreign.end() ? f->second : id)) { r.push_back(t); r.back().id = id; }
        }
    for (auto &t : r) {
        const auto i = m.trackAttr.find(t.id);
        if (i == m.trackAttr.end()) continue;
        for (auto &[k, v] : i->second) t.attr[k] = v;
    }
    return r;
}

std::string compareTrackInfo(MediaFileInfo &info, const Analysis &an)
{
    if (info.containerFormat() != ContainerFormat::Mp4 && info.containerFormat() != ContainerFormat::Matroska && info.containerFormat() != ContainerFormat::Webm) return {};
    const auto tracks = info.tracks();
    if (tracks.size() != an.tracks.size()) return "the library tells about " + std::to_string(tracks.size()) + " instead of " + std::to_string(an.tracks.size()) + " tracks";
    for (std::size_t i = 0; i < tracks.size(); ++i) {
        const auto *const t = tracks[i];
        auto attr = an.tracks[i].attr;
        const std::string what = "the library tells about track " + an.tracks[i].id + ": ";
        if (std::to_string(t->id()) != an.tracks[i].id) return what + "ID " + std::to_string(t->id());
        if (t->name() != attr["name"]) return what + "name \"" + printable(t->name()) + "\" instead of \"" + printable(attr["name"]) + "\"";
        if (t->isEnabled() != (attr["enabled"] == "1")) return what + "enabled is " + std::to_string(t->isEnabled());
        if (info.containerFormat() == ContainerFormat::Mp4) {
            if (t->locale().abbreviatedName(LocaleFormat::ISO_639_2_T) != attr["lang"] && !attr["lang"].empty() && attr["lang"] != "und") return what + "language " + t->locale().toString() + " instead of " + attr["lang"];
            continue;
        }
        if (t->isDefault() != (attr["default"] == "1")) return what + "default is " + std::to_string(t->isDefault());
        if (t->isForced() != (attr["forced"] == "1")) return what + "forced is " + std::to_string(t->isForced());
        if (t->locale().abbreviatedName(LocaleFormat::ISO_639_2_B) != attr["lang"] && attr["lang"] != "und") return what + "language " + t->locale().toString() + " instead of " + attr["lang"];
        if (t->locale().abbreviatedName(LocaleFormat::BCP_47) != attr["ietf"]) return what + "language (IETF) " + t->locale().toString() + " instead of " + attr["ietf"];
    }
    return {};
}

void genHandling(Choices &c, const std::string &pfx, Fmt fmt, Settings &s)
{
    if (fmt == Fmt::Mkv) {
        s.partialParse = c.flag(pfx + ".partial", 1, 4);
        s.noNormalise = c.flag(pfx + ".nonorm", 1, 5);
        s.preserveMux = c.flag(pfx + ".mux", 1, 3);
        s.preserveWrite = c.flag(pfx + ".write", 1, 3);
        if (c.flag(pfx + ".app", 1, 3)) s.app = "Application " + std::string(static_cast<std::size_t>(c.pick(pfx + ".app.n", 0, 200)), 'a');
    } else if (fmt == Fmt::Flac || fmt == Fmt::Ogg) {
        s.convertTotal = c.flag(pfx + ".total", 1, 3);
    }
}

void applyHandling(MediaFileInfo &info, const Settings &s)
{
    auto flags = info.fileHandlingFlags();
    CppUtilities::modFlagEnum(flags, MediaFileHandlingFlags::NormalizeKnownTagFieldIds, !s.noNormalise);
    CppUtilities::modFlagEnum(flags, MediaFileHandlingFlags::PreserveMuxingApplication, s.preserveMux);
    CppUtilities::modFlagEnum(flags, MediaFileHandlingFlags::PreserveWritingApplication, s.preserveWrite);
    CppUtilities::modFlagEnum(flags, MediaFileHandlingFlags::ConvertTotalFields, s.convertTotal);
    info.setFileHandlingFlags(flags);
    info.setWritingApplication(s.app);
    if (s.partialParse) info.setMaxFullParseSize(1);
}

static std::string upperCase(std::string s)
{
    for (auto &ch : s) if (ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 'a' + 'A');
    return s;
}

// what is documented to happen when parsing tags
static void normaliseParsed(MediaFileInfo &info, Model &m)
{
    const auto flags = info.fileHandlingFlags();
    for (auto &t : m.tags) {
        if (t.type == "mkv" && flags & MediaFileHandlingFlags::NormalizeKnownTagFieldIds) {
            for (auto &f : t.fields) {
                const auto name = f.id.substr(0, f.id.find_first_of("@/")), up = upperCase(name);
                if (up == name) continue;
                for (int i = 0; i < fieldTableSize; ++i) if (up == fieldTable[i].mkv) { f.id.replace(0, up.size(), up); break; }
            }
        }
        if (t.type == "vorbis" && flags & MediaFileHandlingFlags::ConvertTotalFields) {
            for (const auto &[number, total] : { std::make_pair("TRACKNUMBER", "TRACKTOTAL"), std::make_pair("DISCNUMBER", "DISCTOTAL"), std::make_pair("PARTNUMBER", "PARTTOTAL") }) {
                std::vector<std::string> totals;
                for (auto i = t.fields.begin(); i != t.fields.end();) {
                    if (i->id == total) { totals.push_back(i->val); i = t.fields.erase(i); } else ++i;
                }
                auto next = totals.begin();
                for (auto &f : t.fields) {
                    if (f.id != number || next == totals.end()) continue;
                    if (f.val.find('/') == std::string::npos && f.val.find_first_not_of("0123456789") == std::string::npos) f.val += "/" + *next;
                    ++next;
                }
                for (; next != totals.end(); ++next) t.fields.push_back({ number, "/" + *next });
            }
        }
    }
}

void applySettings(MediaFileInfo &info, const Settings &s, const std::string &savePath)
{
    info.setForceRewrite(s.forceRewrite);
    info.setTagPosition(static_cast<ElementPosition>(s.tagPos));
    info.setForceTagPosition(s.forceTagPos);
    info.setIndexPosition(static_cast<ElementPosition>(s.indexPos));
    info.setForceIndexPosition(s.forceIndexPos);
    info.setMinPadding(s.minPad);
    info.setMaxPadding(s.maxPad);
    info.setPreferredPadding(s.prefPad);
    info.setBackupDirectory(s.backupDir);
    info.setSaveFilePath(s.saveAs ? savePath.empty() ? std::string("/sim/out/saved") + info.extension() : savePath : std::string());
}

// ---------------------------------------------------------------- model
static std::string ascii(std::string s)
{
    for (auto &ch : s) if (static_cast<unsigned char>(ch) >= 0x80) ch = '_';
    return s;
}
static std::string utf8ToLatin1(const std::string &s)
{
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        const auto ch = static_cast<unsigned char>(s[i]);
        if (ch < 0x80) r += s[i];
        else if ((ch & 0xFC) == 0xC0 && i + 1 < s.size()) r += static_cast<char>((ch & 3) << 6 | (s[++i] & 0x3F));
        else if ((ch & 0xC0) != 0x80) r += '_';
    }
    return r;
}
static std::string utf8Prefix(std::string s, std::size_t n)
{
    if (s.size() > n) {
        s.resize(n);
        while (!s.empty() && (static_cast<unsigned char>(s.back()) & 0xC0) == 0x80) s.pop_back();
        if (!s.empty() && static_cast<unsigned char>(s.back()) >= 0xC0) s.pop_back();
    }
    while (!s.empty() && s.back() == ' ') s.pop_back();
    return s;
}

static TagValue textValue(const std::string &utf8, int enc)
{
    switch (enc) {
    case 1: {
        const auto l = utf8ToLatin1(utf8);
        return TagValue(l.data(), l.size(), TagTextEncoding::Latin1);
    }
    case 2: {
        const auto w = utf8ToUtf16(utf8, false, false);
        return TagValue(w.data(), w.size(), TagTextEncoding::Utf16LittleEndian);
    }
    default: return TagValue(utf8.data(), utf8.size(), TagTextEncoding::Utf8);
    }
}

// builds the library's value and the canonical native value; returns false if not applicable
static const std::string unrepresentable("\x01!unrepresentable");

static bool makeValue(const NTag &t, const FieldSpec &f, const Val &v, TagValue &tv, std::string &canon)
{
    const bool id3v1 = t.type == "id3v1", id3v2 = t.type.compare(0, 5, "id3v2") == 0, mp4 = t.type == "mp4", vorbis = t.type == "vorbis";
    switch (f.kind) {
    case 'T': {
        std::string s = v.text;
        int enc = v.enc;
        if (id3v1) {
            s = utf8Prefix(s, 24);
            if (enc == 2) enc = 1;
        }
        if (enc == 1) s = id3v1 ? ascii(s) : latin1ToUtf8(utf8ToLatin1(s));
        if (f.f == KnownField::Description && mp4) s = utf8Prefix(s, 200);
        tv = textValue(s, enc);
        canon = s;
        if (id3v2 && (f.f == KnownField::Comment || f.f == KnownField::Lyrics)) {
            canon = "\x01*|" + s;
            if (v.a % 3 == 0) { // with language and description
                const std::string lang = v.b % 2 ? "eng" : "ger", desc = "d\xC3\xA9sc " + std::to_string(v.b);
                tv.setLocale(Locale(lang, LocaleFormat::ISO_639_2_B));
                const auto latin1 = utf8ToLatin1(desc), utf16 = utf8ToUtf16(desc, false, false);
                const auto &data = enc == 1 ? latin1 : enc == 2 ? utf16 : desc;
                tv.setDescription(data, enc == 1 ? TagTextEncoding::Latin1 : enc == 2 ? TagTextEncoding::Utf16LittleEndian : TagTextEncoding::Utf8);
                canon = lang + "|" + desc + "|" + s;
            }
        }
        return true;
    }
    case 'G':
        if (id3v1 || (v.a % 3 == 0)) {
            const int idx = static_cast<int>(v.a);
            if (id3v1 || id3v2 || (mp4 && v.enc == 2)) {
                tv = TagValue();
                tv.assignStandardGenreIndex(idx);
                canon = mp4 ? "#" + std::to_string(idx + 1) : std::to_string(idx);
                return true;
            }
        }
        canon = "Genre of " + ascii(utf8Prefix(v.text, 20));
        tv = textValue(canon, v.enc);
        return true;
    case 'P': {
        if (id3v1) {
            const int pos = static_cast<int>(v.b % 2 ? 255 - v.a : v.a);
            tv = TagValue(PositionInSet(pos, static_cast<std::int32_t>(v.b)));
            canon = std::to_string(pos);
            return true;
        }
        auto pos = v.edge > 0 ? std::min<i64>(v.edge, 65535) : v.a, total = v.edge > 0 && v.b ? 65535 - v.b : v.b;
        if (v.wild && mp4) (v.a % 2 ? pos : total) = v.b % 2 ? 65536 + v.a : -v.a;
        tv = TagValue(PositionInSet(static_cast<std::int32_t>(pos), static_cast<std::int32_t>(total)));
        if (mp4) canon = std::to_string(pos) + "/" + std::to_string(total);
        else canon = total ? std::to_string(pos) + "/" + std::to_string(total) : std::to_string(pos);
        if (v.wild && mp4) canon = unrepresentable;
        return true;
    }
    case 'D': {
        const std::string y = std::to_string(1950 + v.a);
        if (id3v1) canon = y;
        else if (id3v2 && t.type != "id3v2.4" && f.f != KnownField::RecordDate) canon = y;
        else canon = v.b ? y + "-0" + std::to_string(1 + v.b % 9) + "-1" + std::to_string(v.b % 10) : y;
        tv = textValue(canon, v.enc == 1 ? 1 : 0);
        return true;
    }
    case 'R': { // rating in the generic scale (1 to 5)
        static const char *const id3Rating[] = { "1", "64", "128", "191", "255" }, *const mkvRating[] = { "0", "1.25", "2.5", "3.75", "5" };
        const int rating = static_cast<int>(1 + v.a % 5);
        Popularity p;
        p.scale = TagType::Unspecified;
        p.rating = rating;
        if (id3v2 && v.b) {
            p.user = "user" + std::to_string(v.b) + "@host";
            p.playCounter = static_cast<std::uint64_t>(v.a) * (v.enc ? 1 : 100000007ull);
        }
        if (v.enc == 1) { // specify it in another scale
            if (!p.scaleTo(TagType::MatroskaTag)) return false;
        } else if (v.enc == 2) {
            if (!p.scaleTo(TagType::VorbisComment)) return false;
        }
        tv = TagValue(p);
        canon = id3v2 ? p.user + "|" + id3Rating[rating - 1] + "|" + std::to_string(p.playCounter) : vorbis ? std::to_string(rating * 20) : mkvRating[rating - 1];
        return true;
    }
    case 'N': {
        const u64 n = v.edge >= 0 ? static_cast<u64>(v.edge) * (v.enc == 2 ? 0x100000001ull : 1) : static_cast<u64>(v.a) * (v.enc == 0 ? 1 : v.enc == 1 ? 10007 : 10000000019ull);
        tv = TagValue();
        tv.assignUnsignedInteger(n);
        canon = std::to_string(n);
        return true;
    }
    case 'B': { // note: All values of the content rating besides 0 and 2 denote the same; it is therefore normalised by the library.
        const i64 n = f.f == KnownField::ContentRating ? v.a % 3 * 2 : v.a;
        if (v.enc == 2) { // by name
            static const char *const ratings[] = { "None", "Clean", "Explicit" };
            static const std::pair<const char *, int> types[] = { { "Movie", 0 }, { "Music", 1 }, { "Audiobook", 2 }, { "Whacked Bookmark", 5 }, { "Music Video", 6 }, { "Short Film", 9 }, { "TV Show", 10 }, { "Booklet", 11 }, { "Ringtone", 14 }, { "Podcast", 21 } };
            const auto type = types[static_cast<u64>(v.a) % 10];
            tv = textValue(f.f == KnownField::ContentRating ? ratings[v.a % 3] : type.first, 0);
            canon = std::to_string(f.f == KnownField::ContentRating ? n : type.second);
            return true;
        }
        tv = TagValue(static_cast<int>(n));
        canon = std::to_string(n);
        return true;
    }
    case 'L': {
        const i64 ms = v.a * 1000 + v.b * 7;
        tv = TagValue(CppUtilities::TimeSpan::fromMilliseconds(static_cast<double>(ms)));
        canon = std::to_string(ms);
        return true;
    }
    case 'W':
        canon = "http://example.org/" + std::to_string(v.a) + "?" + std::string(static_cast<std::size_t>(v.b) * 3, 'q');
        tv = textValue(canon, v.enc);
        return true;
    case 'I': {
        if (v.wild && mp4) {
            tv = textValue(v.a % 2 ? "fast" : "99999999999999999999999", 0);
            canon = unrepresentable;
            return true;
        }
        const auto number = v.edge >= 0 ? v.edge : v.a + 60;
        tv = TagValue(static_cast<int>(number));
        canon = std::to_string(number);
        return true;
    }
    case 'C': {
        std::unique_ptr<char[]> d(new char[v.pic.size()]);
        std::memcpy(d.get(), v.pic.data(), v.pic.size());
        tv = TagValue(std::move(d), v.pic.size(), TagDataType::Picture);
        tv.setMimeType(v.mime);
        const std::string data = std::to_string(v.pic.size()) + ":" + hex(hashBytes(v.pic.data(), v.pic.size()));
        if (mp4) {
            canon = v.mime + "|" + data;
        } else if (id3v2 || vorbis) {
            const std::string desc = (v.b & 1 ? "cov\xC3\xA9r " : "cover ") + std::to_string(v.a);
            const auto latin1 = utf8ToLatin1(desc), utf16 = utf8ToUtf16(desc, false, false);
            if (v.enc == 1) tv.setDescription(latin1, TagTextEncoding::Latin1);
            else if (v.enc == 2) tv.setDescription(utf16, TagTextEncoding::Utf16LittleEndian);
            else tv.setDescription(desc, TagTextEncoding::Utf8);
            canon = "\x01*type|" + v.mime + "|" + desc + "|" + data;
        } else {
            return false;
        }
        return true;
    }
    }
    return false;
}

// denotes the value of a field which is not predicted (the field might also be absent)
static const std::string anyValue("\x01?");

static bool matches(const std::string &exp, const std::string &act)
{
    if (exp.compare(0, 7, "\x01*type|") == 0) { // any picture type
        const auto p = act.find('|');
        return p != std::string::npos && act.compare(p + 1, std::string::npos, exp, 7, std::string::npos) == 0;
    }
    if (exp.compare(0, 3, "\x01*|") == 0) { // any language/description
        const auto p = act.find('|');
        if (p == std::string::npos) return false;
        const auto q = act.find('|', p + 1);
        return q != std::string::npos && act.compare(q + 1, std::string::npos, exp, 3, std::string::npos) == 0;
    }
    return exp == act;
}

static void normalise(std::vector<NTag> &tags)
{
    for (auto &t : tags) {
        if (t.type == "id3v1") { // the last two bytes of the comment are used for the track number (if there is one)
            const bool track = std::any_of(t.fields.begin(), t.fields.end(), [](const NField &f) { return f.id == "track"; });
            for (auto &f : t.fields) if (const std::size_t max = std::any_of(f.val.begin(), f.val.end(), [](char ch) { return ch & 0x80; }) ? 25 : 28; track && f.id == "comment" && f.val.size() > max) { f.val.resize(max); while (!f.val.empty() && f.val.back() == ' ') f.val.pop_back(); }
        }
        if (t.type == "id3v1") t.fields.erase(std::remove_if(t.fields.begin(), t.fields.end(), [](const NField &f) { return f.id == "genre" && f.val == "255"; }), t.fields.end());
        std::stable_sort(t.fields.begin(), t.fields.end(), [](const NField &a, const NField &b) { return a.id < b.id; });
    }
    tags.erase(std::remove_if(tags.begin(), tags.end(), [](const NTag &t) { return t.fields.empty(); }), tags.end());
}

std::string compareTags(const std::vector<NTag> &expected, const std::vector<NTag> &actual)
{
    auto exp = expected, act = actual;
    for (auto &t : exp) {
        std::set<std::string> ignored;
        for (auto &f : t.fields) if (f.val == anyValue) ignored.insert(f.id);
        if (ignored.empty()) continue;
        const auto drop = [&](NTag &x) { x.fields.erase(std::remove_if(x.fields.begin(), x.fields.end(), [&](const NField &f) { return ignored.count(f.id) != 0; }), x.fields.end()); };
        drop(t);
        for (auto &x : act) if (x.type == t.type && x.target == t.target) drop(x);
    }
    normalise(exp);
    normalise(act);
    // tags of different kinds may be ordered differently; group by type and target
    auto key = [](const NTag &t) { return t.type + "|" + t.target; };
    auto cmp = [&](const NTag &a, const NTag &b) { return key(a) < key(b); };
    std::stable_sort(exp.begin(), exp.end(), cmp);
    std::stable_sort(act.begin(), act.end(), cmp);
    for (std::size_t i = 0; i < std::max(exp.size(), act.size()); ++i) {
        if (i >= exp.size()) return "unexpected tag " + printable(key(act[i])) + " with " + std::to_string(act[i].fields.size()) + " field(s), first " + printable(act[i].fields[0].id + "=" + act[i].fields[0].val, 80);
        if (i >= act.size()) return "tag " + printable(key(exp[i])) + " is missing";
        if (key(exp[i]) != key(act[i])) return "expected tag " + printable(key(exp[i])) + " but found " + printable(key(act[i]));
        const auto &e = exp[i].fields, &a = act[i].fields;
        for (std::size_t k = 0; k < std::max(e.size(), a.size()); ++k) {
            if (k < e.size() && (k >= a.size() || e[k].id < a[k].id)) return "tag " + printable(key(exp[i])) + ": field " + printable(e[k].id) + "=" + printable(e[k].val) + " is missing";
            if (k >= e.size() || a[k].id < e[k].id) return "tag " + printable(key(exp[i])) + ": unexpected field " + printable(a[k].id) + "=" + printable(a[k].val);
            if (!matches(e[k].val, a[k].val)) return "tag " + printable(key(exp[i])) + ": field " + printable(e[k].id) + " is \"" + printable(a[k].val) + "\" instead of \"" + printable(e[k].val) + "\"";
            if (e[k].flag >= 0 && a[k].flag >= 0 && e[k].flag != a[k].flag) return "tag " + printable(key(exp[i])) + ": field " + printable(e[k].id) + (a[k].flag ? " is" : " is not") + " for the default language anymore";
        }
    }
    return {};
}

static int modelIndex(const Model &m, const std::string &typePrefix, int nth)
{
    for (std::size_t i = 0; i < m.tags.size(); ++i)
        if (m.tags[i].type.compare(0, typePrefix.size(), typePrefix) == 0 && nth-- == 0) return static_cast<int>(i);
    return -1;
}

// the stream a Vorbis comment belongs to (the first suitable stream is used for newly created tags if none is specified)
static std::string oggTarget(MediaFileInfo &info, const Tag &tag)
{
    if (!tag.target().tracks().empty()) return "serial:" + std::to_string(tag.target().tracks().front());
    for (auto *const track : info.tracks()) {
        const auto g = track->format().general;
        if (g == GeneralMediaFormat::Vorbis || g == GeneralMediaFormat::Opus) return "serial:" + std::to_string(track->id());
    }
    return {};
}

static int indexOf(MediaFileInfo &info, const Model &m, Tag *tag)
{
    switch (tag->type()) {
    case TagType::Id3v1Tag: return modelIndex(m, "id3v1", 0);
    case TagType::Id3v2Tag: {
        int n = 0;
        for (auto &t : info.id3v2Tags()) { if (t.get() == tag) return modelIndex(m, "id3v2", n); ++n; }
        return -1;
    }
    case TagType::Mp4Tag: return modelIndex(m, "mp4", 0);
    case TagType::MatroskaTag: {
        int n = 0;
        for (auto &t : info.matroskaTags()) { if (t.get() == tag) return modelIndex(m, "mkv", n); ++n; }
        return -1;
    }
    default: {
        if (!info.container()) return modelIndex(m, "vorbis", 0);
        const auto target = oggTarget(info, *tag);
        for (std::size_t i = 0; i < m.tags.size(); ++i) if (m.tags[i].target == target) return static_cast<int>(i);
        return -1;
    }
    }
}

static void removeField(NTag &t, const std::string &id)
{
    t.fields.erase(std::remove_if(t.fields.begin(), t.fields.end(), [&](const NField &f) {
        if (f.id == id) return true;
        if (t.type.compare(0, 5, "id3v2") == 0 && id == "TDRC" && (f.id == "TYER" || f.id == "TDAT" || f.id == "TIME")) return true;
        if (t.type == "mp4" && id == "©gen" && f.id == "gnre") return true;
        if (t.type == "mkv" && f.id.compare(0, id.size() + 1, id + "@") == 0 && f.id.find('/') == std::string::npos) return true;
        return false;
    }), t.fields.end());
}

static const char mp4LabelId[] = "----:com.apple.iTunes:LABEL";

static const NField *findField(const NTag &t, const std::string &id)
{
    for (auto &f : t.fields) if (f.id == id) return &f;
    return nullptr;
}

// Vorbis comments might use the unofficial field "YEAR" for the date
static bool denotesDateAsYear(const NTag &t)
{
    return t.type == "vorbis" && !findField(t, "DATE") && findField(t, "YEAR");
}

// what a field denotes according to the analysis of the file and according to the library (in the same notation)
static std::string stripFrameSuffix(std::string s)
{
    auto cut = [&](const char *what, bool number) {
        const auto p = s.rfind(what);
        if (p == std::string::npos) return;
        const auto rest = s.substr(p + std::strlen(what));
        if (number ? rest.find_first_not_of("0123456789abcdef") == std::string::npos : rest.empty()) s.resize(p);
    };
    cut(" loc=", true);
    cut(" flags", true);
    cut(" zlib", false);
    cut(" group", true);
    return s;
}

static bool isNumber(const std::string &s) { return !s.empty() && s.size() < 10 && s.find_first_not_of("0123456789") == std::string::npos; }

static std::string positionOf(const std::string &s)
{
    const auto slash = s.find('/');
    return std::to_string(std::atoi(s.c_str())) + "/" + std::to_string(slash == std::string::npos ? 0 : std::atoi(s.c_str() + slash + 1));
}

static std::vector<std::string> denoted(const NTag &t, const FieldSpec &f)
{
    std::vector<std::string> r;
    const bool id3v2 = t.type.compare(0, 5, "id3v2") == 0, id3v1 = t.type == "id3v1";
    const std::string id = f.f == KnownField::RecordDate && denotesDateAsYear(t) ? std::string("YEAR") : nativeId(t, f);
    const bool oldDate = id3v2 && t.type != "id3v2.4" && f.f == KnownField::RecordDate;
    std::string year, date, time;
    for (auto &x : t.fields) {
        std::string v = id3v2 || t.type == "mp4" ? stripFrameSuffix(x.val) : x.val;
        if (oldDate) {
            if (x.id == "TYER" && year.empty()) year = v;
            if (x.id == "TDAT" && date.empty()) date = v;
            if (x.id == "TIME" && time.empty()) time = v;
        }
        if (x.id == "gnre" && f.kind == 'G' && !findField(t, id)) r.push_back("#" + std::to_string(std::atoi(v.c_str()) - 1));
        if (t.type == "mkv" ? upperCase(x.id.substr(0, x.id.find('@'))) != id : x.id != id) continue;
        std::vector<std::string> parts;
        if (id3v2 && x.id[0] == 'T') for (std::size_t p = 0; ; ) { const auto e = v.find('\x1F', p); parts.push_back(v.substr(p, e - p)); if (e == std::string::npos) break; p = e + 1; }
        else parts.push_back(v);
        for (auto &v : parts) {
            if (v.empty()) continue;
            if (x.id == "COMM" || x.id == "USLT") { // an unspecified language may be denoted by zeros
                if (v.compare(0, 3, std::string(3, '\0')) == 0) v.erase(0, 3);
            }
            if (f.kind == 'G' && (id3v1 || id3v2)) {
                std::string n = v;
                if (n.size() > 2 && n.front() == '(' && n.back() == ')') n = n.substr(1, n.size() - 2);
                if (id3v1 && n == "255") continue;
                r.push_back(isNumber(n) ? "#" + n : v);
            } else if (f.kind == 'P' && v.find_first_not_of("0123456789/") == std::string::npos) r.push_back(positionOf(v));
            else r.push_back(v);
        }
    }
    if (f.f == KnownField::RecordLabel && t.type == "mp4") for (auto &x : t.fields) if (x.id == mp4LabelId) r.push_back(x.val);
    if (oldDate && r.empty() && year.size() == 4) {
        auto iso = year;
        if (date.size() == 4) { iso += "-" + date.substr(2) + "-" + date.substr(0, 2); if (time.size() == 4) iso += "T" + time.substr(0, 2) + ":" + time.substr(2); }
        r.push_back(iso);
    }
    return r;
}

static std::string readValue(const NTag &t, const FieldSpec &f, const TagValue &v)
{
    const bool id3v2 = t.type.compare(0, 5, "id3v2") == 0;
    const auto blob = std::to_string(v.dataSize()) + ":" + hex(hashBytes(reinterpret_cast<const u8 *>(v.dataPointer()), v.dataSize()));
    const auto desc = [&] { return TagValue(v.description().data(), v.description().size(), v.descriptionEncoding()).toString(TagTextEncoding::Utf8); };
    switch (f.kind) {
    case 'P': if (v.type() == TagDataType::Text && v.toString(TagTextEncoding::Utf8).find_first_not_of("0123456789/") != std::string::npos) break; { const auto p = v.toPositionInSet(); return std::to_string(p.position()) + "/" + std::to_string(p.total()); }
    case 'G': if (v.type() == TagDataType::StandardGenreIndex) return "#" + std::to_string(v.toInteger()); break;
    case 'R': if (!id3v2 && v.type() == TagDataType::Popularity && v.toPopularity().isEmpty()) return "0"; if (id3v2) { const auto p = v.toPopularity(); return p.user + "|" + std::to_string(static_cast<int>(p.rating)) + "|" + std::to_string(p.playCounter); } break;
    case 'N': return std::to_string(v.toUnsignedInteger());
    case 'B':
        if (t.type == "mp4" && v.type() == TagDataType::Text) { // well-known values are told by name
            static const std::map<std::string, std::string> media{ { "Movie", "0" }, { "Music", "1" }, { "Audiobook", "2" }, { "Whacked Bookmark", "5" }, { "Music Video", "6" }, { "Short Film", "9" }, { "TV Show", "10" }, { "Booklet", "11" }, { "Ringtone", "14" }, { "Podcast", "21" } };
            static const std::map<std::string, std::string> rating{ { "None", "0" }, { "Clean", "2" }, { "Explicit", "4" } };
            const auto name = v.toString(TagTextEncoding::Utf8);
            const auto &map = f.f == KnownField::ContentRating ? rating : media;
            if (const auto i = map.find(name); i != map.end()) return i->second;
            return name;
        }
        [[fallthrough]];
    case 'I': if (v.type() == TagDataType::Text) break; return std::to_string(v.toInteger());
    case 'L': if (v.type() == TagDataType::TimeSpan) return std::to_string(static_cast<i64>(v.toTimeSpan().totalMilliseconds())); break;
    case 'C': {
        if (t.type == "mp4") return v.mimeType() + "|" + blob;
        return (id3v2 || t.type == "vorbis" ? "*|" : "") + v.mimeType() + "|" + desc() + "|" + blob;
    }
    default:;
    }
    auto s = v.toString(TagTextEncoding::Utf8);
    if (id3v2 && (f.f == KnownField::Comment || f.f == KnownField::Lyrics)) s = v.locale().abbreviatedName(LocaleFormat::ISO_639_2_B) + "|" + desc() + "|" + s;
    return s;
}

// the field denoted by the native ID used for the specified field
static KnownField knownFieldOf(const Tag &tag, KnownField field)
{
    const auto map = [field](const auto &t) { return t.knownField(t.fieldId(field)); };
    switch (tag.type()) {
    case TagType::Id3v2Tag: return map(static_cast<const Id3v2Tag &>(tag));
    case TagType::Mp4Tag: return field == KnownField::EncoderSettings ? field : map(static_cast<const Mp4Tag &>(tag));
    case TagType::MatroskaTag: return map(static_cast<const MatroskaTag &>(tag));
    case TagType::VorbisComment:
    case TagType::OggVorbisComment: return map(static_cast<const VorbisComment &>(tag));
    default: return field;
    }
}

std::string compareTagInfo(MediaFileInfo &info, const Analysis &an)
{
    Model m;
    m.tags = an.tags;
    const auto tags = info.tags();
    std::set<int> seen;
    for (auto *const tag : tags) {
        const int idx = indexOf(info, m, tag);
        const std::string what = "the library tells about a " + std::string(tag->typeName()) + " " + tag->targetString() + ": ";
        if (idx < 0) {
            if (tag->type() == TagType::Id3v2Tag && info.container()) continue; // precedes the actual file and is otherwise ignored
            if (tag->type() == TagType::Id3v1Tag) continue; // the last 128 bytes happen to begin with "TAG"
            if (tag->fieldCount() && tag->type() != TagType::VorbisComment && tag->type() != TagType::OggVorbisComment) return what + "there is none";
            continue;
        }
        seen.insert(idx);
        const NTag &t = m.tags[static_cast<std::size_t>(idx)];
        if (t.type == "mkv") {
            const auto &target = tag->target();
            auto s = std::to_string(target.level()) + (target.levelName().empty() ? std::string() : " '" + target.levelName() + "'");
            std::multiset<std::string> ids;
            for (auto &[id, v] : std::initializer_list<std::pair<int, const TagTarget::IdContainerType &>>{ { 0x63C5, target.tracks() }, { 0x63C9, target.editions() }, { 0x63C4, target.chapters() }, { 0x63C6, target.attachments() } })
                for (auto x : v) ids.insert(" " + hex(static_cast<u64>(id)) + ":" + std::to_string(x));
            for (auto &x : ids) s += x;
            if (s != t.target) return what + "the target is " + printable(s) + " instead of " + printable(t.target);
        }
        for (int i = 0; i < fieldTableSize; ++i) {
            const auto &f = fieldTable[i];
            const auto id = nativeId(t, f);
            if (id.empty()) continue;
            if (!tag->supportsField(f.f)) { if (tag->hasField(f.f)) return what + f.name + " is not supported but present"; continue; }
            if (const auto known = knownFieldOf(*tag, f.f); known != f.f) return what + "the native ID of " + f.name + " denotes another field (" + std::to_string(static_cast<int>(known)) + ")";
            auto exp = denoted(t, f);
            std::vector<std::string> act;
            const auto vals = tag->values(f.f);
            try {
                for (auto *v : vals) if (!v->isEmpty()) act.push_back(readValue(t, f, *v));
            } catch (const std::exception &e) {
                return what + f.name + ": " + e.what();
            }
            auto same = [&](std::string e, std::string a) {
                if (a.compare(0, 2, "*|") == 0) { e = e.substr(e.find('|')); a = a.substr(1); }
                return e == a;
            };
            bool ok = exp.size() == act.size();
            for (std::size_t k = 0; ok && k < exp.size(); ++k) ok = same(exp[k], act[k]);
            if (!ok) {
                std::string s = what + f.name + " is";
                for (auto &x : act) s += " \"" + printable(x) + "\"";
                s += " instead of";
                for (auto &x : exp) s += " \"" + printable(x) + "\"";
                return s;
            }
            if (tag->hasField(f.f) != !exp.empty()) return what + "presence of " + f.name + " is " + std::to_string(tag->hasField(f.f));
            if (!exp.empty() && &tag->value(f.f) != vals.front()) return what + "the (first) value of " + f.name + " is a different one";
        }
    }
    for (std::size_t i = 0; i < m.tags.size(); ++i)
        if (!m.tags[i].fields.empty() && !seen.count(static_cast<int>(i))) return "the library does not tell about the tag " + m.tags[i].type + " " + printable(m.tags[i].target);
    // different ways to ask for the same
    std::vector<Tag *> all;
    info.parsedTags(all);
    std::set<Tag *> a(tags.begin(), tags.end());
    for (auto *t : all) if (!a.count(t)) return "the parsed tags are not part of the tags";
    for (auto *t : tags) {
        const int idx = indexOf(info, m, t);
        if (idx >= 0 && m.tags[static_cast<std::size_t>(idx)].len && std::find(all.begin(), all.end(), t) == all.end()) return "the parsed tags lack a " + std::string(t->typeName());
    }
    if (info.hasAnyTag() != !tags.empty()) return "whether there is any tag is told wrongly";
    if (info.hasId3v1Tag() != (info.id3v1Tag() != nullptr) || info.hasId3v2Tag() != !info.id3v2Tags().empty()) return "presence of ID3 tags is told wrongly";
    std::size_t id3 = (info.id3v1Tag() ? 1 : 0) + info.id3v2Tags().size();
    if (id3 > tags.size() || (info.id3v1Tag() && !a.count(info.id3v1Tag()))) return "the ID3 tags are not part of the tags";
    for (auto &t : info.id3v2Tags()) if (!a.count(t.get())) return "the ID3v2 tags are not part of the tags";
    if (auto *v = info.vorbisComment(); v && !a.count(v)) return "the Vorbis comment is not part of the tags";
    if (auto *v = info.mp4Tag(); v && !a.count(v)) return "the MP4 tag is not part of the tags";
    return {};
}

// the group information, compression and flags of an existing frame are preserved when its value is changed
static std::string frameSuffix(const NTag &t, const std::string &id)
{
    if (t.type.compare(0, 5, "id3v2")) return {};
    for (const auto &f : t.fields) {
        if (f.id != id) continue;
        const auto p = f.val.rfind(" flags");
        if (p == std::string::npos) return {};
        auto s = f.val.substr(p);
        auto rest = f.val.substr(0, p);
        if (rest.size() > 5 && rest.compare(rest.size() - 5, 5, " zlib") == 0) { s = " zlib" + s; rest.resize(rest.size() - 5); }
        if (const auto g = rest.rfind(" group"); g != std::string::npos && rest.find_first_not_of("0123456789", g + 6) == std::string::npos) s = rest.substr(g) + s;
        return s;
    }
    return {};
}

// identity of a frame for the merging: frames with the same ID and type are considered to be the same
static std::string mergeKey(const NField &f)
{
    return f.id == "APIC" ? f.id + f.val.substr(0, f.val.find('|')) : f.id;
}

// whether the result of merging is well-defined (same version; no frame occurs multiple times within one tag)
static bool mergeable(const Model &m)
{
    std::string type;
    for (auto &t : m.tags) {
        if (t.type.compare(0, 5, "id3v2")) continue;
        if (!type.empty() && type != t.type) return false;
        type = t.type;
        std::set<std::string> keys;
        for (auto &f : t.fields) if (!keys.insert(mergeKey(f)).second || (f.id == "APIC" && !f.val.empty() && f.val[0] == '\x01')) return false;
    }
    return true;
}

static void mergeId3v2(Model &m)
{
    int first = modelIndex(m, "id3v2", 0);
    if (first < 0) return;
    int other;
    while ((other = modelIndex(m, "id3v2", 1)) >= 0) {
        // fields which are not present yet are transferred
        std::vector<NField> add;
        const bool hasYear = std::any_of(m.tags[static_cast<std::size_t>(first)].fields.begin(), m.tags[static_cast<std::size_t>(first)].fields.end(), [](auto &x) { return x.id == "TYER"; });
        for (auto &f : m.tags[static_cast<std::size_t>(other)].fields) {
            bool present = false;
            if ((f.id == "TDAT" || f.id == "TIME") && hasYear) continue;
            for (auto &g : m.tags[static_cast<std::size_t>(first)].fields) if (mergeKey(g) == mergeKey(f)) present = true;
            if (!present) add.push_back(f);
        }
        auto &ff = m.tags[static_cast<std::size_t>(first)].fields;
        ff.insert(ff.end(), add.begin(), add.end());
        m.tags.erase(m.tags.begin() + other);
    }
}

// splits an ISO date as it is stored in ID3v2.3 and older
static void setOldDate(NTag &t, const std::string &iso)
{
    t.fields.push_back({ "TYER", iso.substr(0, 4) });
    if (iso.size() >= 7) t.fields.push_back({ "TDAT", (iso.size() >= 10 ? iso.substr(8, 2) : std::string("01")) + iso.substr(5, 2) });
    if (iso.size() >= 16) t.fields.push_back({ "TIME", iso.substr(11, 2) + iso.substr(14, 2) });
}


// whether the outcome of converting all ID3v2 tags to the specified version is well-defined
static bool convertible(const Model &m, int version)
{
    static const std::set<std::string> legacy{ "TALB", "TPE1", "COMM", "TYER", "TDAT", "TIME", "TRDA", "TDRC", "TIT2", "TCON", "TRCK", "TPOS", "TENC", "TBPM", "APIC", "TEXT", "TLEN", "TLAN", "TSSE", "USLT", "TPE2", "TIT1", "TPUB", "TXXX",
        "TPE4", "TCOP", "PCNT", "POPM", "TSRC", "TKEY", "WPUB", "WOAF", "WOAR", "TIT3", "TMED", "TCOM" };
    for (auto &t : m.tags) {
        if (t.type.compare(0, 6, "id3v2.")) continue;
        const int old = t.type[6] - '0';
        if (old == version) continue;
        for (auto &f : t.fields) {
            if ((version == 2 || old == 2) && !legacy.count(f.id)) return false;
            if (version == 2 && f.val.find(" flags") != std::string::npos) return false;
            if ((version == 2 || old == 2) && f.id == "APIC" && f.val.find("|image/png|") == std::string::npos && f.val.find("|image/jpeg|") == std::string::npos) return false;
            if (f.id == "TDRC" && f.val.find('\x1F') != std::string::npos) return false;
            if ((f.id == "TYER" || f.id == "TDAT" || f.id == "TIME") && f.val.size() != 4) return false;
        }
    }
    return true;
}

static void convertId3v2(Model &m, int version)
{
    for (auto &t : m.tags) {
        if (t.type.compare(0, 6, "id3v2.")) continue;
        const int old = t.type[6] - '0';
        t.type[6] = static_cast<char>('0' + version);
        if (version == 4) {
            if (const auto *const year = findField(t, "TYER")) {
                std::string iso = year->val;
                if (const auto *const date = findField(t, "TDAT")) iso += "-" + date->val.substr(2) + "-" + date->val.substr(0, 2);
                if (const auto *const time = findField(t, "TIME")) iso += "T" + time->val.substr(0, 2) + ":" + time->val.substr(2);
                removeField(t, "TDRC");
                t.fields.push_back({ "TDRC", iso });
            }
        } else if (const auto *const f = findField(t, "TDRC")) {
            const auto iso = f->val;
            removeField(t, "TDRC");
            setOldDate(t, iso);
        }
        for (auto &f : t.fields) {
            const auto p = f.val.rfind(" flags");
            if (p == std::string::npos || (old == 4) == (version == 4)) continue;
            const auto fl = std::stoul(f.val.substr(p + 6), nullptr, 16);
            const auto conv = version == 4 ? (fl & 0xE000) >> 1 | (fl & 0x20 ? 0x40u : 0u) | (fl & 0x80 ? 0x9u : 0u) : (fl & 0x7000) << 1 | (fl & 0x40 ? 0x20u : 0u) | (fl & 0x8 ? 0x80u : 0u);
            f.val = f.val.substr(0, p + 6) + hex(conv);
        }
    }
}

// whether the text ends with an incomplete UTF-8 sequence
static bool endsWithinCharacter(const std::string &s)
{
    std::size_t n = 0;
    for (auto i = s.rbegin(); i != s.rend() && n < 4; ++i) {
        const auto ch = static_cast<u8>(*i);
        if (ch < 0x80) return n > 0;
        ++n;
        if (ch >= 0xC0) return n < (ch >= 0xF0 ? 4u : ch >= 0xE0 ? 3u : 2u);
    }
    return n > 0;
}

// values of an ID3v1 tag to be transferred to an ID3v2 tag
static void transferId3v1(const NTag &from, NTag &to, bool overwrite)
{
    static const std::pair<const char *, const char *> map[] = { { "title", "TIT2" }, { "artist", "TPE1" }, { "album", "TALB" }, { "comment", "COMM" }, { "track", "TRCK" }, { "genre", "TCON" } };
    for (auto &[v1, v2] : map) {
        const auto *const f = findField(from, v1);
        if (!f || (findField(to, v2) && !overwrite)) continue;
        if (f->id == "genre" && f->val == "255") continue;
        auto val = std::string(f->id == "comment" ? "\x01*|" : "") + f->val;
        if (endsWithinCharacter(f->val)) val = anyValue; // the value has been truncated
        removeField(to, v2);
        to.fields.push_back({ v2, val });
    }
    const auto *const y = findField(from, "year");
    if (!y || ((findField(to, "TYER") || findField(to, "TDRC")) && !overwrite)) return;
    const auto val = y->val;
    removeField(to, "TDRC");
    to.fields.push_back({ to.type == "id3v2.4" ? "TDRC" : "TYER", val });
}

// values of an ID3v2 tag to be transferred to an ID3v1 tag
static void transferId3v2(const NTag &from, NTag &to, bool overwrite, bool reliable)
{
    static const std::pair<const char *, const char *> map[] = { { "TIT2", "title" }, { "TPE1", "artist" }, { "TALB", "album" }, { "COMM", "comment" }, { "TRCK", "track" }, { "TCON", "genre" }, { "TYER", "year" }, { "TDRC", "year" } };
    const auto digits = [](const std::string &s) { return !s.empty() && s.size() < 4 && s.find_first_not_of("0123456789") == std::string::npos; };
    for (auto &[v2, v1] : map) {
        const bool v24 = from.type == "id3v2.4", date = v1 == std::string("year");
        const NField *f = nullptr;
        std::size_t n = 0;
        for (auto &x : from.fields) if (x.id == v2) { ++n; if (!f) f = &x; }
        if (!n) continue;
        const auto *const own = findField(to, v1);
        if (own && own->val != anyValue && !(own->id == "genre" && own->val == "255") && !overwrite) continue;
        std::string val = f->val;
        if (v1 == std::string("comment")) {
            const auto p = val.find('|'), q = p == std::string::npos || val.compare(0, 3, "\x01*|") == 0 ? p : val.find('|', p + 1);
            if (q == std::string::npos) val = anyValue; else val.erase(0, q + 1);
        }
        if (v1 == std::string("track")) val = val.substr(0, val.find('/'));
        if (date) val = val.size() >= 4 && digits(val.substr(0, 3)) && digits(val.substr(1, 3)) ? val.substr(0, 4) : anyValue;
        bool exact = reliable && n == 1 && !(own && own->val == anyValue) && !val.empty() && val != anyValue && (v24 ? std::string("TDRC") : std::string("TYER")).compare(date ? v2 : v24 ? "TDRC" : "TYER") == 0;
        for (const char c : val) if (c < ' ' || c > '~') exact = false;
        if (val.size() > 28 || (!val.empty() && val.back() == ' ')) exact = false;
        if (v1 == std::string("track")) exact = exact && digits(val) && val[0] != '0' && std::stoi(val) < 256;
        if (v1 == std::string("genre")) exact = exact && digits(val) && (val.size() == 1 || val[0] != '0') && std::stoi(val) < 192;
        removeField(to, v1);
        to.fields.push_back({ v1, exact ? val : anyValue });
        if (v1 == std::string("track") && !exact) { // whether there is a track affects the length of the comment
            removeField(to, "comment");
            to.fields.push_back({ "comment", anyValue });
        }
    }
}

void applyEdits(MediaFileInfo &info, const std::vector<Edit> &edits, Model &model, Fmt fmt, std::string &log)
{
    normaliseParsed(info, model);
    std::set<std::string> emptied;
    for (auto &t : model.tags) t.yearIsDate = denotesDateAsYear(t);
    bool v1Edited = false, converted = false;
    for (const auto &e : edits) {
        auto tags = info.tags();
        switch (e.kind) {
        case EK::Set:
        case EK::Clear: {
            if (tags.empty()) break;
            Tag *const tag = tags[static_cast<std::size_t>(e.tagSel) % tags.size()];
            const int mi = indexOf(info, model, tag);
            if (mi < 0) { log += "edit: tag without counterpart in model\n"; break; }
            NTag &nt = model.tags[static_cast<std::size_t>(mi)];
            const FieldSpec &f = fieldTable[e.field];
            std::string id = nativeId(nt, f);
            if (id.empty() || !tag->supportsField(f.f)) break;
            if (nt.type.compare(0, 6, "id3v2.") == 0 && f.f == KnownField::RecordDate && nt.type != "id3v2.4") id = "TYER";
            if (nt.type == "id3v1") v1Edited = true;
            if (f.f == KnownField::RecordDate && nt.yearIsDate) id = "YEAR";
            if (e.kind == EK::Clear) {
                log += std::string("clear ") + f.name + " in " + nt.type + "\n";
                removeField(nt, f.f == KnownField::RecordDate && nt.type.compare(0, 5, "id3v2") == 0 ? "TDRC" : id);
                if (f.f == KnownField::RecordDate && nt.type.compare(0, 5, "id3v2") == 0) removeField(nt, "TRDA");
                if (nt.type == "mp4" && f.f == KnownField::RecordLabel) removeField(nt, mp4LabelId);
                if (nt.type == "mkv") nt.fields.erase(std::remove_if(nt.fields.begin(), nt.fields.end(), [&](auto &x) { return x.id.compare(0, id.size() + 1, id + "/") == 0; }), nt.fields.end());
                tag->setValues(f.f, {});
                if (tag->type() == TagType::Id3v1Tag) tag->setValue(f.f, TagValue());
                if (nt.type == "mkv" && e.p1 % 2) static_cast<MatroskaTag *>(tag)->fields().erase(id); // otherwise the emptied fields with their nested fields are left
                else if (nt.type == "mkv") emptied.insert(nt.target + "|" + id);
                break;
            }
            if (nt.type == "mkv" && emptied.count(nt.target + "|" + id)) static_cast<MatroskaTag *>(tag)->fields().erase(id); // nested fields would re-appear
            std::vector<TagValue> tvs;
            std::vector<std::string> canons;
            bool usedSetValues = false;
            for (const auto &v : e.vals) {
                TagValue tv;
                std::string canon;
                if (!makeValue(nt, f, v, tv, canon)) continue;
                tvs.push_back(std::move(tv));
                canons.push_back(std::move(canon));
                if (!tag->supportsMultipleValues(f.f)) break;
                if (nt.type.compare(0, 5, "id3v2") == 0 && (f.kind == 'P' || f.kind == 'D' || f.kind == 'I' || f.kind == 'R' || f.kind == 'N' || f.kind == 'L' || f.kind == 'W')) break;
                if (f.kind == 'D' || f.kind == 'G' || f.kind == 'R') break;
            }
            if (tvs.empty()) break;
            log += std::string("set ") + f.name + " x" + std::to_string(tvs.size()) + " (" + printable(canons[0], 30) + ") in " + nt.type + " " + printable(nt.target) + "\n";
            if (tvs.size() == 1) {
                bool multi = 0;
                { int n = 0; for (auto &g : nt.fields) if (g.id == id || (nt.type == "mkv" && g.id.compare(0, id.size() + 1, id + "@") == 0)) ++n; multi = n > 1; }
                bool id3multi = nt.type == "id3v2.4" && f.kind == 'T';
                if (nt.type.compare(0, 6, "id3v2.") == 0) { const auto *const x = findField(nt, id); if (x && x->val.find('\x1F') != std::string::npos) id3multi = true; }
                if (multi || id3multi || (nt.type == "mp4" && f.f == KnownField::Cover)) usedSetValues = true;
                if (nt.type == "mp4" && f.kind == 'G' && canons[0][0] == '#') usedSetValues = false; // would be stored as text
            } else {
                usedSetValues = true;
            }
            const auto suffix = frameSuffix(nt, id);
            std::string lang;
            if (nt.type == "mkv" && e.p1 % 4 == 1 && std::none_of(nt.fields.begin(), nt.fields.end(), [&](auto &x) { return x.id.compare(0, id.size() + 1, id + "/") == 0; })) {
                lang = e.p2 % 2 ? "@ger" : "@ger@@de-CH";
                auto locale = Locale(std::string("ger"), e.p3 & 2 ? LocaleFormat::Unknown : LocaleFormat::ISO_639_2_B);
                if (e.p2 % 2 == 0) locale.emplace_back(std::string("de-CH"), LocaleFormat::BCP_47);
                for (auto &tv : tvs) tv.setLocale(locale);
            }
            if (usedSetValues && e.p2 == 3) tvs.insert(tvs.begin() + std::max(nt.type.compare(0, 5, "id3v2") == 0 ? 1 : 0, e.p1 % static_cast<int>(tvs.size() + 1)), TagValue()); // an empty value among the values is not written
            // values might as well be taken over from a tag of another type
            std::unique_ptr<Tag> other;
            if (!usedSetValues && e.p3 % 4 == 1 && !tvs[0].isEmpty()) {
                if (nt.type != "mkv") { other = std::make_unique<MatroskaTag>(); if (!other->setValue(f.f, tvs[0])) other.reset(); }
                if (!other && nt.type != "vorbis") { other = std::make_unique<VorbisComment>(); if (!other->setValue(f.f, tvs[0])) other.reset(); }
            }
            if (other) {
                log += "values taken over from another tag\n";
                tag->insertValues(*other, true);
            } else if (usedSetValues) tag->setValues(f.f, tvs);
            else tag->setValue(f.f, tvs[0]);
            if (e.p3 == 6) {
                try {
                    tag->ensureTextValuesAreProperlyEncoded();
                    log += "ensured values are properly encoded\n";
                } catch (const CppUtilities::ConversionException &) {
                    log += "values can not be encoded\n";
                }
            }
            if (nt.type == "mp4" && f.f == KnownField::RecordLabel) {
                // an already present extended field is kept in-sync
                std::size_t k = 0;
                for (auto i = nt.fields.begin(); i != nt.fields.end();) {
                    if (i->id != mp4LabelId) { ++i; continue; }
                    if (k < canons.size()) { i->val = canons[k]; ++i; }
                    else if (usedSetValues) i = nt.fields.erase(i);
                    else ++i;
                    ++k;
                }
            }
            if (f.kind == 'C' && tvs.size() == 1 && e.p1 % 2 == 0) { // the type of the picture is set via the field itself
                const auto assign = [&](auto &fields) {
                    if (fields.size() != 1 && fields.count(fields.begin()->first) == fields.size()) return; // (never the case; keeps the lambda generic)
                };
                (void)assign;
                const std::string type = std::to_string(e.vals[0].picType);
                bool assigned = false;
                if (nt.type.compare(0, 5, "id3v2") == 0) {
                    auto r = static_cast<Id3v2Tag *>(tag)->fields().equal_range(static_cast<Id3v2Tag *>(tag)->fieldId(f.f));
                    if (std::distance(r.first, r.second) == 1) { r.first->second.setTypeInfo(static_cast<std::uint8_t>(e.vals[0].picType)); assigned = true; }
                } else if (nt.type == "vorbis") {
                    auto r = static_cast<VorbisComment *>(tag)->fields().equal_range(std::string(static_cast<VorbisComment *>(tag)->fieldId(f.f)));
                    if (std::distance(r.first, r.second) == 1) { r.first->second.setTypeInfo(static_cast<std::uint32_t>(e.vals[0].picType)); assigned = true; }
                }
                if (assigned) canons[0] = type + canons[0].substr(6);
            }
            if (std::find(canons.begin(), canons.end(), unrepresentable) != canons.end()) { // the field can not be written
                model.unrepresentable = true;
                canons.clear();
            }
            if (nt.type == "mp4" && id.compare(0, 4, "----")) { // the country/language of a field might be kept when assigning a value
                std::size_t k = 0;
                const auto r = static_cast<Mp4Tag *>(tag)->fields().equal_range(f.kind == 'G' && canons[0][0] == '#' ? static_cast<std::uint32_t>(Mp4TagAtomIds::PreDefinedGenre) : static_cast<Mp4Tag *>(tag)->fieldId(f.f));
                for (auto i = r.first; i != r.second && k < canons.size(); ++i) {
                    if (i->second.value().isEmpty()) continue;
                    if (const auto locale = static_cast<u64>(i->second.countryIndicator()) << 16 | i->second.languageIndicator()) canons[k] += " loc=" + hex(locale);
                    ++k;
                }
            }
            removeField(nt, f.f == KnownField::RecordDate && nt.type.compare(0, 5, "id3v2") == 0 ? "TDRC" : id);
            if (nt.type == "id3v2.4" && f.kind == 'T' && f.f != KnownField::Comment && f.f != KnownField::Lyrics) {
                std::string joined;
                for (auto &cn : canons) { if (!joined.empty()) joined += '\x1F'; joined += cn; }
                nt.fields.push_back({ id, joined + suffix });
            } else if (id == "TYER") {
                setOldDate(nt, canons[0]);
            } else {
                if (nt.type == "mp4" && f.kind == 'G' && canons[0][0] == '#') { id = "gnre"; canons[0].erase(0, 1); }
                for (auto &cn : canons) nt.fields.push_back({ id + lang, cn + suffix });
            }
            break;
        }
        case EK::Custom: { // fields addressed by their native ID
            if (tags.empty()) break;
            Tag *const tag = tags[static_cast<std::size_t>(e.tagSel) % tags.size()];
            const int mi = indexOf(info, model, tag);
            if (mi < 0) break;
            NTag &nt = model.tags[static_cast<std::size_t>(mi)];
            const std::string n = std::to_string(e.p1);
            std::vector<TagValue> tvs;
            std::string id;
            for (const auto &v : e.vals) tvs.push_back(textValue(v.text, 0));
            if (nt.type == "vorbis") {
                id = "MY FIELD" + n;
                static_cast<VorbisComment *>(tag)->setValues(id, tvs);
            } else if (nt.type == "mp4") {
                id = "----:org.example:my name " + n;
                tvs.resize(1);
                static_cast<Mp4Tag *>(tag)->setValue("org.example", "my name " + n, tvs[0]);
            } else if (nt.type == "mkv") {
                id = "MY_FIELD_" + n;
                auto &fields = static_cast<MatroskaTag *>(tag)->fields();
                fields.erase(id);
                nt.fields.erase(std::remove_if(nt.fields.begin(), nt.fields.end(), [&](auto &x) { return x.id.compare(0, id.size() + 1, id + "/") == 0 || x.id.compare(0, id.size() + 1, id + "@") == 0; }), nt.fields.end());
                for (std::size_t i = 0; i < tvs.size(); ++i) {
                    MatroskaTagField field(id, tvs[i]);
                    if (e.p2 == 1) {
                        field.nestedFields().emplace_back("SORT_WITH", textValue("sort " + n, 0));
                        if (i) field.nestedFields().back().nestedFields().emplace_back("URL", textValue("deep", 0));
                    }
                    fields.insert(std::make_pair(id, std::move(field)));
                }
            } else if (nt.type == "id3v2.3" || nt.type == "id3v2.4") {
                static const char *const ids[] = { "TSOA", "TSOP", "TSOT", "TPE3", "TRSN", "TOAL" };
                id = ids[e.p1];
                u32 num = 0;
                for (char ch : id) num = num << 8 | static_cast<u8>(ch);
                if (nt.type == "id3v2.3") tvs.resize(1);
                static_cast<Id3v2Tag *>(tag)->setValues(num, tvs);
            } else {
                break;
            }
            log += "set " + id + " x" + std::to_string(tvs.size()) + " in " + nt.type + " " + printable(nt.target) + "\n";
            removeField(nt, id);
            if (nt.type == "id3v2.4") {
                std::string joined;
                for (std::size_t i = 0; i < tvs.size(); ++i) joined += (i ? "\x1F" : "") + e.vals[i].text;
                nt.fields.push_back({ id, joined });
            } else {
                for (std::size_t i = 0; i < tvs.size(); ++i) {
                    nt.fields.push_back({ id, e.vals[i].text });
                    if (nt.type == "mkv" && e.p2 == 1) {
                        nt.fields.push_back({ id + "/SORT_WITH", "sort " + n });
                        if (i) nt.fields.push_back({ id + "/SORT_WITH/URL", "deep" });
                    }
                }
            }
            break;
        }
        case EK::CreateTag: {
            // earlier edits of the same step might have left empty fields in memory which take part in the merging
            const bool merge = e.p2 == 5 && &e == &edits.front() && mergeable(model);
            if (fmt <= Fmt::Unknown) {
                TagCreationSettings ts;
                ts.flags = TagCreationFlags::None;
                if (merge) ts.flags += TagCreationFlags::MergeMultipleSuccessiveId3v2Tags;
                if (fmt != Fmt::Mp3 && fmt != Fmt::Adts) ts.flags += TagCreationFlags::TreatUnknownFilesAsMp3Files;
                ts.id3v1usage = static_cast<TagUsage>(e.p1 % 3);
                ts.id3v2usage = static_cast<TagUsage>((e.p2 + 1) % 3 == 2 && e.p1 % 3 == 2 ? 0 : (e.p2 % 3));
                ts.id3v2MajorVersion = static_cast<std::uint8_t>(2 + e.tagSel % 3);
                // there are also convenience functions for the conversion between ID3v1 and ID3v2
                const int conversion = merge && e.p1 % 2 == 0 && info.areTagsSupported() ? e.p3 & 1 ? (info.hasId3v1Tag() ? 1 : 0) : (info.hasId3v2Tag() ? 2 : 0) : 0;
                if (conversion) {
                    ts.id3v1usage = conversion == 1 ? TagUsage::Never : TagUsage::Always;
                    ts.id3v2usage = conversion == 1 ? TagUsage::Always : TagUsage::Never;
                    ts.id3v2MajorVersion = 3;
                }
                const bool v1 = info.hasId3v1Tag(), v2 = info.hasId3v2Tag();
                const bool convert = !conversion && e.p3 & 1 && !converted && ts.id3v2usage != TagUsage::Never && convertible(model, ts.id3v2MajorVersion);
                if (!convert) ts.flags += TagCreationFlags::KeepExistingId3v2Version;
                const auto knownGenre = [](const NTag &t) { const auto *const g = findField(t, "genre"); return !g || g->val == "255" || std::stoi(g->val) < 192; };
                int v1i = modelIndex(model, "id3v1", 0);
                if (v1Edited) v1i = -1; // values in memory might not be representable in ID3v1
                if (v1i >= 0) for (auto &f : model.tags[static_cast<std::size_t>(v1i)].fields) if (f.val == anyValue) v1i = -1;
                if (v1i >= 0 && !knownGenre(model.tags[static_cast<std::size_t>(v1i)])) v1i = -1;
                const bool init = (e.p3 & 2 || conversion) && v1i >= 0 && ts.id3v2usage == TagUsage::Always && !v2, transfer = (e.p3 & 4 || conversion) && v1i >= 0 && modelIndex(model, "id3v2", 0) >= 0 && ts.id3v1usage == TagUsage::Never && v2 && ts.id3v2usage != TagUsage::Never;
                if (init) ts.flags += TagCreationFlags::Id3InitOnCreate;
                if (transfer) ts.flags += TagCreationFlags::Id3TransferValuesOnRemoval;
                if (conversion == 1 && v1i < 0) break; // not modelled
                const bool init1 = (e.p3 & 2 || conversion) && ts.id3v1usage == TagUsage::Always && !v1 && v2, transfer2 = (e.p3 & 4 || conversion) && ts.id3v2usage == TagUsage::Never && v2 && ts.id3v1usage != TagUsage::Never && (v1 || init1 || ts.id3v1usage == TagUsage::Always);
                if (init1) ts.flags += TagCreationFlags::Id3InitOnCreate;
                if (transfer2) ts.flags += TagCreationFlags::Id3TransferValuesOnRemoval;
                if (!(conversion == 1 ? info.id3v1ToId3v2() : conversion == 2 ? info.id3v2ToId3v1() : info.createAppropriateTags(ts))) break;
                if (ts.id3v1usage == TagUsage::Always && !v1) { model.tags.push_back({ "id3v1", "", {}, 0, 0 }); }
                if (ts.id3v2usage == TagUsage::Always && !v2) { model.tags.push_back({ "id3v2." + std::to_string(ts.id3v2MajorVersion), "", {}, 0, 0 }); }
                if (init1) {
                    for (int k = 0, i; (i = modelIndex(model, "id3v2", k)) >= 0; ++k) transferId3v2(model.tags[static_cast<std::size_t>(i)], model.tags.back(), true, true);
                    v1Edited = true;
                }
                if (init) transferId3v1(model.tags[static_cast<std::size_t>(v1i)], model.tags.back(), true);
                if (merge) mergeId3v2(model);
                v1i = modelIndex(model, "id3v1", 0);
                if (transfer) transferId3v1(model.tags[static_cast<std::size_t>(v1i)], model.tags[static_cast<std::size_t>(modelIndex(model, "id3v2", 0))], false);
                if (transfer2) {
                    for (int k = 0, i, j = modelIndex(model, "id3v1", 0); j >= 0 && (i = modelIndex(model, "id3v2", k)) >= 0; ++k) transferId3v2(model.tags[static_cast<std::size_t>(i)], model.tags[static_cast<std::size_t>(j)], false, true);
                    v1Edited = true;
                }
                if (convert) { convertId3v2(model, ts.id3v2MajorVersion); converted = true; } // (converting twice is not modelled: values in memory keep their precision)
                if (ts.id3v1usage == TagUsage::Never) { int i; if ((i = modelIndex(model, "id3v1", 0)) >= 0) model.tags.erase(model.tags.begin() + i); }
                if (ts.id3v2usage == TagUsage::Never) { int i; while ((i = modelIndex(model, "id3v2", 0)) >= 0) model.tags.erase(model.tags.begin() + i); }
                log += std::string(conversion == 1 ? "convert ID3v1 to ID3v2: " : conversion == 2 ? "convert ID3v2 to ID3v1: " : "create tags: ") + "id3v1 usage " + std::to_string(static_cast<int>(ts.id3v1usage)) + ", id3v2 usage " + std::to_string(static_cast<int>(ts.id3v2usage)) + " version " + std::to_string(ts.id3v2MajorVersion) + (convert ? " converting" : "") + (init || init1 ? " initialised" : "") + (transfer || transfer2 ? " transferred" : "") + "\n";
            } else {
                const auto old = info.tags();
                TagCreationSettings ts;
                ts.flags = TagCreationFlags::KeepExistingId3v2Version;
                if (merge) ts.flags += TagCreationFlags::MergeMultipleSuccessiveId3v2Tags;
                ts.id3v1usage = ts.id3v2usage = TagUsage::KeepExisting;
                if (!merge && (fmt == Fmt::Flac || fmt == Fmt::Ogg) && e.p1 % 2) info.createVorbisComment();
                else info.createAppropriateTags(ts);
                if (merge && fmt == Fmt::Flac) { mergeId3v2(model); log += "create tags: merge ID3v2 tags\n"; }
                const auto now = info.tags();
                for (std::size_t i = 0; i < now.size(); ++i) {
                    if (std::find(old.begin(), old.end(), now[i]) != old.end()) continue;
                    NTag t;
                    t.type = fmt == Fmt::Mp4 ? "mp4" : fmt == Fmt::Mkv ? "mkv" : "vorbis";
                    if (fmt == Fmt::Mkv) t.target = "50";
                    if (fmt == Fmt::Ogg) t.target = oggTarget(info, *now[i]);
                    if (std::any_of(model.tags.begin(), model.tags.end(), [&](auto &x) { return x.mandatory && x.target == t.target; })) continue;
                    model.tags.push_back(t);
                    log += "created " + t.type + " tag\n";
                }
            }
            break;
        }
        case EK::NewTarget: {
            if (fmt != Fmt::Mkv || !info.container()) break;
            std::vector<TagTarget> targets;
            std::vector<std::string> denoted;
            auto add = [&](int level, int kind) {
                TagTarget target(static_cast<std::uint64_t>(level));
                auto s = std::to_string(level);
                if (kind & 1) { target.setLevelName("NAME"); s += " 'NAME'"; }
                if (kind & 2 && !info.tracks().empty()) {
                    const auto id = info.tracks().front()->id();
                    target.tracks() = { id };
                    s += " " + hex(0x63C5) + ":" + std::to_string(id);
                }
                if (kind & 4) { target.attachments() = { 77, 0x123456789ABCDEF0 }; s += " " + hex(0x63C6) + ":" + std::to_string(0x123456789ABCDEF0) + " " + hex(0x63C6) + ":77"; }
                for (auto &t : targets) if (t == target) return;
                targets.push_back(target);
                denoted.push_back(s);
            };
            add(30 + 10 * (e.p1 % 4), e.p2);
            if (e.p3 & 1) add(30 + 10 * (e.p2 % 4), e.p3 >> 1);
            std::vector<std::string> created;
            for (std::size_t i = 0; i < targets.size(); ++i) {
                const auto &tags = info.matroskaTags();
                if (std::none_of(tags.begin(), tags.end(), [&](auto &t) { return t->target() == targets[i]; })) created.push_back(denoted[i]);
            }
            if (e.p1 & 4) {
                TagCreationSettings ts;
                ts.requiredTargets = targets;
                info.createAppropriateTags(ts);
            } else for (auto &t : targets) info.container()->createTag(t);
            for (auto &s : created) {
                NTag t;
                t.type = "mkv";
                t.target = s;
                const auto value = "for " + s;
                const auto target = std::find(denoted.begin(), denoted.end(), s) - denoted.begin();
                const auto &tags = info.matroskaTags();
                const auto tag = std::find_if(tags.begin(), tags.end(), [&](auto &x) { return x->target() == targets[static_cast<std::size_t>(target)]; });
                if (tag == tags.end()) { log += "no mkv tag created for target " + s + "\n"; }
                else (*tag)->setValue(KnownField::Title, TagValue(value, TagTextEncoding::Utf8));
                t.fields.push_back({ "TITLE", value });
                model.tags.push_back(t);
                log += "created mkv tag for target " + s + "\n";
            }
            break;
        }
        case EK::Title: {
            if (!info.container() || info.container()->titles().size() != 1) break;
            model.title = e.p1 ? e.vals[0].text : std::string();
            model.titleChanged = true;
            info.container()->setTitle(model.title);
            log += "set title of segment to " + printable(model.title, 40) + "\n";
            break;
        }
        case EK::Retarget: {
            if (tags.empty() || fmt != Fmt::Mkv) break;
            Tag *const tag = tags[static_cast<std::size_t>(e.tagSel) % tags.size()];
            const int mi = indexOf(info, model, tag);
            if (mi < 0) break;
            const int level = 20 + 10 * (e.p1 % 6);
            TagTarget target(static_cast<std::uint64_t>(level));
            auto s = std::to_string(level);
            if (e.p2 & 1) { target.setLevelName("SCENE"); s += " 'SCENE'"; }
            if (e.p2 & 2 && !info.tracks().empty()) {
                const auto id = info.tracks().back()->id();
                target.tracks() = { id };
                s += " " + hex(0x63C5) + ":" + std::to_string(id);
            }
            if (e.p2 & 4) { target.chapters() = { 5 }; s += " " + hex(0x63C4) + ":5"; }
            const auto &others = info.matroskaTags();
            if (std::any_of(others.begin(), others.end(), [&](auto &t) { return t->target() == target; })) break;
            tag->setTarget(target);
            model.tags[static_cast<std::size_t>(mi)].target = s;
            log += "set target of tag to " + s + "\n";
            break;
        }
        case EK::ClearAll: {
            if (tags.empty()) break;
            Tag *const tag = tags[static_cast<std::size_t>(e.tagSel) % tags.size()];
            const int mi = indexOf(info, model, tag);
            if (mi < 0) break;
            tag->removeAllFields();
            model.tags[static_cast<std::size_t>(mi)].fields.clear();
            model.tags[static_cast<std::size_t>(mi)].yearIsDate = false;
            log += "remove all fields of " + model.tags[static_cast<std::size_t>(mi)].type + "\n";
            break;
        }
        case EK::RemoveTag: {
            if (tags.empty()) break;
            Tag *const tag = tags[static_cast<std::size_t>(e.tagSel) % tags.size()];
            const int mi = indexOf(info, model, tag);
            if (mi < 0) break;
            model.tagsRemoved = true;
            log += "remove tag " + model.tags[static_cast<std::size_t>(mi)].type + "\n";
            bool removed;
            if (e.p1 % 2 && !info.container() && tag->type() == TagType::Id3v1Tag) removed = info.removeId3v1Tag();
            else if (e.p1 % 2 && !info.container() && tag->type() == TagType::Id3v2Tag) removed = info.removeId3v2Tag(static_cast<Id3v2Tag *>(tag));
            else if (e.p1 % 2 && fmt == Fmt::Flac && tag->type() == TagType::VorbisComment) removed = info.removeVorbisComment();
            else removed = info.removeTag(tag);
            if (!removed) { log += "not removed\n"; break; }
            if (model.tags[static_cast<std::size_t>(mi)].mandatory) model.tags[static_cast<std::size_t>(mi)].fields.clear();
            else model.tags.erase(model.tags.begin() + mi);
            break;
        }
        case EK::RemoveAll:
            if (e.p1 % 3 && (fmt <= Fmt::Flac || fmt == Fmt::Ogg)) { // only the tags of a certain kind
                const bool vorbis = fmt == Fmt::Ogg || (fmt == Fmt::Flac && e.p2 % 2);
                const bool removed = vorbis ? info.removeVorbisComment() : info.removeAllId3v2Tags();
                log += std::string("remove all ") + (vorbis ? "Vorbis comments" : "ID3v2 tags") + (removed ? "\n" : " (none)\n");
                for (auto i = model.tags.begin(); i != model.tags.end();) {
                    if (vorbis ? i->type != "vorbis" : i->type.compare(0, 5, "id3v2") != 0) { ++i; continue; }
                    model.tagsRemoved = true;
                    if (i->mandatory) { i->fields.clear(); ++i; } else i = model.tags.erase(i);
                }
                break;
            }
            info.removeAllTags();
            model.tagsRemoved = true;
            model.tags.erase(std::remove_if(model.tags.begin(), model.tags.end(), [](auto &t) { return !t.mandatory; }), model.tags.end());
            for (auto &t : model.tags) t.fields.clear();
            log += "remove all tags\n";
            break;
        case EK::Attach: {
            if (!info.container()) break;
            auto *const a = info.container()->createAttachment();
            if (!a) break;
            const std::string src = "/sim/att/" + std::to_string(e.p1);
            Diagnostics d;
            AbortableProgressFeedback p;
            try {
                a->setFile(src, d, p);
            } catch (const std::ios_base::failure &) {
                if (S().fs.faultsArmed) throw;
                // the file happens to look like a truncated media file; so it can not be attached
                a->setIgnored(true);
                log += "unable to attach " + src + "\n";
                break;
            }
            const std::string name = "att-" + ascii(utf8Prefix(e.vals[0].text, 20));
            a->setName(name);
            a->setMimeType("application/x-test");
            a->setDescription("desc");
            a->setId(0xABCD00 + static_cast<u64>(e.p1) * 100 + static_cast<u64>(e.p2) + 1);
            const auto content = S().fs.content(src);
            model.attachmentsAdded.emplace_back("attachment", name + "|application/x-test|desc|" + std::to_string(content.size()) + ":" + hex(hashBytes(content.data(), content.size())));
            log += "attach " + src + "\n";
            break;
        }
        case EK::Track: {
            const auto tracks = info.tracks();
            if (!info.container() || (tracks.empty() && e.p1 != 7)) break;
            if (e.p1 == 7) {
                if (fmt != Fmt::Mp4 || model.foreignPath.empty()) break;
                auto *const mp4 = static_cast<Mp4Container *>(info.container());
                Diagnostics d;
                if (!mp4->firstElement() || mp4->firstElement()->siblingByIdIncludingThis(Mp4AtomIds::MovieFragment, d)) break; // not implemented for fragmented files
                if (!model.foreignInfo) {
                    model.foreignInfo = std::make_shared<MediaFileInfo>(model.foreignPath);
                    guarded([&](Diagnostics &diag) {
                        AbortableProgressFeedback progress;
                        model.foreignInfo->open(true);
                        model.foreignInfo->parseEverything(diag, progress);
                    });
                }
                auto others = model.foreignInfo->tracks();
                auto *const other = static_cast<Mp4Container *>(model.foreignInfo->container());
                if (others.empty() || !other) break;
                auto *const t = others[static_cast<std::size_t>(e.tagSel) % others.size()];
                const auto oldId = std::to_string(t->id());
                if (!other->removeTrack(t)) break;
                if (!model.tracksAltered) {
                    model.tracksAltered = true;
                    for (auto *x : tracks) model.trackOrder.push_back(std::to_string(x->id()));
                }
                mp4->addTrack(static_cast<Mp4Track *>(t));
                const auto id = std::to_string(t->id());
                model.trackOrder.push_back(id);
                model.trackAttr.erase(id);
                model.foreign[id] = oldId;
                log += "track " + oldId + " of other file added as " + id + "\n";
                break;
            }
            auto *const t = tracks[static_cast<std::size_t>(e.tagSel) % tracks.size()];
            const auto id = std::to_string(t->id());
            auto &attr = model.trackAttr[id];
            switch (e.p1) {
            case 0:
                attr["name"] = e.p2 == 7 ? std::string() : e.vals[0].text;
                t->setName(attr["name"]);
                break;
            case 1: {
                static const char *const b[] = { "ger", "eng", "fre", "jpn", "dut" }, *const tn[] = { "deu", "eng", "fra", "jpn", "nld" };
                if (fmt == Fmt::Mp4) {
                    if (e.p2 > 4) { attr["lang"] = ""; t->setLocale(Locale()); }
                    else { attr["lang"] = tn[e.p2]; t->setLocale(Locale(std::string(tn[e.p2]), LocaleFormat::ISO_639_2_T)); }
                } else if (e.p2 > 4) {
                    attr["lang"] = "und";
                    attr["ietf"] = e.p2 == 5 ? "fr-CA" : "";
                    t->setLocale(e.p2 == 5 ? Locale(std::string("fr-CA"), LocaleFormat::BCP_47) : Locale());
                } else {
                    attr["lang"] = b[e.p2];
                    attr["ietf"] = "";
                    t->setLocale(Locale(std::string(b[e.p2]), LocaleFormat::ISO_639_2_B));
                }
                break;
            }
            case 2:
                attr["enabled"] = e.p2 % 2 ? "1" : "0";
                t->setEnabled(e.p2 % 2);
                break;
            case 3:
                attr["default"] = e.p2 % 2 ? "1" : "0";
                t->setDefault(e.p2 % 2);
                break;
            case 4:
                attr["forced"] = e.p2 % 2 ? "1" : "0";
                t->setForced(e.p2 % 2);
                break;
            default: {
                if (fmt != Fmt::Mp4) break;
                auto *const mp4 = static_cast<Mp4Container *>(info.container());
                Diagnostics d;
                if (!mp4->firstElement() || mp4->firstElement()->siblingByIdIncludingThis(Mp4AtomIds::MovieFragment, d)) break; // not implemented for fragmented files
                if (!model.tracksAltered) {
                    model.tracksAltered = true;
                    for (auto *x : tracks) model.trackOrder.push_back(std::to_string(x->id()));
                }
                if (!mp4->removeTrack(t)) break;
                std::unique_ptr<Mp4Track> owned(static_cast<Mp4Track *>(t));
                model.trackOrder.erase(std::find(model.trackOrder.begin(), model.trackOrder.end(), id));
                if (e.p1 != 6) model.foreign.erase(id);
                if (e.p1 == 6 && mp4->addTrack(owned.get())) {
                    owned.release();
                    model.trackOrder.push_back(id);
                }
            }
            }
            static const char *const names[] = { "name", "language", "enabled", "default", "forced", "remove", "move", "add" };
            log += std::string("track ") + id + ": " + names[e.p1] + " " + std::to_string(e.p2) + "\n";
            break;
        }
        case EK::IgnoreAttachment: {
            auto atts = info.attachments();
            if (atts.empty()) break;
            auto *const a = atts[static_cast<std::size_t>(e.p1) % atts.size()];
            if (a->isIgnored()) break;
            if (e.p2 >= 3 && a->data() && std::none_of(model.attachmentsAdded.begin(), model.attachmentsAdded.end(), [&](auto &x) { return x.second.compare(0, a->name().size() + 1, a->name() + "|") == 0; })) {
                // modify an attachment
                const auto canonical = [&] {
                    std::stringstream data;
                    guarded([&](Diagnostics &) { a->data()->copyTo(data); });
                    const auto bytes = data.str();
                    return a->name() + "|" + a->mimeType() + "|" + a->description() + "|" + std::to_string(bytes.size()) + ":" + hex(hashBytes(reinterpret_cast<const u8 *>(bytes.data()), bytes.size()));
                };
                std::string rest;
                const auto before = canonical();
                if (!model.attachmentRest) break;
                rest = model.attachmentRest(before);
                if (rest == "?") break; // modified already
                const auto *const el = e.p2 == 3 ? "renamed" : e.p2 == 4 ? "replaced" : "failed to replace";
                if (e.p2 == 3) {
                    a->setName("ren-" + std::to_string(a->id()));
                    a->setDescription(utf8Prefix(e.vals[0].text, 30));
                    a->setMimeType("text/x-other");
                } else {
                    Diagnostics d;
                    AbortableProgressFeedback p;
                    const auto name = a->name(), mime = a->mimeType();
                    const std::string src = e.p2 == 4 ? "/sim/att/" + std::to_string(e.vals[0].a % 6) : "/sim/att/missing";
                    try { a->setFile(src, d, p); } catch (const std::ios_base::failure &) {}
                    a->setName(name);
                    a->setMimeType(mime);
                }
                model.attachmentsChanged.emplace_back(before + rest, (e.p2 == 5 ? before : canonical()) + rest);
                log += std::string(el) + " attachment " + printable(before) + "\n";
                break;
            }
            a->setIgnored(true);
            const auto added = std::find_if(model.attachmentsAdded.rbegin(), model.attachmentsAdded.rend(), [&](auto &x) { return x.second.compare(0, a->name().size() + 1, a->name() + "|") == 0 && a->data() && x.second.find("|desc|" + std::to_string(a->data()->size()) + ":") != std::string::npos; });
            if (added != model.attachmentsAdded.rend()) model.attachmentsAdded.erase(std::next(added).base());
            else model.attachmentsRemoved.push_back(a->name());
            log += "remove attachment " + printable(a->name()) + "\n";
            break;
        }
        }
    }
    for (auto &t : model.tags)
        if (t.type == "id3v2.4") removeField(t, "TRDA"); // has no equivalent in ID3v2.4 (and is dropped when writing the tag)
}

// ---------------------------------------------------------------- dumps
static std::string valueString(const TagValue &v)
{
    std::string s = std::to_string(static_cast<int>(v.type())) + "/" + std::to_string(static_cast<int>(v.dataEncoding())) + "/" + v.mimeType() + "/" + v.description() + "/";
    return s + std::to_string(v.dataSize()) + ":" + hex(hashBytes(v.dataPointer(), v.dataSize()));
}

std::string dumpTags(MediaFileInfo &info)
{
    std::string s;
    for (Tag *t : info.tags()) {
        s += "tag " + std::string(t->typeName()) + " " + t->version() + " target " + t->targetString() + " fields " + std::to_string(t->fieldCount()) + "\n";
        for (auto f = firstKnownField; f != KnownField::Invalid; f = nextKnownField(f)) {
            for (auto *v : t->values(f)) if (!v->isEmpty()) s += " " + std::to_string(static_cast<int>(f)) + " " + valueString(*v) + "\n";
        }
    }
    return s;
}

static void dumpChapter(AbstractChapter *c, std::string &s, int depth)
{
    s += "chapter " + std::to_string(depth) + " id " + std::to_string(c->id()) + " " + c->startTime().toString() + "-" + c->endTime().toString();
    for (auto &n : c->names()) s += " " + static_cast<const std::string &>(n);
    for (auto n : c->tracks()) s += " track " + std::to_string(n);
    s += std::string(c->isHidden() ? " hidden" : "") + (c->isEnabled() ? " enabled " : " ") + c->label() + "\n";
    for (std::size_t i = 0; i < c->nestedChapterCount() && depth < 20; ++i) dumpChapter(c->nestedChapter(i), s, depth + 1);
}

static std::string technicalInfo(const AbstractTrack &t)
{
    std::string s = " tech";
    const auto num = [&s](auto v) { s += ' ' + std::to_string(v); };
    const auto str = [&s](std::string_view v) { s += ' '; s.append(v.data(), v.size()); };
    const auto size = [&](const Size &v) { num(v.width()); num(v.height()); };
    num(static_cast<int>(t.flags())); num(t.version()); num(t.startOffset()); num(static_cast<int>(t.mediaType())); num(t.maxBitrate());
    num(t.creationTime().totalTicks()); num(t.modificationTime().totalTicks());
    num(t.extensionSamplingFrequency()); num(t.bitsPerSample()); num(t.channelConfig()); num(t.extensionChannelConfig()); num(t.quality());
    size(t.pixelSize()); size(t.displaySize()); size(t.resolution());
    str(t.compressorName()); num(t.depth()); num(t.fps()); str(t.chromaFormat());
    num(t.pixelAspectRatio().type); num(t.pixelAspectRatio().numerator); num(t.pixelAspectRatio().denominator);
    num(t.isInterlaced()); num(t.timeScale()); num(t.isEnabled()); num(t.isDefault()); num(t.isForced()); num(t.hasLacing()); num(t.isEncrypted()); num(t.colorSpace());
    num(t.cropping().top()); num(t.cropping().left()); num(t.cropping().bottom()); num(t.cropping().right());
    str(t.channelConfigString()); str(t.extensionChannelConfigString()); str(t.label()); str(t.description()); str(t.shortDescription()); num(t.isHeaderValid());
    return s;
}

std::string dumpInfo(MediaFileInfo &info, bool withDiag, const Diagnostics *diag)
{
    std::string s;
    s += "container " + std::to_string(static_cast<int>(info.containerFormat())) + " off " + std::to_string(info.containerOffset()) + " padding " + std::to_string(info.paddingSize()) + " size " + std::to_string(info.size())
        + " eff " + std::to_string(info.effectiveSize()) + " duration " + info.duration().toString();
    if (auto *const con = info.container()) {
        for (auto &title : con->titles()) s += " title " + title;
        const auto *const ccon = con;
        for (auto *apps : { &ccon->muxingApplications(), &ccon->writingApplications() }) for (auto &app : *apps) s += " app " + app;
        s += " " + std::to_string(con->version()) + " " + std::to_string(con->readVersion()) + " " + con->documentType() + " " + std::to_string(con->doctypeVersion()) + " " + std::to_string(con->doctypeReadVersion()) + " " + std::to_string(con->segmentCount())
            + " " + std::to_string(con->creationTime().totalTicks()) + " " + std::to_string(con->modificationTime().totalTicks()) + " " + std::to_string(con->timeScale()) + " " + std::to_string(con->trackCount()) + " " + std::to_string(con->tagCount())
            + " " + std::to_string(con->chapterCount()) + " " + std::to_string(con->attachmentCount());
    }
    s += " " + std::string(info.mimeType()) + " " + std::string(info.containerFormatSubversion()) + " " + info.technicalSummary() + " " + std::to_string(info.overallAverageBitrate());
    for (auto type : { MediaType::Audio, MediaType::Video, MediaType::Text }) {
        const auto langs = info.availableLanguages(type);
        for (auto &l : std::set<std::string>(langs.begin(), langs.end())) s += " " + l;
    }
    for (auto flag : { info.areTracksSupported(), info.areTagsSupported(), info.areChaptersSupported(), info.areAttachmentsSupported(), info.hasAnyTag(), info.hasId3v1Tag(), info.hasId3v2Tag() }) s += flag ? '1' : '0';
    s += "\n";
    s += "status " + std::to_string(static_cast<int>(info.containerParsingStatus())) + std::to_string(static_cast<int>(info.tracksParsingStatus())) + std::to_string(static_cast<int>(info.tagsParsingStatus())) + std::to_string(static_cast<int>(info.chaptersParsingStatus())) + std::to_string(static_cast<int>(info.attachmentsParsingStatus())) + "\n";
    for (auto *t : info.tracks()) {
        s += "track " + std::to_string(t->id()) + " no " + std::to_string(t->trackNumber()) + " " + std::string(t->format().name()) + " " + t->formatId() + " samples " + std::to_string(t->sampleCount()) + " size " + std::to_string(t->size())
            + " dur " + t->duration().toString() + " rate " + std::to_string(t->samplingFrequency()) + " ch " + std::to_string(t->channelCount()) + " name " + t->name() + " lang " + t->locale().toString() + " bitrate " + std::to_string(t->bitrate()) + technicalInfo(*t) + "\n";
    }
    s += dumpTags(info);
    for (auto *c : info.chapters()) dumpChapter(c, s, 0);
    for (auto *a : info.attachments()) s += "attachment " + a->name() + " " + a->mimeType() + " " + a->description() + " id " + std::to_string(a->id()) + " size " + std::to_string(a->data() ? a->data()->size() : 0) + "\n";
    if (withDiag && diag) {
        for (auto &m : *diag) s += "diag " + std::to_string(static_cast<int>(m.level())) + " " + m.context() + ": " + m.message() + "\n";
    }
    return s;
}

Paths setupFs(const Doc &doc, bool symlink)
{
    S().fs.reset();
    return addDocument(doc, symlink, "/sim", "file");
}

Paths addDocument(const Doc &doc, bool symlink, const std::string &prefix, const std::string &name)
{
    auto &fs = S().fs;
    Paths p;
    fs.addDir(prefix + "/d");
    fs.addDir(prefix + "/out");
    fs.addDir(prefix + "/bak");
    fs.addDir(prefix + "/d/rel");
    fs.addDir(prefix + "/l");
    if (prefix == "/sim") // the working directory and directories which would be used if a path was wrongly taken as relative to it
        for (auto *d : { "/sim/w", "/sim/w/cwd", "/sim/w/cwd/rel", "/sim/w/bak" }) fs.addDir(d);
    if (!fs.exists("/sim/att")) {
        fs.addDir("/sim/att");
        Rng r(doc.bytes.size() + 77);
        for (int i = 0; i < 6; ++i) fs.addFile("/sim/att/" + std::to_string(i), randBytes(r, i == 5 ? 70000 : 50 + static_cast<std::size_t>(i) * 900));
    }
    p.real = prefix + "/d/" + name + doc.ext;
    fs.addFile(p.real, doc.bytes);
    p.file = p.real;
    if (symlink) {
        p.file = prefix + "/l/link" + doc.ext;
        fs.addLink(p.file, "../d/" + name + doc.ext);
    }
    p.save = prefix + "/out/" + (name == "file" ? "saved" : name) + doc.ext;
    return p;
}

void spellPaths(Choices &c, Paths &p)
{
    const auto base = p.file.substr(4); // without "/sim"
    switch (c.weighted("spelling", { 12, 2, 1, 2 })) {
    case 1: p.file = "../.." + base; break;
    case 2: p.file = "/sim/./d/.." + base; break;
    case 3: p.file = "file:/" + p.file; break;
    default:;
    }
    if (c.flag("spelling.save", 1, 6)) p.saveArg = "../.." + p.save.substr(4);
}

} // namespace sim
