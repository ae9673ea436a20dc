// Deterministic simulation core: PRNG, named choices, simulated file system with fault injection,
// simulated clock (step counter), allocator faults and a cooperative thread scheduler.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;
using Bytes = std::vector<u8>;

// ---------------------------------------------------------------- hashing / prng
inline u64 mix64(u64 x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline u64 hashBytes(const void *p, std::size_t n, u64 h = 0xcbf29ce484222325ull)
{
    const u8 *b = static_cast<const u8 *>(p);
    while (n >= 8) {
        u64 v;
        std::memcpy(&v, b, 8);
        h = (h ^ v) * 0x9E3779B97F4A7C15ull;
        h ^= h >> 29;
        b += 8;
        n -= 8;
    }
    while (n--) {
        h = (h ^ *b++) * 0x100000001b3ull;
    }
    return h ^ (h >> 32);
}
inline u64 hashStr(std::string_view s, u64 h = 0xcbf29ce484222325ull) { return hashBytes(s.data(), s.size(), h); }

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(mix64(seed)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + static_cast<i64>(below(static_cast<u64>(hi - lo + 1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    void fill(u8 *p, std::size_t n) { for (; n >= 8; n -= 8, p += 8) { u64 v = next(); std::memcpy(p, &v, 8); } if (n) { u64 v = next(); std::memcpy(p, &v, n); } }
};

// ---------------------------------------------------------------- named choices
// Every decision of a run is a named choice. Its value is a pure function of (seed, name) unless overridden by a replay
// file, so choices do not depend on the order they are drawn in and can be minimised one by one. 0/lo is "simplest".
struct Choices {
    u64 seed = 0;
    std::map<std::string, i64> overrides; // from replay file / minimiser
    struct Rec { i64 value, lo, hi; };
    std::map<std::string, Rec> log; // choices actually drawn
    i64 pick(const std::string &name, i64 lo, i64 hi); // uniform in [lo, hi]
    bool flag(const std::string &name, unsigned num, unsigned den); // true with num/den; 0 is the simple value
    // weighted: returns index
    int weighted(const std::string &name, std::initializer_list<int> weights);
    Rng rng(const std::string &name) const { return Rng(seed ^ hashStr(name)); }
};

// ---------------------------------------------------------------- simulated file system
enum class Op : u8 { Open, Create, Read, Write, Seek, Close, Stat, Rename, Remove, Truncate, Sendfile, Chmod, Readlink, Mkdir, Other, Count };
const char *opName(Op op);

constexpr std::size_t pageSize = 4096;
struct Page { u8 d[pageSize]; };
struct File {
    std::map<u64, std::shared_ptr<Page>> pages; // missing page: zeros (sparse)
    u64 size = 0;
    unsigned mode = 0100644;
    u64 id = 0;
    void read(u64 off, u8 *dst, std::size_t n) const;
    void write(u64 off, const u8 *src, std::size_t n);
    void truncate(u64 n);
    Bytes bytes() const; // full content (small files only)
    Bytes range(u64 off, u64 n) const;
    u64 allocated() const { return pages.size() * pageSize; }
    bool sameContent(const Bytes &b) const;
    bool sameContent(const File &o) const;
    u64 hash() const;
};
struct Node {
    enum Kind { Reg, Dir, Link } kind = Reg;
    std::shared_ptr<File> file;
    std::string target;
};

// what a fault rule does when it fires
enum class FK : u8 {
    None, Eio, Enospc, Short, Eintr, Exdev, Eacces, Emfile, Enoent, ShortThenEio, TornCrash, Crash, CloseEio, FullDisk, Count
};
const char *fkName(FK k);

struct FaultRule {
    FK kind = FK::None;
    u32 opMask = 0; // bit per Op which is eligible (0: all)
    i64 nth = -1; // fires on nth (0-based) eligible op since arming
    i64 repeat = 1; // how many consecutive eligible ops it affects; -1: for ever
    std::string pathSub; // only when path contains this substring (empty: any)
    // runtime
    i64 seen = 0;
    i64 fired = 0;
};

struct Event {
    u64 idx;
    Op op;
    std::string path, path2;
    i64 off = 0, len = 0;
    i64 result = 0;
    int err = 0, savedErrno = 0;
    FK fault = FK::None;
    u64 fileId = 0;
    bool mutating = false;
    bool writableOpen = false;
};

struct OpenFile {
    std::shared_ptr<File> file;
    std::string path;
    u64 pos = 0;
    bool rd = false, wr = false, append = false;
};

class Fs {
public:
    std::map<std::string, Node> nodes;
    std::map<int, OpenFile> fds;
    std::vector<FaultRule> rules;
    bool faultsArmed = false;
    u64 quota = ~0ull; // bytes which may be allocated in total (full disk)
    u64 opCount = 0; // events since reset
    u64 armedOpCount = 0; // events since arming
    u64 traceHash = 0;
    bool keepTrace = false;
    std::vector<std::string> trace; // textual
    bool keepEvents = false;
    std::vector<Event> events;
    u64 fired[static_cast<int>(FK::Count)] = {};
    u64 opStat[static_cast<int>(Op::Count)] = {};
    i64 maxIo = 0; // >0: reads/writes transfer at most this many bytes per call (short I/O)
    u64 shortIoSeed = 0; // !=0: random short I/O lengths
    u64 eintrSeed = 0; // !=0: random EINTR
    unsigned eintrDen = 16;
    u64 shortCount = 0, eintrCount = 0;
    u64 written = 0, writeLimit = 1ull << 30; // bytes written since reset; exceeding the limit means runaway
    u64 nextFileId = 1;
    // called after each virtual operation
    std::function<void(const Event &)> observer;

    void reset();
    void addFile(const std::string &path, const Bytes &content);
    void addLink(const std::string &path, const std::string &target);
    void addDir(const std::string &path);
    bool exists(const std::string &path) const;
    const File *file(const std::string &path) const; // follows symlinks
    std::shared_ptr<File> fileRef(const std::string &path) const;
    Bytes content(const std::string &path) const;
    std::string resolve(const std::string &path, bool followLast = true, int depth = 0) const;
    std::vector<std::string> list() const; // all regular file paths
    void arm() { faultsArmed = true; armedOpCount = 0; for (auto &r : rules) { r.seen = r.fired = 0; } }
    void disarm() { faultsArmed = false; }
    u64 totalFired() const;
    u64 allocatedTotal() const;
    // deep copy of the directory state (files are copied; pages shared copy-on-write)
    std::map<std::string, Node> snapshot() const;
    void restore(const std::map<std::string, Node> &snap);
};

// ---------------------------------------------------------------- process-wide simulation state
struct Sim {
    Fs fs;
    u64 stepLimit = ~0ull; // exceeding means "hang"
    u64 allocs = 0; // allocations since arming
    u64 fills = 1; // allocations filled with garbage
    i64 failAllocAt = -1; // n-th allocation (0-based) throws bad_alloc
    i64 failAllocRepeat = 1;
    u64 allocFaults = 0;
    u64 allocLimit = ~0ull; // single allocation limit -> bad_alloc
    u64 overLimit = 0;
    i64 live = 0, peakLive = 0; // memory allocated since trackMemory(true)
    u64 maxAlloc = 0; // biggest single allocation seen in SUT
    u64 clockBase = 1700000000;
    bool freezeClock = false; // the clock stands still (needed where results of two executions are compared)
    // step callback
    std::function<void()> stepTrap;
    std::function<void(const char *)> hangHandler;
};
Sim &S();

bool &inSutRef();
int &inSimRef();
u64 stepCount(); // simulated time
void trackMemory(bool on); // count allocated memory in Sim::live and Sim::peakLive
void setStepTrap(u64 at, std::function<void()> f); // call f once when the step counter reaches `at`
void setStepLimit(u64 at); // call Sim::hangHandler when the step counter reaches `at`

struct SutScope { // marks "code under test is running" (step counting, allocator faults, simulated clock)
    bool prev;
    SutScope() { prev = inSutRef(); inSutRef() = true; }
    ~SutScope() { inSutRef() = prev; }
};
struct SimScope { // marks "simulator/harness code is running"
    SimScope() { ++inSimRef(); }
    ~SimScope() { --inSimRef(); }
};

// coverage map (edges hit), shared between forked children
void initCoverage();
extern u8 *covMap; // one byte per edge
extern u32 covSize;

// crash: thrown at a simulated process crash (not derived from std::exception, so that nothing in the code under test catches it)
struct CrashSignal { };

// ---------------------------------------------------------------- cooperative threads
// Runs the given tasks as real threads of which exactly one runs at a time; a switch may happen at every intercepted system
// call and every `quantum`-th instrumented control-flow edge; who continues is drawn from the seeded generator.
struct SchedStats { u64 switches = 0; u64 hash = 0; };
SchedStats runThreads(std::vector<std::function<void()>> tasks, u64 seed, u64 meanQuantum, bool switchAtIo);
void schedYieldIo();

} // namespace sim
