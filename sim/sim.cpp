#include "sim.h"

#include <cassert>
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <malloc.h>
#include <mutex>
#include <new>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <thread>
#include <unistd.h>

namespace sim {

// these are thread-local because tasks of the cooperative scheduler are real threads
static thread_local bool tlsInSut = false;
static thread_local int tlsInSim = 0;
static thread_local int tlsTask = -1;

bool &inSutRef() { return tlsInSut; }
int &inSimRef() { return tlsInSim; }

Sim &S()
{
    static Sim *instance = [] {
        ++tlsInSim;
        auto *s = new Sim;
        --tlsInSim;
        return s;
    }();
    return *instance;
}

// counters touched on the hottest paths live outside of Sim
static u64 g_steps = 0, g_nextTrap = ~0ull;
u8 *covMap = nullptr;
u32 covSize = 0;
static constexpr u32 covMax = 1u << 19;

u64 stepCount() { return g_steps; }

// ---------------------------------------------------------------- choices
i64 Choices::pick(const std::string &name, i64 lo, i64 hi)
{
    SimScope sc;
    i64 v;
    if (auto i = overrides.find(name); i != overrides.end()) {
        v = std::min(std::max(i->second, lo), hi);
    } else {
        Rng r(seed ^ hashStr(name));
        v = r.range(lo, hi);
    }
    log[name] = Rec{ v, lo, hi };
    return v;
}
bool Choices::flag(const std::string &name, unsigned num, unsigned den)
{
    SimScope sc;
    i64 v;
    if (auto i = overrides.find(name); i != overrides.end()) {
        v = i->second ? 1 : 0;
    } else {
        Rng r(seed ^ hashStr(name));
        v = r.chance(num, den);
    }
    log[name] = Rec{ v, 0, 1 };
    return v;
}
int Choices::weighted(const std::string &name, std::initializer_list<int> weights)
{
    SimScope sc;
    i64 v = 0;
    const auto n = static_cast<i64>(weights.size());
    if (auto i = overrides.find(name); i != overrides.end()) {
        v = std::min(std::max<i64>(i->second, 0), n - 1);
    } else {
        i64 total = 0;
        for (auto w : weights) {
            total += w;
        }
        Rng r(seed ^ hashStr(name));
        i64 x = static_cast<i64>(r.below(static_cast<u64>(total)));
        for (auto w : weights) {
            if (x < w) {
                break;
            }
            x -= w;
            ++v;
        }
    }
    log[name] = Rec{ v, 0, n - 1 };
    return static_cast<int>(v);
}

// ---------------------------------------------------------------- names
const char *opName(Op op)
{
    static const char *n[] = { "open", "create", "read", "write", "seek", "close", "stat", "rename", "remove", "truncate", "sendfile", "chmod",
        "readlink", "mkdir", "other" };
    return n[static_cast<int>(op)];
}
const char *fkName(FK k)
{
    static const char *n[] = { "none", "eio", "enospc", "short", "eintr", "exdev", "eacces", "emfile", "enoent", "short-then-eio", "torn-crash", "crash",
        "close-eio", "full-disk" };
    return n[static_cast<int>(k)];
}

// ---------------------------------------------------------------- file
void File::read(u64 off, u8 *dst, std::size_t n) const
{
    while (n) {
        const u64 pi = off / pageSize, po = off % pageSize;
        const std::size_t c = std::min<std::size_t>(n, pageSize - po);
        if (auto i = pages.find(pi); i != pages.end()) {
            std::memcpy(dst, i->second->d + po, c);
        } else {
            std::memset(dst, 0, c);
        }
        dst += c;
        off += c;
        n -= c;
    }
}
void File::write(u64 off, const u8 *src, std::size_t n)
{
    if (off + n > size && n) {
        size = off + n;
    }
    while (n) {
        const u64 pi = off / pageSize, po = off % pageSize;
        const std::size_t c = std::min<std::size_t>(n, pageSize - po);
        auto &p = pages[pi];
        if (!p) {
            p = std::make_shared<Page>();
            std::memset(p->d, 0, pageSize);
        } else if (p.use_count() > 1) {
            p = std::make_shared<Page>(*p);
        }
        std::memcpy(p->d + po, src, c);
        src += c;
        off += c;
        n -= c;
    }
}
void File::truncate(u64 n)
{
    if (n < size) {
        const u64 first = (n + pageSize - 1) / pageSize;
        pages.erase(pages.lower_bound(first), pages.end());
        if (n % pageSize) {
            if (auto i = pages.find(n / pageSize); i != pages.end()) {
                if (i->second.use_count() > 1) {
                    i->second = std::make_shared<Page>(*i->second);
                }
                std::memset(i->second->d + n % pageSize, 0, pageSize - n % pageSize);
            }
        }
    }
    size = n;
}
Bytes File::bytes() const { return range(0, size); }
Bytes File::range(u64 off, u64 n) const
{
    if (off >= size) {
        return {};
    }
    n = std::min(n, size - off);
    Bytes b(n);
    read(off, b.data(), n);
    return b;
}
bool File::sameContent(const Bytes &b) const
{
    if (b.size() != size) {
        return false;
    }
    static const u8 zeros[pageSize] = {};
    for (u64 o = 0; o < size; o += pageSize) {
        const auto i = pages.find(o / pageSize);
        if (std::memcmp(i == pages.end() ? zeros : i->second->d, b.data() + o, std::min<u64>(pageSize, size - o))) {
            return false;
        }
    }
    return true;
}
bool File::sameContent(const File &o) const
{
    if (o.size != size) {
        return false;
    }
    static const u8 zeros[pageSize] = {};
    auto a = pages.begin();
    auto b = o.pages.begin();
    while (a != pages.end() || b != o.pages.end()) {
        const u64 ka = a == pages.end() ? ~0ull : a->first, kb = b == o.pages.end() ? ~0ull : b->first;
        const u64 k = std::min(ka, kb);
        const u8 *pa = ka == k ? a->second->d : zeros, *pb = kb == k ? b->second->d : zeros;
        if (pa != pb && std::memcmp(pa, pb, pageSize)) {
            return false;
        }
        if (ka == k) {
            ++a;
        }
        if (kb == k) {
            ++b;
        }
    }
    return true;
}
u64 File::hash() const
{
    u64 h = mix64(size);
    for (const auto &[k, p] : pages) {
        h = hashBytes(p->d, pageSize, h ^ mix64(k));
    }
    return h;
}

// ---------------------------------------------------------------- fs
void Fs::reset()
{
    SimScope sc;
    nodes.clear();
    fds.clear();
    rules.clear();
    events.clear();
    trace.clear();
    faultsArmed = false;
    quota = ~0ull;
    opCount = armedOpCount = traceHash = 0;
    maxIo = 0;
    written = 0;
    shortIoSeed = eintrSeed = 0;
    observer = nullptr;
    nodes["/sim"].kind = Node::Dir;
}
void Fs::addFile(const std::string &path, const Bytes &content)
{
    SimScope sc;
    auto &n = nodes[path];
    n.kind = Node::Reg;
    n.file = std::make_shared<File>();
    n.file->id = nextFileId++;
    n.file->write(0, content.data(), content.size());
}
void Fs::addLink(const std::string &path, const std::string &target)
{
    SimScope sc;
    auto &n = nodes[path];
    n.kind = Node::Link;
    n.target = target;
}
void Fs::addDir(const std::string &path)
{
    SimScope sc;
    nodes[path].kind = Node::Dir;
}
static constexpr const char *workingDirectory = "/sim/w/cwd";
static std::string normalize(const std::string &p)
{
    if (!p.empty() && p[0] != '/') return normalize(std::string(workingDirectory) + '/' + p);
    std::vector<std::string> parts;
    std::size_t i = 0;
    while (i < p.size()) {
        while (i < p.size() && p[i] == '/') {
            ++i;
        }
        std::size_t j = i;
        while (j < p.size() && p[j] != '/') {
            ++j;
        }
        const auto c = p.substr(i, j - i);
        if (c == "..") {
            if (!parts.empty()) {
                parts.pop_back();
            }
        } else if (!c.empty() && c != ".") {
            parts.push_back(c);
        }
        i = j;
    }
    std::string r;
    for (auto &c : parts) {
        r += '/';
        r += c;
    }
    return r.empty() ? "/" : r;
}
std::string Fs::resolve(const std::string &path, bool followLast, int depth) const
{
    // symlinks are supported for whole paths and for directory components
    auto p = normalize(path);
    if (depth > 8) {
        return std::string();
    }
    std::size_t pos = 1;
    for (;;) {
        const auto next = p.find('/', pos);
        const auto prefix = p.substr(0, next);
        const auto i = nodes.find(prefix);
        const bool last = next == std::string::npos;
        if (i != nodes.end() && i->second.kind == Node::Link && (!last || followLast)) {
            auto t = i->second.target;
            if (t.empty() || t[0] != '/') {
                t = prefix.substr(0, prefix.rfind('/') + 1) + t;
            }
            return resolve(last ? t : t + p.substr(next), followLast, depth + 1);
        }
        if (last) {
            return p;
        }
        pos = next + 1;
    }
}
bool Fs::exists(const std::string &path) const { return nodes.count(resolve(path)); }
const File *Fs::file(const std::string &path) const
{
    const auto i = nodes.find(resolve(path));
    return i != nodes.end() && i->second.kind == Node::Reg ? i->second.file.get() : nullptr;
}
std::shared_ptr<File> Fs::fileRef(const std::string &path) const
{
    const auto i = nodes.find(resolve(path));
    return i != nodes.end() && i->second.kind == Node::Reg ? i->second.file : nullptr;
}
Bytes Fs::content(const std::string &path) const
{
    SimScope sc;
    const auto *f = file(path);
    return f ? f->bytes() : Bytes();
}
std::vector<std::string> Fs::list() const
{
    std::vector<std::string> r;
    for (const auto &[p, n] : nodes) {
        if (n.kind == Node::Reg) {
            r.push_back(p);
        }
    }
    return r;
}
u64 Fs::totalFired() const
{
    u64 t = 0;
    for (auto f : fired) {
        t += f;
    }
    return t;
}
u64 Fs::allocatedTotal() const
{
    u64 t = 0;
    for (const auto &[p, n] : nodes) {
        if (n.file) {
            t += n.file->allocated();
        }
    }
    return t;
}
std::map<std::string, Node> Fs::snapshot() const
{
    SimScope sc;
    auto s = nodes;
    for (auto &[p, n] : s) {
        if (n.file) {
            n.file = std::make_shared<File>(*n.file);
        }
    }
    return s;
}
void Fs::restore(const std::map<std::string, Node> &snap)
{
    SimScope sc;
    nodes = snap;
    for (auto &[p, n] : nodes) {
        if (n.file) {
            n.file = std::make_shared<File>(*n.file);
        }
    }
}

// ---------------------------------------------------------------- virtual system calls
static bool isVirtual(const char *p)
{
    if (!p) return false;
    if (*p != '/') return *p && inSutRef(); // relative to the simulated working directory
    return !std::strncmp(p, "/sim", 4) && (p[4] == '/' || p[4] == 0);
}
static constexpr int fdBase = 1 << 20;
static bool isVirtual(int fd) { return fd >= fdBase; }

static FK decide(Event &ev)
{
    auto &fs = S().fs;
    if (!fs.faultsArmed) {
        return FK::None;
    }
    ++fs.armedOpCount;
    for (auto &r : fs.rules) {
        if (r.opMask && !(r.opMask & (1u << static_cast<int>(ev.op)))) {
            continue;
        }
        if (!r.pathSub.empty() && ev.path.find(r.pathSub) == std::string::npos) {
            continue;
        }
        const auto n = r.seen++;
        if (n < r.nth || (r.repeat >= 0 && n >= r.nth + r.repeat)) {
            continue;
        }
        if (ev.op == Op::Rename ? false : (r.kind == FK::Exdev)) {
            continue;
        }
        ++r.fired;
        return r.kind;
    }
    return FK::None;
}

static void finish(Event &ev, i64 result, int err, u64 dataHash = 0)
{
    auto &fs = S().fs;
    ev.result = result;
    ev.err = err;
    if (ev.fault != FK::None) {
        ++fs.fired[static_cast<int>(ev.fault)];
    }
    ++fs.opStat[static_cast<int>(ev.op)];
    fs.traceHash = mix64(fs.traceHash ^ hashStr(ev.path) ^ mix64(static_cast<u64>(ev.op) * 1315423911u + static_cast<u64>(ev.off)) ^ mix64(static_cast<u64>(ev.len) + 77) ^ (static_cast<u64>(result) << 7)
        ^ static_cast<u64>(err) ^ dataHash ^ (static_cast<u64>(ev.fault) << 40));
    if (fs.keepTrace) {
        char b[400];
        std::snprintf(b, sizeof b, "%llu %s %s%s%s off=%lld len=%lld -> %lld%s%s%s%s", static_cast<unsigned long long>(ev.idx), opName(ev.op), ev.path.c_str(),
            ev.path2.empty() ? "" : " => ", ev.path2.c_str(), static_cast<long long>(ev.off), static_cast<long long>(ev.len), static_cast<long long>(result),
            err ? " " : "", err ? strerrorname_np(err) : "", ev.fault != FK::None ? " FAULT:" : "", ev.fault != FK::None ? fkName(ev.fault) : "");
        fs.trace.emplace_back(b);
    }
    if (fs.observer) {
        fs.observer(ev);
    }
    if (fs.keepEvents) {
        fs.events.push_back(ev);
    }
    errno = err ? err : ev.savedErrno; // success leaves errno alone
}
static Event begin(Op op, const std::string &path)
{
    Event ev;
    ev.savedErrno = errno;
    ev.idx = S().fs.opCount++;
    ev.op = op;
    ev.path = path;
    return ev;
}
static int faultErrno(FK k)
{
    switch (k) {
    case FK::Eio:
    case FK::ShortThenEio:
    case FK::CloseEio:
        return EIO;
    case FK::Enospc:
    case FK::FullDisk:
        return ENOSPC;
    case FK::Eintr:
        return EINTR;
    case FK::Exdev:
        return EXDEV;
    case FK::Eacces:
        return EACCES;
    case FK::Emfile:
        return EMFILE;
    case FK::Enoent:
        return ENOENT;
    default:
        return EIO;
    }
}

static int vOpen(const char *path, int flags, mode_t mode)
{
    schedYieldIo();
    SimScope sc;
    auto &fs = S().fs;
    const auto rp = fs.resolve(path);
    auto i = fs.nodes.find(rp);
    const bool creating = (flags & O_CREAT) && i == fs.nodes.end();
    auto ev = begin(creating ? Op::Create : Op::Open, rp);
    ev.len = flags;
    ev.writableOpen = (flags & O_ACCMODE) != O_RDONLY;
    ev.fault = decide(ev);
    if (ev.fault != FK::None) {
        if (ev.fault == FK::FullDisk) {
            fs.quota = fs.allocatedTotal();
        } else if (ev.fault != FK::Short && ev.fault != FK::Eintr && ev.fault != FK::ShortThenEio) {
            finish(ev, -1, faultErrno(ev.fault));
            return -1;
        } else {
            ev.fault = FK::None;
        }
    }
    if (i != fs.nodes.end() && i->second.kind == Node::Dir) {
        finish(ev, -1, EISDIR);
        return -1;
    }
    if (i == fs.nodes.end()) {
        if (!(flags & O_CREAT)) {
            finish(ev, -1, ENOENT);
            return -1;
        }
        const auto parent = rp.substr(0, rp.rfind('/'));
        const auto pi = fs.nodes.find(parent);
        if (pi == fs.nodes.end() || pi->second.kind != Node::Dir) {
            finish(ev, -1, ENOENT);
            return -1;
        }
        Node n;
        n.file = std::make_shared<File>();
        n.file->id = fs.nextFileId++;
        n.file->mode = S_IFREG | (mode & 0777 & ~022);
        i = fs.nodes.emplace(rp, n).first;
        ev.mutating = true;
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
        finish(ev, -1, EEXIST);
        return -1;
    }
    if (flags & O_TRUNC) {
        if (i->second.file->size) {
            ev.mutating = true;
        }
        i->second.file->truncate(0);
    }
    int fd = fdBase;
    while (fs.fds.count(fd)) {
        ++fd;
    }
    auto &of = fs.fds[fd];
    of.file = i->second.file;
    of.path = rp;
    of.rd = (flags & O_ACCMODE) != O_WRONLY;
    of.wr = (flags & O_ACCMODE) != O_RDONLY;
    of.append = flags & O_APPEND;
    ev.fileId = of.file->id;
    finish(ev, fd - fdBase, 0);
    return fd;
}
static int vClose(int fd)
{
    schedYieldIo();
    SimScope sc;
    auto &fs = S().fs;
    auto i = fs.fds.find(fd);
    auto ev = begin(Op::Close, i == fs.fds.end() ? "?" : i->second.path);
    if (i == fs.fds.end()) {
        finish(ev, -1, EBADF);
        return -1;
    }
    ev.fault = decide(ev);
    ev.fileId = i->second.file->id;
    fs.fds.erase(i);
    if (ev.fault == FK::CloseEio || ev.fault == FK::Eio) {
        finish(ev, -1, EIO);
        return -1;
    }
    ev.fault = FK::None;
    finish(ev, 0, 0);
    return 0;
}
static std::size_t limitIo(std::size_t n, const Event &ev)
{
    auto &fs = S().fs;
    if (n <= 1) {
        return n;
    }
    std::size_t m = n;
    if (fs.maxIo > 0) {
        m = std::min<std::size_t>(m, static_cast<std::size_t>(fs.maxIo));
    }
    if (fs.shortIoSeed) {
        Rng r(fs.shortIoSeed ^ mix64(ev.idx));
        if (r.chance(1, 2)) {
            m = std::min<std::size_t>(m, 1 + r.below(n));
        }
    }
    if (m < n) {
        ++fs.shortCount;
    }
    return m;
}
static bool wantEintr(const Event &ev)
{
    auto &fs = S().fs;
    if (!fs.eintrSeed) {
        return false;
    }
    Rng r(fs.eintrSeed ^ mix64(ev.idx * 3 + 1));
    if (r.chance(1, fs.eintrDen)) {
        ++fs.eintrCount;
        return true;
    }
    return false;
}
static ssize_t vRead(int fd, void *buf, std::size_t n)
{
    schedYieldIo();
    SimScope sc;
    auto &fs = S().fs;
    auto i = fs.fds.find(fd);
    auto ev = begin(Op::Read, i == fs.fds.end() ? "?" : i->second.path);
    ev.len = static_cast<i64>(n);
    if (i == fs.fds.end() || !i->second.rd) {
        finish(ev, -1, EBADF);
        return -1;
    }
    auto &of = i->second;
    ev.off = static_cast<i64>(of.pos);
    ev.fileId = of.file->id;
    ev.fault = decide(ev);
    if (wantEintr(ev)) {
        finish(ev, -1, EINTR);
        return -1;
    }
    std::size_t m = limitIo(n, ev);
    switch (ev.fault) {
    case FK::None:
        break;
    case FK::Short:
        m = std::max<std::size_t>(1, n / 2);
        break;
    case FK::Eio:
    case FK::Eintr:
        finish(ev, -1, faultErrno(ev.fault));
        return -1;
    default:
        ev.fault = FK::None;
    }
    if (of.pos >= of.file->size) {
        finish(ev, 0, 0);
        return 0;
    }
    m = std::min<std::size_t>(m, of.file->size - of.pos);
    of.file->read(of.pos, static_cast<u8 *>(buf), m);
    of.pos += m;
    finish(ev, static_cast<i64>(m), 0);
    return static_cast<ssize_t>(m);
}
static ssize_t vWrite(int fd, const u8 *buf, std::size_t n)
{
    schedYieldIo();
    SimScope sc;
    auto &fs = S().fs;
    auto i = fs.fds.find(fd);
    auto ev = begin(Op::Write, i == fs.fds.end() ? "?" : i->second.path);
    ev.len = static_cast<i64>(n);
    if (i == fs.fds.end() || !i->second.wr) {
        finish(ev, -1, EBADF);
        return -1;
    }
    auto &of = i->second;
    if (of.append) {
        of.pos = of.file->size;
    }
    ev.off = static_cast<i64>(of.pos);
    ev.fileId = of.file->id;
    ev.fault = decide(ev);
    if (wantEintr(ev)) {
        finish(ev, -1, EINTR);
        return -1;
    }
    std::size_t m = limitIo(n, ev);
    switch (ev.fault) {
    case FK::None:
        break;
    case FK::Short:
    case FK::ShortThenEio:
        m = std::max<std::size_t>(1, n / 2);
        if (ev.fault == FK::ShortThenEio) {
            // arrange that the following write fails
            for (auto &r : fs.rules) {
                if (r.kind == FK::ShortThenEio && r.fired) {
                    r.kind = FK::Eio;
                    r.nth = r.seen;
                    r.repeat = std::max<i64>(r.repeat, 1);
                    r.opMask = 1u << static_cast<int>(Op::Write);
                    break;
                }
            }
        }
        break;
    case FK::FullDisk:
        fs.quota = fs.allocatedTotal();
        break;
    case FK::Eio:
    case FK::Enospc:
    case FK::Eintr:
        finish(ev, -1, faultErrno(ev.fault));
        return -1;
    default:
        ev.fault = FK::None;
    }
    if (fs.quota != ~0ull && m) {
        // full disk: only pages which are already allocated may be written
        const u64 total = fs.allocatedTotal();
        u64 spare = fs.quota > total ? (fs.quota - total) / pageSize : 0;
        std::size_t ok = 0;
        while (ok < m) {
            const u64 pos = of.pos + ok;
            if (!of.file->pages.count(pos / pageSize)) {
                if (!spare) {
                    break;
                }
                --spare;
            }
            ok += std::min<std::size_t>(m - ok, pageSize - pos % pageSize);
        }
        if (!ok) {
            if (ev.fault == FK::None) {
                ev.fault = FK::FullDisk;
            }
            finish(ev, -1, ENOSPC);
            return -1;
        }
        m = ok;
    }
    of.file->write(of.pos, buf, m);
    of.pos += m;
    if ((fs.written += m) > fs.writeLimit && S().hangHandler) {
        S().hangHandler("the code under test wrote an excessive amount of data");
    }
    ev.mutating = true;
    finish(ev, static_cast<i64>(m), 0, hashBytes(buf, m));
    return static_cast<ssize_t>(m);
}
static off_t vSeek(int fd, off_t off, int whence)
{
    SimScope sc;
    auto &fs = S().fs;
    auto i = fs.fds.find(fd);
    auto ev = begin(Op::Seek, i == fs.fds.end() ? "?" : i->second.path);
    ev.len = whence;
    ev.off = off;
    if (i == fs.fds.end()) {
        finish(ev, -1, EBADF);
        return -1;
    }
    ev.fault = decide(ev);
    if (ev.fault == FK::Eio) {
        finish(ev, -1, EIO);
        return -1;
    }
    ev.fault = FK::None;
    auto &of = i->second;
    i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<i64>(of.pos) : static_cast<i64>(of.file->size);
    i64 np;
    if (__builtin_add_overflow(base, static_cast<i64>(off), &np) || np < 0) {
        finish(ev, -1, EINVAL);
        return -1;
    }
    of.pos = static_cast<u64>(np);
    finish(ev, np, 0);
    return np;
}
static void fillStat(struct stat *st, const Node &n)
{
    std::memset(st, 0, sizeof *st);
    st->st_nlink = 1;
    st->st_blksize = 4096;
    st->st_dev = 77;
    if (n.kind == Node::Dir) {
        st->st_mode = S_IFDIR | 0755;
        st->st_ino = 2;
    } else if (n.kind == Node::Link) {
        st->st_mode = S_IFLNK | 0777;
        st->st_size = static_cast<off_t>(n.target.size());
        st->st_ino = 3;
    } else {
        st->st_mode = n.file->mode | S_IFREG;
        st->st_size = static_cast<off_t>(n.file->size);
        st->st_ino = 100 + n.file->id;
        st->st_blocks = static_cast<blkcnt_t>(n.file->allocated() / 512);
    }
}
static int vStat(const char *path, struct stat *st, bool follow)
{
    SimScope sc;
    auto &fs = S().fs;
    const auto rp = fs.resolve(path, follow);
    auto ev = begin(Op::Stat, rp);
    ev.fault = decide(ev);
    if (ev.fault == FK::Eio || ev.fault == FK::Eacces) {
        finish(ev, -1, faultErrno(ev.fault));
        return -1;
    }
    ev.fault = FK::None;
    const auto i = fs.nodes.find(rp);
    if (i == fs.nodes.end()) {
        finish(ev, -1, ENOENT);
        return -1;
    }
    fillStat(st, i->second);
    finish(ev, 0, 0);
    return 0;
}
static int vFstat(int fd, struct stat *st)
{
    SimScope sc;
    auto &fs = S().fs;
    const auto i = fs.fds.find(fd);
    if (i == fs.fds.end()) {
        errno = EBADF;
        return -1;
    }
    Node n;
    n.file = i->second.file;
    fillStat(st, n);
    return 0;
}
static int vRename(const char *a, const char *b)
{
    schedYieldIo();
    SimScope sc;
    auto &fs = S().fs;
    const auto ra = fs.resolve(a, false), rb = fs.resolve(b, false);
    auto ev = begin(Op::Rename, ra);
    ev.path2 = rb;
    ev.fault = decide(ev);
    if (ev.fault == FK::Eio || ev.fault == FK::Exdev || ev.fault == FK::Eacces || ev.fault == FK::Enospc) {
        finish(ev, -1, faultErrno(ev.fault));
        return -1;
    }
    ev.fault = FK::None;
    const auto i = fs.nodes.find(ra);
    const auto pi = fs.nodes.find(rb.substr(0, rb.rfind('/')));
    if (i == fs.nodes.end() || pi == fs.nodes.end() || pi->second.kind != Node::Dir) {
        finish(ev, -1, ENOENT);
        return -1;
    }
    if (const auto j = fs.nodes.find(rb); j != fs.nodes.end() && j->second.kind == Node::Dir) {
        finish(ev, -1, EISDIR);
        return -1;
    }
    if (ra != rb) {
        Node n = i->second;
        fs.nodes.erase(i);
        fs.nodes[rb] = n;
    }
    ev.mutating = true;
    finish(ev, 0, 0);
    return 0;
}
static int vRemove(const char *p)
{
    schedYieldIo();
    SimScope sc;
    auto &fs = S().fs;
    const auto rp = fs.resolve(p, false);
    auto ev = begin(Op::Remove, rp);
    ev.fault = decide(ev);
    if (ev.fault == FK::Eio || ev.fault == FK::Eacces) {
        finish(ev, -1, faultErrno(ev.fault));
        return -1;
    }
    ev.fault = FK::None;
    const auto i = fs.nodes.find(rp);
    if (i == fs.nodes.end()) {
        finish(ev, -1, ENOENT);
        return -1;
    }
    if (i->second.kind == Node::Dir) {
        finish(ev, -1, EISDIR);
        return -1;
    }
    fs.nodes.erase(i);
    ev.mutating = true;
    finish(ev, 0, 0);
    return 0;
}
static int vTruncate(const std::string &path, std::shared_ptr<File> f, off_t n)
{
    schedYieldIo();
    SimScope sc;
    auto &fs = S().fs;
    auto ev = begin(Op::Truncate, path);
    ev.len = n;
    ev.fault = decide(ev);
    if (ev.fault == FK::Eio || ev.fault == FK::Eacces || ev.fault == FK::Enospc || ev.fault == FK::Eintr) {
        finish(ev, -1, faultErrno(ev.fault));
        return -1;
    }
    ev.fault = FK::None;
    if (!f) {
        finish(ev, -1, ENOENT);
        return -1;
    }
    if (n < 0) {
        finish(ev, -1, EINVAL);
        return -1;
    }
    ev.fileId = f->id;
    f->truncate(static_cast<u64>(n));
    ev.mutating = true;
    finish(ev, 0, 0);
    (void)fs;
    return 0;
}

} // namespace sim

using namespace sim;

namespace sim {
SutScope *dummy = nullptr;
}

// ---------------------------------------------------------------- fake FILE objects for fdopen()
namespace {
struct FakeFile {
    u64 magic;
    int fd;
};
constexpr int maxFake = 256;
FakeFile g_fake[maxFake];
FakeFile *asFake(FILE *f)
{
    auto *p = reinterpret_cast<FakeFile *>(f);
    return p >= g_fake && p < g_fake + maxFake ? p : nullptr;
}
template <class F> F real(const char *name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
} // namespace

extern "C" {

static int openImpl(const char *path, int flags, mode_t mode)
{
    if (isVirtual(path)) {
        return vOpen(path, flags, mode);
    }
    return static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
int open(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return openImpl(path, flags, mode);
}
int open64(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return openImpl(path, flags, mode);
}
int openat(int dfd, const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    if (isVirtual(path)) {
        return vOpen(path, flags, mode);
    }
    return static_cast<int>(syscall(SYS_openat, dfd, path, flags, mode));
}
FILE *fdopen(int fd, const char *mode)
{
    if (isVirtual(fd)) {
        for (auto &f : g_fake) {
            if (!f.magic) {
                f.magic = 0xFA4E;
                f.fd = fd;
                return reinterpret_cast<FILE *>(&f);
            }
        }
        errno = EMFILE;
        return nullptr;
    }
    static auto r = real<FILE *(*)(int, const char *)>("fdopen");
    return r(fd, mode);
}
int fileno(FILE *f) noexcept
{
    if (auto *k = asFake(f)) {
        return k->fd;
    }
    static auto r = real<int (*)(FILE *)>("fileno");
    return r(f);
}
int fclose(FILE *f)
{
    if (auto *k = asFake(f)) {
        k->magic = 0;
        return vClose(k->fd);
    }
    static auto r = real<int (*)(FILE *)>("fclose");
    return r(f);
}
FILE *fopen(const char *path, const char *mode)
{
    if (isVirtual(path)) {
        int fl = std::strchr(mode, '+') ? O_RDWR : *mode == 'r' ? O_RDONLY : O_WRONLY;
        fl |= *mode == 'w' ? O_CREAT | O_TRUNC : *mode == 'a' ? O_CREAT | O_APPEND : 0;
        const int fd = vOpen(path, fl, 0644);
        return fd < 0 ? nullptr : fdopen(fd, mode);
    }
    static auto r = real<FILE *(*)(const char *, const char *)>("fopen");
    return r(path, mode);
}
ssize_t read(int fd, void *buf, size_t n)
{
    return isVirtual(fd) ? vRead(fd, buf, n) : syscall(SYS_read, fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n)
{
    return isVirtual(fd) ? vWrite(fd, static_cast<const u8 *>(buf), n) : syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    if (!isVirtual(fd)) {
        return syscall(SYS_writev, fd, iov, cnt);
    }
    Bytes b;
    {
        SimScope sc;
        for (int i = 0; i < cnt; ++i) {
            const u8 *p = static_cast<const u8 *>(iov[i].iov_base);
            b.insert(b.end(), p, p + iov[i].iov_len);
        }
    }
    const auto r = vWrite(fd, b.data(), b.size());
    SimScope sc;
    Bytes().swap(b);
    return r;
}
off_t lseek(int fd, off_t off, int whence) noexcept
{
    return isVirtual(fd) ? vSeek(fd, off, whence) : syscall(SYS_lseek, fd, off, whence);
}
off64_t lseek64(int fd, off64_t off, int whence) noexcept
{
    return isVirtual(fd) ? vSeek(fd, off, whence) : syscall(SYS_lseek, fd, off, whence);
}
int close(int fd)
{
    return isVirtual(fd) ? vClose(fd) : static_cast<int>(syscall(SYS_close, fd));
}
int stat(const char *path, struct stat *st) noexcept
{
    return isVirtual(path) ? vStat(path, st, true) : static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, path, st, 0));
}
int lstat(const char *path, struct stat *st) noexcept
{
    return isVirtual(path) ? vStat(path, st, false) : static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW));
}
int fstat(int fd, struct stat *st) noexcept
{
    return isVirtual(fd) ? vFstat(fd, st) : static_cast<int>(syscall(SYS_fstat, fd, st));
}
int access(const char *path, int mode) noexcept
{
    if (isVirtual(path)) {
        struct stat st;
        return vStat(path, &st, true);
    }
    return static_cast<int>(syscall(SYS_access, path, mode));
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (isVirtual(fd)) {
        if (req == FIONREAD) {
            SimScope sc;
            auto i = S().fs.fds.find(fd);
            if (i != S().fs.fds.end()) {
                const auto &of = i->second;
                *static_cast<int *>(arg) = of.pos < of.file->size ? static_cast<int>(std::min<u64>(of.file->size - of.pos, 0x7fffffff)) : 0;
                return 0;
            }
        }
        errno = ENOTTY;
        return -1;
    }
    return static_cast<int>(syscall(SYS_ioctl, fd, req, arg));
}
int poll(struct pollfd *fds, nfds_t n, int timeout)
{
    if (n == 1 && isVirtual(fds[0].fd)) {
        fds[0].revents = fds[0].events & (POLLIN | POLLOUT);
        return 1;
    }
    return static_cast<int>(syscall(SYS_poll, fds, n, timeout));
}
int rename(const char *a, const char *b) noexcept
{
    return isVirtual(a) || isVirtual(b) ? vRename(a, b) : static_cast<int>(syscall(SYS_rename, a, b));
}
int remove(const char *p) noexcept
{
    if (isVirtual(p)) {
        return vRemove(p);
    }
    const auto r = static_cast<int>(syscall(SYS_unlink, p));
    return r && errno == EISDIR ? static_cast<int>(syscall(SYS_rmdir, p)) : r;
}
int unlink(const char *p) noexcept
{
    return isVirtual(p) ? vRemove(p) : static_cast<int>(syscall(SYS_unlink, p));
}
int unlinkat(int dfd, const char *p, int fl) noexcept
{
    return isVirtual(p) ? vRemove(p) : static_cast<int>(syscall(SYS_unlinkat, dfd, p, fl));
}
int truncate(const char *p, off_t n) noexcept
{
    if (isVirtual(p)) {
        ++inSimRef();
        auto rp = S().fs.resolve(p);
        auto f = S().fs.fileRef(p);
        --inSimRef();
        const int r = vTruncate(rp, f, n);
        SimScope sc;
        f.reset();
        rp = std::string();
        return r;
    }
    return static_cast<int>(syscall(SYS_truncate, p, n));
}
int truncate64(const char *p, off64_t n) noexcept { return truncate(p, n); }
int ftruncate(int fd, off_t n) noexcept
{
    if (isVirtual(fd)) {
        auto i = S().fs.fds.find(fd);
        if (i == S().fs.fds.end()) {
            errno = EBADF;
            return -1;
        }
        return vTruncate(i->second.path, i->second.file, n);
    }
    return static_cast<int>(syscall(SYS_ftruncate, fd, n));
}
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
ssize_t sendfile(int out, int in, off_t *off, size_t n) noexcept
{
    if (!isVirtual(out) && !isVirtual(in)) {
        return syscall(SYS_sendfile, out, in, off, n);
    }
    SimScope sc;
    auto &fs = S().fs;
    auto i = fs.fds.find(in), o = fs.fds.find(out);
    auto ev = begin(Op::Sendfile, o == fs.fds.end() ? "?" : o->second.path);
    if (i == fs.fds.end() || o == fs.fds.end()) {
        finish(ev, -1, EBADF);
        return -1;
    }
    ev.path2 = i->second.path;
    ev.off = static_cast<i64>(o->second.pos);
    ev.len = static_cast<i64>(n);
    ev.fileId = o->second.file->id;
    ev.fault = decide(ev);
    if (ev.fault == FK::Eio || ev.fault == FK::Enospc || ev.fault == FK::Eintr) {
        finish(ev, -1, faultErrno(ev.fault));
        return -1;
    }
    u64 pos = off ? static_cast<u64>(*off) : i->second.pos;
    std::size_t m = pos < i->second.file->size ? std::min<std::size_t>(n, i->second.file->size - pos) : 0;
    if (ev.fault == FK::Short || ev.fault == FK::ShortThenEio) {
        m = m / 2 + (m % 2);
    }
    if (fs.quota != ~0ull && m && fs.allocatedTotal() + m > fs.quota) {
        ev.fault = FK::FullDisk;
        finish(ev, -1, ENOSPC);
        return -1;
    }
    Bytes b(m);
    i->second.file->read(pos, b.data(), m);
    o->second.file->write(o->second.pos, b.data(), m);
    o->second.pos += m;
    if (off) {
        *off += static_cast<off_t>(m);
    } else {
        i->second.pos += m;
    }
    ev.mutating = true;
    finish(ev, static_cast<i64>(m), 0, hashBytes(b.data(), m));
    return static_cast<ssize_t>(m);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) noexcept { return sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t *, int out, off64_t *, size_t, unsigned)
{
    if (isVirtual(in) || isVirtual(out)) {
        errno = ENOSYS;
        return -1;
    }
    errno = ENOSYS;
    return -1;
}
int fchmod(int fd, mode_t m) noexcept
{
    if (isVirtual(fd)) {
        SimScope sc;
        auto i = S().fs.fds.find(fd);
        if (i == S().fs.fds.end()) {
            errno = EBADF;
            return -1;
        }
        auto ev = begin(Op::Chmod, i->second.path);
        i->second.file->mode = S_IFREG | (m & 07777);
        finish(ev, 0, 0);
        return 0;
    }
    return static_cast<int>(syscall(SYS_fchmod, fd, m));
}
int fchmodat(int dfd, const char *p, mode_t m, int fl) noexcept
{
    if (isVirtual(p)) {
        SimScope sc;
        auto f = S().fs.fileRef(p);
        if (!f) {
            errno = ENOENT;
            return -1;
        }
        f->mode = S_IFREG | (m & 07777);
        return 0;
    }
    return static_cast<int>(syscall(SYS_fchmodat, dfd, p, m, fl));
}
ssize_t readlink(const char *p, char *buf, size_t n) noexcept
{
    if (isVirtual(p)) {
        SimScope sc;
        const auto i = S().fs.nodes.find(S().fs.resolve(p, false));
        if (i == S().fs.nodes.end() || i->second.kind != Node::Link) {
            errno = i == S().fs.nodes.end() ? ENOENT : EINVAL;
            return -1;
        }
        const auto m = std::min(n, i->second.target.size());
        std::memcpy(buf, i->second.target.data(), m);
        return static_cast<ssize_t>(m);
    }
    return syscall(SYS_readlink, p, buf, n);
}
char *getcwd(char *buf, std::size_t n) noexcept
{
    if (inSutRef()) {
        const auto len = std::strlen(workingDirectory) + 1;
        if (!buf) buf = static_cast<char *>(malloc(n = std::max(n, len)));
        if (n < len) { errno = ERANGE; return nullptr; }
        std::memcpy(buf, workingDirectory, len);
        return buf;
    }
    static auto r = real<char *(*)(char *, std::size_t)>("getcwd");
    return r(buf, n);
}
char *realpath(const char *p, char *out) noexcept
{
    if (isVirtual(p)) {
        SimScope sc;
        auto &fs = S().fs;
        const auto rp = fs.resolve(p);
        auto ev = begin(Op::Readlink, rp);
        ev.fault = decide(ev);
        if (ev.fault == FK::Eio || ev.fault == FK::Eacces) {
            finish(ev, -1, faultErrno(ev.fault));
            return nullptr;
        }
        ev.fault = FK::None;
        if (!fs.nodes.count(rp)) {
            finish(ev, -1, ENOENT);
            return nullptr;
        }
        finish(ev, 0, 0);
        if (!out) {
            out = static_cast<char *>(malloc(rp.size() + 1));
        }
        std::memcpy(out, rp.c_str(), rp.size() + 1);
        return out;
    }
    static auto r = real<char *(*)(const char *, char *)>("realpath");
    return r(p, out);
}
int mkdir(const char *p, mode_t m) noexcept
{
    if (isVirtual(p)) {
        SimScope sc;
        auto &fs = S().fs;
        const auto rp = fs.resolve(p);
        auto ev = begin(Op::Mkdir, rp);
        if (fs.nodes.count(rp)) {
            finish(ev, -1, EEXIST);
            return -1;
        }
        fs.nodes[rp].kind = Node::Dir;
        ev.mutating = true;
        finish(ev, 0, 0);
        return 0;
    }
    return static_cast<int>(syscall(SYS_mkdir, p, m));
}
int statvfs(const char *p, struct statvfs *b) noexcept
{
    if (isVirtual(p)) {
        std::memset(b, 0, sizeof *b);
        b->f_bsize = b->f_frsize = 4096;
        b->f_blocks = b->f_bfree = b->f_bavail = 1 << 20;
        return 0;
    }
    static auto r = real<int (*)(const char *, struct statvfs *)>("statvfs");
    return r(p, b);
}

// ---------------------------------------------------------------- clocks: simulated time, never the real one (while code under test runs)
int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
    if (inSutRef()) {
        const u64 ns = S().freezeClock ? 0 : g_steps * 100; // 100 ns of simulated time per control-flow edge
        ts->tv_sec = static_cast<time_t>(S().clockBase + ns / 1000000000ull);
        ts->tv_nsec = static_cast<long>(ns % 1000000000ull);
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
int gettimeofday(struct timeval *tv, void *) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) {
        *t = ts.tv_sec;
    }
    return ts.tv_sec;
}

// ---------------------------------------------------------------- control-flow edges
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
    if (!covMap) {
        covMap = static_cast<u8 *>(mmap(nullptr, covMax, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    if (start == stop || *start) {
        return;
    }
    for (auto *p = start; p < stop; ++p) {
        *p = covSize + 1 < covMax ? ++covSize : covSize;
    }
}
static void stepSlow();
void __sanitizer_cov_trace_pc_guard(uint32_t *guard)
{
    if (!tlsInSut || tlsInSim) {
        return;
    }
    covMap[*guard] = 1;
    if (++g_steps >= g_nextTrap) {
        stepSlow();
    }
}
}

// ---------------------------------------------------------------- steps, scheduler
namespace sim {

namespace {
struct Sched {
    bool active = false;
    std::mutex m;
    std::vector<std::unique_ptr<std::condition_variable>> cv;
    std::vector<bool> alive;
    int current = -1;
    Rng rng{ 0 };
    u64 quantum = 0;
    bool atIo = false;
    u64 switches = 0, hash = 0;
    u64 nextPreempt = ~0ull;
    std::condition_variable done;
} *g_sched = nullptr;

u64 userTrap = ~0ull;
void recomputeTrap()
{
    g_nextTrap = std::min(userTrap, S().stepLimit);
    if (g_sched && g_sched->active) {
        g_nextTrap = std::min(g_nextTrap, g_sched->nextPreempt);
    }
}

void switchTo(int next)
{
    // called with current task running; hands the baton over
    auto &s = *g_sched;
    const int me = tlsTask;
    std::unique_lock<std::mutex> l(s.m);
    s.current = next;
    ++s.switches;
    s.hash = mix64(s.hash ^ mix64(g_steps) ^ static_cast<u64>(next + 1));
    s.cv[static_cast<std::size_t>(next)]->notify_one();
    s.cv[static_cast<std::size_t>(me)]->wait(l, [&] { return s.current == me; });
}
int pickNext(bool excludeSelf)
{
    auto &s = *g_sched;
    std::vector<int> c;
    for (int i = 0; i < static_cast<int>(s.alive.size()); ++i) {
        if (s.alive[static_cast<std::size_t>(i)] && !(excludeSelf && i == tlsTask)) {
            c.push_back(i);
        }
    }
    return c.empty() ? -1 : c[s.rng.below(c.size())];
}
void newQuantum()
{
    auto &s = *g_sched;
    // mostly the chosen granularity but also bursts of immediate preemptions
    s.nextPreempt = s.quantum ? g_steps + 1 + s.rng.below(s.rng.chance(1, 5) ? 6 : 2 * s.quantum) : ~0ull;
    recomputeTrap();
}
void yieldNow(bool force)
{
    SimScope sc;
    newQuantum();
    const int n = pickNext(force);
    if (n >= 0 && n != tlsTask) {
        switchTo(n);
    }
}
} // namespace

void setStepTrap(u64 at, std::function<void()> f)
{
    SimScope sc;
    userTrap = at;
    S().stepTrap = std::move(f);
    recomputeTrap();
}
void setStepLimit(u64 at)
{
    S().stepLimit = at;
    recomputeTrap();
}
void schedYieldIo()
{
    if (g_sched && g_sched->active && tlsTask >= 0 && g_sched->atIo && tlsInSut && !tlsInSim) {
        yieldNow(false);
    }
}

SchedStats runThreads(std::vector<std::function<void()>> tasks, u64 seed, u64 meanQuantum, bool switchAtIo)
{
    SimScope sc;
    Sched s;
    s.rng = Rng(seed);
    s.quantum = meanQuantum;
    s.atIo = switchAtIo;
    s.alive.assign(tasks.size(), true);
    for (std::size_t i = 0; i < tasks.size(); ++i) {
        s.cv.emplace_back(std::make_unique<std::condition_variable>());
    }
    g_sched = &s;
    std::vector<std::thread> threads;
    std::size_t aliveCount = tasks.size();
    for (std::size_t i = 0; i < tasks.size(); ++i) {
        threads.emplace_back([&, i] {
            tlsTask = static_cast<int>(i);
            {
                std::unique_lock<std::mutex> l(s.m);
                s.cv[i]->wait(l, [&] { return s.current == static_cast<int>(i); });
            }
            tasks[i]();
            ++tlsInSim;
            std::unique_lock<std::mutex> l(s.m);
            s.alive[i] = false;
            --aliveCount;
            const int n = pickNext(true);
            s.current = n;
            ++s.switches;
            s.hash = mix64(s.hash ^ mix64(g_steps) ^ static_cast<u64>(n + 100));
            if (n >= 0) {
                s.cv[static_cast<std::size_t>(n)]->notify_one();
            } else {
                s.done.notify_one();
            }
        });
    }
    {
        std::unique_lock<std::mutex> l(s.m);
        s.active = true;
        newQuantum();
        s.current = static_cast<int>(s.rng.below(tasks.size()));
        s.cv[static_cast<std::size_t>(s.current)]->notify_one();
        s.done.wait(l, [&] { return !aliveCount; });
    }
    for (auto &t : threads) {
        t.join();
    }
    g_sched = nullptr;
    recomputeTrap();
    return SchedStats{ s.switches, s.hash };
}

} // namespace sim

static void stepSlow()
{
    if (g_sched && g_sched->active && tlsTask >= 0 && g_steps >= g_sched->nextPreempt) {
        yieldNow(false);
    }
    if (g_steps >= userTrap) {
        userTrap = ~0ull;
        recomputeTrap();
        SimScope sc;
        auto f = std::move(S().stepTrap);
        S().stepTrap = nullptr;
        if (f) {
            f();
        }
    }
    if (g_steps >= S().stepLimit) {
        SimScope sc;
        S().stepLimit = ~0ull;
        recomputeTrap();
        if (S().hangHandler) {
            S().hangHandler("the code under test made an excessive number of steps");
        }
    }
}

// function-local statics: a task preempted during initialisation must not dead-lock another one -> scheduler-aware guards
extern "C" int __cxa_guard_acquire(u64 *g)
{
    u8 *b = reinterpret_cast<u8 *>(g);
    for (;;) {
        if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) {
            return 0;
        }
        if (!b[1]) {
            b[1] = 1;
            return 1;
        }
        if (g_sched && g_sched->active && tlsTask >= 0) {
            yieldNow(true);
        } else {
            std::abort();
        }
    }
}
extern "C" void __cxa_guard_release(u64 *g) noexcept
{
    u8 *b = reinterpret_cast<u8 *>(g);
    b[1] = 0;
    __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
}
extern "C" void __cxa_guard_abort(u64 *g) noexcept
{
    reinterpret_cast<u8 *>(g)[1] = 0;
}

// ---------------------------------------------------------------- allocator
// Returns whether an allocation is made within the constructor of an exception of the c++utilities library. These constructors are noexcept
// but allocate so a failure there ends in std::terminate() which is nothing tagparser could influence. Neither can tagparser influence that
// string streams used internally by the c++utilities library swallow such failures.
static bool withinNoexceptConstructor()
{
    SimScope sc;
    void *frames[16];
    const int n = backtrace(frames, 16);
    bool stream = false;
    for (int i = 0; i < n; ++i) {
        Dl_info info{}, caller{};
        if (!dladdr(frames[i], &info)) {
            continue;
        }
        if (stream && info.dli_fname && std::strstr(info.dli_fname, "c++utilities")) {
            return true;
        }
        if (!info.dli_sname) {
            continue;
        }
        if (std::strstr(info.dli_sname, "basic_stringbuf") || std::strstr(info.dli_sname, "basic_ostream")) {
            stream = true;
        }
        if (std::strstr(info.dli_sname, "19ConversionExceptionC")) {
            return true;
        }
        // the constructor might be inlined or not exported
        if (std::strstr(info.dli_sname, "13runtime_errorC") && i + 1 < n && dladdr(frames[i + 1], &caller) && caller.dli_fname
            && std::strstr(caller.dli_fname, "c++utilities")) {
            return true;
        }
    }
    return false;
}
static bool g_trackLive = false;
extern "C" void __asan_poison_memory_region(const volatile void *, std::size_t) __attribute__((weak));

// the content of fresh memory is one of the sources of nondeterminism: it is different for every allocation but decided by their order
static void fillFresh(void *p, std::size_t n)
{
    u64 x = S().fills++ * 0x9E3779B97F4A7C15ull;
    std::memset(p, static_cast<int>((x ^ (x >> 32)) >> 13 & 0xFF) | 1, std::min<std::size_t>(n, 0x10000));
}

static void *simAlloc(std::size_t n, std::size_t align = 0)
{
    if (tlsInSut && !tlsInSim) {
        auto &s = S();
        if (n > s.maxAlloc) {
            s.maxAlloc = n;
        }
        if (n > s.allocLimit) {
            ++s.overLimit;
            throw std::bad_alloc();
        }
        const auto i = static_cast<i64>(s.allocs++);
        if (s.failAllocAt >= 0 && i >= s.failAllocAt && (s.failAllocRepeat < 0 || i < s.failAllocAt + s.failAllocRepeat)) {
            if (!withinNoexceptConstructor()) {
                ++s.allocFaults;
                throw std::bad_alloc();
            }
            if (i == s.failAllocAt) {
                ++s.failAllocAt;
            }
        }
    }
    void *p = nullptr;
    if (align > 16) {
        if (posix_memalign(&p, align, n ? n : 1)) {
            p = nullptr;
        }
    } else {
        p = std::malloc(n ? n : 1);
    }
    if (!p) {
        throw std::bad_alloc();
    }
    if (tlsInSut && !tlsInSim) {
        fillFresh(p, n ? n : 1);
        if (!n && __asan_poison_memory_region) {
            __asan_poison_memory_region(p, 1); // otherwise the first byte would be considered to be part of the allocation
        }
    }
    if (g_trackLive) {
        auto &s = S();
        if ((s.live += static_cast<i64>(malloc_usable_size(p))) > s.peakLive) {
            s.peakLive = s.live;
        }
    }
    return p;
}
static void simFree(void *p)
{
    if (g_trackLive && p) {
        S().live -= static_cast<i64>(malloc_usable_size(p));
    }
    std::free(p);
}
void sim::trackMemory(bool on)
{
    S().live = S().peakLive = 0;
    g_trackLive = on;
}
void *operator new(std::size_t n) { return simAlloc(n); }
void *operator new[](std::size_t n) { return simAlloc(n); }
void *operator new(std::size_t n, std::align_val_t a) { return simAlloc(n, static_cast<std::size_t>(a)); }
void *operator new[](std::size_t n, std::align_val_t a) { return simAlloc(n, static_cast<std::size_t>(a)); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept
{
    try {
        return simAlloc(n);
    } catch (...) {
        return nullptr;
    }
}
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept
{
    try {
        return simAlloc(n);
    } catch (...) {
        return nullptr;
    }
}
void operator delete(void *p) noexcept { simFree(p); }
void operator delete[](void *p) noexcept { simFree(p); }
void operator delete(void *p, std::size_t) noexcept { simFree(p); }
void operator delete[](void *p, std::size_t) noexcept { simFree(p); }
void operator delete(void *p, std::align_val_t) noexcept { simFree(p); }
void operator delete[](void *p, std::align_val_t) noexcept { simFree(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { simFree(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { simFree(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { simFree(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { simFree(p); }
