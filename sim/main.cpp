#include "scen.h"
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

extern "C" void __asan_init() __attribute__((weak));

namespace {

struct ChildResult {
    bool crashed = false;
    std::string crash; // class of crash
    std::vector<Violation> viol;
    std::map<std::string, u64> count;
    std::set<u64> states;
    std::map<std::string, Choices::Rec> choices;
    u64 hash = 0, executions = 0, nontrivial = 0, steps = 0;
    std::string log, trace, err;
};

std::string esc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '\\') r += "\\\\";
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r;
}

u64 nowMs()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<u64>(ts.tv_sec) * 1000 + static_cast<u64>(ts.tv_nsec) / 1000000;
}

int g_out = -1;
void emit(const std::string &s)
{
    std::size_t o = 0;
    while (o < s.size()) {
        const auto n = ::write(g_out, s.data() + o, s.size() - o);
        if (n <= 0) { if (errno == EINTR) continue; break; }
        o += static_cast<std::size_t>(n);
    }
}

const bool asanBuild = &__asan_init != nullptr;
constexpr u64 hangSteps = 400000000ull;

[[noreturn]] void childMain(const std::string &prop, u64 seed, const std::map<std::string, i64> &overrides, bool trace, bool verbose)
{
    struct rlimit rl { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    Run r;
    r.prop = prop;
    r.c.seed = seed;
    r.c.overrides = overrides;
    r.verbose = verbose;
    S().fs.reset();
    S().fs.keepTrace = trace;
    #if !defined(__SANITIZE_ADDRESS__)
    if (!getenv("SIM_NO_RLIMIT")) {
        struct rlimit as { 6ull << 30, 6ull << 30 };
        if (!asanBuild) setrlimit(RLIMIT_AS, &as);
    }
#endif
    S().hangHandler = [&](const char *why) {
        SimScope sc;
        emit("V\t" + prop + "\thang\t" + std::string(why) + "\n");
        for (auto &[k, v] : r.c.log) emit("K\t" + k + "\t" + std::to_string(v.value) + "\t" + std::to_string(v.lo) + "\t" + std::to_string(v.hi) + "\n");
        emit("E\n");
        _exit(0);
    };
    setStepLimit(hangSteps);
    std::string harness;
    try {
        executeRun(r);
    } catch (const std::exception &e) {
        r.fail("HARNESS", "exception", e.what());
    } catch (...) {
        r.fail("HARNESS", "exception", "unknown");
    }
    std::ostringstream o;
    for (auto &v : r.viol) o << "V\t" << v.prop << '\t' << v.cls << '\t' << esc(v.msg) << '\n';
    for (auto &[k, v] : r.count) o << "C\t" << k << '\t' << v << '\n';
    for (int i = 1; i < static_cast<int>(FK::Count); ++i) if (S().fs.fired[i]) o << "C\tfault." << fkName(static_cast<FK>(i)) << '\t' << S().fs.fired[i] << '\n';
    for (int i = 0; i < static_cast<int>(Op::Count); ++i) if (S().fs.opStat[i]) o << "C\top." << opName(static_cast<Op>(i)) << '\t' << S().fs.opStat[i] << '\n';
    if (S().fs.shortCount) o << "C\tfault.short-io\t" << S().fs.shortCount << '\n';
    if (S().fs.eintrCount) o << "C\tfault.eintr-random\t" << S().fs.eintrCount << '\n';
    if (S().allocFaults) o << "C\tfault.alloc\t" << S().allocFaults << '\n';
    for (auto h : r.states) o << "S\t" << h << '\n';
    for (auto &[k, v] : r.c.log) o << "K\t" << k << '\t' << v.value << '\t' << v.lo << '\t' << v.hi << '\n';
    o << "H\t" << (S().fs.traceHash ^ mix64(r.executions)) << '\n';
    o << "X\t" << r.executions << '\t' << r.nontrivial << '\t' << stepCount() << '\n';
    if (trace) { for (auto &t : S().fs.trace) o << "T\t" << esc(t) << '\n'; o << "L\t" << esc(r.log) << '\n'; }
    o << "E\n";
    emit(o.str());
    _exit(0);
}

ChildResult runChild(const std::string &prop, u64 seed, const std::map<std::string, i64> &overrides, bool trace = false, unsigned timeoutMs = 120000)
{
    ChildResult res;
    int p[2], e[2];
    if (pipe(p) || pipe(e)) { res.crashed = true; res.crash = "pipe"; return res; }
    const pid_t pid = fork();
    if (!pid) {
        close(p[0]);
        close(e[0]);
        dup2(e[1], 2);
        close(e[1]);
        g_out = p[1];
        childMain(prop, seed, overrides, trace, false);
    }
    close(p[1]);
    close(e[1]);
    std::string out, err;
    struct pollfd f[2] = { { p[0], POLLIN, 0 }, { e[0], POLLIN, 0 } };
    const u64 end = nowMs() + timeoutMs;
    bool timedOut = false;
    int open = 2;
    char buf[65536];
    while (open) {
        const u64 now = nowMs();
        if (now >= end) { timedOut = true; kill(pid, SIGKILL); break; }
        if (poll(f, 2, static_cast<int>(end - now)) < 0) continue;
        for (int i = 0; i < 2; ++i) {
            if (f[i].fd < 0 || !(f[i].revents & (POLLIN | POLLHUP | POLLERR))) continue;
            const auto n = read(f[i].fd, buf, sizeof buf);
            if (n <= 0) { f[i].fd = -1; --open; continue; }
            auto &dst = i ? err : out;
            if (dst.size() < (64u << 20)) dst.append(buf, static_cast<std::size_t>(n));
        }
    }
    close(p[0]);
    close(e[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    bool ended = false;
    std::istringstream is(out);
    std::string line;
    while (std::getline(is, line)) {
        std::vector<std::string> t;
        std::size_t pos = 0;
        for (;;) { const auto n = line.find('\t', pos); t.push_back(line.substr(pos, n == std::string::npos ? n : n - pos)); if (n == std::string::npos) break; pos = n + 1; }
        if (t[0] == "V" && t.size() == 4) res.viol.push_back({ t[1], t[2], t[3] });
        else if (t[0] == "C" && t.size() == 3) res.count[t[1]] += std::stoull(t[2]);
        else if (t[0] == "S" && t.size() == 2) res.states.insert(std::stoull(t[1]));
        else if (t[0] == "K" && t.size() == 5) res.choices[t[1]] = { std::stoll(t[2]), std::stoll(t[3]), std::stoll(t[4]) };
        else if (t[0] == "H" && t.size() == 2) res.hash = std::stoull(t[1]);
        else if (t[0] == "X" && t.size() == 4) { res.executions = std::stoull(t[1]); res.nontrivial = std::stoull(t[2]); res.steps = std::stoull(t[3]); }
        else if (t[0] == "T") res.trace += t[1] + "\n";
        else if (t[0] == "L") res.log += t[1];
        else if (t[0] == "E") ended = true;
    }
    res.err = err;
    if (!ended) {
        res.crashed = true;
        if (timedOut) res.crash = "timeout";
        else {
            const auto s = err.find("SUMMARY: ");
            if (s != std::string::npos) {
                res.crash = err.substr(s + 9, err.find('\n', s) - s - 9);
                const auto ub = err.find("runtime error: ");
                if (ub != std::string::npos && res.crash.find("undefined-behavior") != std::string::npos) res.crash += ": " + err.substr(ub + 15, err.find('\n', ub) - ub - 15);
            } else if (WIFSIGNALED(st)) res.crash = std::string("signal ") + strsignal(WTERMSIG(st));
            else res.crash = "exit status " + std::to_string(WEXITSTATUS(st));
            for (std::size_t fp = err.find("    #"); fp != std::string::npos; fp = err.find("    #", fp + 5)) { // innermost frame within the library
                const auto e2 = err.find('\n', fp);
                const auto fr = err.substr(fp, e2 == std::string::npos ? e2 : e2 - fp);
                const auto tp = fr.find("TagParser::");
                if (tp == std::string::npos || fr.find("sim::") != std::string::npos) continue;
                res.crash += " [" + fr.substr(tp, fr.find('(', tp) - tp) + "]";
                break;
            }
            const auto term = err.find("terminate called");
            if (term != std::string::npos) res.crash += " (" + esc(err.substr(term, 150)) + ")";
        }
        res.viol.insert(res.viol.begin(), Violation{ prop, "crash", res.crash });
    }
    return res;
}

const Violation *firstOf(const ChildResult &c, const std::string &prop, const std::string &cls = {})
{
    for (auto &v : c.viol) if (v.prop == prop && (cls.empty() || v.cls == cls)) return &v;
    return nullptr;
}

u64 runSeed(const std::string &prop, u64 seed, u64 idx) { return mix64(mix64(seed) ^ hashStr(prop) ^ mix64(idx + 0x5151)); }

bool sameCrash(const Violation &a, const Violation &b)
{
    if (a.cls != "crash") return true;
    auto key = [](const std::string &s) { return s.substr(0, s.find(':')); };
    return key(a.msg).substr(0, 60) == key(b.msg).substr(0, 60);
}

// shrinks the choices of a failing run: every choice towards its simplest value as long as the same class of violation is left
std::map<std::string, i64> minimise(const std::string &prop, u64 seed, std::map<std::string, i64> ov, const Violation &ref, unsigned budgetMs)
{
    const u64 end = nowMs() + budgetMs;
    auto fails = [&](const std::map<std::string, i64> &o, ChildResult *out = nullptr) {
        auto c = runChild(prop, seed, o, false, 30000);
        const auto *v = firstOf(c, prop, ref.cls);
        const bool ok = v && sameCrash(*v, ref);
        if (out) *out = std::move(c);
        return ok;
    };
    ChildResult cur;
    if (!fails(ov, &cur)) return ov;
    bool progress = true;
    while (progress && nowMs() < end) {
        progress = false;
        std::vector<std::pair<std::string, Choices::Rec>> cs(cur.choices.begin(), cur.choices.end());
        // short names (global decisions) first
        std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first.size() < b.first.size(); });
        for (auto &[name, rec] : cs) {
            if (nowMs() >= end) break;
            if (!cur.choices.count(name)) continue;
            i64 v = cur.choices[name].value, lo = rec.lo;
            if (v == lo) continue;
            auto o = ov;
            o[name] = lo;
            ChildResult n;
            if (fails(o, &n)) { ov = o; cur = std::move(n); progress = true; continue; }
            i64 bad = lo;
            while (v - bad > 1 && nowMs() < end) {
                const i64 mid = bad + (v - bad) / 2;
                o[name] = mid;
                if (fails(o, &n)) { ov = o; cur = std::move(n); v = mid; progress = true; } else bad = mid;
                if (rec.hi - rec.lo > 4096 && v - bad < 16) break;
            }
        }
    }
    // keep only overrides which are in use
    std::map<std::string, i64> used;
    for (auto &[k, v] : ov) if (cur.choices.count(k)) used[k] = v;
    if (fails(used)) return used;
    return ov;
}

void writeReplay(const std::string &path, const std::string &prop, u64 seed, const std::map<std::string, i64> &ov, const Violation &v, const ChildResult &c)
{
    std::ofstream f(path);
    f << "property " << prop << "\nseed " << seed << "\nclass " << v.cls << "\nhash " << c.hash << "\nmessage " << v.msg << "\n";
    for (auto &[k, val] : ov) f << "set " << k << " " << val << "\n";
    f << "# ---- description of the (minimised) run: schedule and fault trace\n";
    std::istringstream is(c.log);
    std::string log = c.log, line;
    std::size_t p = 0;
    while ((p = log.find("\\n", p)) != std::string::npos) log.replace(p, 2, "\n");
    std::istringstream ls(log);
    while (std::getline(ls, line)) f << "# " << line << "\n";
    std::istringstream ts(c.trace);
    std::vector<std::string> lines;
    while (std::getline(ts, line)) lines.push_back(line);
    for (std::size_t i = 0; i < lines.size(); ++i) {
        if (lines.size() > 400 && i > 300 && i + 100 < lines.size() && lines[i].find("FAULT") == std::string::npos) continue;
        f << "#t " << lines[i] << "\n";
    }
    std::istringstream es(c.err);
    int n = 0;
    while (std::getline(es, line) && n++ < 60) f << "#e " << line << "\n";
}

} // namespace

int main(int argc, char **argv)
{
    std::signal(SIGPIPE, SIG_IGN);
    std::map<std::string, std::string> a;
    std::map<std::string, i64> ov;
    for (int i = 1; i < argc; ++i) {
        std::string s = argv[i];
        if (s == "--set" && i + 1 < argc) { std::string kv = argv[++i]; const auto e = kv.find('='); ov[kv.substr(0, e)] = std::stoll(kv.substr(e + 1)); }
        else if (s.compare(0, 2, "--") == 0) { if (i + 1 < argc && std::string(argv[i + 1]).compare(0, 2, "--") != 0) { a[s.substr(2)] = argv[i + 1]; ++i; } else a[s.substr(2)] = "1"; }
    }
    g_out = 1;
    const std::string prop = a["prop"];
    const u64 seed = a.count("seed") ? std::stoull(a["seed"]) : 1;
    if (a.count("run")) { // verbose single run in this process
        const u64 rs = a.count("raw") ? std::stoull(a["raw"]) : runSeed(prop, seed, std::stoull(a["run"]));
        childMain(prop, rs, ov, a.count("trace"), true);
    }
    if (a.count("replay")) {
        std::ifstream f(a["replay"]);
        std::string line, p, cls, hash;
        u64 s = 0;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "property") is >> p;
            else if (k == "seed") is >> s;
            else if (k == "class") is >> cls;
            else if (k == "hash") is >> hash;
            else if (k == "set") { std::string n; i64 v; is >> n >> v; ov[n] = v; }
        }
        auto c = runChild(p, s, ov, true);
        for (auto &v : c.viol) std::printf("%s %s: %s\n", v.prop.c_str(), v.cls.c_str(), v.msg.c_str());
        const auto *v = firstOf(c, p, cls);
        const bool same = v && std::to_string(c.hash) == hash;
        std::printf("%s\n", same ? "REPRODUCED exactly" : v ? "REPRODUCED (trace differs)" : "NOT REPRODUCED");
        if (a.count("trace")) std::printf("%s", c.trace.c_str());
        return same ? 1 : v ? 3 : 0;
    }
    if (a.count("minimise")) { // --minimise OUT --prop P --raw SEED --class CLS
        const u64 rs = std::stoull(a["raw"]);
        const std::string cls = a["class"];
        auto c1 = runChild(prop, rs, ov), c2 = runChild(prop, rs, ov);
        const auto *v1 = firstOf(c1, prop, cls), *v2 = firstOf(c2, prop, cls);
        if (!v1 || !v2 || c1.hash != c2.hash || v1->msg.substr(0, 40) != v2->msg.substr(0, 40)) { std::printf("UNSTABLE\n"); return 2; }
        const Violation ref = *v1;
        ov = minimise(prop, rs, ov, ref, a.count("budget") ? static_cast<unsigned>(std::stoul(a["budget"])) : 20000);
        auto c = runChild(prop, rs, ov, true);
        const auto *v = firstOf(c, prop, cls);
        if (!v) { std::printf("UNSTABLE\n"); return 2; }
        writeReplay(a["minimise"], prop, rs, ov, *v, c);
        std::printf("MINIMISED\t%s\t%s\n", v->cls.c_str(), v->msg.c_str());
        return 0;
    }
    // worker: --prop P --seed S --start I --stride N --count C --tmax MS
    const u64 start = std::stoull(a["start"]), stride = std::stoull(a["stride"]), count = std::stoull(a["count"]);
    const u64 tmax = std::stoull(a["tmax"]);
    const std::size_t maxViol = a.count("maxviol") ? std::stoull(a["maxviol"]) : 6;
    const u64 t0 = nowMs();
    std::map<std::string, u64> total;
    std::set<u64> states, hashes;
    u64 runs = 0, executions = 0, nontrivial = 0, steps = 0;
    std::map<std::string, int> seen;
    std::size_t nviol = 0;
    const bool all = a.count("all");
    std::vector<std::string> samples;
    for (u64 i = start; i < count; i += stride) {
        if (nowMs() - t0 > tmax) break;
        const u64 rs = runSeed(prop, seed, i);
        auto c = runChild(prop, rs, ov);
        ++runs;
        executions += c.executions;
        nontrivial += c.nontrivial ? 1 : 0;
        steps += c.steps;
        hashes.insert(c.hash);
        for (auto &[k, v] : c.count) { if (k.compare(0, 4, "max.") == 0 || k.find(".maxbytes") != std::string::npos) total[k] = std::max(total[k], v); else total[k] += v; }
        states.insert(c.states.begin(), c.states.end());
        for (auto &v : c.viol) {
            if (!all && v.prop != prop && v.prop != "HARNESS") continue;
            if (++seen[v.prop + v.cls + (v.cls == "crash" ? v.msg.substr(0, 120) : "")] > (all ? 3 : 2)) continue;
            std::printf("VIOL\t%llu\t%llu\t%s\t%s\t%s\n", static_cast<unsigned long long>(i), static_cast<unsigned long long>(rs), v.prop.c_str(), v.cls.c_str(), v.msg.c_str());
            std::fflush(stdout);
            ++nviol;
        }
        if (!all && nviol >= maxViol) break;
    }
    for (auto &[k, v] : seen) if (all) std::printf("SEEN\t%s\t%d\n", k.c_str(), v);
    std::printf("RUNS\t%llu\nEXEC\t%llu\nNONTRIVIAL\t%llu\nSTEPS\t%llu\nWALLMS\t%llu\n", static_cast<unsigned long long>(runs), static_cast<unsigned long long>(executions), static_cast<unsigned long long>(nontrivial), static_cast<unsigned long long>(steps), static_cast<unsigned long long>(nowMs() - t0));
    for (auto &[k, v] : total) std::printf("COUNT\t%s\t%llu\n", k.c_str(), static_cast<unsigned long long>(v));
    for (auto h : states) std::printf("STATE\t%llu\n", static_cast<unsigned long long>(h));
    for (auto h : hashes) std::printf("HASH\t%llu\n", static_cast<unsigned long long>(h));
    return 0;
}
