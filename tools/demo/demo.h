// helpers for the demonstrations: scratch directory, synthetic MP3 file, interposed system calls
#pragma once
#include <tagparser/abstractcontainer.h>
#include <tagparser/abstracttrack.h>
#include <tagparser/diagnostics.h>
#include <tagparser/exceptions.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/tag.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <string>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

namespace fs = std::filesystem;
using namespace TagParser;

struct Scratch { // everything happens within this directory
    fs::path dir;
    Scratch()
    {
        char tmpl[] = "/tmp/tagparser-demo-XXXXXX";
        if (!mkdtemp(tmpl)) { std::perror("mkdtemp"); std::exit(99); }
        dir = tmpl;
    }
    ~Scratch() { std::error_code ec; fs::remove_all(dir, ec); }
    std::string operator/(const std::string &n) const { return (dir / n).string(); }
};
inline void put(const std::string &path, const std::string &data) { std::ofstream f(path, std::ios::binary | std::ios::trunc); f.write(data.data(), static_cast<std::streamsize>(data.size())); if (!f) std::exit(98); }
inline std::string get(const std::string &path) { std::ifstream f(path, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
inline std::string be(unsigned long long v, int n) { std::string s; for (int i = n - 1; i >= 0; --i) s += static_cast<char>(v >> (8 * i)); return s; }
inline std::string le(unsigned long long v, int n) { std::string s; for (int i = 0; i < n; ++i) s += static_cast<char>(v >> (8 * i)); return s; }
inline std::string synchsafe(unsigned v) { std::string s; for (int i = 3; i >= 0; --i) s += static_cast<char>((v >> (7 * i)) & 0x7F); return s; }
inline std::string z(std::size_t n) { return std::string(n, '\0'); }
inline std::string mp3Media(int frames)
{
    std::string m;
    for (int i = 0; i < frames; ++i) {
        std::string f(417, '\0');
        f[0] = '\xFF'; f[1] = '\xFB'; f[2] = '\x90'; f[3] = '\x40';
        for (std::size_t k = 4; k < f.size(); ++k) f[k] = static_cast<char>((k * 7 + static_cast<std::size_t>(i) * 13) % 251);
        m += f;
    }
    return m;
}
inline std::string id3Frame(const char *id, const std::string &body) { return id + be(body.size(), 4) + z(2) + body; }
inline std::string id3v23(const std::string &frames, std::size_t padding) { return std::string("ID3\3\0\0", 6) + synchsafe(static_cast<unsigned>(frames.size() + padding)) + frames + z(padding); }
inline std::string id3v1(const char *title) { std::string t(128, '\0'); t.replace(0, 3, "TAG"); t.replace(3, std::strlen(title), title); t[127] = '\xFF'; return t; }
[[noreturn]] inline void finish(bool ok, const std::string &msg) { std::cout << (ok ? "OK: " : "BROKEN: ") << msg << std::endl; throw ok ? 0 : 1; }
#define DEMO_MAIN(fn) int main() { try { fn(); return 0; } catch (int rc) { return rc; } catch (const std::exception &e) { std::cout << "unexpected exception: " << e.what() << std::endl; return 97; } }

// interposed system calls: hooks return true to fail the call with errno set
extern std::function<bool(int, std::size_t)> onWrite;
extern std::function<bool(const char *, const char *)> onRename;
#ifdef DEMO_INTERPOSE
std::function<bool(int, std::size_t)> onWrite;
std::function<bool(const char *, const char *)> onRename;
extern "C" ssize_t write(int fd, const void *p, size_t n) { static auto real = reinterpret_cast<ssize_t (*)(int, const void *, size_t)>(dlsym(RTLD_NEXT, "write")); if (fd > 2 && onWrite && onWrite(fd, n)) return -1; return real(fd, p, n); }
extern "C" ssize_t writev(int fd, const struct iovec *v, int c) { static auto real = reinterpret_cast<ssize_t (*)(int, const struct iovec *, int)>(dlsym(RTLD_NEXT, "writev")); std::size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len; if (fd > 2 && onWrite && onWrite(fd, n)) return -1; return real(fd, v, c); }
extern "C" int rename(const char *a, const char *b) noexcept { static auto real = reinterpret_cast<int (*)(const char *, const char *)>(dlsym(RTLD_NEXT, "rename")); if (onRename && onRename(a, b)) return -1; return real(a, b); }
#endif
