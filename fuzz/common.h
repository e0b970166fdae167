// Shared by the fuzz targets: decoding of the input into choices, the failure report, counters.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <unordered_set>

struct Input {
    const uint8_t *p, *e;
    Input(const uint8_t *d, size_t n) : p(d), e(d + n) {}
    bool empty() const { return p >= e; }
    unsigned u8() { return p < e ? *p++ : 0; }
    unsigned u16() { unsigned a = u8(); return a | u8() << 8; }
    uint32_t u32() { uint32_t a = u16(); return a | (uint32_t) u16() << 16; }
    unsigned below(unsigned n) { return n <= 1 ? 0 : (n <= 256 ? u8() : n <= 65536 ? u16() : u32()) % n; }
    bool flip() { return u8() & 1; }
    template <class T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
    std::string bytes(size_t n) { n = std::min<size_t>(n, e - p); std::string s((const char *) p, n); p += n; return s; }
    std::string rest() { return bytes(e - p); }
};

extern std::string trace;                   // what the case did, in words
extern bool tracing;
void trc(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void cls(const char *name);                 // counts the case in a class
std::string show(const std::string &s, size_t max = 200);
bool one(Input &in);                        // runs one case; true if it was non-trivial
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

// exactly sized heap copy, so that the sanitizer sees any access beyond it
struct Exact {
    char *p; size_t n;
    explicit Exact(size_t n) : p((char *) malloc(n ? n : 1)), n(n) { if (n) memset(p, 0xAA, n); }
    explicit Exact(const std::string &s) : p((char *) malloc(s.size() + 1)), n(s.size() + 1) { memcpy(p, s.c_str(), n); }
    ~Exact() { free(p); }
    Exact(const Exact &) = delete;
};
