#include "common.h"
#include <fcntl.h>
#include <sys/stat.h>

std::string trace;
bool tracing;
static bool init_done;
static unsigned long evaluations, nontrivial_runs;
static std::unordered_set<uint64_t> seen;
static std::map<std::string, unsigned long> classes;
static std::set<std::string> now;
static std::vector<std::string> samples;
static const char *stats_file;

void trc(const char *fmt, ...)
{
    if (!tracing) return;
    char b[4096];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    if (trace.size() < 200000) trace += b;
}

static std::string json(const std::string &s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s)
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    return o + "\"";
}

static void dump()
{
    if (!stats_file) return;
    std::string t = std::string(stats_file) + ".tmp";
    FILE *f = fopen(t.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"evaluations\": %lu, \"nontrivial_runs\": %lu, \"distinct_nontrivial\": %zu, \"classes\": {", evaluations, nontrivial_runs, seen.size());
    bool first = true;
    for (auto &c : classes) { fprintf(f, "%s%s: %lu", first ? "" : ", ", json(c.first).c_str(), c.second); first = false; }
    fprintf(f, "}, \"samples\": [");
    first = true;
    for (auto &s : samples) { fprintf(f, "%s%s", first ? "" : ", ", json(s).c_str()); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
    rename(t.c_str(), stats_file);
}

void fail(const char *fmt, ...)
{
    va_list a;
    if (tracing) fprintf(stderr, "TRACE %s\n", trace.c_str());
    fprintf(stderr, "ORACLE: ");
    va_start(a, fmt);
    vfprintf(stderr, fmt, a);
    va_end(a);
    fprintf(stderr, "\n");
    fflush(stderr);
    dump();
    abort();
}

void cls(const char *name) { now.insert(name); }

std::string show(const std::string &s, size_t max)
{
    std::string o;
    char b[8];
    for (unsigned char c : s.substr(0, max))
        if (c < 32 || c > 126 || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += c;
    if (s.size() > max) o += "...(" + std::to_string(s.size()) + ")";
    return o;
}

static void at_end() { dump(); }

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
    if (!init_done) {
        init_done = true;
        stats_file = getenv("FUZZ_STATS");
        atexit(at_end);
    }
    tracing = getenv("FUZZ_TRACE") != nullptr || (samples.size() < 4 && evaluations > 300 && evaluations % 97 == 0);
    trace.clear();
    now.clear();
    Input in(d, n);
    bool nt = one(in);
    evaluations++;
    if (nt) {
        nontrivial_runs++;
        uint64_t h = 1469598103934665603ull;
        for (size_t i = 0; i < n; i++) h = (h ^ d[i]) * 1099511628211ull;
        if (seen.size() < 4000000) seen.insert(h);
        if (tracing && samples.size() < 4) samples.push_back(trace.substr(0, 900));
    }
    for (auto &c : now) classes[c]++;
    if (getenv("FUZZ_TRACE")) fprintf(stderr, "TRACE %s\nNONTRIVIAL %d\n", trace.c_str(), (int) nt);
    if ((evaluations & 0x3fff) == 0) dump();
    return 0;
}
