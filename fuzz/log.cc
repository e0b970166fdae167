// C23: the log module with captured streams, syslog and status pipe against an exact description of each line.
#include "common.h"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <ctime>
#include <fcntl.h>
extern "C" {
#include "log.h"
}

struct Sink { std::string data; size_t room; FILE *fp; int writes; bool failed; };
static jmp_buf back;
static int status;
static bool catching;
struct Sys { int pri; std::string text; };
static std::vector<Sys> sys_got;
static std::string sys_ident;
static bool sys_open, wrapped;

extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int s) { if (!catching) __real_exit(s); status = s; longjmp(back, 1); }
void __wrap_openlog(const char *i, int, int) { sys_ident = i; sys_open = true; }
void __wrap_closelog(void) { sys_open = false; }
void __wrap_vsyslog(int pri, const char *fmt, va_list a) { char b[8192]; vsnprintf(b, sizeof b, fmt, a); sys_got.push_back({pri, b}); }
void __wrap_syslog(int pri, const char *fmt, ...) { va_list a; va_start(a, fmt); __wrap_vsyslog(pri, fmt, a); va_end(a); }
}

static ssize_t sink_write(void *c, const char *b, size_t n)
{
    Sink *s = (Sink *) c;
    s->writes++;
    if (s->data.size() + n > s->room) { s->failed = true; errno = ENOSPC; return 0; }
    s->data.append(b, n);
    return n;
}

static const char *tags[] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG"};

static bool stamp(const std::string &s, time_t a, time_t b)
{
    struct tm tm;
    memset(&tm, 0, sizeof tm);
    std::string h = s.substr(0, 20);
    char *e = s.size() >= 20 ? strptime(h.c_str(), "%Y-%m-%d %H:%M:%S ", &tm) : nullptr;
    if (!e || *e || s[19] != ' ' || s[4] != '-' || s[7] != '-' || s[10] != ' ' || s[13] != ':') return false;
    time_t t = timegm(&tm);
    return t >= a && t <= b;
}

// the line is the whole text, or as much of it as fits in the buffer, and ends in one newline
static void line(const char *where, std::string got, const std::string &want, size_t before)
{
    CHECK(!got.empty() && got.back() == '\n', "%s: the line '%s' does not end in a newline", where, show(got).c_str());
    got.pop_back();
    CHECK(got.find('\n') == std::string::npos, "%s: the message '%s' makes more than one line", where, show(got).c_str());
    for (size_t i = 0; i < std::min(got.size(), want.size()); i++) if (want[i] == '\n') { got[i] = '\n'; cls("newline inside"); }   // whatever stands for it
    if (before + want.size() <= 1020) CHECK(got == want, "%s: the line is '%s', expected '%s'", where, show(got, 1200).c_str(), show(want, 1200).c_str());
    else {
        CHECK(before + got.size() >= 1000 && before + got.size() <= 1024, "%s: a line of %zu bytes is cut to %zu", where, want.size(), got.size());
        CHECK(!want.compare(0, got.size(), got), "%s: the cut line '%s' is not the beginning of the message", where, show(got, 1200).c_str());
        cls("message cut");
    }
}

bool one(Input &in)
{
    std::vector<Sink *> sinks;
    auto fresh = [&]() {
        Sink *s = new Sink{"", in.below(24) == 23 ? in.below(200) : (size_t) -1, nullptr, 0, false};
        cookie_io_functions_t f = {nullptr, sink_write, nullptr, nullptr};
        s->fp = fopencookie(s, "w", f);
        sinks.push_back(s);
        return s;
    };
    FILE *real_stderr = stderr;
    Sink *cur = nullptr;
    bool dead = false, to_stderr = false, ts = false, sys = false;
    int level = -1, msgs = 0, n = 0, p[2];
    log_set_file(nullptr, 0, 0);
    log_set_syslog(nullptr, 0);
    log_set_err_pipe(-1);
    if (pipe(p)) abort();
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    bool err_pipe = false;
    sys_got.clear();
    while (!in.empty() && n++ < 60) {
        switch (in.below(10)) {
        case 0: {
            if (in.below(6) == 0) { log_set_file(nullptr, in.below(9), 1); cur = nullptr; level = -1; trc("no file; "); break; }
            Sink *s = !sinks.empty() && in.flip() ? sinks[in.below(sinks.size())] : fresh();
            int l = (int) in.below(11) - 2;
            bool t = in.flip();
            to_stderr = in.below(4) == 0;
            stderr = to_stderr ? s->fp : real_stderr;
            bool bad = ferror(s->fp);
            log_set_file(s->fp, l, t ? 1 + in.below(3) : 0);
            cur = bad ? nullptr : s;
            level = bad ? -1 : std::max(l, 0);
            ts = t;
            dead = false;
            trc("file%s level %d%s%s; ", bad ? " (failed)" : "", l, t ? " stamps" : "", to_stderr ? " = stderr" : "");
            break;
        }
        case 1: {
            if (in.flip()) { char ident[] = "/usr/sbin/conmand", plain[] = "conmand"; log_set_syslog(in.flip() ? ident : plain, 3 << 3); sys = true; CHECK(sys_open && sys_ident == "conmand", "syslog ident '%s'", sys_ident.c_str()); }
            else { log_set_syslog(nullptr, 0); sys = false; CHECK(!sys_open, "syslog stays open"); }
            trc("syslog %d; ", sys);
            break;
        }
        case 2: err_pipe = in.flip(); log_set_err_pipe(err_pipe ? p[1] : -1 - (int) in.below(3)); break;
        default: {
            bool fatal = in.below(5) == 0;
            int pri = fatal ? 3 : (int) in.below(8), err = fatal ? in.pick({0, 0, ENOENT, EMFILE, ENAMETOOLONG, 9999, -1}) : 0;
            // around the bound: 1024 less stamp (20), tag (11), newline and terminator
            size_t len = in.below(3) ? in.below(30) : in.below(3) ? 940 + in.below(100) : in.below(9000);
            std::string a, want;
            while (a.size() < std::min<size_t>(len, 6)) { unsigned c = in.u8(); a += c ? (char) c : '%'; }
            if (!a.empty() && a.back() == '\n') a.back() = 'n';
            while (a.size() < len) a += "%s lorem %n ipsum %d "[a.size() % 21];
            std::string f;
            unsigned kind = in.below(7);
            if (kind == 4 && fatal) kind = 0;               // a message that ends its line itself carries no error text
            int num = (int) in.u16() - 30000;
            switch (kind) {
            case 0: f = "%s"; want = a; break;
            case 1: f = "Console [%s] number %d"; want = "Console [" + a + "] number " + std::to_string(num); break;
            case 2: f = "100%% %s"; want = "100% " + a; break;
            case 3: f = "fixed"; want = f; break;
            case 4: f = "%s\n"; want = a; break;
            case 5: f = in.below(4) ? "%s %d" : ""; want = f.empty() ? "" : a + " " + std::to_string(num); break;
            default: f = "prefix %s"; want = "prefix " + a; if (!fatal && in.flip()) { a += '\n'; } break;
            }
            std::string shown = want;
            if (err > 0 && kind != 4) want += std::string(": ") + strerror(err);
            Exact fe(f), ae(a);
            size_t before = cur ? cur->data.size() : 0;
            if (cur) cur->failed = false;
            std::map<Sink *, size_t> sizes;
            for (Sink *s : sinks) sizes[s] = s->data.size();
            sys_got.clear();
            status = -1;
            time_t t0 = time(nullptr);
            catching = true;
            if (!setjmp(back)) {
                if (fatal) log_err(err, fe.p, ae.p, num);
                else if (f == "%s %d" || kind == 1) log_msg(pri, fe.p, ae.p, num);
                else log_msg(pri, fe.p, ae.p);
            }
            catching = false;
            time_t t1 = time(nullptr);
            msgs++;
            trc("%s(%d, '%s' %zu); ", fatal ? "log_err" : "log_msg", fatal ? err : pri, f.c_str(), a.size());
            if (fatal) CHECK(status == 1, "a fatal error exits with %d", status);
            else CHECK(status == -1, "a message exits");
            std::string tag = std::string(tags[pri]) + ":";
            tag.resize(11, ' ');
            bool failed = false;
            for (Sink *s : sinks) if (s != cur) CHECK(s->data.size() == sizes[s], "a message is written to a log that is not in use");
            if (cur && !dead && pri <= level) {
                if (cur->failed) { failed = dead = true; cls("write error"); }
                else {
                    std::string got = cur->data.substr(before);
                    CHECK(!got.empty(), "a message of priority %d is missing, the level is %d", pri, level);
                    if (ts) { CHECK(stamp(got, t0, t1), "the line '%s' has no proper time", show(got).c_str()); got.erase(0, 20); }
                    line("log", got, tag + want, 20);
                    cls(ts ? "line with time" : "line without time");
                }
            } else if (cur) { CHECK(cur->data.size() == before, "a message of priority %d is logged although the level is %d%s", pri, level, dead ? " and the log failed" : ""); cls("below the level"); }
            if (sys) {
                size_t k = 0;
                CHECK(!sys_got.empty() && sys_got[0].pri == pri, "syslog gets %zu messages", sys_got.size());
                line("syslog", sys_got[k].text, want, 31);
                CHECK(sys_got.size() == (failed ? 2u : 1u), "syslog gets %zu messages", sys_got.size());
                cls("syslog");
            } else CHECK(sys_got.size() == (failed ? 1u : 0u), "syslog gets %zu messages although it is off", sys_got.size());
            if (fatal) {
                char b[8192];
                ssize_t r = read(p[0], b, sizeof b);
                if (!err_pipe) CHECK(r < 0, "something is sent to the starting process although the daemon runs");
                else {
                    CHECK(r >= 1 && b[0] >= 0, "the starting process is not told of a fatal error");
                    if (!(cur && to_stderr && !dead) && !want.empty()) {
                        CHECK(b[r - 1] == 0, "the message to the starting process is not terminated");
                        std::string m = b + 1;
                        CHECK(m.size() <= 1023, "the message to the starting process has %zu bytes", m.size());
                        line("to the starting process", m + "\n", want, 31);
                        cls("fatal error reported");
                    }
                }
            }
        }
        }
    }
    stderr = real_stderr;
    log_set_file(nullptr, 0, 0);
    log_set_syslog(nullptr, 0);
    log_set_err_pipe(-1);
    for (Sink *s : sinks) { fclose(s->fp); delete s; }
    close(p[0]);
    close(p[1]);
    return msgs >= 2;
}
