// C30: string, file and net helpers against independent definitions.
#include "common.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <climits>
#include <csignal>
#include <fcntl.h>
#include <netdb.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
extern "C" {
#include "util-str.h"
#include "util-file.h"
#include "util-net.h"
#include "util.h"
#include "log.h"
}

// ---- simulated descriptors and name service ----
static const int FAKE = 1000000;
struct Io { Input *in; std::string data; size_t pos = 0; std::string out; int err = 0; size_t err_at = (size_t) -1; bool eof = true; int calls = 0; bool interrupted = false, partial = false; };
static Io *io;
static struct hostent *by_name, *by_addr;
static std::string asked_name, asked_addr;
static int asked_h_errno;

extern "C" {
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    if (fd != FAKE) return __real_read(fd, b, n);
    CHECK(++io->calls < 100000, "it reads without end");
    unsigned k = io->in->below(8);
    if (k == 7) { io->interrupted = true; errno = EINTR; return -1; }
    if (io->pos >= io->err_at) { errno = io->err; return -1; }
    size_t m = std::min(n, std::min(io->data.size(), io->err_at) - io->pos);
    if (k < 4 && m > 1) { m = 1 + io->in->below(m); io->partial = true; }
    memcpy(b, io->data.data() + io->pos, m);
    io->pos += m;
    return m;
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (fd != FAKE) return __real_write(fd, b, n);
    CHECK(++io->calls < 100000, "it writes without end");
    unsigned k = io->in->below(8);
    if (k == 7) { io->interrupted = true; errno = EINTR; return -1; }
    if (io->out.size() >= io->err_at) { errno = io->err; return -1; }
    size_t m = std::min(n, io->err_at - io->out.size());
    if (k < 4 && m > 1) { m = 1 + io->in->below(m); io->partial = true; }
    io->out.append((const char *) b, m);
    return m;
}
struct hostent *__wrap_gethostbyname(const char *n) { asked_name = n; h_errno = asked_h_errno; return by_name; }
struct hostent *__wrap_gethostbyaddr(const void *a, socklen_t l, int) { asked_addr.assign((const char *) a, l); h_errno = asked_h_errno; return by_addr; }
}

static const char SPACES[] = " \t\n\r\f\v";
static bool space(char c) { return c && strchr(SPACES, c); }
static std::string text(Input &in, size_t max, const char *special)
{
    std::string s;
    size_t n = in.below(8) == 0 ? in.below(max + 1) : in.below(12), m = strlen(special);
    bool run = n > 40;
    if (run) { s = std::string(n, 'a' + in.below(26)); for (int k = 3; k; k--) { unsigned c = in.u8(); if (c && n) s[in.below(n)] = c; } return s; }
    while (s.size() < n) { unsigned c = in.u8(); if (c < 128 && m) s += special[c % m]; else s += (char) (c ? c : 'x'); }
    return s;
}

static void t_append(Input &in)
{
    size_t size = in.below(4) ? in.below(40) : in.below(1100);
    Exact b(size);
    std::string cur = text(in, 1100, "ab%"), s = text(in, 1100, "xy%\n");
    bool full = cur.size() >= size;
    if (size) { memcpy(b.p, cur.c_str(), std::min(size, cur.size() + 1)); if (in.below(4) && full) { cur.resize(size - 1); b.p[size - 1] = 0; full = false; } }
    int d = (int) in.u32();
    for (int k = 1 + in.below(3); k; k--) {
        std::string want;
        int got;
        switch (in.below(4)) {
        case 0: want = s; got = append_format_string(b.p, size, "%s", s.c_str()); break;
        case 1: want = "%" + s + std::to_string(d); got = append_format_string(b.p, size, "%%%s%d", s.c_str(), d); break;
        case 2: want = std::string(1, s.empty() ? 'c' : s[0]) + "|"; got = append_format_string(b.p, size, "%c|", want[0]); break;
        default: want = "plain text"; got = append_format_string(b.p, size, "plain text");
        }
        trc("append to %zu in %zu: %zu -> %d; ", cur.size(), size, want.size(), got);
        if (!size) { CHECK(got == 0, "append to a buffer of size 0 gives %d", got); continue; }
        size_t have = full ? size - 1 : cur.size();
        bool fits = !full && have + want.size() < size;
        CHECK(memchr(b.p, 0, size), "the buffer of size %zu is not terminated", size);
        std::string now = b.p, all = (full ? std::string(cur, 0, size - 1) : cur + want);
        if (fits) { CHECK(got == (int) all.size() || (want.empty() && have + 1 == size && got == -1), "append gives %d, expected %zu", got, all.size()); CHECK(now == all, "the text is '%s', expected '%s'", show(now).c_str(), show(all).c_str()); }
        else {
            if (!want.empty() || full) CHECK(got == -1, "append that does not fit gives %d", got);
            CHECK(now == all.substr(0, size - 1), "the truncated text is '%s', expected '%s'", show(now).c_str(), show(all.substr(0, size - 1)).c_str());
            cls("append truncated");
        }
        cur = now;
        full = false;
    }
    if (in.below(16) == 0) { errno = 0; CHECK(append_format_string(nullptr, 5, "x") == -1 && append_format_string(b.p, size, nullptr) == -1, "append of nothing succeeds"); }
}

static void t_substitute(Input &in)
{
    size_t size = in.below(4) ? in.below(40) : in.below(1100);
    std::string src = text(in, 1100, "%N%NHab% ");
    char c = in.pick({'N', 'N', 'H', '%', 'a'});
    std::string sub = text(in, 300, "%Nxyz");
    bool none = in.below(10) == 0;
    std::string want;
    for (size_t i = 0; i < src.size();) {
        if (src[i] == '%' && i + 1 < src.size() && src[i + 1] == c) { if (!none) want += sub; i += 2; cls("substituted"); }
        else want += src[i++];
    }
    Exact b(size);
    Exact s(src), u(sub);
    int got = substitute_string(b.p, size, s.p, c, none ? nullptr : u.p);
    trc("substitute %%%c in '%s' by '%s' size %zu -> %d; ", c, show(src, 40).c_str(), show(sub, 40).c_str(), size, got);
    if (!size) { CHECK(got == -1, "substitution into nothing gives %d", got); return; }
    CHECK(memchr(b.p, 0, size), "substitution does not terminate the text");
    if (want.size() < size) {
        CHECK(got == (int) want.size(), "substitution gives %d, expected %zu", got, want.size());
        CHECK(want == b.p, "substitution makes '%s', expected '%s'", show(b.p).c_str(), show(want).c_str());
    } else {
        CHECK(got == -1, "substitution of %zu characters into %zu gives %d", want.size(), size, got);
        CHECK(!want.compare(0, strlen(b.p), b.p), "truncated substitution '%s' is no prefix of '%s'", show(b.p).c_str(), show(want).c_str());
        cls("substitution truncated");
    }
}

static void t_parse(Input &in)
{
    std::string src = text(in, 300, "ab  \t''\"\"x\n");
    Exact s(src);
    char *ptr = nullptr, *w, q;
    size_t i = 0;
    trc("parse '%s'; ", show(src).c_str());
    for (int k = 0; k < 400; k++) {
        while (i < src.size() && space(src[i])) i++;
        q = 'Q';
        w = (char *) -1;
        int rc = parse_string(s.p, &w, &ptr, in.below(8) ? &q : nullptr);
        if (i >= src.size()) { CHECK(rc == 0, "at the end parse_string gives %d", rc); CHECK(parse_string(s.p, &w, &ptr, &q) == 0, "another word after the end"); break; }
        char d = src[i];
        std::string want;
        bool quoted = d == '"' || d == '\'';
        size_t j = i + 1;
        if (quoted) {
            while (j < src.size() && !(src[j] == d && (j + 1 == src.size() || space(src[j + 1])))) j++;
            if (j >= src.size()) { CHECK(rc == -1, "an unterminated quoted word gives %d", rc); cls("unterminated quote"); return; }
            want = src.substr(i + 1, j - i - 1);
            cls("quoted word");
        } else {
            while (j < src.size() && !space(src[j])) j++;
            want = src.substr(i, j - i);
        }
        CHECK(rc == 1, "word %d gives %d", k, rc);
        CHECK(w >= s.p && w < s.p + s.n && memchr(w, 0, s.p + s.n - w), "word %d is outside the string", k);
        CHECK(want == w, "word %d is '%s', expected '%s'", k, show(w).c_str(), show(want).c_str());
        CHECK(q == 'Q' || q == (quoted ? d : 0), "quote of word %d is %d", k, q);
        i = j + (quoted ? 1 : 0);
    }
    if (in.below(16) == 0) { w = s.p; ptr = nullptr; CHECK(parse_string(nullptr, &w, &ptr, &q) == -1 && !w && parse_string(s.p, &w, nullptr, &q) == -1 && parse_string(s.p, nullptr, &ptr, &q) == -1, "missing arguments are accepted"); }
}

static void t_strings(Input &in)
{
    std::string s = text(in, 5000, " \t\n%ab");
    bool empty = true;
    for (char c : s) if (!space(c)) empty = false;
    Exact e(s);
    CHECK(is_empty_string(e.p) == (int) empty, "is_empty_string('%s') gives %d", show(s).c_str(), is_empty_string(e.p));
    CHECK(is_empty_string(nullptr) == -1, "is_empty_string(NULL)");
    char *p = create_string(e.p);
    CHECK(p && p != e.p && s == p, "create_string changes the text");
    std::string t = text(in, 1500, "xyz%s");
    CHECK(replace_string(&p, t.c_str()) == 0 && t == p, "replace_string does not replace");
    destroy_string(p);
    p = nullptr;
    CHECK(replace_string(&p, s.c_str()) == 0 && s == p && replace_string(nullptr, "x") == -1, "replace_string of nothing");
    destroy_string(p);
    destroy_string(nullptr);
    CHECK(!create_string(nullptr) && !create_format_string(nullptr), "a string from nothing");
    int d = (int) in.u32();
    std::string want = s + "/" + t + std::to_string(d) + "%";
    p = create_format_string("%s/%s%d%%", s.c_str(), t.c_str(), d);
    trc("create_format_string of %zu; ", want.size());
    CHECK(want == p, "create_format_string makes '%s' (%zu), expected %zu characters", show(p).c_str(), strlen(p), want.size());
    destroy_string(p);
    int c = in.u8();
    int w = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0;
#if !HAVE_TOINT
    CHECK(toint(c) == w, "toint(%d) gives %d", c, toint(c));
#endif
    if (want.size() > 1024) cls("long string");
}

static void civil(long long t, char *b, const char *f)      // TZ=UTC
{
    long long d = t / 86400, r = t % 86400;
    if (r < 0) { r += 86400; d--; }
    d += 719468;
    long long era = (d >= 0 ? d : d - 146096) / 146097, doe = d - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    long long y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, day = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    if (m <= 2) y++;
    if (*f == 's') sprintf(b, "%02lld-%02lld %02lld:%02lld", m, day, r / 3600, r / 60 % 60);
    else sprintf(b, "%04lld-%02lld-%02lld %02lld:%02lld:%02lld%s", y, m, day, r / 3600, r / 60 % 60, r % 60, *f == 'l' ? " UTC" : " ");
}

static void t_time(Input &in)
{
    long long t = in.below(8) == 0 ? 0 : in.flip() ? (long long) in.u32() : ((long long) in.u16() << 32 | in.u32()) % 253402300800LL;
    char want[64], other[64];
    size_t size = in.below(30);
    Exact b(size);
    time_t before = time(nullptr);
    int n = write_time_string(t, b.p, size);
    time_t after = time(nullptr);
    if (size <= 20) CHECK(n == 0, "a time in %zu bytes gives %d", size, n);
    else {
        civil(t ? t : before, want, "w");
        civil(t ? t : after, other, "w");
        CHECK(n == 20 && (!strcmp(b.p, want) || !strcmp(b.p, other)), "the time %lld is '%s' (%d), expected '%s'", t, show(std::string(b.p, std::min<size_t>(n, size))).c_str(), n, want);
    }
    before = time(nullptr);
    char *p = create_long_time_string(t), *q = create_short_time_string(t);
    after = time(nullptr);
    civil(t ? t : before, want, "l");
    civil(t ? t : after, other, "l");
    CHECK(!strcmp(p, want) || !strcmp(p, other), "the time %lld is '%s', expected '%s'", t, p, want);
    civil(t ? t : before, want, "s");
    civil(t ? t : after, other, "s");
    CHECK(!strcmp(q, want) || !strcmp(q, other), "the short time %lld is '%s', expected '%s'", t, q, want);
    free(p);
    free(q);
    time_t tt = t;
    struct tm tm;
    CHECK(get_localtime(&tt, &tm) == &tm && (t ? tt == t : tt >= before) && tm.tm_sec == tt % 60, "get_localtime %lld", t);
    static const long long units[] = {364 * 86400LL, 7 * 86400, 86400, 3600, 60, 1};
    static const char letters[] = "ywdhms";
    static const long long edge[] = {0, 1, 59, 60, 61, 3599, 3600, 86399, 86400, 604799, 604800, 364 * 86400LL - 1, 364 * 86400LL, 365 * 86400LL, 2000LL * 86400};
    long long d = in.flip() ? edge[in.below(15)] : in.flip() ? in.u16() : in.u32();
    std::string s;
    long long r = d;
    for (int i = 0; i < 6; i++) { long long v = r / units[i]; r %= units[i]; if (v || !s.empty() || i == 5) s += std::to_string(v) + letters[i]; }
    p = create_time_delta_string(t, t + d);
    trc("time %lld +%lld = %s; ", t, d, p);
    CHECK(s == p, "the delta %lld is '%s', expected '%s'", d, p, s.c_str());
    free(p);
    if (d >= 86400) cls("delta of days");
}

static void t_io(Input &in)
{
    Io x;
    x.in = &in;
    io = &x;
    size_t len = in.below(4) ? in.below(60) : in.below(3000);
    for (size_t i = 0; i < len; i++) x.data += i % 23 == 11 && in.flip() ? '\n' : (char) (i * 7 + 1 == '\n' ? 'n' : i * 7 + 1);
    if (in.below(3) == 0) { x.err = in.pick({EIO, EAGAIN, EBADF, EPIPE, ENOSPC}); x.err_at = in.below(len + 1); }
    switch (in.below(3)) {
    case 0: {
        size_t n = in.below(4) ? in.below(80) : in.below(4000);
        Exact b(n);
        ssize_t got = read_n(FAKE, b.p, n);
        size_t avail = std::min(n, x.data.size());
        trc("read_n %zu of %zu (error at %zd) -> %zd; ", n, len, (ssize_t) x.err_at, got);
        if (n > x.err_at) CHECK(got == -1 && errno == x.err, "read_n gives %zd (errno %d) at an error after %zu of %zu bytes", got, errno, x.err_at, n);
        else { CHECK(got == (ssize_t) avail, "read_n of %zu gives %zd, expected %zu", n, got, avail); CHECK(x.pos == avail, "read_n consumes %zu, expected %zu", x.pos, avail); }
        CHECK(got < 0 || !memcmp(b.p, x.data.data(), avail), "read_n returns other bytes");
        break;
    }
    case 1: {
        Exact b(x.data.size());
        memcpy(b.p, x.data.data(), x.data.size());
        ssize_t got = write_n(FAKE, b.p, x.data.size());
        trc("write_n %zu (error at %zd) -> %zd; ", len, (ssize_t) x.err_at, got);
        if (len > x.err_at) CHECK(got == -1 && errno == x.err, "write_n gives %zd at an error", got);
        else CHECK(got == (ssize_t) len && x.out.size() == len, "write_n of %zu gives %zd and writes %zu", len, got, x.out.size());
        CHECK(!x.data.compare(0, x.out.size(), x.out), "write_n writes other bytes");
        break;
    }
    default:
        for (int k = 0; k < 60; k++) {
            size_t max = in.below(4) ? in.below(40) : in.below(500), start = x.pos;
            Exact b(max);
            ssize_t got = read_line(FAKE, b.p, max);
            trc("read_line %zu -> %zd; ", max, got);
            if (!max) { CHECK(got == 0 && x.pos == start, "read_line of size 0 gives %zd", got); continue; }
            size_t nl = x.data.find('\n', start), end = nl == std::string::npos ? len : nl + 1;
            if (end - start > max - 1) end = start + max - 1;
            if (x.err_at <= len && (x.err_at < end || (x.err_at == end && end - start < max - 1 && (end == start || x.data[end - 1] != '\n')))) { CHECK(got == -1 && errno == x.err, "read_line gives %zd at an error", got); break; }
            CHECK(x.pos == end, "read_line of size %zu consumes %zu bytes, expected %zu", max, x.pos - start, end - start);
            CHECK(got == (ssize_t) (end - start), "read_line of size %zu gives %zd, expected %zu", max, got, end - start);
            CHECK((got == 0 && max > 1) || b.p[got] == 0, "read_line does not terminate the line");
            CHECK(!memcmp(b.p, x.data.data() + start, got), "read_line returns other bytes");
            if (start == len) break;
        }
        CHECK(read_line(FAKE, nullptr, 10) == -1, "read_line into nothing");
    }
    if (x.interrupted) cls("interrupted transfer");
    if (x.partial) cls("partial transfer");
    if (x.err_at <= len) cls("failing transfer");
    io = nullptr;
}

static void t_dirname(Input &in)
{
    std::string p;
    for (int n = in.below(10); n; n--) p += in.pick({"/", "/", "a", "bc", "//", ".", "..", "dir", " "});
    if (in.below(16) == 0) p += std::string(in.below(300), 'x');
    size_t size = in.below(3) ? p.size() + in.below(4) : in.below(12);
    std::string s = p, want;
    while (s.size() > 1 && s.back() == '/') s.pop_back();
    size_t k = s.rfind('/');
    if (k == std::string::npos) want = ".";
    else { want = s.substr(0, k + 1); while (want.size() > 1 && want.back() == '/') want.pop_back(); }
    Exact b(size), e(p);
    errno = 0;
    char *got = get_dir_name(e.p, b.p, size);
    trc("dirname '%s' in %zu -> %s; ", show(p, 60).c_str(), size, got ? show(got, 60).c_str() : "(none)");
    if (want.size() >= size) CHECK(!got && errno == ENAMETOOLONG, "the directory of '%s' in %zu bytes is accepted", show(p).c_str(), size);
    else CHECK(got == b.p && want == b.p, "the directory of '%s' is '%s', expected '%s'", show(p).c_str(), got ? show(got).c_str() : "missing", want.c_str());
    CHECK(!get_dir_name(nullptr, b.p, size) && !get_dir_name(e.p, nullptr, size), "get_dir_name of nothing");
}

// ---- directories, in a scratch directory below the current one ----
static std::string base;
static void scratch()
{
    if (!base.empty()) return;
    char t[] = "scratch-XXXXXX", cwd[PATH_MAX];
    if (!getcwd(cwd, sizeof cwd) || !mkdtemp(t)) abort();
    base = std::string(cwd) + "/" + t;
    log_set_file(nullptr, 0, 0);
}

static void t_dirs(Input &in)
{
    static int serial;
    scratch();
    if (in.below(4)) return;                                // costly
    std::string top = base + "/" + std::to_string(serial++), path;
    if (mkdir(top.c_str(), 0755)) return;
    std::vector<std::string> made;                          // to be removed
    std::set<std::string> dirs, files;
    auto norm = [&](int n) { std::string s; for (int i = 0; i < n; i++) s += std::string(i ? "/" : "") + in.pick({"a", "b", "cc", "a.b", "d e"}); return s; };
    for (int k = in.below(3); k; k--) {                     // what is there before
        std::string s = norm(1 + in.below(3)), sofar;
        bool file = in.below(3) == 0, dead = false;
        for (size_t i = 0; i <= s.size() && !dead; i++)
            if (i == s.size() || s[i] == '/') {
                sofar = s.substr(0, i);
                if (files.count(sofar)) dead = true;
                else if (dirs.count(sofar)) continue;
                else if (i == s.size() && file) { int f = open((top + "/" + sofar).c_str(), O_CREAT | O_WRONLY, 0644); if (f >= 0) close(f); files.insert(sofar); }
                else { mkdir((top + "/" + sofar).c_str(), 0700); dirs.insert(sofar); }
            }
    }
    mode_t um = in.pick({022, 022, 077, 0});
    for (int k = 1 + in.below(2); k; k--) {
        std::string s = norm(1 + in.below(4)), p, sofar;
        bool rel = in.flip();
        for (char c : s) { if (c == '/') p += in.pick({"/", "/", "//", "/./", "///"}); else p += c; }
        p += in.pick({"", "", "/", "//"});
        std::string full = rel ? p : top + in.pick({"/", "//"}) + p;
        if (rel && chdir(top.c_str())) abort();
        umask(um);
        int got = create_dirs(full.c_str());
        umask(022);
        if (rel && chdir(base.c_str())) abort();
        bool ok = true;
        std::set<std::string> fresh;
        for (size_t i = 0; i <= s.size() && ok; i++)
            if (i == s.size() || s[i] == '/') {
                sofar = s.substr(0, i);
                if (files.count(sofar)) ok = false;
                else if (!dirs.count(sofar)) { dirs.insert(sofar); fresh.insert(sofar); cls("directory created"); }
            }
        trc("create_dirs '%s' -> %d; ", p.c_str(), got);
        CHECK(got == (ok ? 0 : -1), "creating '%s' gives %d", p.c_str(), got);
        for (auto &d : dirs) {
            struct stat st;
            CHECK(stat((top + "/" + d).c_str(), &st) == 0 && S_ISDIR(st.st_mode), "directory '%s' is missing after creating '%s'", d.c_str(), p.c_str());
            if (fresh.count(d)) CHECK((st.st_mode & 07777) == (0755 & ~um), "directory '%s' has mode %o", d.c_str(), st.st_mode & 07777);
        }
        for (auto &f : files) { struct stat st; CHECK(stat((top + "/" + f).c_str(), &st) == 0 && S_ISREG(st.st_mode), "file '%s' is gone", f.c_str()); }
        if (!ok) cls("a file in the way");
    }
    if (in.below(8) == 0) { std::string l(PATH_MAX + in.below(10), 'x'); CHECK(create_dirs(l.c_str()) == -1 && create_dirs("") == -1 && create_dirs(nullptr) == -1, "an impossible directory is created"); }
    for (auto &f : files) unlink((top + "/" + f).c_str());
    for (auto i = dirs.rbegin(); i != dirs.rend(); i++) rmdir((top + "/" + *i).c_str());
    CHECK(rmdir(top.c_str()) == 0, "more was created than asked for in %s", top.c_str());
}

// ---- locks: the other process is a child that obeys commands ----
static int to_child = -1, from_child = -1, lockfd = -1;
static pid_t child, owner;
struct Cmd { char what; long start, len; };
static bool all(int fd, void *b, size_t n, bool out)       // the fuzzer's own alarm may interrupt
{
    for (size_t k = 0; k < n;) {
        ssize_t r = out ? __real_write(fd, (char *) b + k, n - k) : __real_read(fd, (char *) b + k, n - k);
        if (r > 0) k += r;
        else if (r == 0 || errno != EINTR) return false;
    }
    return true;
}
static long ask(char what, long start = 0, long len = 0)
{
    Cmd c = {what, start, len};
    long r;
    if (!all(to_child, &c, sizeof c, true) || !all(from_child, &r, sizeof r, false)) abort();
    return r;
}
static void locks_init()
{
    if (lockfd >= 0 && owner == getpid()) return;
    scratch();
    owner = getpid();
    std::string f = base + "/lock";
    int a[2], b[2];
    lockfd = open(f.c_str(), O_CREAT | O_RDWR, 0644);
    if (lockfd < 0 || pipe(a) || pipe(b)) abort();
    to_child = a[1];
    from_child = b[0];
    if (!(child = fork())) {
        struct itimerval off = {};
        setitimer(ITIMER_REAL, &off, nullptr);
        for (int i = 3; i < 256; i++) if (i != a[0] && i != b[1]) close(i);
        int fd = open(f.c_str(), O_RDWR);
        Cmd c;
        while (all(a[0], &c, sizeof c, false)) {
            struct flock l = {};
            l.l_whence = SEEK_SET;
            l.l_start = c.start;
            l.l_len = c.len;
            long r;
            if (c.what == 'd') { usleep(8000); l.l_type = F_UNLCK; fcntl(fd, F_SETLK, &l); continue; }
            l.l_type = c.what == 'r' || c.what == '?' ? F_RDLCK : c.what == 'w' || c.what == '!' ? F_WRLCK : F_UNLCK;
            if (c.what == '?' || c.what == '!') r = fcntl(fd, F_GETLK, &l) ? -1 : l.l_type == F_UNLCK ? 0 : l.l_pid;
            else r = fcntl(fd, F_SETLK, &l);
            if (!all(b[1], &r, sizeof r, true)) break;
        }
        _exit(0);
    }
    close(a[0]);
    close(b[1]);
}

static void t_locks(Input &in)
{
    if (in.below(4)) return;
    locks_init();
    int mine = 0, other = 0;                                // 0 none, 1 read, 2 write
    release_lock(lockfd);
    ask('u');
    for (int k = 2 + in.below(8); k; k--) {
        int op = in.below(9);
        bool wait = in.below(3) == 0;
        int got;
        switch (op) {
        case 0: case 1: {                                   // the other process
            int want = 1 + in.flip();
            long start = in.pick({0, 0, 0, 5, 100000}), len = in.pick({0, 0, 1, 7});
            ask('u');
            long r = ask(want == 2 ? 'w' : 'r', start, len);
            bool ok = mine == 0 || (mine == 1 && want == 1);
            trc("other %s lock at %ld+%ld -> %ld; ", want == 2 ? "write" : "read", start, len, r);
            CHECK((r == 0) == ok, "with our %s lock another process %s a %s lock at %ld+%ld", mine == 2 ? "write" : mine ? "read" : "no", r ? "is refused" : "gets", want == 2 ? "write" : "read", start, len);
            other = ok ? want : 0;
            break;
        }
        case 2: ask('u'); other = 0; trc("other unlocks; "); break;
        case 3: case 4: {
            bool write = op == 4, ok = other == 0 || (!write && other == 1);
            if (!ok && wait) {
                if (in.below(8)) break;
                Cmd c = {'d', 0, 0};
                if (!all(to_child, &c, sizeof c, true)) abort();
                do got = write ? get_writew_lock(lockfd) : get_readw_lock(lockfd); while (got < 0 && errno == EINTR);
                CHECK(got == 0, "waiting for a lock gives %d", got);
                CHECK(ask(write ? '?' : '!') == getpid(), "after waiting, the lock is not held");
                CHECK(ask('u') == 0, "unlock");
                cls("waited for a lock");
                other = 0;
            } else {
                got = wait ? (write ? get_writew_lock(lockfd) : get_readw_lock(lockfd)) : write ? get_write_lock(lockfd) : get_read_lock(lockfd);
                CHECK((got == 0) == ok && (got == 0 || got == -1), "a %s lock gives %d while another process holds a %s lock", write ? "write" : "read", got, other == 2 ? "write" : other ? "read" : "no");
            }
            trc("own %s lock %d; ", write ? "write" : "read", got);
            if (got == 0) mine = 1 + write;
            else cls("lock refused");
            break;
        }
        case 5: CHECK(release_lock(lockfd) == 0, "releasing fails"); mine = 0; trc("release; "); break;
        default: {
            pid_t r = is_read_lock_blocked(lockfd), w = is_write_lock_blocked(lockfd);
            trc("blocked? %d %d; ", r > 0, w > 0);
            CHECK(r == (other == 2 ? child : 0), "is_read_lock_blocked gives %d, expected %d", r, other == 2 ? child : 0);
            CHECK(w == (other ? child : 0), "is_write_lock_blocked gives %d, expected %d", w, other ? child : 0);
            CHECK(ask('!') == (mine ? getpid() : 0) && ask('?') == (mine == 2 ? getpid() : 0) && ask('!', 123456, 1) == (mine ? getpid() : 0), "our lock is not the %s lock of the whole file", mine == 2 ? "write" : mine ? "read" : "no");
            cls("lock state queried");
        }
        }
    }
    release_lock(lockfd);
    ask('u');
}

static void t_flags(Input &in)
{
    int p[2];
    if (pipe(p)) abort();
    int fl = in.flip() ? O_NONBLOCK : 0, ap = in.flip() ? O_APPEND : 0;
    fcntl(p[1], F_SETFL, fl | ap);
    for (int k = 1 + in.below(3); k; k--) {
        unsigned o = in.below(3);
        if (o == 0) { set_fd_blocking(p[1]); fl = 0; }
        else if (o == 1) { set_fd_nonblocking(p[1]); fl = O_NONBLOCK; }
        else { set_fd_closed_on_exec(p[1]); CHECK(fcntl(p[1], F_GETFD) == FD_CLOEXEC, "not closed on exec"); }
        CHECK((fcntl(p[1], F_GETFL) & (O_NONBLOCK | O_APPEND)) == (fl | ap), "descriptor flags are 0x%x, expected 0x%x", fcntl(p[1], F_GETFL), fl | ap);
    }
    close(p[0]);
    close(p[1]);
}

static int got_signal;
static void on_a(int) { got_signal += 1; }
static void on_b(int) { got_signal += 100; }
static void t_signal(Input &in)
{
    SigFunc *cur = posix_signal(SIGUSR1, on_a), *was = cur;
    cur = on_a;
    for (int k = 1 + in.below(4); k; k--) {
        SigFunc *f = in.flip() ? on_a : on_b, *old = posix_signal(SIGUSR1, f);
        CHECK(old == cur, "posix_signal does not return the previous handler");
        cur = f;
        for (int n = 1 + in.below(3); n; n--) { got_signal = 0; raise(SIGUSR1); CHECK(got_signal == (cur == on_a ? 1 : 100), "the handler is not called each time"); }
    }
    posix_signal(SIGUSR1, was);
}

// ---- the name service ----
struct Host {
    std::string name;
    std::vector<std::string> aliases, addrs;
    std::vector<char *> ap, dp;
    struct hostent h;
    Host(Input &in)
    {
        name = in.below(8) ? "host" + text(in, 20, "abc.-") : std::string(in.below(400), 'h');
        for (int n = in.below(4); n; n--) aliases.push_back(text(in, 100, "xyz."));
        for (int n = 1 + in.below(3); n; n--) { std::string a; for (int i = 0; i < 4; i++) a += (char) in.u8(); addrs.push_back(a); }
        for (auto &s : aliases) ap.push_back((char *) s.c_str());
        for (auto &s : addrs) dp.push_back((char *) s.data());
        ap.push_back(nullptr);
        dp.push_back(nullptr);
        h.h_name = (char *) name.c_str();
        h.h_aliases = ap.data();
        h.h_addr_list = dp.data();
        h.h_addrtype = AF_INET;
        h.h_length = 4;
    }
    size_t need() { size_t n = sizeof h + (ap.size() + dp.size()) * sizeof(char *) + addrs.size() * 4 + name.size() + 1; for (auto &s : aliases) n += s.size() + 1; return n; }
};

static void t_net(Input &in)
{
    Host n(in), a(in);
    bool miss = in.below(6) == 0, amiss = in.below(6) == 0;
    by_name = miss ? nullptr : &n.h;
    by_addr = amiss ? nullptr : &a.h;
    asked_h_errno = in.pick({HOST_NOT_FOUND, TRY_AGAIN, NO_RECOVERY, NO_DATA, 77});
    bool byaddr = in.flip();
    Host &h = byaddr ? a : n;
    bool none = byaddr ? amiss : miss;
    size_t need = h.need(), size = in.flip() ? need + in.below(9) - 4 : in.below(2) ? in.below(need + 1) : 8192;
    Exact b(size);
    std::string q = byaddr ? std::string("\x7f\0\0\1", 4) : "q" + text(in, 20, "abc");
    int err = -5;
    errno = 0;
    struct hostent *got = byaddr ? get_host_by_addr(q.data(), 4, AF_INET, b.p, size, &err) : get_host_by_name(q.c_str(), b.p, size, &err);
    trc("host lookup in %zu of %zu bytes -> %d; ", size, need, got != nullptr);
    CHECK((byaddr ? asked_addr : asked_name) == q, "another host was looked up");
    CHECK(err == asked_h_errno, "the error is %d, expected %d", err, asked_h_errno);
    if (none) CHECK(!got, "an unknown host is found");
    else if (!got) { CHECK(errno == ERANGE, "errno %d", errno); CHECK(size < 2 * need + 64, "%zu bytes are not enough for %zu", size, need); CHECK(size < need, "%zu bytes do not suffice for a result of %zu", size, need); cls("host buffer too small"); }
    else {
        auto inside = [&](const void *p, size_t l) { return (const char *) p >= b.p && (const char *) p + l <= b.p + size; };
        CHECK(inside(got, sizeof *got) && got->h_addrtype == AF_INET && got->h_length == 4, "the entry");
        CHECK(inside(got->h_name, h.name.size() + 1) && h.name == got->h_name, "the name is not copied");
        size_t i = 0;
        for (; got->h_aliases[i]; i++) CHECK(i < h.aliases.size() && inside(got->h_aliases[i], h.aliases[i].size() + 1) && h.aliases[i] == got->h_aliases[i], "alias %zu", i);
        CHECK(i == h.aliases.size(), "%zu aliases of %zu", i, h.aliases.size());
        for (i = 0; got->h_addr_list[i]; i++) CHECK(i < h.addrs.size() && inside(got->h_addr_list[i], 4) && !memcmp(got->h_addr_list[i], h.addrs[i].data(), 4), "address %zu", i);
        CHECK(i == h.addrs.size(), "%zu addresses of %zu", i, h.addrs.size());
        cls("host copied");
    }
    struct in_addr ad = {0};
    int rc = host_name_to_addr4(q.c_str(), &ad);
    CHECK(rc == (miss ? -1 : 0) && (miss || !memcmp(&ad, n.addrs[0].data(), 4)), "host_name_to_addr4 gives %d", rc);
    size_t ds = in.below(3) ? a.name.size() + in.below(4) : in.below(50);
    Exact d(ds), e(ds);
    memcpy(&ad, "\x0a\1\2\3", 4);
    char *r = host_addr4_to_name(&ad, d.p, ds);
    bool ok = !amiss && a.name.size() < ds;
    CHECK((r != nullptr) == ok && (!ok || (r == d.p && a.name == r)), "host_addr4_to_name in %zu bytes of a name of %zu", ds, a.name.size());
    CHECK(asked_addr == std::string("\x0a\1\2\3", 4), "another address is looked up");
    r = host_name_to_cname(q.c_str(), e.p, ds);
    ok = ok && !miss;
    CHECK((r != nullptr) == ok && (!ok || (r == e.p && a.name == r)), "host_name_to_cname in %zu bytes of a name of %zu", ds, a.name.size());
    CHECK(miss || asked_addr == n.addrs[0], "the canonical name is that of another address");
    CHECK(host_strerror(asked_h_errno) && *host_strerror(asked_h_errno), "no message");
}

bool one(Input &in)
{
    int n = 0;
    while (!in.empty() && n < 12) {
        switch (in.below(13)) {
        case 0: t_append(in); break;
        case 1: t_substitute(in); break;
        case 2: t_parse(in); break;
        case 3: t_strings(in); break;
        case 4: t_time(in); break;
        case 5: case 6: t_io(in); break;
        case 7: t_dirname(in); break;
        case 8: t_dirs(in); break;
        case 9: t_locks(in); break;
        case 10: t_flags(in); break;
        case 11: t_signal(in); break;
        default: t_net(in);
        }
        n++;
    }
    return n >= 2;
}
