// C27: the tokeniser against an independent one written from the rules in lex.h; encoding against its inverse.
#include "common.h"
#include <algorithm>
#include <strings.h>
extern "C" {
#include "lex.h"
}

struct Tok { int k; std::string text; int line; };

static bool word_start(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static bool digit(unsigned char c) { return c >= '0' && c <= '9'; }

static std::vector<Tok> reference(const std::string &s, const std::vector<std::string> &keys)
{
    std::vector<Tok> out;
    size_t i = 0, n = s.size();
    int line = 1;
    auto at = [&](size_t k) -> int { return k < n ? (unsigned char) s[k] : -1; };
    while (i < n) {
        unsigned char c = s[i];
        if (c == ' ' || c == '\t' || c == '\v' || c == '\f') { i++; continue; }
        if (c == '#') { while (i < n && s[i] != '\n' && s[i] != '\r') i++; continue; }
        if (c == '\n' || c == '\r') {
            if (c == '\r' && at(i + 1) == '\n') i++;
            out.push_back({LEX_EOL, std::string(1, s[i]), line++});
            i++;
            continue;
        }
        if (c == '\\' && at(i + 1) == '\n') { i += 2; line++; continue; }
        if (c == '\\' && at(i + 1) == '\r' && at(i + 2) == '\n') { i += 3; line++; continue; }
        if (c == '"' || c == '\'') {
            size_t j = i + 1;
            while (j < n && s[j] != (char) c && s[j] != '\n' && s[j] != '\r') j++;
            if (at(j) == c) { out.push_back({LEX_STR, s.substr(i + 1, std::min<size_t>(j - i - 1, LEX_MAX_STR - 1)), line}); i = j + 1; }
            else { out.push_back({LEX_ERR, "", line}); i = j; }
            continue;
        }
        if (word_start(c)) {
            size_t j = i;
            while (j < n && (word_start(s[j]) || digit(s[j]))) j++;
            std::string w = s.substr(i, std::min<size_t>(j - i, LEX_MAX_STR - 1));
            int k = LEX_STR;
            for (size_t x = 0; x < keys.size(); x++)
                if (keys[x].size() == w.size() && !strcasecmp(keys[x].c_str(), w.c_str())) k = LEX_TOK_OFFSET + x;
            out.push_back({k, w, line});
            i = j;
            continue;
        }
        if (digit(c) || ((c == '+' || c == '-') && at(i + 1) >= 0 && digit(s[i + 1]))) {
            size_t j = i + 1;
            while (j < n && digit(s[j])) j++;
            out.push_back({LEX_INT, s.substr(i, std::min<size_t>(j - i, LEX_MAX_STR - 1)), line});
            i = j;
            continue;
        }
        out.push_back({c, std::string(1, c), line});
        i++;
    }
    out.push_back({LEX_EOF, "", line});
    return out;
}

static std::string text(Input &in)
{
    static const char *frag[] = {"console", "name=", "\"", "'", "#", "\n", "\r", "\r\n", "\\\n", "\\\r\n", "\\", " ", "\t", "=", "+", "-", "12", "-7", "0x1f", "_a9", "CONSOLE", "hello", "k", "OK", "\v", "\f", "\\\r", "9a", "\x80", "\xff", "a'b", "\"x y\"", "'q'", "--1", "+-2", ",", "\x01"};
    std::string s;
    while (!in.empty() && s.size() < 20000) {
        unsigned k = in.u8();
        if (k < 150) s += frag[k % (sizeof frag / sizeof *frag)];
        else if (k < 200) s += (char) in.u8();
        else if (k < 215) s += std::string(in.pick({1, 2, 1021, 1022, 1023, 1024, 1025, 2047, 2048, 5000}), "aZ_0 9\"'#\\x"[in.below(11)]);
        else if (k < 240) s += in.bytes(1 + in.below(8));
        else s += std::string("\"") + std::string(in.pick({0, 1, 1022, 1023, 1024, 1030}), 'y') + "\"";
    }
    s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
    return s;
}

static const char *const daemon_keys[] = {"console", "coredump", "coredumpdir", "dev", "execpath", "global", "ipmiopts", "keepalive", "log", "logdir", "logfile", "logopts", "loopback", "name", "nofile", "off", "on", "pidfile", "port", "reset", "resetcmd", "seropts", "server", "syslog", "tcpwrappers", "testopts", "timestamp"};

static bool round_trip(Input &in)
{
    std::string s = in.flip() ? in.rest() : text(in);
    for (auto &c : s) c &= 0x7f;
    s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
    trc("encode %s; ", show(s).c_str());
    Exact b(s);
    CHECK(lex_encode(b.p) == b.p, "lex_encode returns another string");
    std::string enc(b.p);
    CHECK(enc.size() == s.size(), "encoding changes the length of %s to %zu", show(s).c_str(), enc.size());
    CHECK(enc.find_first_of("'\"") == std::string::npos, "the encoding of %s contains a quote: %s", show(s).c_str(), show(enc).c_str());
    bool quotes = s.find_first_of("'\"") != std::string::npos;
    if (s.find_first_of("\r\n") == std::string::npos && s.size() < LEX_MAX_STR)
        for (char q : {'\'', '"'}) {
            Exact t("A=" + std::string(1, q) + enc + q + " z\n");
            Lex l = lex_create(t.p, nullptr);
            CHECK(lex_next(l) == LEX_STR && lex_next(l) == '=', "unexpected token");
            CHECK(lex_next(l) == LEX_STR, "the encoding of %s is not one string", show(s).c_str());
            Exact got(lex_text(l));
            CHECK(lex_decode(got.p) == got.p && s == got.p, "%s arrives as %s", show(s).c_str(), show(got.p).c_str());
            CHECK(lex_next(l) == LEX_STR && !strcmp(lex_text(l), "z"), "the string ends early");
            lex_destroy(l);
            cls("sent in quotes");
        }
    CHECK(lex_decode(b.p) == b.p && s == b.p, "decoding the encoding of %s gives %s", show(s).c_str(), show(b.p).c_str());
    CHECK(lex_decode(b.p) == b.p && s == b.p, "decoding again changes %s", show(s).c_str());
    CHECK(!lex_encode(nullptr) && !lex_decode(nullptr), "no string encodes as one");
    if (quotes) cls("quotes encoded");
    cls("round trip");
    return !s.empty();
}

bool one(Input &in)
{
    unsigned mode = in.u8();
    if (mode < 50) return round_trip(in);
    std::vector<std::string> keys;
    if (mode < 150) keys.assign(daemon_keys, daemon_keys + sizeof daemon_keys / sizeof *daemon_keys);
    else if (mode < 230) {
        std::set<std::string> u;
        for (unsigned n = in.below(12); n; n--) {
            std::string w = in.pick({"a", "b", "k", "name", "_", "_a", "z9", "ok", "OK2", "hello", "console", "x"});
            if (in.flip()) w += "abcxyz_019"[in.below(10)];
            for (auto &c : w) c = tolower(c);
            u.insert(w);
        }
        for (auto &w : u) keys.push_back(w);
        std::sort(keys.begin(), keys.end(), [](const std::string &a, const std::string &b) { return strcasecmp(a.c_str(), b.c_str()) < 0; });
        for (auto &w : keys) if (in.flip()) for (auto &c : w) c = toupper(c);
    }
    bool none = mode >= 230 && (mode & 1);
    std::vector<char *> kp;
    for (auto &k : keys) kp.push_back((char *) k.c_str());
    kp.push_back(nullptr);
    std::string s = text(in);
    trc("keys %zu%s; text %s; ", keys.size(), none ? " (no table)" : "", show(s, 600).c_str());
    std::vector<Tok> want = reference(s, keys);
    Exact b(s);
    Lex l = lex_create(b.p, none ? nullptr : kp.data());
    CHECK(l, "no lexer");
    for (size_t i = 0; i < want.size(); i++) {
        const Tok &w = want[i];
        int k = lex_next(l);
        std::string t = lex_text(l);
        CHECK(k == w.k && t == w.text, "token %zu is %d '%s', expected %d '%s'", i, k, show(t).c_str(), w.k, show(w.text).c_str());
        CHECK(lex_prev(l) == k, "lex_prev is %d after token %d", lex_prev(l), k);
        CHECK(lex_line(l) == w.line, "token %zu '%s' on line %d, expected %d", i, show(t).c_str(), lex_line(l), w.line);
        if (!none) {
            const char *n = lex_tok_to_str(l, k);
            if (k >= LEX_TOK_OFFSET) CHECK(n && n == kp[k - LEX_TOK_OFFSET], "token %d is named %s", k, n ? n : "(null)");
            else CHECK(!n, "token %d is named %s", k, n);
        }
        cls(k == LEX_ERR ? "unterminated" : k == LEX_EOL ? "line" : k == LEX_INT ? "integer" : k == LEX_STR ? "string" : k >= LEX_TOK_OFFSET ? "keyword" : k ? "character" : "end");
        if (t.size() == LEX_MAX_STR - 1) cls("longest string");
    }
    for (int i = 0; i < 2; i++) CHECK(lex_next(l) == LEX_EOF && lex_line(l) == want.back().line, "tokens after the end");
    CHECK(s == b.p, "the text was modified");
    lex_destroy(l);
    return want.size() > 3;
}
