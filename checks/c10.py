import os, re, resource, time
from hypothesis import strategies as st
from vlib import session, lexer
from vlib.rig import Client, Violation, Inconclusive
from vlib.session import ints, K, C, payload, frag, pieces, weighted
from vlib.world import expand
from .c01 import ASSUMPTIONS

ID = "C10"
N = {"quick": 460, "thorough": 14000}
RULE = ("Session programs (as in C01-C05) into which hostile connections are mixed: greeting and request lines made of protocol keywords, quotes, control bytes, NULs, high bytes, continuations and comments in any order, "
        "lines of up to 140 kB, fragments, several lines at once, missing newlines, ended by close, reset, half-close or left hanging; sessions that send unknown, truncated and dangling escapes; clients that are gone before "
        "they are admitted; descriptor exhaustion by idle connections. Every reply line and the end of every connection is predicted by a reference parser, everybody else's data exactly; "
        "afterwards the daemon has as many descriptors and threads as before. Non-trivial: a hostile connection while another session was attached, or an exhaustion.")
TECH = "property-based testing and fuzzing: structured hostile byte streams mixed into modelled sessions, on a sanitized daemon"
NOTE = ("Exploration under AddressSanitizer. The reply to a regular expression request is only required to be well-formed here (C09 decides its content), and expressions with nested repetition counts are left out (known finding).")
P = {"ops": {"conn": 3, "emit": 2, "type": 2, "raw": 1, "esc": 3, "bye": 2, "att": 9, "junk": 3, "dying": 2, "exh": 1, "suspend": 1, "bconn": 1, "jconn": 1, "release": 1, "burst": 1},
     "escs": list("FJMQLZBD"), "kinds": ["unix", "unix", "telnet", "serial", "process"], "maxlen": 3000, "reset": [None, None, "true %N"], "maxcons": 3}
KEYS = {b"broadcast", b"code", b"connect", b"console", b"error", b"force", b"hello", b"join", b"message", b"monitor", b"ok", b"option", b"query", b"quiet", b"regex", b"reset", b"tty", b"user"}
KNOWN_ESC = b"BDFJMLQRZ\xff"
MAXL = 131071


class Toks:
    def __init__(self, line):
        self.t = lexer.tokens(line, KEYS)
        self.i = 0

    def next(self):
        t = self.t[self.i]
        if self.i < len(self.t) - 1:
            self.i += 1
        return t


def end(t):
    return t.k in (lexer.EOF, lexer.EOL)


def value(ts):
    """Text of "= string"; None if that is not what follows."""
    t = ts.next()
    if t.k == lexer.CHR and t.t == b"=":
        t = ts.next()
        if t.isstr() and t.t:
            return bytes(c & 127 for c in t.t)
    return None


def parse_greeting(line):
    ts, user = Toks(line), None
    while True:
        t = ts.next()
        if end(t):
            return user
        if t.key(b"hello"):
            while True:
                t = ts.next()
                if end(t):
                    break
                if t.key(b"user"):
                    v = value(ts)
                    user = v if v is not None else user
                elif t.key(b"tty"):
                    value(ts)


def parse_request(line):
    """(command or None, options, patterns)"""
    ts, cmd, opts, pats = Toks(line), None, set(), []
    while True:
        t = ts.next()
        if end(t):
            return cmd, opts, pats
        if t.k == lexer.KEY and t.t.lower() in (b"connect", b"monitor", b"query"):
            cmd = t.t.upper().decode()
            while True:
                t = ts.next()
                if end(t):
                    break
                if t.key(b"console"):
                    v = value(ts)
                    if v is not None:
                        pats.append(v)
                elif t.key(b"option"):
                    t = ts.next()
                    if t.k == lexer.CHR and t.t == b"=":
                        t = ts.next()
                        if t.k == lexer.KEY:
                            opts.add(t.t.lower())


def glob(p, s):
    if not p:
        return not s
    if p[0] == 42:
        return any(glob(p[1:], s[i:]) for i in range(len(s) + 1))
    return bool(s) and (p[0] == 63 or p[0] == s[0]) and glob(p[1:], s[1:])


def split(data):
    """First line as the daemon reads it, the rest, and whether the line is complete."""
    i = data.find(b"\n", 0, MAXL)
    if i >= 0:
        return data[:i + 1], data[i + 1:], True
    return data[:MAXL], data[MAXL:], len(data) >= MAXL


def leftover(data):
    """Whether something is left unread when the daemon has done with these bytes."""
    line, rest, c = split(data)
    return bool(rest if parse_greeting(line) is None else split(rest)[1])


class Skip(Exception):
    pass


def predict(w, data, ended):
    """(reply bytes or a compiled pattern behind `head`, connection is closed)"""
    line, rest, complete = split(data)
    if not complete and not ended:
        return b"", None, False
    if not line:
        return b"", None, True
    if parse_greeting(line) is None:
        return b"ERROR CODE=2 MESSAGE='Invalid greeting: no user specified'\n", None, True
    head = b"OK\n"
    line, rest, complete = split(rest)
    if not complete and not ended:
        return head, None, False
    if not line:
        return head, None, True
    cmd, opts, pats = parse_request(line)
    none = b"ERROR CODE=5 MESSAGE='Found no matching consoles'\n"
    if cmd is None:
        return head + none, None, True
    if b"regex" in opts:
        if cmd != "QUERY" or b"{" in b"".join(pats):
            raise Skip()
        # any answer of the right form; which one is decided by C09
        return head, re.compile(rb"OK( OPTION=RESET)?( CONSOLE='[^'\n]*')+\n|ERROR CODE=[35] MESSAGE='[^'\n]+'\n"), True
    if any(c in p for p in pats for c in b"[\\") or any(p.count(b"*") > 6 for p in pats):
        if cmd != "QUERY":
            raise Skip()
        return head, re.compile(rb"OK( OPTION=RESET)?( CONSOLE='[^'\n]*')+\n|ERROR CODE=5 MESSAGE='[^'\n]+'\n"), True
    names = sorted((c.name for c in w.cons if any(glob(p, c.name.encode()) for p in pats)) if pats or cmd != "QUERY" else (c.name for c in w.cons))
    if not names:
        return head + none, None, True
    if cmd == "QUERY":
        return head + w.ok_reply([c for c in sorted(w.cons, key=lambda c: c.name) if c.name in names]), None, True
    if len(names) > 1 and not (cmd == "CONNECT" and b"broadcast" in opts):
        return head + b"ERROR CODE=6 MESSAGE='Found %d matching consoles'\n" % len(names) + b"".join(n.encode() + b"\n" for n in names), None, True
    raise Skip()        # a session


class Run(session.Run):
    def __init__(self, w, case):
        session.Run.__init__(self, w, case)
        self.held = []
        w.settle("start")
        self.base = self.usage()

    def usage(self):
        pid = self.w.rig.proc.pid
        try:
            return len(os.listdir("/proc/%d/fd" % pid)), len(os.listdir("/proc/%d/task" % pid))
        except OSError:
            self.w.rig.check_alive()
            raise Inconclusive("no /proc")

    def bytes_of(self, lines):
        out = b""
        for ln in lines:
            for it in ln:
                if isinstance(it, bytes):
                    out += it
                elif isinstance(it, str):
                    out += it.encode("latin-1")
                else:
                    out += it[0] * it[1]
        return out

    def op_att(self, lines, cuts, how):
        w, rig = self.w, self.w.rig
        data = self.bytes_of(lines)
        if self.faults:
            data = data[:4000]
        ended = how != "hold"
        try:
            predict(w, data, True)
            exp, rex, closed = predict(w, data, ended)
        except Skip:
            w.hit("skipped")
            return
        if len(self.held) > 20:
            return
        rig.half_open += 1
        ep = Client(rig)
        parts = pieces(data, cuts)
        for x in parts:
            ep.send(x)
            if cuts:
                rig.settle()
        if how == "rst":
            ep.close(rst=True)
        elif how == "close":
            ep.close()
        elif how == "half":
            t = time.monotonic() + 10
            while ep.tx and not ep.eof and time.monotonic() < t:
                rig.settle()
            ep.shut_wr()
        if how in ("half", "hold"):
            what = "hostile bytes %r... (%d)" % (data[:120], len(data))
            t = time.monotonic() + 10
            while not ep.eof and (closed or len(ep.rx) < len(exp)) and time.monotonic() < t:
                rig.check_alive()
                ep.flush()
                ep.pump()
                time.sleep(0.0005)
            if not closed:
                rig.settle()
            got = ep.take()
            if closed and leftover(data) and (rex is not None or exp.startswith(got)):
                pass        # a socket closed with unread input is reset, which may discard the reply
            elif not got.startswith(exp) or (rex is None and got != exp):
                w.diff(what + ": reply", exp, got)
            elif rex is not None and not rex.fullmatch(got[len(exp):]):
                raise Violation("%s: malformed reply %r" % (what, got[len(exp):][:300]))
            if ep.eof != closed:
                raise Violation("%s: connection %s" % (what, "left open" if closed else "closed without an answer"))
            w.hit("att_reply" if exp or rex else "att_noreply")
            w.hit("att_complete" if closed else "att_held")
        w.hit("att")
        if any(c.live for c in w.clients):
            w.hit("att_attached")
        if how == "hold" and not closed:
            self.held.append(ep)
        else:
            ep.close()
            rig.half_open -= 1
        w.settle("hostile connection")

    def op_release(self, k, how):
        if self.held:
            ep = self.held.pop(k % len(self.held))
            if how == "half":
                ep.shut_wr()
                t = time.monotonic() + 10
                while not ep.eof and time.monotonic() < t:
                    ep.pump()
                    time.sleep(0.0005)
                if not ep.eof:
                    raise Violation("connection of a client that ended its input in mid-request stays open")
                ep.close()
            else:
                ep.close(rst=how == "rst")
            self.w.rig.half_open -= 1
            self.w.settle("release")

    def op_junk(self, k, items, cuts, dangle):
        """Unknown escapes, and one that is cut off."""
        w, cl = self.w, self.live(k, lambda c: not c.paused)
        if cl is None or any(not c.up for c in cl.dst):
            return
        enc, data = bytearray(), bytearray()
        for esc, d in items:
            if esc not in KNOWN_ESC:
                enc += bytes([255, esc])
                w.hit("unknown_escape")
            data += d
            enc += d.replace(b"\xff", b"\xff\xff")
        if dangle:
            enc += b"\xff"
        if not enc:
            return
        parts = pieces(bytes(enc), cuts)
        for x in parts[:-1]:
            cl.ep.send(x)
            w.rig.settle()
        cl.ep.send(parts[-1])
        w.feed(cl, bytes(data))
        w.settle("junk")
        if not dangle:
            return
        w.hit("dangle_" + dangle)
        if dangle == "ff":
            cl.ep.send(b"\xff")
            w.feed(cl, b"\xff")
            w.settle("second half of an escape")
        elif dangle == "Q":
            cl.ep.send(b"Q")
            w.esc(cl, "Q", send=False)
            w.settle("second half of an escape")
        else:
            self.op_bye([c for c in w.clients if c.live].index(cl), dangle)

    def op_dying(self, n, ci, how, cuts):
        """Clients that ask to monitor a console and are gone when they are admitted: nobody else may notice."""
        w = self.w
        con = self.con(ci)
        w.settle("before the dying clients")
        self.freeze()
        try:
            for i in range(n):
                ep = Client(w.rig)
                ep.hello(b"dy")
                if cuts != 0:
                    ep.request(b"MONITOR" if cuts != 1 else b"QUERY", [con.name.encode()])
                if cuts == 3:
                    ep.send(b"\xff\xff\xffL\xff")
                ep.close(rst=(how == "rst"))
        finally:
            self.freeze(False)
        w.settle("dying clients")
        w.hit("dying")

    def op_exh(self, spare, n, partial, ci, p):
        """Idle connections use up the daemon's descriptors."""
        w, rig = self.w, self.w.rig
        w.settle("before the exhaustion")
        pid = rig.proc.pid
        old = resource.prlimit(pid, resource.RLIMIT_NOFILE)
        top = max(int(x) for x in os.listdir("/proc/%d/fd" % pid)) + 1
        used = len(os.listdir("/proc/%d/fd" % pid))
        resource.prlimit(pid, resource.RLIMIT_NOFILE, (top + spare, old[1]))
        try:
            n += top + spare - used + 1
            rig.half_open += n
            eps = []
            for i in range(n):
                ep = Client(rig)
                ep.may_block = True
                eps.append(ep)
                if partial:
                    ep.send(b"HELLO USER='x")
            w.settle("descriptors exhausted")
            w.hit("exh")
            if b"many open files" in rig.stderr():
                w.hit("exh_refused")
            self.op_emit(ci, p, [])
            k = self.live(0, lambda c: c.dst)
            if k is not None:
                self.op_type([c for c in w.clients if c.live].index(k), [2, 50, 1], [])
        finally:
            resource.prlimit(pid, resource.RLIMIT_NOFILE, old)
        for ep in eps:
            ep.close()
        rig.half_open -= n
        w.advance(5)
        w.settle("after the exhaustion")
        w.connect(b"after", None, "QUERY", [self.con(ci).name])

    def op_rxmem(self, pat):
        """The memory an expression of a few bytes makes the daemon use."""
        w, rig = self.w, self.w.rig

        def peak():
            return int(re.search(r"VmHWM:\s*(\d+)", open("/proc/%d/status" % rig.proc.pid).read()).group(1)) >> 10
        a = peak()
        ep = Client(rig)
        ep.hello(b"u")
        ep.request(b"QUERY", [pat.encode()], [b"REGEX"])
        t = time.monotonic() + 30
        while not ep.eof and time.monotonic() < t:
            rig.check_alive()
            ep.pump()
            time.sleep(.001)
        ep.close()
        if peak() - a > 64:
            raise Violation("the expression %r made the daemon use %d MB" % (pat, peak() - a))

    def end(self):
        w, rig = self.w, self.w.rig
        for i in range(len(self.held)):
            self.op_release(0, ["close", "half", "rst"][i % 3])
        session.Run.end(self)
        while True:
            cl = self.live(0)
            if cl is None:
                break
            w.bye(cl, "close")
            w.settle("everybody leaves")
        for cl in w.clients:
            if not cl.ep.closed:        # suspended when its session was taken away
                cl.ep.close()
                cl.gone = True
        w.settle("everybody has left")
        t = time.monotonic() + 5
        while self.usage() != self.base and time.monotonic() < t:
            rig.settle()
            time.sleep(0.002)
        if self.usage() != self.base:
            raise Violation("after all clients left: %d descriptors and %d threads, at start %d and %d"
                            % (self.usage() + self.base))


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=45, maxcons=5)
    kw = st.sampled_from(["HELLO", "USER", "TTY", "CONNECT", "MONITOR", "QUERY", "OPTION", "CONSOLE", "QUIET", "REGEX", "FORCE", "JOIN", "BROADCAST", "OK", "ERROR", "CODE", "MESSAGE", "RESET", "hello", "Query"])
    junk = st.one_of(st.binary(min_size=1, max_size=10),
                     st.sampled_from([b"\0", b"\r", b"\\\n", b"\\\r\n", b"#", b"'", b'"', b"=", b" ", b"\t", b"\xff", b"\xa7", b"\x8a", b"''", b"='", b"-1", b"99999999999999999999", b"\x7f", b"\xff\xff"]))
    word = st.sampled_from([b"x", b"c0", b"c1", b"*", b"c?", b"c*", b"[", b"c[0-9]", b"\xe3\xb0", b"it's", b"(", b"a|b", b"c.*"])
    sval = st.one_of(word.map(lambda b: b"='" + b.replace(b"'", b"\xa7") + b"' "), word.map(lambda b: b'="' + b + b'" '), st.binary(max_size=12).map(lambda b: b"='" + b + b"' "))
    pair = st.one_of(sval.map(lambda v: b"CONSOLE" + v), sval.map(lambda v: b"CONSOLE" + v), sval.map(lambda v: b"USER" + v), sval.map(lambda v: b"TTY" + v),
                     st.sampled_from([b"OPTION=QUIET ", b"OPTION=REGEX ", b"OPTION=FORCE ", b"OPTION=JOIN ", b"OPTION=BROADCAST ", b"OPTION= ", b"OPTION=x "]))
    big = st.tuples(st.one_of(junk, pair, word, st.just(b"(")), st.sampled_from([40, 300, 900, 1100, 1023, 9000])).map(list)
    soup = st.lists(weighted([(4, kw.map(lambda s: s.encode() + b" ")), (4, junk), (5, pair), (1, big)]), max_size=9)
    ok_greet = st.sampled_from([[b"HELLO USER='m'\n"], [b"HELLO USER='m' TTY='t'\n"], [b"hello  tty=x user=\"q\"\n"], [b"x HELLO USER='\xa7'\n"], [b"HELLO USER='", [b"u", 1500], b"'\n"]])
    nl = st.sampled_from([b"\n", b"\n", b"\n", b"\r\n", b"", b"\n\n"])
    cmd = st.sampled_from([b"QUERY ", b"QUERY ", b"MONITOR ", b"CONNECT ", b"CONNECT OPTION=BROADCAST ", b"QUERY OPTION=REGEX ", b"", b"BOGUS ", b"QUERY\r", b"QUERY MONITOR "])
    reqline = st.tuples(cmd, soup, nl).map(lambda t: [t[0]] + t[1] + [t[2]])
    bad_greet = st.tuples(weighted([(2, st.just(b"HELLO ")), (1, st.just(b""))]), soup, nl).map(lambda t: [t[0]] + t[1] + [t[2]])
    huge = st.tuples(st.sampled_from([b"a", b"'", b"(", b" ", b"CONSOLE='c0' ", b"\xff", b"\0", b"OPTION=", b"\\", b"#"]), st.sampled_from([131070, 131071, 131072, 131073, 140000])).map(
        lambda t: [b"QUERY ", [t[0], max(1, t[1] // len(t[0]))], b"\n"])
    lines = weighted([(5, st.tuples(ok_greet, reqline).map(list)), (3, st.tuples(bad_greet).map(list)), (2, st.tuples(bad_greet, reqline).map(list)), (1, st.tuples(ok_greet).map(list)),
                      (1, st.tuples(ok_greet, reqline, reqline).map(list)), (1, st.tuples(ok_greet, huge).map(list)), (1, st.tuples(huge, reqline).map(list)), (1, st.just([[]]))])
    item = st.tuples(ints(0, 255), st.binary(max_size=6)).map(list)
    extra = {
        "att": st.tuples(st.just("att"), lines, st.one_of(st.just([]), st.lists(ints(1, 60), max_size=6)), st.sampled_from(["half", "half", "half", "hold", "hold", "close", "rst"])).map(list),
        "junk": st.tuples(st.just("junk"), K, st.lists(item, max_size=6), st.lists(ints(1, 9), max_size=4), st.sampled_from(["", "", "ff", "Q", "close", "rst", "half"])).map(list),
        "dying": st.tuples(st.just("dying"), ints(1, 9), C, st.sampled_from(["close", "rst"]), ints(0, 3)).map(list),
        "exh": st.tuples(st.just("exh"), ints(0, 3), ints(1, 6), st.booleans(), C, payload(2000)).map(list),
        "release": st.tuples(st.just("release"), K, st.sampled_from(["close", "rst", "half"])).map(list)}
    return session.strategy(p, extra)


def run(case):
    s = session.execute(case, runner=Run)
    return s.get("att_attached", 0) + s.get("exh_refused", 0) > 0, list(s)
