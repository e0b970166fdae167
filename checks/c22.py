"""C22: the client program's request and its handling of replies; the real program against a scripted server and a model of command line and protocol."""
import os, random, re, select, socket, time

from hypothesis import strategies as st

from vlib import lexer
from vlib.clirig import CliModel, CliRig, Inconclusive, START, Violation
from vlib.confrun import unprivileged
from .c01 import ASSUMPTIONS  # noqa: F401
from .c21 import diff, encode

ID = "C22"
N = {"quick": 3000, "thorough": 60000}
TECH = "property-based testing of the real client program (ASan/UBSan): generated command lines, environments, names files and well-formed and malformed replies, against a model of the manual page and the protocol"
RULE = "the client sent a request, or refused its command line, or got a reply that is not the plain success"
NOTE = "the greeting and request are compared after parsing; destination of every connect(); standard output, standard error, session log and exit status exactly"

KEYS = frozenset(b"broadcast code connect console error force hello join message monitor ok option query quiet regex reset tty user".split())
PAT = ["c0", "c1", "node*", "n[0-9]", "rack1-node2", "a b", "it's", 'say "x"', "^n.*$", "(a|b)+", "\\d", "#c", " x", "x ", "-n", "--", "console", "OK", "%s", "a;b", "=", "", "n{1", "12", "\t", "~`!@$%^&*()"]


def word(r):
    k = r.randrange(10)
    if k < 7:
        return r.choice(PAT)
    if k < 8:
        return "n" * r.choice([100, 1022, 1023, 1024, 1025, 2047, 3000])
    return "".join(chr(r.randrange(32, 127)) for _ in range(r.randrange(1, 12)))


def fileline(r):
    k = r.randrange(12)
    if k < 5:
        return word(r)
    if k < 7:
        return r.choice(["", "   ", "\t", "\v\f", "#", "# comment", "  # comment", "#c0", "c0 # no comment", "a,b"])
    if k < 9:
        return r.choice([" ", "\t", " \t "]) + word(r) + r.choice(["", " ", "\t", "\r", " \f\v"])
    if k < 10:
        return r.choice([" " * 1022 + "*", " " * 1023 + "*", "#" + "x" * 1022 + "*", "# " + "y" * 2045 + "*", "z" * 1023 + "* "])
    return word(r) + "\r"


def gen_args(r):
    """Command line as a list of words; %P stands for the server's port, %F0-%F1 for names files, %L for a log file, %D for a missing path."""
    out = []
    plain = r.random() < .5         # an unremarkable command line
    if plain:
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            out.append("-" + "".join(r.choice("bfjmqQr") for _ in range(r.choice([1, 1, 2, 3]))))
        if r.random() < .3:
            out += ["-F", r.choice(["%F0", "%F1"])]
        if r.random() < .4:
            out += ["-l", "%L"]
        out += ["-d", "127.0.0.1:%P"]
    for _ in range(0 if plain else r.choice([0, 1, 1, 2, 3, 4, 6])):
        k = r.randrange(14)
        if k < 3:
            out.append("-" + r.choice("bfjmqqqQrv"))
        elif k < 5:
            out.append("-" + "".join(r.choice("bfjmqQrv") for _ in range(r.randrange(2, 5))))
        elif k < 8:
            d = r.choice(["127.0.0.1", "127.0.0.1", "localhost", "127.1", "", "127.0.0.2", "no.such.invalid", "bad host"]) if r.random() < .4 else "127.0.0.1"
            d += r.choice([":%P", ":%P", ":%P", ":%P", "", ":", ":0", ":x", ":-5", ": %P", ":+%P", ":%Px", ":0%P", ":%P:1"]) if r.random() < .5 else ":%P"
            out += r.choice([["-d", d], ["-d" + d], ["-qd", d]]) if d else ["-d", d]
        elif k < 9:
            out += ["-e", r.choice(["&", "~", "", "^x"])]
        elif k < 11:
            out += ["-F", r.choice(["%F0", "%F0", "%F1", "%D"])] if r.random() < .8 else ["-qF%F1"]
        elif k < 12:
            out += ["-l", r.choice(["%L", "%L", "%D/x"])]
        elif k < 13:
            out += [r.choice(["-h", "-V", "-L", "-x", "-qz", "--", "--help", "-d", "-F", "-l", "-e", "-", "-:"])]
        else:
            out.append(word(r) or "c0")
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        out.append(",".join(word(r) for _ in range(r.choice([1, 1, 1, 2, 3]))))
    if r.random() < .3 and not plain:
        r.shuffle(out)
    if not any("%P" in x for x in out) and r.random() < .8:
        out[:0] = ["-d", "127.0.0.1:%P"]
    return out


def gen_env(r):
    e = {}
    if r.random() < .4:
        e["CONMAN_HOST"] = r.choice(["127.0.0.1", "localhost", "127.0.0.1:%P", "localhost:%P", ":%P", "", "127.0.0.1:", "127.0.0.2:1", "localhost:x"])
    if r.random() < .4:
        e["CONMAN_PORT"] = r.choice(["%P", "%P", "", "0", "-1", "x", "1", "%Px"])
    if r.random() < .2:
        e["CONMAN_ESCAPE"] = "~"
    if r.random() < .2:
        e["USER"] = r.choice(["root", "daemon", "nosuchuser", "", "nobody"])
    if r.random() < .1:
        e["POSIXLY_CORRECT"] = "1"
    if r.random() < .1:
        e["LOGNAME"] = "nobody"
    return e


def rndtok(r):
    k = r.randrange(16)
    if k < 5:
        return r.choice([b"OK", b"ERROR", b"CODE", b"MESSAGE", b"CONSOLE", b"OPTION", b"RESET", b"ok", b"Error", b"code", b"HELLO"])
    if k < 7:
        return b"="
    if k < 8:
        return r.choice([b"1", b"2", b"4", b"5", b"6", b"7", b"0", b"-3", b"+6", b"99", b"007"])
    if k < 10:
        q = r.choice([b"'", b'"'])
        return q + r.choice([b"c0", b"", b"x y", b"a\xa7b", b"\x80z", b"n" * 1500, b"m" * 1023, b"%s%n", b"\x07\x1b[2J"]) + (q if r.random() < .8 else b"")
    if k < 11:
        return r.choice([b"#", b"\\", b"\r", b"\0", b"\\\n", b"\v", b"\xff\xfe", b"_x9", b"9x", b"-", b",", b"'", b'"'])
    if k < 13:
        return r.choice([b"ERROR CODE=%d MESSAGE='m'" % r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8]), b"CONSOLE='c%d'" % r.randrange(9), b"OPTION=RESET", b"CODE=7", b"MESSAGE='why not'", b"CONSOLE=c1"])
    return bytes(r.randrange(256) for _ in range(r.randrange(1, 8)))


def gen_line(r, greeting):
    k = r.random()
    if k < (.85 if greeting else .5):
        if greeting:
            return r.choice([b"OK\n"] * 8 + [b"ok\n", b" OK \n", b"HELLO OK\n", b"OK # hello\r\n", b"OK OPTION=X\n", b"OK"])
        n = r.choice([0, 1, 1, 1, 2, 5, 300])
        return b"OK" + r.choice([b"", b" OPTION=RESET"]) + b"".join(b" CONSOLE='" + encode(r.choice(["c%d" % i, "it's", "a b", 'q"', "n" * 1023]).encode()) + b"'" for i in range(n)) + b"\n"
    if k < .8 if not greeting else k < .93:
        c = r.choice([1, 2, 3, 4, 5, 6, 7, 7, 6])
        return b"ERROR CODE=%d MESSAGE='%s'\n" % (c, encode(r.choice([b"no consoles", b"Found 3 matching consoles", b"it's \"busy\"", b"", b"y" * 1200, b"%s%n%d"])))
    if k < .83 and not greeting:
        return b"OK" + b" CONSOLE='" + b"c" * 1000 + b"'" + b" CONSOLE='x'" * r.choice([10000, 11000, 11950]) + r.choice([b"\n", b""])
    return b" ".join(rndtok(r) for _ in range(r.randrange(0, 9))) + r.choice([b"\n", b"\n", b"\n", b""])


def gen(r):
    c = {"args": gen_args(r), "env": gen_env(r), "files": [], "tty": r.random() < .7, "nobody": r.random() < .15}
    for i in range(2):
        t = "\n".join(fileline(r) for _ in range(r.choice([0, 1, 3, 8])))
        if r.random() < .01:
            t += "\n" + "x" * 700 + ("\n" + "y" * 900) * 170
        c["files"].append(t + r.choice(["\n", "\n", ""]))
    c["greet"] = gen_line(r, True)
    c["reply"] = gen_line(r, False)
    c["data"] = r.choice([b"", b"", b"\nConsole [c0] held by x\n", b"trailing", bytes(range(256)), b"z" * 9000])
    c["close"] = r.choice(["fin", "fin", "fin", "rst"])
    c["early"] = r.choice(["no", "no", "no", "no", "no", "no", "greet", "greet", "all", "all", "slam", "slam2", "rstreq"])
    c["fault"] = [0, 0, 0] if r.random() < .7 else [r.choice([0, 1, 7]), r.choice([0, 1, 5]), 0]
    return c


def strategy(tier):
    return st.integers(0, 2 ** 48).map(lambda s: gen(random.Random(s)))


# ---- model

def atoi(s):
    m = re.match(r"[ \t\n\v\f\r]*([+-]?\d+)", s)
    return int(m.group(1)) if m else 0


def getopts(args, spec, posix):
    """As GNU getopt: yields (option, value), ('?', letter) and at the end (None, operands)."""
    ops, i = [], 0
    while i < len(args):
        a = args[i]
        i += 1
        if a == "--":
            ops += args[i:]
            break
        if len(a) < 2 or a[0] != "-":
            if posix:
                ops += args[i - 1:]
                break
            ops.append(a)
            continue
        j = 1
        while j < len(a):
            o = a[j]
            j += 1
            k = spec.find(o)
            if k < 0 or o in ":;":
                yield "?", o
                return
            if spec[k + 1:k + 2] == ":":
                if j < len(a):
                    yield o, a[j:]
                elif i < len(args):
                    yield o, args[i]
                    i += 1
                else:
                    yield "?", o
                    return
                break
            yield o, None
    yield None, ops


class Model:
    def __init__(self, args, env, files, user, tty):
        self.host, self.port, self.esc, self.cmd = "127.0.0.1", 7890, "&", "c"
        self.b = self.f = self.j = self.Q = self.r = False
        self.cons, self.log, self.exit, self.err, self.help, self.info = [], None, None, b"", False, None
        if "CONMAN_HOST" in env:
            self.dest(env["CONMAN_HOST"])
        if env.get("CONMAN_PORT") and atoi(env["CONMAN_PORT"]) > 0:
            self.port = atoi(env["CONMAN_PORT"])
        if env.get("CONMAN_ESCAPE"):
            self.esc = env["CONMAN_ESCAPE"][0]
        for o, v in getopts(args, "bd:e:fF:hjl:LmqQrvV", "POSIXLY_CORRECT" in env):
            if o is None:
                for a in v:
                    self.cons += [x for x in a.split(",") if x]
            elif o == "?":
                return self.fatal('CMDLINE: invalid option "%s"' % v)
            elif o == "d":
                self.dest(v)
            elif o == "e":
                self.esc = v[:1] or "\0"
            elif o == "f":
                self.f, self.j = True, False
            elif o == "j":
                self.f, self.j = False, True
            elif o == "F":
                if os.path.isdir(v):
                    continue
                if v not in files:
                    return self.fatal('Unable to open "%s": No such file or directory' % v)
                for l in files[v].split("\n"):
                    l = l.strip(" \t\n\v\f\r")
                    if l and l[0] != "#":
                        self.cons.append(l)
            elif o == "l":
                self.log = v
            elif o in "LV":
                self.exit, self.info, self.help = 0, o, False
                return
            elif o == "m":
                self.cmd = "m"
            elif o == "q":
                self.cmd = "q"
            elif o == "h":
                self.help = True
            elif o in "bQr":
                setattr(self, o, True)
        if self.cmd == "m":
            self.b = self.f = self.j = False
        if self.help or (self.cmd != "q" and not self.cons):
            self.help, self.exit = True, 0

    def dest(self, s):
        h, c, p = s.partition(":")
        if c and atoi(p) > 0:
            self.port = atoi(p)
        if h:
            self.host = h

    def fatal(self, msg):
        self.help = False
        self.exit, self.err = 1, b"ERROR:     " + msg.encode() + b"\n"


def decode(b):
    b = bytes(x & 0x7f for x in b)
    i = b.find(b"\0")
    return b if i < 0 else b[:i]


def parse(line):
    """A reply line -> (done, code, message, consoles, reset)."""
    toks = lexer.tokens(line, KEYS)
    pos = [0]

    def nxt():
        t = toks[min(pos[0], len(toks) - 1)]
        pos[0] += 1
        return t
    cons, reset, code, msg = [], False, 0, None
    while True:
        t = nxt()
        if t.k in (lexer.EOF, lexer.EOL):
            return -1, 0, None, cons, reset
        if t.key(b"ok"):
            while True:
                t = nxt()
                if t.k in (lexer.EOF, lexer.EOL):
                    return 1, 0, None, cons, reset
                if t.key(b"console"):
                    if nxt_is(nxt, b"="):
                        t = nxt()
                        if t.isstr():
                            cons.append(decode(t.t))
                elif t.key(b"option"):
                    if nxt_is(nxt, b"=") and nxt().key(b"reset"):
                        reset = True
        if t.key(b"error"):
            while True:
                t = nxt()
                if t.k in (lexer.EOF, lexer.EOL):
                    return -1, code, msg, cons, reset
                if t.key(b"code"):
                    if nxt_is(nxt, b"="):
                        t = nxt()
                        if t.k == lexer.INT:
                            code = int(t.t)
                elif t.key(b"message"):
                    if nxt_is(nxt, b"="):
                        t = nxt()
                        if t.isstr():
                            msg = decode(t.t) if t.t else None


def nxt_is(nxt, c):
    t = nxt()
    return t.k == lexer.CHR and t.t == c


def request(line):
    """The request line parsed: (command, sorted options, consoles)."""
    if not line.endswith(b"\n") or line.count(b"\n") != 1 or b"\r" in line or b"\0" in line:
        raise Violation("not one request line: %r" % line[:300])
    # not limited to the daemon's token size
    m = re.fullmatch(rb"(\w+)((?: +(?:\w+=(?:\w+|'[^'\"]*'|\"[^'\"]*\")))*) *\n", line, re.S)
    if not m:
        raise Violation("malformed request line: %r" % line[:300])
    opt, cons, other = [], [], []
    for k, v in re.findall(rb"(\w+)=(\w+|'[^']*'|\"[^\"]*\")", m.group(2)):
        k = k.upper()
        v = decode(v.strip(b"'\"")) if v[:1] in b"'\"" else v
        (opt if k == b"OPTION" else cons if k == b"CONSOLE" else other).append(v.upper() if k == b"OPTION" else v if k == b"CONSOLE" else (k, v))
    return m.group(1).upper(), sorted(opt), cons, other


def run(case):
    with CliRig() as r:
        return _run(case, r)


def _run(case, r):
    os.chmod(r.dir, 0o777)
    names = {"%P": str(r.port), "%F0": os.path.join(r.dir, "f0"), "%F1": os.path.join(r.dir, "f1"), "%L": os.path.join(r.dir, "log"), "%D": os.path.join(r.dir, "none")}

    def sub(s):
        for k, v in names.items():
            s = s.replace(k, v)
        return s
    files = {}
    for i, t in enumerate(case["files"]):
        p = names["%%F%d" % i]
        files[p] = t
        with open(p, "w", newline="") as f:
            f.write(t)
    args = [sub(a) for a in case["args"]]
    env = {k: sub(v) for k, v in case["env"].items()}
    if any("\0" in a for a in args):
        raise Inconclusive("NUL in an argument")
    kw = unprivileged() if case["nobody"] else {}
    user = b"nobody" if kw else b"root"
    m = Model(args, env, files, user, case["tty"])
    cls = {"command " + m.cmd}
    r.page["rnd"] = len(args) * 977 + len(case["reply"])
    r.page["max_read"], r.page["max_write"], r.page["p_eintr"] = case["fault"]
    r.start(args, "split" if case["tty"] else None, env, **kw)
    tty = os.ttyname(r.ins)[5:].encode() if case["tty"] else None

    def finish(rc, out, err, log=None, cmp_out=True):
        got = r.ended()
        if case["tty"]:
            r.drain()
        r.crashed()
        e = r.stderr()
        if got != rc:
            raise Violation("exit status %d, expected %d; stderr %r, expected %r; stdout %r" % (got, rc, e[:300], err[:300], r.stdout()[:300]))
        if len(err) > 900 and err.startswith(b"ERROR:     "):      # such messages are limited to about a thousand bytes
            e, err = e[:900] + e[-1:], err[:900] + b"\n"
        diff("standard error", e, err)
        if cmp_out:
            diff("standard output", r.stdout(), out)
        if m.log is not None and log is not None:
            with open(os.path.join(r.dir, m.log), "rb") as f:
                diff("session log", f.read(), log)
            cls.add("log")

    def where():
        return r.page.connects(0)

    # ends before connecting
    if m.exit is not None:
        out = b""
        finish(m.exit, out, m.err, cmp_out=False)
        o = r.stdout().replace(b"\r\n", b"\n")
        if where()[0]:
            raise Violation("it connected to a server for %r" % args)
        if m.help and (not o.startswith(b"Usage: ") or b"[%s:%d]" % (m.host.encode(), m.port) not in o):
            raise Violation("unexpected help: %r" % o[:400])
        if m.info == "V" and not re.match(rb"conman-\d", o) or m.info == "L" and b"GNU General Public License" not in o or m.exit and o:
            raise Violation("unexpected output: %r" % o[:300])
        return True, cls | {"help" if m.help else "command line refused" if m.exit else "information"}
    start = ("\r\n<ConMan> Log started at %s.\r\n" % START).encode()
    stop = ("\r\n<ConMan> Log finished at %s.\r\n" % START).encode()
    log = bytearray(files.get(m.log, "").encode() + start)
    if m.log and len(os.path.basename(m.log)) > 255:
        raise Inconclusive("name too long for a file")
    if m.log is not None and not m.log or m.log is not None and not os.path.isdir(os.path.dirname(os.path.join(r.dir, m.log)) or r.dir):
        finish(1, b"", b'ERROR:     Unable to open "%s": No such file or directory\n' % m.log.encode())
        return True, cls | {"log refused"}

    def error(msg, data=b"", code=1):
        """Expected text of a failure."""
        hint = b""
        if code == 6 and not m.b:
            hint = b"\nDo you want to broadcast (-b) to multiple consoles?\n\n"
        elif code == 7 and not m.f and not m.j:
            hint = b"\nDo you want to force (-f) or join (-j) the connection?\n\n"
        t = b"ERROR: " + msg + b".\n\n" + data + hint
        finish(2, b"", t, bytes(log) + t)

    try:
        addr = socket.gethostbyname(m.host)
    except (OSError, UnicodeError):
        addr = None
    if addr is None:
        error(b"Unable to resolve host <%s>" % m.host.encode())
        if where()[0]:
            raise Violation("it connected to %r" % (where(),))
        return True, cls | {"unknown host"}
    fq = host = m.host
    try:
        fq = socket.gethostbyaddr(addr)[0]
        host = fq.split(".")[0]
    except OSError:
        pass
    peer = b"<%s:%d>" % (host.encode(), m.port)
    if (addr, m.port) != ("127.0.0.1", r.port):
        s = socket.socket()
        try:
            s.settimeout(5)
            e = s.connect_ex((addr, m.port))
        finally:
            s.close()
        if e == 0:
            raise Inconclusive("something listens there")
        r.ended()
        n, w = where()
        if n != 1 or w[0][1] != m.port:
            raise Violation("connected to ports %r, expected %d" % ([x[1] for x in w], m.port))
        error(b"Unable to connect to <%s:%d>: %s" % (fq.encode(), m.port, os.strerror(e).encode()))
        return True, cls | {"refused connection"}
    if not r.accept():
        raise Violation("it did not connect to port %d: exit %r, %r" % (m.port, r.rc, r.stderr()[:300]))
    slam = (b"Unable to read response from " + peer + b":\n  Connection reset by peer (blocked by TCP-Wrappers?)",
            b"Connection terminated by " + peer, b"Unable to send greeting to " + peer + b": Broken pipe", b"Unable to send greeting to " + peer + b": Connection reset by peer")

    def slammed():
        rc = r.ended()
        if case["tty"]:
            r.drain()
        r.crashed()
        e = r.stderr()
        ok = [b"ERROR: " + x + b".\n\n" for x in slam]
        if sum(11 + len(x) for x in m.cons) > 130000:
            ok.append(b"ERROR: Overran request buffer.\n\n")
        if m.cmd == "q":
            ok.append(b"ERROR: Unable to close write-half of connection to " + peer + b": Transport endpoint is not connected.\n\n")
        if rc != 2 or e not in ok:
            raise Violation("connection lost: exit status %d, stderr %r" % (rc, e[:300]))
        return True, cls | {"connection lost"}
    early = case["early"]
    if early == "slam":             # as TCP wrappers do
        r.close_srv(rst=len(args) % 2 == 0)
        return slammed()
    if early in ("greet", "all"):
        r.send(case["greet"])
    if early == "all":
        r.send(case["reply"])
    cls.add("early " + early)
    if not r.until(lambda: b"\n" in r.rx or r.rx_eof, "no greeting"):
        raise Violation("no greeting: exit %r, %r" % (r.rc, r.stderr()[:300]))
    i = r.rx.index(b"\n") + 1 if b"\n" in r.rx else len(r.rx)
    c, o, cons, other = request(bytes(r.rx[:i]))
    if c != b"HELLO" or o or cons or sorted(other) != sorted([(b"USER", user)] + ([(b"TTY", tty)] if tty else [])):
        raise Violation("greeting %r, expected user %r and terminal %r" % (bytes(r.rx[:i]), user, tty))
    if early == "slam2":
        r.close_srv(rst=True)
        return slammed()
    if early not in ("greet", "all"):
        r.send(case["greet"])
    stream = bytearray(case["greet"])

    def line():
        """Takes what read_line() takes."""
        i = stream.find(b"\n")
        n = min(131071, len(stream) if i < 0 else i + 1)
        b = bytes(stream[:n])
        del stream[:n]
        return b

    def close():
        r.close_srv(rst=False)

    def failed(b, data):
        """Handles a reply line that is no success; returns True if it was one."""
        if not b:
            close()
            error(b"Connection terminated by " + peer)
            return True
        done, code, msg, cons, reset = parse(b)
        if done == 1:
            return False
        if code == 0:
            close()
            error(b"Received invalid response from " + peer)
            return True
        if data:
            r.send(case["data"])
        d = bytes(stream) + (case["data"] if data else b"")
        close()
        text = b"Unspecified" if msg is None else msg
        error(text, b"" if code == 1 or code == 4 and not data else d, code)
        if code != 1:
            cls.add("error %d" % code)
        return True

    # the greeting's reply
    if early == "all":
        stream += case["reply"]
    if b"\n" not in stream and len(stream) < 131071:
        r.settle_net()
        close()
        b = line()
        if not b:
            error(b"Connection terminated by " + peer)
            return True, cls | {"closed"}
        done, code, msg, cons, reset = parse(b)
        if done != 1:
            t = b"Received invalid response from " + peer if code == 0 else (b"Unspecified" if msg is None else msg)
            error(t, b"", code or 1)
            return True, cls | {"greeting refused"}
        if cons:
            raise Inconclusive("consoles in a greeting")
        return slammed()            # an OK without newline, then the end
    b = line()
    done, code, msg, gcons, reset = parse(b)
    if gcons:
        raise Inconclusive("consoles in a greeting")
    if done != 1:
        # code 4 closes the connection at once
        failed(b, False)
        return True, cls | {"greeting refused"}
    # the request
    words = [x.encode() for x in m.cons]
    exp = ({"c": b"CONNECT", "m": b"MONITOR", "q": b"QUERY"}[m.cmd],
           sorted([n for k, n in ((m.Q, b"QUIET"), (m.r, b"REGEX"), (m.f and m.cmd == "c", b"FORCE"), (m.j and m.cmd == "c", b"JOIN"), (m.b and m.cmd == "c", b"BROADCAST")) if k]), words, [])
    size = len(exp[0]) + sum(8 + len(x) for x in exp[1]) + sum(11 + len(x) for x in words) + 1
    if size > 131071 - 64:
        if size > 131071:
            r.pump()
            error(b"Overran request buffer")
            return True, cls | {"overrun"}
        raise Inconclusive("near the limit")
    if not r.until(lambda: r.rx.count(b"\n") >= 2 or r.rx_eof, "no request"):
        raise Violation("no request: exit %r, %r" % (r.rc, r.stderr()[:300]))
    got = request(bytes(r.rx[i:]))
    if got != exp:
        raise Violation("request %r, expected %r" % (got, exp))
    nreq = len(r.rx)
    if early == "rstreq" and not stream:
        r.close_srv(rst=True)
        return slammed()
    if early != "all":
        r.send(case["reply"])
        stream += case["reply"]
    if b"\n" not in stream and len(stream) < 131071:
        r.settle_net()
        close()
        b = line()
        if b:
            stream.clear()
    else:
        b = line()
    if not b:
        close()
        error(b"Connection terminated by " + peer)
        return True, cls | {"closed"}
    done, code, msg, cons, reset = parse(b)
    if done != 1:
        if r.sock is None:
            t = b"Received invalid response from " + peer if code == 0 else (b"Unspecified" if msg is None else msg)
            error(t, b"", code or 1)
        else:
            failed(b, True)
        return True, cls | {"request refused"}
    if m.cmd == "q":
        if r.sock is not None:
            if case["close"] == "fin":
                r.send(case["data"])
            r.close_srv(rst=case["close"] == "rst" and r.settle_net())
        out = b"".join(x + b"\n" for x in cons)
        finish(0, out, b"", bytes(log) + out + stop)
        if len(r.rx) != nreq:
            raise Violation("it sent more than a request: %r" % bytes(r.rx[nreq:]))
        return True, cls | {"listed %s" % ("none" if not cons else "some")}
    if not case["tty"]:
        r.close_srv()
        finish(1, b"", b"ERROR:     Standard Input is not a terminal device\n", bytes(log))
        return True, cls | {"no terminal"}
    # a session that the server ends
    if r.sock is not None:
        r.send(case["data"])
        stream += case["data"]
        r.settle()
        r.close_srv()
    s = CliModel(m.cmd, m.b, [x.decode("latin-1") for x in cons], m.Q, reset, ord(m.esc), host, m.port)
    s.recv(bytes(stream))
    s.status("terminated by server")
    finish(0, bytes(s.out), b"", bytes(log) + bytes(s.log) + stop)
    if len(r.rx) != nreq:
        raise Violation("it sent more than a request: %r" % bytes(r.rx[nreq:]))
    return True, cls | {"session"}
