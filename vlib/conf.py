"""Reference interpreter of conmand's configuration language (conman.conf(5)), independent of conman's code.

interpret(text, env) gives the consoles, settings and the messages a daemon started with the text must produce.
"""
import os, stat, time
from . import lexer, opts, rig
from .lexer import ERR, EOF, EOL, INT, STR, WORD, KEY, CHR

KEYS = frozenset(b"console coredump coredumpdir dev execpath global ipmiopts keepalive log logdir logfile logopts loopback name nofile off on pidfile port resetcmd seropts server syslog tcpwrappers testopts timestamp".split())
SPACE = b" \t\n\v\f\r"
PRIO = {"emerg": 0, "emergency": 0, "panic": 0, "alert": 1, "crit": 2, "critical": 2, "err": 3, "error": 3, "warn": 4, "warning": 4, "notice": 5, "info": 6, "debug": 7}
FACILITY = frozenset("auth authpriv cron daemon kern lpr mail news user uucp local0 local1 local2 local3 local4 local5 local6 local7".split())


class Con:
    def __init__(self, **k):
        self.log = None         # format of the log's path
        self.logopts = None
        self.__dict__.update(k)


class Bad(Exception):
    def __init__(self, msg):
        self.msg = msg


class Env:
    """The world a configuration is read in."""

    def __init__(self, cwd, fname, port=None, pidfile=None):
        self.cwd, self.fname, self.port, self.pidfile = cwd, fname, port, pidfile
        self.cache = {}

    def stat(self, path):
        """chr, dir, exe, reg or None, when first asked for"""
        if path not in self.cache:
            self.cache[path] = self.stat_(path)
        return self.cache[path]

    def stat_(self, path):
        try:
            m = os.stat(path).st_mode
        except (OSError, ValueError):
            return None
        return "chr" if stat.S_ISCHR(m) else "dir" if stat.S_ISDIR(m) else ("exe" if m & 0o111 else "reg") if stat.S_ISREG(m) else "other"

    def access(self, path):
        return os.access(path, os.R_OK | os.W_OK)

    pid, now = 0, 0     # of the daemon; seconds since the epoch (UTC)

    def expand(self, con, fmt):
        """Expansion of the conversion specifiers for a console, or None if too long."""
        return expand(con, fmt, self.pid, self.now)


def clean(t):
    return bytes(c if 33 <= c <= 126 and c != 47 else 95 for c in t)


def expand(con, fmt, pid, now, limit=1023):
    """con: None in the name of the daemon's own log.  limit: None for no limit"""
    tm = time.gmtime(now + rig.ZONE[1])
    out, i = b"", 0
    while i < len(fmt):
        c = fmt[i:i + 1]
        i += 1
        if c != b"%" or i >= len(fmt):
            out += c
            continue
        s = fmt[i:i + 1]
        i += 1
        if s == b"%":
            out += s
        elif s == b"P":
            out += b"%d" % pid
        elif s == b"s":
            out += b"%d" % now
        elif s in b"dgGHjmMSuUVwWyY":
            out += time.strftime("%" + s.decode(), tm).encode()
        elif s == b"N" and con is not None:
            out += clean(con.name)
        elif s == b"D" and con is not None:
            if con.kind in ("serial", "unix"):
                out += clean(con.dev.rsplit(b"/", 1)[-1])
            elif con.kind == "telnet":
                out += clean(con.dev + b":%d" % con.port)
        else:
            out += b"%" + s
    return out if limit is None or len(out) <= limit else None


def empty(t):
    return not t.strip(SPACE)


def words(t):
    """The device string's arguments as (word, quote character or None), and whether it is well-formed."""
    out, i, n = [], 0, len(t)
    while True:
        while i < n and t[i] in SPACE:
            i += 1
        if i >= n:
            return out, True
        if t[i] in b"'\"":
            j = i + 1
            while j < n and not (t[j] == t[i] and (j + 1 == n or t[j + 1] in SPACE)):
                j += 1
            if j < n:
                out.append((t[i + 1:j], t[i]))
                i = j + 1
                continue
            return out, False
        j = i
        while j < n and t[j] not in SPACE:
            j += 1
        out.append((t[i:j], None))
        i = j


class Interp:
    def __init__(self, text, env):
        self.env = env
        self.msgs = []                  # ("ERROR" / "WARNING", text)
        self.cons = []
        self.logs = []                  # (console, expanded name)
        self.g = {"log": None, "logopts": dict(opts.LOG0), "seropts": opts.SER0, "ipmiopts": dict(opts.IPMI0), "testopts": dict(opts.TEST0)}
        self.s = {"coredump": False, "coredumpdir": None, "execpath": None, "keepalive": True, "logdir": env.cwd, "logfile": None, "level": 6, "loopback": True, "nofile": 0,
                  "pidfile": env.pidfile, "port": env.port, "resetcmd": None, "syslog": None, "tcpwrappers": False, "timestamp": 0}
        self.toks = lexer.tokens(text, KEYS)
        self.i = 0
        self.rejected = 0
        self.taken = 0
        while True:
            t = self.next()
            if t.k == EOF:
                break
            if t.key(b"console"):
                self.directive(self.console)
            elif t.key(b"global"):
                self.directive(self.glob)
            elif t.key(b"server"):
                self.directive(self.server)
            elif t.k == EOL:
                pass
            elif t.k == ERR:
                self.error(b"unmatched quote")
            else:
                self.error(b"unrecognized token '" + t.t + b"'")
                self.skip()
        if self.s["port"] is None:
            self.s["port"] = 7890
        if not self.cons:
            self.msgs.append(("ERROR", b'Configuration "' + os.fsencode(env.fname) + b'" has no consoles defined'))

    def next(self):
        t = self.toks[self.i]
        if t.k != EOF:
            self.i += 1
        self.last = t
        return t

    def skip(self):
        while self.last.k not in (EOL, EOF):
            self.next()

    def error(self, msg):
        self.rejected += 1
        self.msgs.append(("ERROR", b"CONFIG[" + os.fsencode(self.env.fname) + b":%d]: " % self.last.line + msg))

    def warn(self, msgs):
        self.msgs += [("WARNING", m) for m in msgs]

    def directive(self, f):
        name = self.last.t.upper()
        try:
            f(name)
            self.taken += 1
        except Bad as e:
            self.error(e.msg)
            self.skip()

    def eq(self, k, bug=b"expected"):
        t = self.next()
        if not (t.k == CHR and t.t == b"="):
            raise Bad(bug + b" '=' after " + k + b" keyword")

    def string(self, k, nonempty=True):
        t = self.next()
        if not t.isstr() or nonempty and empty(t.t):
            raise Bad(b"expected STRING for " + k + b" value")
        return t.t

    def onoff(self, k):
        t = self.next()
        if t.key(b"on") or t.key(b"off"):
            return t.key(b"on")
        raise Bad(b"expected ON or OFF for " + k + b" value")

    def integer(self, k):
        t = self.next()
        if t.k != INT:
            raise Bad(b"expected INTEGER for " + k + b" value")
        return opts.atoi(t.t)

    def end(self, t):
        """True at the end of the directive; otherwise the token cannot stand here."""
        if t.k in (EOL, EOF):
            return True
        raise Bad(b"unmatched quote" if t.k == ERR else b"unrecognized token '" + t.t + b"'")

    # -- console
    def console(self, directive):
        c = {}
        while True:
            t = self.next()
            k = t.t.upper()
            if t.k == KEY and k in (b"NAME", b"DEV", b"LOGOPTS", b"SEROPTS"):
                self.eq(k)
                c[k] = self.string(k)
            elif t.k == KEY and k in (b"IPMIOPTS", b"TESTOPTS"):
                self.eq(k, b"unexpected")
                c[k] = self.string(k, False)
            elif t.k == KEY and k == b"LOG":
                self.eq(k)
                v = self.string(k, False)
                if b"&" in v:
                    raise Bad(b"ignoring " + directive + b" LOG value with deprecated '&' -- use '%N'")
                c[k] = b"" if empty(v) else v if v[:1] == b"/" else os.fsencode(self.s["logdir"]) + b"/" + v
            elif self.end(t):
                break
        if b"NAME" not in c or b"DEV" not in c:
            raise Bad(b"incomplete " + directive + b" directive")
        self.add(c)

    def add(self, c):
        name = c[b"NAME"]
        who = b"console [" + name + b"] "
        ws, good = words(c[b"DEV"])
        args = []
        for w, q in ws:
            if q != 39:
                w = w.replace(b"%N", name)
                if len(w) >= 1024:
                    raise Bad(who + b"dev string substitution failed")
            args.append(w)
        if not good:
            raise Bad(who + b"dev string parse error")
        if not args:
            raise Bad(who + b"dev string is empty")
        a, cwd = args[0], os.fsencode(self.env.cwd)
        absol = lambda p: p if p[:1] == b"/" else cwd + b"/" + p
        many = lambda: len(args) != 1 and self._raise(who + b"dev string has too many args")
        con = None
        if a[:5].lower() == b"unix:" and len(a) > 5:
            many()
            p = absol(a[5:])
            if len(p) > 107:
                raise Bad(who + b"exceeds maximum device length of 107 bytes")
            self.dup(who, name, "unix", p, b"device")
            con = Con(name=name, kind="unix", dev=p)
        elif self.telnet(a):
            many()
            host, port = self.telnet(a)
            if not 0 < port < 65536:
                raise Bad(who + b'specifies invalid port "%d"' % port)
            self.dup(who, name)
            con = Con(name=name, kind="telnet", dev=host, port=port)
        elif self.env.stat(absol(a)) == "chr":
            many()
            p = absol(a)
            if not self.env.access(p):
                raise Bad(who + b'device "' + p + b'" is not readable/writable')
            so = self.g["seropts"]
            if b"SEROPTS" in c:
                so = self.opt(opts.serial(c[b"SEROPTS"], so))
            self.dup(who, name, "serial", p, b"device")
            con = Con(name=name, kind="serial", dev=p, opts=so)
        elif self.prog(a):
            self.dup(who, name)
            con = Con(name=name, kind="process", dev=self.prog(a), argv=[self.prog(a)] + args[1:])
        elif a[:5].lower() == b"ipmi:" and len(a) > 5:
            many()
            io = self.g["ipmiopts"]
            if b"IPMIOPTS" in c:
                io = self.opt(opts.ipmi(c[b"IPMIOPTS"], io))
            self.dup(who, name, "ipmi", a[5:], b"hostname")
            con = Con(name=name, kind="ipmi", dev=a[5:], opts=io)
        elif a.lower() == b"test:":
            many()
            to = self.g["testopts"]
            if b"TESTOPTS" in c:
                to = self.opt(opts.test(c[b"TESTOPTS"], to))
            self.dup(who, name)
            con = Con(name=name, kind="test", dev=b"", opts=to)
        else:
            raise Bad(who + b'device "' + a + b'" type unrecognized')
        self.cons.append(con)
        con.globlog = self.g["log"]
        con.ownlog = c.get(b"LOG")
        log = c.get(b"LOG")
        if log is None and self.g["log"] is not None:
            log = self.g["log"] if self.g["log"][:1] == b"/" else os.fsencode(self.s["logdir"]) + b"/" + self.g["log"]
        if log:
            if len(log) >= 1024:
                raise Bad(who + b"log name exceeds maximum length")
            lo = self.g["logopts"]
            if b"LOGOPTS" in c:
                lo, _, w = opts.log(c[b"LOGOPTS"], lo)
                self.warn(w)
            x = self.env.expand(con, log)
            for other, y in self.logs:
                if y == (log if x is None else x):
                    raise Bad(b"console [" + other.name + b'] already logging to "' + y + b'"')
            con.log, con.logopts = log, lo
            self.logs.append((con, log if x is None else x))

    def _raise(self, m):
        raise Bad(m)

    def opt(self, r):
        if r[0] is None:
            raise Bad(r[1])
        return r[0]

    def dup(self, who, name, kind=None, dev=None, what=None):
        for c in self.cons:
            if c.name == name:
                raise Bad(who + b"specifies duplicate console name")
            if kind is not None and c.kind == kind and c.dev == dev:
                raise Bad(who + b"specifies duplicate " + what + b' "' + dev + b'"')

    def telnet(self, a):
        h, sep, p = a.partition(b":")
        return (h, opts.atoi(p)) if sep and p and all(x in lexer.DIGIT for x in p) else None

    def prog(self, a):
        cwd = os.fsencode(self.env.cwd)
        absol = lambda p: p if p[:1] == b"/" else cwd + b"/" + p
        dev = None
        if b"/" not in a and self.s["execpath"] is not None:
            for d in self.s["execpath"].split(b":"):
                if d != b"" and self.env.stat(absol(d)) == "dir" and self.env.stat(absol(d + b"/" + a)) in ("exe", "dir"):
                    dev = absol(d + b"/" + a)
                    break
        if dev is None:
            dev = absol(a)
        return dev if self.env.stat(absol(dev)) == "exe" else None

    # -- global
    def glob(self, directive):
        while True:
            t = self.next()
            k = t.t.upper()
            if t.k == KEY and k == b"LOG":
                self.eq(k)
                v = self.string(k, False)
                if empty(v):
                    self.g["log"] = None
                elif b"&" in v:
                    raise Bad(b"ignoring " + directive + b" LOG value with deprecated '&' -- use '%N'")
                elif b"%N" not in v and b"%D" not in v:
                    raise Bad(b"ignoring " + directive + b" LOG value without '%N' or '%D'")
                else:
                    self.g["log"] = v
            elif t.k == KEY and k == b"LOGOPTS":
                self.eq(k)
                self.g["logopts"], _, w = opts.log(self.string(k), self.g["logopts"])
                self.warn(w)
            elif t.k == KEY and k in (b"SEROPTS", b"IPMIOPTS", b"TESTOPTS"):
                self.eq(k)
                f = {b"S": opts.serial, b"I": opts.ipmi, b"T": opts.test}[k[:1]]
                n = k.decode().lower()
                self.g[n] = self.opt(f(self.string(k), self.g[n]))
            elif self.end(t):
                return

    # -- server
    def server(self, directive):
        s, cwd = self.s, self.env.cwd
        absol = lambda v: v if v[:1] == b"/" else os.fsencode(cwd) + b"/" + v
        while True:
            t = self.next()
            k = t.t.upper()
            n = k.decode("latin-1").lower()
            if t.k != KEY or n in ("console", "dev", "global", "ipmiopts", "log", "logopts", "name", "off", "on", "seropts", "server", "testopts"):
                if self.end(t):
                    return
            self.eq(k)
            if n in ("coredump", "keepalive", "loopback", "tcpwrappers"):
                s[n] = self.onoff(k)
            elif n == "coredumpdir":
                v = self.string(k, False)
                if empty(v):
                    s[n] = None
                elif self.env.stat(absol(v)) is None:
                    raise Bad(b'cannot stat ' + k + b' "' + v + b'"')
                elif self.env.stat(absol(v)) != "dir":
                    raise Bad(b'invalid ' + k + b' "' + v + b'" not a directory')
                else:
                    s[n] = absol(v).rstrip(b"/") or b"/"
            elif n == "execpath":
                v = self.string(k, False)
                s[n] = None if empty(v) else v
            elif n == "logdir":
                v = self.string(k, False)
                s[n] = cwd if empty(v) else os.fsdecode(absol(v))
            elif n == "logfile":
                v = self.string(k)
                f, sep, p = v.rpartition(b",")
                if sep:
                    l = PRIO.get(p.lstrip(SPACE).lower().decode("latin-1"))
                    if l is None:
                        raise Bad(b"invalid LOGFILE priority \"" + p + b'"')
                    s["level"], v = l, f
                s[n] = v if v[:1] == b"/" else os.fsencode(s["logdir"]) + b"/" + v
            elif n == "nofile":
                s[n] = self.integer(k)
            elif n == "pidfile":
                v = self.string(k)
                if self.env.pidfile is None:
                    s[n] = os.fsdecode(absol(v))
            elif n == "port":
                v = self.integer(k)
                if not 0 <= v < 65536:
                    raise Bad(b"invalid PORT value %d" % v)
                if self.env.port is None:
                    s[n] = v
            elif n == "resetcmd":
                v = self.string(k)
                if b"&" in v:
                    raise Bad(b"ignoring " + directive + b" RESETCMD value with deprecated '&' -- use '%N'")
                s[n] = v
            elif n == "syslog":
                v = self.string(k)
                if v.lstrip(SPACE).lower().decode("latin-1") not in FACILITY:
                    raise Bad(b'invalid SYSLOG facility "' + v + b'"')
                s[n] = v
            elif n == "timestamp":
                v = self.integer(k)
                if v < 0:
                    raise Bad(b"invalid TIMESTAMP value %d" % v)
                t = self.next()
                if t.k in (EOL, EOF):
                    s[n] = v
                    return
                u = {b"m": 1, b"h": 60, b"d": 1440}.get(t.t.lower()) if t.isstr() else None
                if u is None or v * u > opts.INTMAX:
                    raise Bad(b"expected (m|d|h) qualifier for TIMESTAMP value")
                s[n] = v * u
