"""Starts the real daemon on a configuration text and compares everything it is seen to do with the reference interpreter (conf.py)."""
import fcntl, os, re, resource, signal, socket, struct, subprocess, termios, time

from . import build, conf, opts, rig as rigm
from .rig import Client, Inconclusive, IpmiDev, ProcDev, PtyDev, Rig, TelnetDev, UnixDev, Violation, long_time
from .world import Render, info

NOBODY = 65534
_un = []


def unprivileged():
    """Popen arguments that make the daemon run as an unprivileged user, if that is possible here."""
    if not _un:
        kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []}
        try:
            ok = os.geteuid() == 0 and subprocess.run([os.path.join(build.daemon(), "conmand"), "-V"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                                      cwd="/", env={"ASAN_OPTIONS": "detect_leaks=0"}, **kw).returncode == 0
        except OSError:
            ok = False
        _un.append(kw if ok else {})
    return dict(_un[0])


def real(p):
    return os.path.realpath(os.fsdecode(p))


class Skip(Exception):
    """The case would leave the scratch directory or the modelled world."""


BAUD = {getattr(termios, "B%d" % b): b for b in opts.BPS if hasattr(termios, "B%d" % b)}
KINDS = "U T S P I"


class ConfRun:
    """case: {"text": [line, ...]} plus what a check adds.  @U0.. @T0.. @S0.. @P0.. @I0.. @D in the text stand for the devices and the directory."""
    counts = {"U": 3, "T": 2, "S": 2, "P": 2, "I": 2}
    extra_args = ("-v", "-p", "0")
    user = True
    port = 0                # on the command line
    pidarg = None
    ports = ()              # that the configuration may use

    def __init__(self, case):
        self.case = case
        self.rig = Rig(t0=case.get("t0", rigm.T0))
        self.stats = {}

    def hit(self, k, n=1):
        if n:
            self.stats[k] = self.stats.get(k, 0) + n

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.rig.close()

    # -- the world
    def text(self):
        return b"\n".join(self.case["text"]) + self.case.get("tail", b"\n")

    def make(self, text):
        r = self.rig
        self.devs = {}
        for k, n in self.counts.items():
            for i in range(n):
                tok = b"@%s%d" % (k.encode(), i)
                rel = {"U": b"u%d", "S": b"s%d", "P": b"p_p%d"}.get(k)
                if not (tok in text or (rel and rel % i in text) or (k == "I" and b"bmc-i%d" % i in text)):
                    continue
                if k == "U":
                    d = UnixDev(r, "u%d" % i)
                    os.chmod(d.path, 0o777)
                elif k == "T":
                    d = TelnetDev(r, "t%d" % i)
                elif k == "S":
                    d = PtyDev(r, "s%d" % i)
                    os.chmod(d.path, 0o666)
                    d.link = os.path.join(r.dir, "s%d" % i)
                    os.symlink(d.path, d.link)
                elif k == "P":
                    d = ProcDev(r, "p%d" % i)
                    os.chmod(d.path, 0o777)
                    os.chmod(d.page.path, 0o666)
                else:
                    d = IpmiDev(r, "i%d" % i)
                    os.chmod(d.path, 0o777)
                self.devs[(k, i)] = d
        os.chmod(r.dir, 0o777)
        os.chmod(r.page.path, 0o666)
        for k, i in self.devs:
            d = self.devs[(k, i)]
            v = {"U": lambda: d.devstr, "T": lambda: "127.0.0.1:%d" % d.port, "S": lambda: d.link, "P": lambda: d.devstr, "I": lambda: "ipmi:" + d.host}[k]()
            text = text.replace(b"@%s%d" % (k.encode(), i), v.encode())
            if k == "P":
                text = text.replace(b"@C%d" % i, ("%s %s" % (d.path, d.page.path)).encode())
        self.setup()
        for i, p in enumerate(self.ports):
            text = text.replace(b"@L%d" % i, b"%d" % p)
        return text.replace(b"@D", r.dir.encode())

    def setup(self):
        """Files that exist before the start."""
        for d in ("bin", "bin2", "logs"):
            os.mkdir(os.path.join(self.rig.dir, d))
            os.chmod(os.path.join(self.rig.dir, d), 0o777)

    def inside(self, p):
        p = os.path.normpath(os.fsdecode(p))
        return p.startswith(self.rig.dir + "/") and real(p).startswith(self.rig.dir + "/")

    def admissible(self, m):
        """Raises Skip unless everything the model expects stays within the scratch world."""
        own = {"unix": set(), "serial": set(), "process": set()}
        ports = {d.port for d in self.devs.values() if d.kind == "telnet"}
        lines = {real(d.path) for d in self.devs.values() if d.kind == "serial"}
        progs = {real(d.exe) for d in self.devs.values() if d.kind == "process"}
        for c in m.cons:
            if c.kind == "unix" and not self.inside(c.dev):
                raise Skip("unix socket elsewhere")
            if c.kind == "telnet" and not c.dev.startswith(b"vhost") and (not re.fullmatch(rb"127\.0\.0\.\d+|localhost", c.dev) or not (c.port in ports or c.port in (1, 9))):
                raise Skip("telnet elsewhere")
            if c.kind == "serial" and real(c.dev) not in lines:
                raise Skip("other terminal")
            if c.kind == "process" and not (real(c.dev) in progs or self.inside(c.dev)):
                raise Skip("other program")
            if c.kind == "test" and opts.test_effective(c.opts)[1] == 0:
                raise Skip("spinning test console")
            if c.kind == "test" and (c.opts["N"] != -1 and opts.test_effective(c.opts)[1] >= opts.INTMAX):
                raise Skip("overflowing test console")
        seen = set()
        for c, x in m.logs:
            if not self.inside(x):
                raise Skip("log elsewhere")
            if os.fsdecode(x) in self.before or real(x) in seen:
                if os.fsdecode(x) not in getattr(self, "prelogs", ()):
                    raise Skip("log is another file")
            seen.add(real(x))
        if self.bg:
            x = m.s["logfile"] and self.dname(m, 99999, None)
            if x and (not self.inside(x) or os.path.lexists(x) or real(x) in seen or not self.openable(x)):
                raise Skip("daemon log elsewhere")
            seen.add(x)
        for n in ("pidfile",):
            if m.s[n] is not None and (not self.inside(m.s[n]) or os.path.lexists(m.s[n]) or real(m.s[n]) in seen):
                raise Skip("pid file elsewhere")
        if m.s["port"] != 0 and m.s["port"] not in self.ports:
            raise Skip("other port")
        n = m.s["nofile"]
        hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
        if n > hard or 0 < n < 256:
            raise Skip("descriptor limit")

    # -- the run
    def go(self):
        r = self.rig
        text = self.make(self.text())
        self.raw = text
        if b"\0" in text:
            raise Skip("NUL")
        self.before = set(self.files())
        env = conf.Env(r.dir, os.path.join(r.dir, "conf"), self.port, self.pidarg)
        env.now = r.now()
        env.pid = 99999
        self.admissible(conf.Interp(text, env))
        if self.user:
            r.popen = unprivileged()
        if self.bg:
            return self.go_bg(text, env)
        r.start(text, self.extra_args, wait=False)
        self.wait_start()
        env.pid = r.proc.pid
        self.m = m = conf.Interp(text, env)
        self.hit("rejected", m.rejected)
        self.hit("taken", m.taken)
        head, _, _ = self.head()
        want = [self.entry(l, t) for l, t in m.msgs]
        if m.cons:
            want += [b"Configuration: " + r.conf.encode(), b"Options:" + (self.options() or b" None"), b"Monitoring %d console%s" % (len(m.cons), b"" if len(m.cons) == 1 else b"s"), b""]
        self.compare(head, want)
        if b"Unable to bind" in r.stderr() or b"Unable to listen" in r.stderr():
            raise Inconclusive("the port is in use")
        if not m.cons:
            if r.proc.wait(15) != 1:
                raise Violation("exit status %s without consoles" % r.proc.returncode)
            r.exited = 1
            self.hit("no consoles")
            new = set(self.files()) - self.before - {m.s["pidfile"]}
            if new:
                raise Violation("files %s were created without consoles" % sorted(new))
            return
        r.wait_port()
        r.settle()
        self.wait_peers()
        self.check()
        self.finish()

    @staticmethod
    def free_ports(n):
        """Ports below those used for outgoing connections, free at the moment."""
        out = []
        while len(out) < n:
            p = 20000 + int.from_bytes(os.urandom(4), "big") % 12000
            with socket.socket() as s:
                try:
                    s.bind(("0.0.0.0", p))
                except OSError:
                    continue
            if p not in out:
                out.append(p)
        return out

    bg = False
    dlog = None

    def go_bg(self, text, env):
        """The same in the background, where the settings of the daemon's log matter."""
        r = self.rig
        rigm.subreaper()
        r.conf = r.write_conf(text)
        r.extra_env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:log_path=%s/asan" % r.dir
        r.err = open(r.stderr_path, "ab")
        p = subprocess.Popen([os.path.join(build.daemon(), "conmand"), "-c", r.conf] + list(self.extra_args), stdin=subprocess.DEVNULL, stdout=r.err, stderr=r.err, env=r.env(), cwd=r.dir, start_new_session=True, **r.popen)
        try:
            rc = p.wait(r.START_TMO)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Violation("the daemon did not go to the background")
        if b"Unable to bind" in r.stderr() or b"Unable to listen" in r.stderr():
            raise Inconclusive("the port is in use")
        pid = self.locked(r.conf)
        if pid:
            r.proc = rigm.BgProc(pid)
        env.pid = pid or env.pid
        self.m = m = conf.Interp(text, env)
        self.hit("background")
        want = [self.entry(l, t) for l, t in m.msgs]
        if m.cons:
            want += [b"Configuration: " + r.conf.encode(), b"Options:" + (self.options() or b" None"), b"Monitoring %d console%s" % (len(m.cons), b"" if len(m.cons) == 1 else b"s"), b""]
        if m.cons and m.s["logfile"] is not None and self.dname(m, pid) is None:
            want.append(self.entry("WARNING", b"Unable to open daemon logfile: filename too long"))
            self.hit("daemon log too long")
        got = r.stderr().split(b"\n")[:-1]
        self.compare(got, want)
        if rc != (0 if m.cons else 1) or bool(pid) != bool(m.cons):
            raise Violation("the daemon's parent exited with %d, pid of the daemon %d, %d consoles" % (rc, pid, len(m.cons)))
        if not m.cons:
            self.hit("no consoles")
            return
        r.port = self.listens(pid)
        r.settle()
        self.wait_peers()
        self.dlog = None
        if m.s["logfile"] is not None:
            self.dlog = self.dname(m, pid)
        start = b"Starting ConMan daemon %s (pid %d)\n" % (self.version(), pid)
        t = self.read(self.dlog) if self.dlog else b""
        lv = m.s["level"]
        for pri, tag, msg in ((5, b"NOTICE", start), (6, b"INFO", b"Listening on TCP port %d\n" % r.port), (6, b"INFO", b"Open file limit set to ")):
            n = t.count(long_time(r.now_us()).encode()[:19] + b" " + (tag + b":").ljust(11) + msg)
            if self.dlog and n != (pri <= lv):
                raise Violation("%r is %d times in the daemon's log, whose level is %d: %r" % (msg, n, lv, t[:500]))
        self.tail = t
        self.check()
        self.finish()
        t = self.read(self.dlog) if self.dlog else b""
        if self.dlog and t.count(b"Stopping ConMan daemon %s (pid %d)\n" % (self.version(), pid)) != (lv >= 5):
            raise Violation("the daemon's log ends with %r, its level is %d" % (t[-300:], lv))
        self.hit("daemon log", self.dlog is not None)

    def dname(self, m, pid, limit=1023):
        """Name of the daemon's log, or None if too long."""
        f = m.s["logfile"]
        x = conf.expand(None, f, pid, self.rig.now(), limit if b"%" in f else None)
        return None if x is None else os.fsdecode(x)

    _v = []

    def version(self):
        if not self._v:
            o = subprocess.run([os.path.join(build.daemon(), "conmand"), "-V"], stdout=subprocess.PIPE, env={"ASAN_OPTIONS": "detect_leaks=0"}).stdout
            self._v.append(o.split(b" ")[0].strip().split(b"-", 1)[1])
        return self._v[0]

    def listens(self, pid):
        """The port the process listens on."""
        ps = self.listening(pid)
        if len(ps) != 1:
            raise Violation("the daemon listens on ports %s" % ps)
        return ps[0]

    @staticmethod
    def listening(pid):
        out = []
        inodes = set()
        denied = False
        for f in os.listdir("/proc/%d/fd" % pid):
            try:
                inodes.add(os.readlink("/proc/%d/fd/%s" % (pid, f)))
            except PermissionError:
                denied = True
            except FileNotFoundError:
                pass
        if denied:          # root without the right to look at other users' processes: ask as that user
            o = subprocess.run(["/usr/bin/find", "/proc/%d/fd/" % pid, "-printf", "%l\\n"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               cwd="/", **unprivileged()).stdout.decode("latin-1")
            inodes.update(o.split("\n"))
        with open("/proc/net/tcp") as f:
            for l in f.read().splitlines()[1:]:
                w = l.split()
                if w[3] == "0A" and "socket:[%s]" % w[9] in inodes:
                    out.append(int(w[1].split(":")[1], 16))
        return out

    def wait_start(self):
        r = self.rig
        end = time.monotonic() + r.START_TMO
        while r.proc.poll() is None and b"Open file limit set" not in r.stderr():
            if time.monotonic() > end:
                raise Violation("the daemon does not come up")
            time.sleep(0.002)
        if r.proc.poll() is not None and r.proc.returncode != 1:
            raise Violation("the daemon died (status %s): %s" % (r.proc.returncode, r.crash_text()))

    def head(self):
        t = self.rig.stderr()
        a, sep, b = t.partition(b"NOTICE:    Starting ConMan daemon ")
        return a.split(b"\n")[:-1], sep, b

    @staticmethod
    def entry(level, t):
        return (level.encode() + b":").ljust(11) + t

    def options(self):
        s = self.m.s
        o = b""
        for k, n in (("coredump", b"CoreDump"), ("keepalive", b"KeepAlive"), ("logfile", b"LogFile"), ("loopback", b"LoopBack"), ("resetcmd", b"ResetCmd"), ("syslog", b"SysLog"), ("tcpwrappers", b"TCP-Wrappers")):
            if s[k] not in (None, False):
                o += b" " + n
        if s["timestamp"]:
            o += b" TimeStamp=%dm" % s["timestamp"]
        return o + (b" ZeroLogs" if "-z" in self.extra_args else b"")

    def compare(self, got, want):
        got = [l for l in got if not re.match(rb"INFO: +Console \[.*(unable to register device \".*\" for inotify events|[^ ]{200})", l)]
        for i in range(max(len(got), len(want))):
            g, w = got[i:i + 1], want[i:i + 1]
            if g and w and (g == w or len(w[0]) > 900 and g[0][:900] == w[0][:900]):
                continue
            raise Violation("message %d at start is %r, expected %r" % (i + 1, g[0][:400] if g else None, w[0][:400] if w else None))

    # -- peers
    def dev_of(self, c):
        for (k, i), d in self.devs.items():
            if c.kind == "unix" and k == "U" and real(c.dev) == real(d.path) or c.kind == "telnet" and k == "T" and c.port == d.port \
               or c.kind == "serial" and k == "S" and real(c.dev) == real(d.path) or c.kind == "ipmi" and k == "I" and c.dev == d.host.encode():
                return d
            if c.kind == "process" and k == "P" and c.argv[1:3] == [os.fsencode(d.path), os.fsencode(d.page.path)] and real(c.dev) == real(os.path.join(build.helpers(), "vproc")):
                return d
        return None

    def wait_peers(self):
        self.users = {id(d): [] for d in self.devs.values()}
        for c in self.m.cons:
            c.peer = self.dev_of(c)
            if c.peer is not None:
                self.users[id(c.peer)].append(c)
        end = time.monotonic() + 10
        procs = [d for d in self.devs.values() if d.kind == "process"]
        while any(d.accepted < len(self.users[id(d)]) or self.users[id(d)] and not d.page["magic"] for d in procs) and time.monotonic() < end:
            time.sleep(0.001)
            self.rig.settle()
        self.rig.settle()

    def files(self):
        out = []
        for d, _, fs in os.walk(self.rig.dir):
            out += [os.path.join(d, f) for f in fs]
        return [f for f in out if f not in (self.rig.stderr_path, os.path.join(self.rig.dir, "conf"))]

    def openable(self, x):
        x = os.fsdecode(x)
        parts = x.split("/")
        if any(len(os.fsencode(p)) > 255 for p in parts) or x.endswith("/") or os.path.isdir(x) or len(os.fsencode(x)) > 4000:
            return False
        p = ""
        for c in parts[1:-1]:
            p += "/" + c
            if os.path.lexists(p) and not os.path.isdir(p):
                return False
        return True

    def locked(self, p):
        """pid of the process with a lock on the file, or 0"""
        with open(p, "r+b") as f:
            b = fcntl.fcntl(f, 5, struct.pack("hhqqi4x", fcntl.F_WRLCK, 0, 0, 0, 0))
        t, _, _, _, pid = struct.unpack("hhqqi4x", b)
        return 0 if t == fcntl.F_UNLCK else pid

    held = ()               # logs locked by somebody else

    def check(self):
        r, m = self.rig, self.m
        tail = self.tail if self.bg else self.head()[2]
        # the log files
        self.open_logs, warn = {}, []
        for c, x in m.logs:
            full = self.rig_expand(c)
            if full is None:
                warn.append(b"Unable to open logfile for [" + c.name + b"]: filename exceeded buffer")
            elif not self.openable(full):
                warn.append(b'Unable to open logfile "' + full + b'":')
            elif os.fsdecode(full) in self.held and c.logopts["lock"]:
                warn.append(b'Unable to lock "' + full + b'"')
            else:
                self.open_logs[id(c)] = os.fsdecode(full)
        got = [l[11:] for l in tail.split(b"\n") if l.startswith(b"WARNING:   Unable to ") and b"log" in l or l.startswith(b"WARNING:   Unable to lock \"")]
        if self.bg:
            got = [l[31:] for l in tail.split(b"\n") if l[20:].startswith(b"WARNING:   Unable to ") and b"log" in l or l[20:].startswith(b"WARNING:   Unable to lock \"")]
            if m.s["level"] < 4 or not self.dlog:
                warn = []
        if len(got) != len(warn) or any(not g.startswith(w[:900]) for g, w in zip(got, warn)):
            raise Violation("warnings about logs %r, expected %r" % (got, warn))
        new = set(self.files()) - self.before
        want = {p for p in self.open_logs.values()} - set(getattr(self, "prelogs", ())) | ({m.s["pidfile"]} if m.s["pidfile"] else set()) | ({self.dlog} if self.bg and self.dlog else set())
        norm = lambda s: {real(x) for x in s}
        if norm(new) != norm(want):
            raise Violation("files created: %s, expected: %s" % (sorted(new), sorted(want)))
        for c in m.cons:
            if id(c) in self.open_logs:
                p = self.open_logs[id(c)]
                lk = self.locked(p)
                if p not in self.held and lk != (r.proc.pid if c.logopts["lock"] else 0):
                    raise Violation("console %r: lock on %s held by %d, options %s" % (c.name, p, lk, c.logopts))
                t = self.read(p)
                pre = b"" if "-z" in self.extra_args else getattr(self, "prelogs", {}).get(p, b"")
                e = pre + info(b"Console [" + c.name + b"] log opened at " + long_time(r.now_us()).encode())
                if not t.startswith(e):
                    raise Violation("console %r: log %s begins with %r, expected %r" % (c.name, p, t[:300], e))
        # settings
        if m.s["pidfile"]:
            t = self.read(m.s["pidfile"])
            if t != b"%d\n" % r.proc.pid:
                raise Violation("pid file %r contains %r" % (m.s["pidfile"], t))
        with open("/proc/%d/limits" % r.proc.pid) as f:
            t = f.read()
        lim = {k: re.search(n + r"\s+(\S+)", t).group(1) for k, n in (("nofile", "Max open files"), ("core", "Max core file size"))}
        soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
        n = soft if m.s["nofile"] == 0 else hard if m.s["nofile"] < 0 else m.s["nofile"]
        if (not self.bg or self.dlog and m.s["level"] >= 6) and b"Open file limit set to %d\n" % n not in tail or lim["nofile"] != str(n):
            raise Violation("open file limit is %s, expected %d" % (lim["nofile"], n))
        if (lim["core"] != "0") != bool(m.s["coredump"]):
            raise Violation("core dump limit %s, coredump=%s" % (lim["core"], m.s["coredump"]))
        self.check_listen()
        self.check_devices()
        self.check_clients()

    def rig_expand(self, c):
        e = self.expand_env
        return conf.expand(c, c.log, e.pid, e.now)

    @property
    def expand_env(self):
        class E:
            pid, now = self.rig.proc.pid, self.rig.now()
        return E

    def read(self, p):
        try:
            with open(p, "rb") as f:
                return f.read()
        except OSError as e:
            raise Violation("cannot read %s: %s" % (p, e))

    def check_listen(self):
        want = "0100007F" if self.m.s["loopback"] else "00000000"
        if self.listening(self.rig.proc.pid) != [self.rig.port] or self.m.s["port"] not in (0, self.rig.port):
            raise Violation("listening on ports %s, port=%s" % (self.listening(self.rig.proc.pid), self.m.s["port"]))
        with open("/proc/net/tcp") as f:
            for l in f.read().splitlines()[1:]:
                a, p = l.split()[1].split(":")
                if int(p, 16) == self.rig.port and l.split()[3] == "0A":
                    if a != want:
                        raise Violation("listening on address %s, loopback=%s" % (a, self.m.s["loopback"]))
                    return
        raise Violation("not listening on port %d" % self.rig.port)

    def check_devices(self):
        r = self.rig
        for (k, i), d in self.devs.items():
            us = self.users[id(d)]
            if k != "S" and d.accepted != len(us):
                raise Violation("device %s%d: %d connections, but consoles %r" % (k, i, d.accepted, [c.name for c in us]))
            if k == "I" and us and d.confs[-1] != opts.ipmi_line(us[-1].opts):
                raise Violation("console %r: BMC settings %s, expected %s" % (us[-1].name, d.confs[-1], opts.ipmi_line(us[-1].opts)))
            if k == "S" and len(us) == 1:
                self.check_tty(us[0], d)
            self.hit("device " + k, len(us) > 0)
        # every console writes into its own log
        for n, c in enumerate(self.m.cons):
            d = c.peer
            if d is None or len(self.users[id(d)]) != 1 or d.ep is None:
                continue
            d.ep.take()
            pay = b"<%d mark\x07\xc1>\r\n tail\n\r\n" % n
            d.ep.send(pay)
            r.settle()
            now = r.now_us()
            for c2, x in self.m.logs:
                p = self.open_logs.get(id(c2))
                if p is None:
                    continue
                t = self.read(p)
                rend = Render(c2.logopts["sanitize"], c2.logopts["timestamp"]).feed(pay, now)
                if c2 is c:
                    if t.count(rend) != 1:
                        raise Violation("console %r: log %s ends with %r, expected one %r" % (c.name, p, t[-300:], rend))
                    self.hit("logged")
                elif b"<%d mark" % n in t and real(p) != real(self.open_logs.get(id(c), "-")):
                    raise Violation("output of console %r is in the log of %r (%s)" % (c.name, c2.name, p))

    def calls(self, d):
        dev = os.stat(d.path).st_rdev
        return [t for t in self.rig.page.ttys() if t[0] == dev]

    def check_tty(self, c, d):
        bps, db, par, sb = c.opts
        calls = self.calls(d)
        if len(calls) != 1:
            raise Violation("console %r: terminal settings were changed %d times" % (c.name, len(calls)))
        _, cf, inf, outf, lf, vmin, vtime = calls[0]
        a = termios.tcgetattr(d.slave)
        got = (BAUD.get(a[4]), BAUD.get(a[5])) + ({termios.CS5: 5, termios.CS6: 6, termios.CS7: 7, termios.CS8: 8}[cf & termios.CSIZE], "n" if not cf & termios.PARENB else "o" if cf & termios.PARODD else "e", 2 if cf & termios.CSTOPB else 1)
        if got != (bps, bps, db, par, sb):
            raise Violation("console %r: line set to %s, expected %s" % (c.name, got, c.opts))
        t = termios
        if not cf & t.CLOCAL or not cf & t.CREAD or inf & (t.BRKINT | t.PARMRK | t.ISTRIP | t.INLCR | t.IGNCR | t.ICRNL | t.IXON) or outf & t.OPOST or lf & (t.ECHO | t.ICANON | t.ISIG | t.IEXTEN) or vmin < 1:
            raise Violation("console %r: line not raw: cflag %o iflag %o oflag %o lflag %o min %d" % (c.name, cf, inf, outf, lf, vmin))

    def ask(self, line, tmo=10):
        cl = Client(self.rig)
        self.rig.half_open += 1
        cl.hello()
        end = time.monotonic() + tmo
        while not cl.rx.endswith(b"\n") and not cl.eof and time.monotonic() < end:
            cl.pump()
            time.sleep(0.0005)
        self.rig.settle()
        t = cl.take()
        if t != b"OK\n":
            raise Violation("greeting answered with %r" % t)
        self.rig.half_open -= 1
        cl.send(line)
        self.rig.settle()
        t = cl.take()
        return cl, t

    def check_clients(self):
        cl, t = self.ask(b"QUERY\n")
        got = sorted(m for m in re.findall(rb" CONSOLE='([^']*)'", t.split(b"\n")[0]))
        got = sorted(bytes(x & 127 for x in g) for g in got)
        want = sorted(bytes(x & 127 for x in c.name) for c in self.m.cons)
        if got != want:
            raise Violation("consoles served: %r, expected %r" % (got, want))
        cl.close()
        plain = [c for c in self.m.cons if re.fullmatch(rb"[A-Za-z0-9_ -]+", c.name)]
        if plain:
            c = plain[0]
            cl, t = self.ask(b"MONITOR CONSOLE='" + c.name + b"'\n")
            cl2, t2 = self.ask(b"CONNECT OPTION=JOIN CONSOLE='" + c.name + b"'\n")
            w = b"OK%s CONSOLE='%s'\n" % (b" OPTION=RESET" if self.m.s["resetcmd"] else b"", c.name)
            # only a session with write access is told of the reset command
            if not t2.startswith(w):
                raise Violation("reply %r to a connect request, expected %r" % (t2[:200], w))
            self.check_keepalive(cl2)
            cl.close()
            cl2.close()
            self.rig.settle()

    def check_keepalive(self, cl):
        cl.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
        end = time.monotonic() + 3
        while time.monotonic() < end:
            with open("/proc/net/tcp") as f:
                for l in f.read().splitlines()[1:]:
                    w = l.split()
                    if int(w[1].split(":")[1], 16) == self.rig.port and int(w[2].split(":")[1], 16) == cl.lport:
                        tr = w[5].split(":")[0]
            if tr not in ("01", "04"):
                break
            time.sleep(0.005)
        if (tr == "02") != self.m.s["keepalive"] and tr in ("00", "02"):
            raise Violation("timer %s of a client's connection, keepalive=%s" % (tr, self.m.s["keepalive"]))

    rates = False

    def check_rates(self):
        """Bursts of the test consoles with a log."""
        cs = []
        for c in self.m.cons:
            if c.kind == "test" and id(c) in self.open_logs:
                b, hi, lo, p = opts.test_effective(c.opts)
                if hi >= 40 and b * 100 < 3000000 and p in (0, 100):
                    cs.append((c, b, hi, lo, p))
        if not cs or max(x[2] for x in cs) / max(1, min(x[3] for x in cs)) > 100:
            return
        t0 = {id(c): len(self.read(self.open_logs[id(c)])) for c, _, _, _, _ in cs}
        d = 5 * max(x[2] for x in cs) + 7
        self.rig.advance(d / 1000)
        for c, b, hi, lo, p in cs:
            n = len(self.read(self.open_logs[id(c)])) - t0[id(c)]
            few, many = (0, 0) if p == 0 else ((d // (hi + 2) - 1) * b, (d // max(1, lo) + 2) * b + 40)
            if not few <= n <= many:
                raise Violation("test console %r emitted %d bytes in %d ms, options %s" % (c.name, n, d, c.opts))
            self.hit("rate judged", b > 0)

    def finish(self):
        if self.rates:
            self.check_rates()
        pid = self.m.s["pidfile"]
        rc = self.rig.stop()
        if rc != 0:
            raise Violation("exit status %s: %s" % (rc, self.rig.crash_text()))
        if pid and os.path.exists(pid):
            raise Violation("pid file %s is still there" % pid)


def run(cls, case):
    """Result of a check module's run()"""
    with cls(case) as c:
        try:
            c.go()
        except Skip as e:
            return False, ["skipped: " + str(e)]
        return c.nontrivial(), c.classes()
