"""C23: the daemon's log. log.c is fuzzed against a model; generated histories of a daemon are compared with the messages they must log."""
import fcntl, os, random, re, resource, shutil, socket, subprocess, time
from hypothesis import strategies as st
from vlib import build, confrun, fuzzrun
from vlib import rig as rigm
from vlib.rig import Client, Inconclusive, ProcDev, Rig, TelnetDev, UnixDev, Violation
from .c01 import ASSUMPTIONS

ID = "C23"
FUZZ = ["log"]
N = {"quick": 2000, "thorough": 40000}
RULE = ("(1) Sequences of calls of log.c (all formats, lengths, error numbers, priorities, files, failing writes, syslog, the error pipe) fuzzed against a model in C++. "
        "(2) Histories of 2-20 steps of a daemon in the background whose log has a generated level: clients with generated names (control characters, newlines, percent signs, up to 1023 bytes) that query, connect, monitor, broadcast, are refused, send invalid escapes, suspend, leave or vanish; hang-ups of consoles; SIGHUP, also with the log moved away; time passing; end by SIGTERM or a fatal signal. "
        "Judged: the log, line by line, against the model's messages at or above the level (timestamp, tag, text, bound, order of the steps). "
        "(3) Starts that fail: no or unreadable configuration, no consoles, port in use, configuration in use, long names, few descriptors (3-24), in the foreground and background. Judged: exit status 1 with exactly one terminated error message and no process left, or 0 with a daemon running. With a syslog facility (a stand-in records it), what is sent there is compared with the log and the model. "
        "Non-trivial: a message logged and one suppressed, a bounded message, or a failed start.")
TECH = "property-based testing: coverage-guided fuzzing of log.c against a model, and generated histories of the daemon compared with a reference model of its log"
NOTE = "Exploration. Messages that the history does not determine (when a console comes back) are optional in the model."
LEVELS = ["emerg", "panic", "alert", "crit", "err", "error", "warn", "warning", "notice", "info", "debug", "DEBUG", "Notice", None]
PRIO = {"emerg": 0, "panic": 0, "alert": 1, "crit": 2, "err": 3, "error": 3, "warn": 4, "warning": 4, "notice": 5, "info": 6, "debug": 7, None: 6}
FAC = dict({"user": 1, "mail": 2, "daemon": 3, "auth": 4, "lpr": 6, "news": 7, "uucp": 8, "cron": 9, "authpriv": 10}, **{"local%d" % i: 16 + i for i in range(8)})
TAG = {3: b"ERROR", 4: b"WARNING", 5: b"NOTICE", 6: b"INFO", 7: b"DEBUG"}

_user = st.one_of(st.sampled_from([b"u", b"root", b"a b", b"%s%n%d", b"x\ny", b"\n", b"a\n2020-09-13 12:26:40 ERROR:     forged", b"\x01\x1b[2J", b"'q\"", b"tail\n"]),
                  st.binary(min_size=1, max_size=12).map(lambda b: bytes(c & 127 or 65 for c in b)),
                  st.sampled_from([900, 930, 950, 960, 965, 970, 975, 980, 985, 990, 1000, 1022]).flatmap(lambda n: st.integers(0, 12).map(lambda k: b"q" * (n + k if n < 1010 else n))))
_cons = st.sampled_from([b"c0", b"c1", b"c2", b"c*", b"none", b"?"])
_op = st.one_of(
    st.tuples(st.just("req"), _user, st.sampled_from(["QUERY", "MONITOR", "CONNECT", "CONNECT", "CONNECT"]), _cons, st.sampled_from([[], [], ["FORCE"], ["JOIN"], ["BROADCAST"], ["BROADCAST", "JOIN"]])).map(list),
    st.tuples(st.just("req"), _user, st.sampled_from(["MONITOR", "CONNECT"]), st.sampled_from([b"c0", b"c1", b"c2"]), st.sampled_from([[], ["JOIN"]])).map(list),
    st.tuples(st.just("esc"), st.integers(0, 9), st.lists(st.sampled_from([b"X", b"\n", b"%", b"\x80", b"0", b"Z", b"Z", b"R", b"\0", b"\r"]), min_size=1, max_size=4)).map(list),
    st.tuples(st.just("leave"), st.integers(0, 9)).map(list),
    st.tuples(st.just("half"), st.booleans()).map(list),
    st.tuples(st.just("hang"), st.integers(0, 2)).map(list),
    st.just(["hup"]), st.just(["move"]), st.just(["rm"]),
    st.tuples(st.just("time"), st.sampled_from([1, 7, 61, 3600, 90000])).map(list))


def strategy(tier):
    run = st.fixed_dictionaries({"level": st.sampled_from(LEVELS), "zero": st.booleans(), "ops": st.lists(_op, min_size=2, max_size=20), "end": st.sampled_from(["TERM", "TERM", "INT", "QUIT", "ABRT", "FPE"]),
                                 "core": st.sampled_from([None, None, "dir", "gone"]),
                                 "syslog": st.one_of(st.none(), st.sampled_from(sorted(FAC)), st.sampled_from(sorted(FAC)).map(str.upper))})
    fatal = st.fixed_dictionaries({"fatal": st.sampled_from(["missing", "dir", "denied", "empty", "nocons", "port", "use", "long", "fds", "fds", "fds", "args"]), "n": st.integers(0, 4200), "fg": st.booleans()})
    return st.one_of(run, run, fatal)


def text(r, case, devs):
    l = "server logdir=\"%s\"\nserver loopback=on\nserver execpath=\"/\"\nserver logfile=\"daemon.log%s\"\n" % (r.dir, "" if case["level"] is None else "," + case["level"])
    if case["core"]:
        l += "server coredump=on\nserver coredumpdir=\"%s/core\"\n" % r.dir
    if case.get("syslog"):
        l += "server syslog=%s\n" % case["syslog"]
    return l + "".join("console name=\"c%d\" dev=\"%s\" log=\"log%d\"\n" % (i, d.devstr, i) for i, d in enumerate(devs))


class Run:
    def __init__(self, case):
        self.case, self.stats = case, {}
        self.r = r = Rig()
        self.un = confrun.unprivileged()
        r.popen = self.un
        self.devs = [UnixDev(r, "u0"), TelnetDev(r, "t0"), ProcDev(r, "p0")]
        for p in (self.devs[0].path, self.devs[2].path, r.dir):
            os.chmod(p, 0o777)
        for p in (self.devs[2].page.path, r.page.path):
            os.chmod(p, 0o666)
        self.level = PRIO[case["level"] and case["level"].lower()]
        self.log = r.dir + "/daemon.log"
        self.parts, self.sess, self.n = [], [], 0
        self.lines = 0
        self.wanted, self.all = [], []

    def hit(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def read(self):
        out = b""
        for p in self.parts + [self.log]:
            if isinstance(p, int):
                out += os.pread(p, 1 << 24, 0)
            else:
                try:
                    with open(p, "rb") as f:
                        out += f.read()
                except OSError as e:
                    raise Violation("the daemon's log: %s" % e)
        return out

    def stamp(self):
        t = rigm.long_time(self.r.now_us()).encode()[:19]
        return t

    def judge(self, want, optional=(), what="", where=None):
        """The new lines are those wanted, in order where the order is determined."""
        t = self.read()
        new = t[self.lines:]
        self.lines = len(t)
        if new and not new.endswith(b"\n"):
            raise Violation("after %s: the log ends within a line: %r" % (what, new[-300:]))
        got = new.split(b"\n")[:-1]
        for g in got:
            if len(g) > 1023:
                raise Violation("after %s: a line of %d bytes" % (what, len(g)))
        got = [re.sub(rb"@127\.0\.0\.1:", b"@localhost:", g) for g in got]
        rest = list(got)
        exp = []
        for pri, msg in want:
            self.wanted.append((pri, msg.replace(b"\n", b"?")))
            if pri > self.level:
                self.hit("suppressed")
                continue
            exp.append(TAG[pri].__add__(b":").ljust(11) + msg.replace(b"\n", b"?"))
        stamps = where or {self.stamp()}
        for g in got:
            m = re.match(rb"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) (?:EMERGENCY|ALERT|CRITICAL|ERROR|WARNING|NOTICE|INFO|DEBUG): +", g)
            if not m:
                raise Violation("after %s: %r is not a message; the log's new part is %r" % (what, g, new[:3000]))
            if m.group(1) not in stamps and where is None:
                raise Violation("after %s: %r is dated wrongly, the time is %s" % (what, g, self.stamp()))
        body = [g[20:] for g in got]
        self.all += body
        # every wanted message in order; what is left must be optional
        left = list(body)
        order = []
        for e in exp:
            for k, b in enumerate(left):
                if b is not None and self.same(b, e):
                    left[k] = None
                    order.append(k)
                    self.hit("logged")
                    if len(e) > 980:
                        self.hit("bounded")
                    break
            else:
                raise Violation("after %s (level %d): %r is not in the log; new lines: %r" % (what, self.level, e, body))
        for b in left:
            if b is None:
                continue
            m = re.match(rb"(\w+): +(.*)$", b, re.S)
            pri = {v: k for k, v in TAG.items()}.get(m.group(1), 0)
            if pri > self.level:
                raise Violation("after %s: %r is in the log, whose level is %d" % (what, b, self.level))
            if not any(self.same(m.group(2), o[1], 11) if isinstance(o, tuple) else re.fullmatch(o, m.group(2)) for o in list(optional) + self.late):
                raise Violation("after %s (level %d): unexpected line %r in the log; new lines: %.1500r" % (what, self.level, b, body))
        return order

    @staticmethod
    def same(b, e, pre=0):
        if len(e) + pre + 20 <= 1000:
            return b == e
        # the message is bounded
        return len(b) + pre >= 960 and e.startswith(b) if len(b) < len(e) else b == e

    def ordered(self, want, what, optional=()):
        o = self.judge(want, optional, what)
        if o != sorted(o):
            raise Violation("after %s: messages are out of order: %r" % (what, want))

    BACK = [rb"Console \[c\d\] connected to .*"]

    def start(self):
        r, case = self.r, self.case
        if case["zero"]:
            with open(self.log, "wb") as f:
                f.write(b"old\n")
            os.chmod(self.log, 0o666)
        if case["core"] == "dir" or case["core"] == "gone":
            os.mkdir(r.dir + "/core")
            os.chmod(r.dir + "/core", 0o777)
        rigm.subreaper()
        r.conf = r.write_conf(text(r, case, self.devs))
        r.extra_env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:handle_sigfpe=0:log_path=%s/asan" % r.dir
        r.extra_env["SHIM_SYSLOG"] = r.dir + "/syslog"
        r.err = open(r.stderr_path, "ab")
        p = subprocess.Popen([os.path.join(build.daemon(), "conmand"), "-c", r.conf, "-p", "0"] + (["-z"] if case["zero"] else []), stdin=subprocess.DEVNULL, stdout=r.err, stderr=r.err, env=r.env(), cwd=r.dir, start_new_session=True, **self.un)
        try:
            rc = p.wait(r.START_TMO)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Violation("the daemon did not go to the background")
        pid = confrun.ConfRun.locked(self, r.conf)
        if rc != 0 or not pid:
            raise Violation("the daemon did not start (status %d, pid %d): %r" % (rc, pid, r.stderr()[:2000]))
        if r.stderr():
            raise Violation("errors of a good start: %r" % r.stderr()[:1000])
        r.proc = rigm.BgProc(pid)
        end = time.monotonic() + 10
        while True:
            ps = confrun.ConfRun.listening(pid)
            if ps:
                break
            if time.monotonic() > end or r.proc.poll() is not None:
                raise Violation("the daemon does not listen")
            time.sleep(0.002)
        r.port = ps[0]
        r.settle()
        soft = resource.getrlimit(resource.RLIMIT_NOFILE)[0]
        v = confrun.ConfRun.version(confrun.ConfRun)
        self.judge([(5, b"Starting ConMan daemon %s (pid %d)" % (v, pid)), (6, b"Listening on TCP port %d" % r.port), (6, b"Open file limit set to %d" % soft)], self.BACK, "the start")
        self.v = v

    def ident(self, s):
        return b"%s@localhost:%d" % (s["user"], s["c"].lport)

    def step(self, op):
        r = self.r
        k = op[0]
        live = [s for s in self.sess if not s["gone"]]
        if k == "req":
            self.request(*op[1:])
        elif k == "half":
            c = Client(r)
            r.half_open += 1
            r.settle()
            r.half_open -= 1
            if op[1]:
                c.send(b"HELLO USER=")
            p = c.lport
            c.close()
            r.settle()
            t = self.read()[self.lines:]
            m = re.search(rb"<(localhost|127\.0\.0\.1):%d>" % p, t)
            self.ordered([(5, b"Client <unknown@localhost:%d> request failed: Invalid greeting: no user specified" % p if op[1] else b"Connection terminated by <%s:%d>" % (m.group(1) if m else b"localhost", p))], "a connection without a greeting")
        elif k == "esc" and live:
            s = live[op[1] % len(live)]
            want = []
            for b in op[2]:
                if b == b"Z":
                    s["susp"] = not s["susp"]
                    want.append((6, b"Client <%s> %s" % (self.ident(s), b"suspended" if s["susp"] else b"resumed")))
                elif b == b"R":
                    pass
                elif b != b"\0":        # ends the text of the message
                    want.append((4, b"Received invalid escape '%s' from %s" % (b, self.ident(s))))
                if b != b"\0":
                    s["c"].send(b"\xff" + b)
                    r.settle()
                    s["c"].take()
            self.ordered(want, "escapes %r" % op[2])
        elif k == "leave" and live:
            s = live[op[1] % len(live)]
            s["c"].close()
            s["gone"] = True
            r.settle()
            if s["susp"]:           # noticed when it is resumed or the daemon ends
                s["maybe"] = True
                self.judge([], [("lit", b"Client <%s> disconnected" % self.ident(s).replace(b"\n", b"?"))], "the end of a suspended client")
            else:
                self.ordered([(6, b"Client <%s> disconnected" % self.ident(s))], "the end of a client")
        elif k == "hang":
            d = self.devs[op[1]]
            if d.ep is None or d.ep.eof:
                return
            d.hangup()
            r.settle()
            i = op[1]
            self.late = self.late + [rb"Console \[c%d\] disconnected from .*" % i]
            self.judge([], [rb"Console \[c%d\] disconnected from .*" % i, rb"Unable to (read from|write to) \[c%d\].*" % i] + self.BACK, "a hang-up of c%d" % i)
        elif k in ("hup", "move", "rm"):
            if k == "move":
                self.n += 1
                os.rename(self.log, self.log + ".%d" % self.n)
                self.parts.append(self.log + ".%d" % self.n)
            elif k == "rm":
                fd = os.open(self.log, os.O_RDONLY)
                os.unlink(self.log)
                self.parts.append(fd)
                self.fds.append(fd)
            n = len(self.parts)
            t0 = self.lines
            os.kill(r.proc.pid, 1)
            end = time.monotonic() + 8
            while True:
                r.pump()
                time.sleep(0.001)
                if all(re.search(rb"log opened", x) for x in [b"log opened"]) and self.reopened():
                    break
                if time.monotonic() > end:
                    raise Violation("the logs are not reopened on SIGHUP")
            r.settle()
            self.ordered([(5, b"Performing reconfig on signal=1")], "SIGHUP")
            self.hit(k)
        elif k == "time":
            r.advance(op[1])
            self.judge([], self.BACK + [rb"Console \[c\d\] disconnected from .*", rb"Unable to connect.*"], "time", where={1})

    late = []               # may still be noticed
    fds = None
    nopen = 0

    def reopened(self):
        """A further notice in the console's log, and the daemon's log exists."""
        with open(self.r.dir + "/log0", "rb") as f:
            n = f.read().count(b"Console [c0] log opened at")
        if n > self.nopen and os.path.exists(self.log):
            self.nopen = n
            return True
        return False

    def request(self, user, cmd, cons, opts):
        r = self.r
        c = Client(r)
        r.half_open += 1
        c.hello(user)
        end = time.monotonic() + 10
        while not c.rx.endswith(b"\n") and not c.eof and time.monotonic() < end:
            c.pump()
            time.sleep(0.0005)
        r.settle()
        if c.take() != b"OK\n":
            raise Violation("greeting of user %r refused" % user)
        r.half_open -= 1
        c.request(cmd.encode(), [cons], [o.encode() for o in opts])
        end = time.monotonic() + 10
        while b"\n" not in c.rx and not c.eof and time.monotonic() < end:
            c.pump()
            time.sleep(0.0005)
        r.settle()
        t = c.take()
        s = {"c": c, "user": user, "gone": False, "susp": False, "ro": cmd == "MONITOR"}
        m = re.match(rb"ERROR CODE=\d+ MESSAGE='([^']*)'\n", t)
        names = re.findall(rb" CONSOLE='([^']*)'", t.split(b"\n")[0])
        u = self.ident(s)
        opt = []
        if m:
            want = [(5, b"Client <%s> request failed: %s" % (u, bytes(x & 127 for x in m.group(1))))]
            self.hit("refused")
        elif not t.startswith(b"OK"):
            raise Violation("reply %r" % t[:200])
        elif cmd == "QUERY":
            want = [(6, b"Client <%s> issued query" % u)]
        elif len(names) == 1 and not (cmd == "CONNECT" and "BROADCAST" in opts and len(names) > 1):
            want = [(6, b"Client <%s> connected to [%s]%s" % (u, names[0], b" (read-only)" if cmd == "MONITOR" else b""))]
        else:
            want = [(6, b"Client <%s> connected to %d consoles (broadcast)" % (u, len(names)))]
        if not m and cmd != "QUERY":
            self.sess.append(s)
            # a client whose consoles were all taken over by force is told and dropped when it has none left
            opt = [("lit", b"Client <%s> disconnected" % self.ident(x).replace(b"\n", b"?")) for x in self.sess]
        opt += self.BACK
        o = self.judge(want, opt, "%s %r %r by %r" % (cmd, cons, opts, user))
        for x in self.sess:
            x["c"].pump()
            if x["c"].eof and not x["gone"]:
                x["gone"] = True

    def go(self):
        self.fds = []
        self.start()
        self.nopen = open(self.r.dir + "/log0", "rb").read().count(b"Console [c0] log opened at")
        for op in self.case["ops"]:
            self.step(op)
        self.finish()

    def finish(self):
        import signal
        r = self.r
        if self.case["core"] == "gone":
            os.rmdir(r.dir + "/core")
        sig = getattr(signal, "SIG" + self.case["end"])
        rc = r.stop(sig)
        t = self.read()
        live = [(6, b"Client <%s> disconnected" % self.ident(s)) for s in self.sess if not s["gone"]]
        opt = [rb"Client <.*", rb"Destroying \[.*", rb"Flushed .*", rb"Unable to close.*"]
        if sig in (2, 15):
            want = [(5, b"Exiting on signal=%d" % sig)] + live
            if rc != 0:
                raise Violation("exit status %d" % rc)
            o = self.judge(want + [(5, b"Stopping ConMan daemon %s (pid %d)" % (self.v, r.proc.pid))], opt, "the end")
        else:
            d = (r.dir + "/core").encode()
            want = [(3, b"Terminating on signal=%d (check \"%s\" for core)" % (sig, d) if self.case["core"] else b"Terminating on signal=%d" % sig)]
            if self.case["core"] == "gone":
                want.append((3, b"Unable to change directory to coredumpdir \"%s\": No such file or directory" % d))
            if rc != -sig:
                raise Violation("the daemon ended with status %d on signal %d" % (rc, sig))
            self.ordered(want, "signal %d" % sig)
        self.hit("end by " + self.case["end"])
        self.syslog()

    def syslog(self):
        """What was sent to the system's log."""
        try:
            with open(self.r.dir + "/syslog", "rb") as f:
                got = f.read().split(b"\n")[:-1]
        except OSError:
            got = []
        name = self.case.get("syslog")
        if not name:
            if got:
                raise Violation("no syslog is configured, but it was used: %r" % got[:5])
            return
        o = [g for g in got if not g.startswith(b"S ")]
        if o != [b"O conmand 9 %d" % (FAC[name.lower()] << 3)] or got[0] != o[0]:       # LOG_PID | LOG_NDELAY
            raise Violation("syslog=%s: the system's log was opened by %r" % (name, o))
        msgs = []
        for g in got[1:]:
            m = re.match(rb"S (\d+) (.*)$", g, re.S)
            msgs.append((int(m.group(1)), re.sub(rb"@127\.0\.0\.1:", b"@localhost:", m.group(2))))
        short = sorted(TAG[p] + b":".ljust(11 - len(TAG[p])) + t for p, t in msgs if p <= self.level)
        if short != sorted(self.all):
            a, b = [x for x in short if x not in self.all], [x for x in self.all if x not in short]
            raise Violation("the system's log and the daemon's log (level %d) differ: only in the former %r, only in the latter %r (%d, %d)" % (self.level, a[:3], b[:3], len(short), len(self.all)))
        for p, t in self.wanted:
            if not any(p == q and self.same(x, t, 11) for q, x in msgs):
                raise Violation("message %r (level %d) did not reach the system's log: %r" % (t, p, msgs[-6:]))
        self.hit("syslog")


def run(case):
    if "fatal" in case:
        return run_fatal(case)
    x = Run(case)
    try:
        x.go()
        s = x.stats
        return (s.get("logged", 0) > 3 and s.get("suppressed", 0) > 0) or s.get("bounded", 0) > 0, list(s) + ["level %d" % x.level]
    finally:
        for fd in x.fds or ():
            os.close(fd)
        x.r.close()


# -- starts that fail
def alive(d):
    """Processes that name the directory."""
    out = []
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open("/proc/%s/cmdline" % p, "rb") as f:
                    c = f.read()
                with open("/proc/%s/stat" % p, "rb") as f:
                    z = f.read().rpartition(b")")[2].split()[0]
            except OSError:
                continue
            if d in c and b"conmand" in c.split(b"\0")[0] and z != b"Z":
                out.append(int(p))
    return out


def run_fatal(case):
    k, n, fg = case["fatal"], case["n"], case["fg"]
    r = Rig()
    held = sock = other = None
    lim = None
    un = confrun.unprivileged()
    try:
        dev = UnixDev(r, "u0")
        os.chmod(dev.path, 0o777)
        os.chmod(r.dir, 0o777)
        os.chmod(r.page.path, 0o666)
        good = "server logdir=\"%s\"\nserver loopback=on\nserver logfile=\"daemon.log\"\n%sconsole name=\"c\" dev=\"%s\" log=\"clog\"\n"
        t = good % (r.dir, "", dev.devstr)
        conf = r.write_conf(t)
        args = ["-p", "0"]
        expect = 1
        if k == "missing":
            conf = r.dir + "/none" + "x" * (n % 240)
        elif k == "dir":
            conf = r.dir + "/d"
            os.mkdir(conf)
            os.chmod(conf, 0o777)
        elif k == "denied":
            os.chmod(conf, 0o200)
            if not un:
                raise Inconclusive("runs as root")
        elif k == "empty":
            conf = r.write_conf("")
        elif k == "nocons":
            conf = r.write_conf(t.replace("console", "konsole" if n % 2 else "# console"))
        elif k == "port":
            sock = socket.socket()
            sock.bind(("0.0.0.0", 0))
            sock.listen(1)
            args = ["-p", "%d" % sock.getsockname()[1]]
        elif k == "use":
            held = open(conf, "r+")
            fcntl.lockf(held, fcntl.LOCK_EX)
        elif k == "long":
            conf = (r.dir + "/") + "/".join(["d" * 200] * 30)
            conf = conf[:200 + n].rstrip("/")
        elif k == "args":
            args = [["-p", "-1"], ["-p", "65536"], ["--nonsense"], ["-c"]][n % 4]
            expect = None
        elif k == "fds":
            lim = 3 + n % 22
            expect = None
        os.chmod(conf, os.stat(conf).st_mode | 0o044) if k in ("empty", "nocons") else None
        e = dict(r.env(), ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:log_path=%s/asan" % r.dir)
        if lim:
            e.pop("VSHIM", None)
        exe = os.path.join(build.daemon(), "conmand")
        argv = [exe] + (["-F"] if fg else []) + (["-c", conf] + args if args != ["-c"] else args)
        if lim:
            argv = ["/bin/sh", "-c", "ulimit -n %d; exec \"$@\"" % lim, "sh"] + argv
        rigm.subreaper()
        p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=r.dir, start_new_session=True, **un)
        out = {}
        try:
            if fg and expect is None:
                # a good start in the foreground goes on
                end = time.monotonic() + 15
                er = b""
                os.set_blocking(p.stderr.fileno(), False)
                while p.poll() is None and time.monotonic() < end and b"Open file limit" not in er:
                    er += p.stderr.read() or b""
                    time.sleep(0.002)
                if p.poll() is None:
                    if b"Open file limit" not in er:
                        raise Violation("with at most %s descriptors the daemon neither starts nor fails: %r" % (lim, er[-500:]))
                    # it must survive for a moment
                    time.sleep(0.05)
                    if p.poll() is None:
                        p.kill()
                        p.wait()
                        return True, ["%s: started" % k]
                os.set_blocking(p.stderr.fileno(), True)
                er += p.stderr.read() or b""
                o, rc = b"", p.wait()
            else:
                o, er = p.communicate(timeout=20)
                rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Violation("conmand %s neither starts nor fails" % argv[1:])
        what = "%s (%s): exit status %d, errors %r" % (k, "foreground" if fg else "background", rc, er[:1500])
        if rc in (126, 127) or lim and b"error while loading" in er:
            return False, ["cannot run"]
        if os.path.exists(r.dir) and any(x.startswith("asan") for x in os.listdir(r.dir)) or rc == 99:
            a = [x for x in os.listdir(r.dir) if x.startswith("asan")]
            with open(os.path.join(r.dir, a[0]), "r", errors="replace") if a else open("/dev/null") as f:
                t = f.read()
            if lim and "AddressSanitizer" not in t.split("ERROR")[-1][:30]:
                return False, ["cannot run"]
            raise Violation(what + "; " + t[:1500])
        errs = [x for x in er.split(b"\n")[:-1] if x.startswith(b"ERROR:     ")]
        fatal = [x for x in errs if not x.startswith(b"ERROR:     CONFIG[")]
        left = alive(r.dir.encode())
        if rc == 0 and not fg and expect is None and lim:
            time.sleep(0.02)
            left = alive(r.dir.encode())
            if len(left) != 1 and not fatal:
                raise Violation(what + "; processes left: %s" % left)
            return True, ["%s: started" % k]
        if left:
            end = time.monotonic() + 3
            while left and time.monotonic() < end:
                time.sleep(0.01)
                left = alive(r.dir.encode())
        if left:
            raise Violation(what + "; the daemon is still there (pids %s)" % left)
        if rc != 1:
            raise Violation(what)
        if er and not er.endswith(b"\n"):
            raise Violation(what + ": the message is not terminated")
        if k == "fds" and (not fatal or er.split(b"\n")[-2] != fatal[-1]):
            raise Violation(what + ": the last line is not an error message")
        if len(fatal) != 1 and k not in ("args", "fds"):
            raise Violation(what + ": %d error messages" % len(fatal))
        if any(len(x) > 1024 for x in er.split(b"\n")):
            raise Violation(what + ": message not bounded")
        return True, ["%s %s" % (k, "fg" if fg else "bg")]
    finally:
        import signal
        for pid in alive(r.dir.encode()):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        if held:
            held.close()
        if sock:
            sock.close()
        r.close()


def prepare():
    build.daemon()
    build.helpers()
    for t in FUZZ:
        fuzzrun.target(t)
