import fcntl, os, re, signal, struct, time
from hypothesis import strategies as st
from vlib import session
from vlib.rig import Violation
from vlib.session import ints, C
from vlib.world import World, LogM
from .c01 import ASSUMPTIONS

ID = "C08"
N = {"quick": 700, "thorough": 12000}
RULE = ("A daemon in the foreground or background, with or without the truncate option, whose console logs and own log have plain names or names with date, time, pid and console specifiers "
        "(some in directories yet to be made), over pre-existing files; histories of output, sessions, clock movements across minute, day and year ends, and SIGHUPs before which logs are renamed, copied and truncated, "
        "blocked (a directory in place, a lock held elsewhere, a full device) or left alone, some sent in the middle of output. Every log file ever used is compared byte for byte with the model. "
        "Some logs cannot be opened at the start; other files appear under the next name before a SIGHUP. Non-trivial: at least one SIGHUP that changed a file name, followed a rename or met a blocked log, with output before and after.")
TECH = "property-based testing: generated rotation histories on a virtual clock against an exact model of every log file"
NOTE = "Exploration: random rotation histories on the real daemon under a virtual clock; the content of all log files is predicted."
LOGN = ["%N.log", "%N-%%x-%q.log", "ld/%N/%Y%m%d.%H%M%S", "%Y/%j-%U-%V-%W.%N", "dd/%N.%M", "%N.%g.%G.%u.%w.%y.%s", "%N.%D.%P.%d", "x/%d/%N", "plain"]
DLOG = ["daemon.log", "daemon.%H%M%S", "dl/%Y-%m-%d/daemon.%M.%P", "daemon.%N.%j"]
P = {"ops": {"conn": 3, "emit": 6, "esc": 2, "type": 1, "bye": 1, "burst": 1, "tick": 4, "rot": 7, "race": 2, "wfull": 1, "suspend": 1}, "maxlen": 9000, "escs": list("LLQFJM"),
     "kinds": ["unix", "telnet", "process", "serial", "ipmi"], "minops": 10, "maxops": 22, "faults": False}


def expand(fmt, name, dev, pid, us):
    """The documented conversion specifiers."""
    tm = time.gmtime(us // 1000000)
    safe = lambda s: "".join(c if "!" <= c <= "~" and c != "/" else "_" for c in s)
    out, i = "", 0
    while i < len(fmt):
        if fmt[i] != "%" or i + 1 == len(fmt):
            out += fmt[i]
            i += 1
            continue
        c = fmt[i + 1]
        i += 2
        if c == "s":
            out += "%d" % (us // 1000000)
        elif c in "dgGHjmMSuUVwWyY":
            out += time.strftime("%" + c, tm)
        elif c == "N" and name is not None:
            out += safe(name)
        elif c == "D" and dev is not None:
            out += safe(dev)
        elif c == "P":
            out += "%d" % pid
        elif c == "%":
            out += "%"
        else:
            out += "%" + c
    return out


class HLog(LogM):
    """A log whose files are identified by content object: renaming a file keeps the object."""
    buf = None
    rp = b""

    def raw(self, b):
        self.hist += b
        if self.open:
            self.exp += b
        else:
            self.buf += b
            del self.buf[:-16383]
        if len(self.hist) > 40000:
            del self.hist[:-20000]

    def name(self):
        c = self.con
        return os.path.join(self.w.rig.dir, expand(self.fmt, c.name, c.dev.devstr.split("/")[-1] if c.kind in ("unix", "serial", "telnet") else "",
                                                   self.w.rig.proc.pid if self.w.rig.proc else 0, self.w.rig.now_us()))

    def reopen(self, first=False):
        w = self.w
        self.path = self.name()
        why = w.blocks.get(self.path)
        self.buf = self.buf if self.buf is not None else bytearray()
        if why == "lock" and "nolock" not in self.opts:
            self.open = False
            return
        if why == "dir":
            self.open = False
            return
        if why == "full":
            # nothing can be written: what was buffered is dropped and the log closed
            self.open, self.buf, self.hist = False, bytearray(), bytearray()
            self.r.state = "I"
            return
        self.exp = w.files.setdefault(self.path, bytearray())
        if first and w.case.get("zero"):
            self.exp[:] = b""
        self.open = True
        self.exp += self.buf
        self.buf = bytearray()
        self.opened()


class HWorld(World):
    def __init__(self, spec, rig=None):
        World.__init__(self, spec, rig)
        self.case = spec
        self.files = {}         # path -> content object
        self.blocks = {}        # path -> why it cannot be opened
        self.undo = []
        self.dl = []            # (path, descriptor) of the daemon's own log files in order of use
        self.hups = 0
        self.dlopen = True

    def conf_text(self):
        L = ["server port=0", "server loopback=on", "server keepalive=off", 'server logdir="%s"' % self.rig.dir]
        if self.case["bg"]:
            L.append('server logfile="%s"' % DLOG[self.case["dlog"] % len(DLOG)])
        for i, c in enumerate(self.cons):
            L.append('console name="%s" dev="%s" log="%s"' % (c.name, c.dev.devstr, c.log.fmt if c.log else "")
                     + (' logopts="%s"' % c.log.opts if c.log and c.log.opts else ""))
        return "\n".join(L) + "\n"

    def make(self):
        World.make(self)
        for i, c in enumerate(self.cons):
            if c.log:
                o = self.spec["cons"][i]["log"]
                c.log = HLog(self, c, None, "sanitize" in o, "timestamp" in o)
                c.log.opts = o
                c.log.fmt = LOGN[self.spec["cons"][i]["fmt"] % len(LOGN)]
                if "%N" not in c.log.fmt:
                    c.log.fmt += str(i)

    def dname(self):
        return os.path.join(self.rig.dir, expand(DLOG[self.case["dlog"] % len(DLOG)], None, None, self.rig.proc.pid, self.rig.now_us()))

    def start(self):
        self.make()
        for i, c in enumerate(self.cons):
            if c.log and self.case["pre"] and "%" not in c.log.fmt.replace("%N", ""):
                p = os.path.join(self.rig.dir, expand(c.log.fmt, c.name, "", 0, 0))
                self.files[p] = bytearray(b"before " * (i + 1))
                with open(p, "wb") as f:
                    f.write(self.files[p])
        for k, a in self.case.get("block0") or []:
            logs = [c.log for c in self.cons if c.log and "%P" not in c.log.fmt]
            if logs:
                t = logs[k % len(logs)].name()
                if t not in self.blocks:
                    self.block(t, a)
                    self.hit("block0_" + a)
        args = ["-z"] if self.case["zero"] else []
        d0 = os.path.join(self.rig.dir, expand(DLOG[self.case["dlog"] % len(DLOG)], None, None, 0, self.rig.now_us()))
        predl = self.case["bg"] and self.case["pre"] and "%P" not in DLOG[self.case["dlog"] % len(DLOG)]
        if predl:
            with open(d0, "wb") as f:
                f.write(b"earlier daemon\n")
        if self.case["bg"]:
            # the name may depend on the pid: let the rig look at whatever appears
            if "%P" in DLOG[self.case["dlog"] % len(DLOG)]:
                self.rig.start_bg_glob = d0
            self.rig.start_bg(self.conf_text(), args, log=self.first_dlog(d0))
            self.dl = [(self.dname(), os.open(self.dname(), os.O_RDONLY))]
            self.rig.logs = ["/proc/self/fd/%d" % f for _, f in self.dl]
            t = os.pread(self.dl[0][1], 1 << 20, 0)
            if predl and t.startswith(b"earlier daemon\n") == bool(self.case["zero"]):
                raise Violation("the daemon's existing log was %s at start" % ("kept" if self.case["zero"] else "truncated"))
        else:
            self.rig.start(self.conf_text(), args)
        self.wait_procs()
        for c in self.cons:
            if c.log:
                c.log.reopen(True)
                c.readers.append(c.log)
        self.seq, _ = self.rig.page.connects(0)
        for c in self.cons:
            self.con_up(c)
            c.tries = 0
        self.verify("start")

    def first_dlog(self, d0):
        # with %P in the name the path is known only once the daemon runs
        if "%P" not in DLOG[self.case["dlog"] % len(DLOG)]:
            return os.path.relpath(d0, self.rig.dir)
        return os.path.relpath(os.path.dirname(d0), self.rig.dir) + "/*"

    def verify_logs(self, where=""):
        for p, exp in self.files.items():
            if self.blocks.get(p) in ("dir", "full"):
                continue
            try:
                with open(p, "rb") as f:
                    got = f.read()
            except OSError as e:
                raise Violation("%s: log file %s: %s" % (where, os.path.relpath(p, self.rig.dir), e))
            if got != exp:
                self.diff("%s: log file %s" % (where, os.path.relpath(p, self.rig.dir)), bytes(exp), got)

    def rename(self, p):
        k = 0
        while p + ".old%d" % k in self.files:
            k += 1
        n = p + ".old%d" % k
        os.rename(p, n)
        self.files[n] = self.files.pop(p)

    def block(self, tgt, a):
        if tgt in self.files:
            self.rename(tgt)
        os.makedirs(os.path.dirname(tgt), exist_ok=True)
        if a == "dir":
            os.mkdir(tgt)
            self.undo.append(lambda: os.rmdir(tgt))
        elif a == "full":
            os.symlink("/dev/full", tgt)
            self.undo.append(lambda: os.unlink(tgt))
        else:
            f = open(tgt, "wb")
            f.write(b"locked")
            f.flush()
            self.files[tgt] = bytearray(b"locked")
            fcntl.fcntl(f, 37, struct.pack("hhqqi4x", fcntl.F_WRLCK, 0, 0, 0, 0))
            self.undo.append(lambda: f.close())
        self.blocks[tgt] = a

    def unblock(self):
        for u in self.undo:
            u()
        self.undo, self.blocks = [], {}

    def dlog_text(self):
        return b"".join(os.pread(fd, 1 << 22, 0) for _, fd in self.dl)

    def hup(self, now=False):
        """SIGHUP; `now`: without waiting for output in progress."""
        seq = self.rig.page["poll_seq"]
        n = self.rig.stderr().count(b"Performing reconfig on signal=1")
        cur = self.dl[-1] if self.dl else None
        self.rig.proc.send_signal(signal.SIGHUP)
        end = time.monotonic() + 10
        while (self.rig.stderr().count(b"Performing reconfig on signal=1") <= n) if not self.dl or self.dlopen else self.rig.page["poll_seq"] == seq:
            self.rig.check_alive()
            if time.monotonic() > end:
                raise Violation("SIGHUP was not acted upon within 10s")
            time.sleep(0.0005)
        if self.dl and not self.dlopen:
            while int(re.search(r"ShdPnd:\s*(\w+)", open("/proc/%d/status" % self.rig.proc.pid).read()).group(1), 16) & 1 and time.monotonic() < end:
                time.sleep(0.001)
            time.sleep(0.03)
        self.hups += self.dlopen
        self.rig.settle()
        if self.dl:
            self.dlog_hup(cur)

    def dlog_hup(self, cur):
        p = self.dname()
        if self.blocks.get(p) == "dir":
            self.dlopen = False
            return
        try:
            fd = os.open(p, os.O_RDONLY)
        except OSError as e:
            raise Violation("the daemon's log was not reopened as %s: %s" % (os.path.relpath(p, self.rig.dir), e))
        if any(os.path.samestat(os.fstat(fd), os.fstat(f)) for _, f in self.dl):
            os.close(fd)
            fd = [f for q, f in self.dl if os.path.exists(q) and os.path.samestat(os.stat(p), os.fstat(f))]
            if not fd:
                fd = [f for q, f in self.dl if os.path.samestat(os.stat(p), os.fstat(f))]
            # back to a file used before: it moves to the end of the order
            ent = [e for e in self.dl if e[1] == fd[0]][0]
            self.back = self.back or ent is not self.dl[-1]
            self.dl.remove(ent)
            self.dl.append((p, ent[1]))
        else:
            self.dl.append((p, fd))
        self.dlopen = True
        self.rig.logs = ["/proc/self/fd/%d" % f for _, f in self.dl]

    back = False

    def finish(self):
        self.settle("end")
        page = self.rig.page
        rc = self.rig.stop()
        if rc != 0 and not (self.case["bg"] and rc == -15):
            raise Violation("daemon exited with status %s: %s" % (rc, self.rig.crash_text()))
        self.verify_logs("after exit")
        if self.dl:
            t = self.dlog_text()
            if self.rig.crash_text().find("AddressSanitizer") >= 0:
                raise Violation("daemon: " + self.rig.crash_text())
            if t.count(b"Starting ConMan daemon") != 1:
                raise Violation("the daemon's logs hold its start message %d times" % t.count(b"Starting ConMan daemon"))
            if t.count(b"Performing reconfig on signal=1") != self.hups:
                raise Violation("the daemon's logs hold %d reconfiguration messages, %d expected" % (t.count(b"Performing reconfig on signal=1"), self.hups))
            last = os.pread(self.dl[-1][1], 1 << 22, 0)
            if self.dlopen and (last.count(b"Exiting on signal=15") != 1 or (rc == 0 and last.count(b"Stopping ConMan daemon") != 1)):
                raise Violation("the exit messages are not in the daemon's current log, which ends %r" % last[-200:])
            if not self.dlopen and b"Exiting on signal" in t:
                raise Violation("messages were logged to a file abandoned when the log could not be reopened")
            for l in t.splitlines():
                if l != b"earlier daemon" and not re.match(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d (EMERGENCY|ALERT|CRITICAL|ERROR|WARNING|NOTICE|INFO): +\S", l):
                    raise Violation("malformed line in the daemon's log: %r" % l)
        elif self.rig.stderr().count(b"Performing reconfig on signal=1") != self.hups:
            raise Violation("reconfiguration was not logged once per SIGHUP")
        for _, fd in self.dl:
            os.close(fd)
        self.dl = []


class Run(session.Run):
    def op_rot(self, acts, dact):
        w = self.w
        w.unblock()
        logs = [c.log for c in w.cons if c.log]
        for k, a in acts:
            if not logs:
                break
            g = logs[k % len(logs)]
            tgt = g.name()
            if a == "rename" and os.path.exists(g.path) and g.open and w.files.get(g.path) is g.exp:
                w.rename(g.path)
                w.hit("rename")
            elif a == "copytrunc" and g.open and w.files.get(g.path) is g.exp:
                n = g.path + ".copy%d" % w.hups
                if n not in w.files:
                    w.files[n] = bytearray(g.exp)
                    with open(n, "wb") as f:
                        f.write(g.exp)
                os.truncate(g.path, 0)
                g.exp[:] = b""
                w.hit("copytrunc")
            elif a in ("dir", "lock", "full") and tgt not in w.blocks and not (a == "full" and len(g.buf) > 15000):
                w.block(tgt, a)
                w.hit("block_" + a)
            elif a == "appear" and tgt not in w.blocks and tgt not in w.files:
                os.makedirs(os.path.dirname(tgt), exist_ok=True)
                w.files[tgt] = bytearray(b"appeared before rotation %d\n" % w.hups)
                with open(tgt, "wb") as f:
                    f.write(w.files[tgt])
                w.hit("appear")
        if w.dl:
            p = w.dname()
            if dact == "dir":
                if os.path.exists(p):
                    os.rename(p, p + ".o%d" % w.hups)
                os.makedirs(p)
                w.blocks[p] = "dir"
                w.undo.append(lambda: os.rmdir(p))
                w.hit("dblock")
            elif dact == "rename" and os.path.exists(w.dl[-1][0]):
                os.rename(w.dl[-1][0], w.dl[-1][0] + ".r%d" % w.hups)
                w.hit("drename")
        before = [g.path for g in logs]
        w.hup()
        for g in logs:
            g.reopen()
        w.settle("rotation")
        if [g.path for g in logs] != before:
            w.hit("new_name")
        w.hit("rot")

    def op_wfull(self, ci, n, m, k):
        """The device of the log fills up after n blocks of output, has room again, and a client asks for a replay."""
        w, con = self.w, self.con(ci)
        if not con.log or not con.up:
            return
        ix = [c for c in w.cons if c.log].index(con)
        self.op_flood(ci, n, m)
        self.op_rot([[ix, "rename"], [ix, "full"]], "none")
        self.op_rot([], "none")
        self.op_emit(ci, [2, m, k], [])
        self.op_esc(k, "L")
        w.hit("wfull")

    def op_race(self, ci, p):
        """SIGHUP amid output: the two files together hold everything, the split is free."""
        from vlib.world import info
        from vlib.rig import long_time
        w, con = self.w, self.con(ci)
        g = con.log
        if not g or not g.open or g.r.s or g.r.t or not con.up:
            return
        w.unblock()
        for c in w.cons:
            if c.log and c.log is not g and not c.log.open:
                return
        old = g.exp
        if w.files.get(g.path) is g.exp:
            w.rename(g.path)
        data = session.expand(p)[:7000]
        n0 = len(old)
        for r in con.readers:
            if r is not g:
                r.write(data)
        con.dev.ep.send(self.tel(con, data))
        w.hup(True)
        # the model of the log follows what the files say, if they are consistent
        oldp = [q for q, v in w.files.items() if v is old][0]
        end = time.monotonic() + 3
        msg = info("Console [%s] log opened at %s" % (con.name, long_time(w.rig.now_us())))
        while True:
            newp = g.name()
            new0 = bytes(w.files.get(newp, b""))
            with open(oldp, "rb") as f:
                a = f.read()
            try:
                with open(newp, "rb") as f:
                    b = f.read()
            except OSError:
                raise Violation("race: the log was not reopened as %s" % os.path.relpath(newp, w.rig.dir))
            if len(a) - n0 + len(b) - len(new0) >= len(data) + len(msg) or time.monotonic() > end:
                break
            w.rig.settle()
            time.sleep(0.002)
        if not a.startswith(bytes(old)) or not b.startswith(new0):
            raise Violation("race: an existing log file was altered")
        tail = a[n0:] + b[len(new0):]
        i = tail.find(msg)
        if tail.count(msg) != 1 or tail[:i] + tail[i + len(msg):] != data or i < len(a) - n0:
            raise Violation("race: old and new log together hold %r (%d bytes), expected the %d bytes of output and one %r" % (tail[:200], len(tail), len(data), msg))
        old[:] = a
        for c in w.cons:
            if c.log and c.log is not g:
                c.log.reopen()
        g.path = newp
        g.exp = w.files.setdefault(newp, bytearray())
        g.exp[:] = b
        g.hist += tail
        w.settle("race")
        w.hit("race")


def early(d):
    """Logs that could not be opened at the start soon can be, over a file that is there by then."""
    n = d.pop("early")
    if d["block0"] and n:
        d["ops"][min(n - 1, len(d["ops"])):0] = [["rot", [[k, "appear"] for k, _ in d["block0"]], "none"]]
    return d


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=40, maxcons=4)
    A = st.tuples(C, st.sampled_from(["rename", "rename", "copytrunc", "dir", "lock", "full", "appear", "appear"])).map(list)
    extra = {"wfull": st.tuples(st.just("wfull"), C, ints(0, 3), ints(1, 900), ints(0, 9)).map(list),
             "rot": st.tuples(st.just("rot"), st.lists(A, max_size=3), st.sampled_from(["none", "none", "rename", "dir"])).map(list),
             "race": st.tuples(st.just("race"), C, st.tuples(st.just(2), ints(1, 7000), ints(0, 99)).map(list)).map(list),
             "tick": st.tuples(st.just("tick"), st.sampled_from([1, 2, 60, 3600, 86400, 86400 * 40, 86400 * 110, 31 * 86400])).map(list)}
    base = session.strategy(p, extra)
    con = st.fixed_dictionaries({"kind": st.sampled_from(p["kinds"]), "log": st.sampled_from(["", "", "", None, "sanitize", "timestamp", "nolock", "lock,timestamp"]), "fmt": ints(0, len(LOGN) - 1)})
    return st.tuples(base, st.fixed_dictionaries({"cons": st.lists(con, min_size=1, max_size=p.get("maxcons", 3)), "bg": st.booleans(), "zero": st.booleans(), "pre": st.booleans(),
                                                  "dlog": ints(0, len(DLOG) - 1),
                                                  "block0": st.one_of(st.just([]), st.just([]), st.lists(st.tuples(C, st.sampled_from(["dir", "dir", "lock"])).map(list), min_size=1, max_size=2)), "early": ints(0, 3)})).map(lambda t: early(dict(t[0], **t[1])))


def run(case):
    s = session.execute(case, runner=Run, world=HWorld)
    return s.get("rot", 0) + s.get("race", 0) > 0 and s.get("emit", 0) > 0 and any(s.get(k) for k in ("new_name", "rename", "block_dir", "block_lock", "block_full", "race")), list(s)
