import fcntl, os, random, re, signal, struct, termios
from hypothesis import strategies as st
from vlib import confgen as g
from vlib import confrun, opts
from vlib.rig import Endpoint, Violation, long_time
from vlib.world import info
from .c01 import ASSUMPTIONS

ID = "C20"
N = {"quick": 2500, "thorough": 40000}
RULE = ("Configurations of 1-6 consoles on up to three pseudo-terminals with valid, adjusted and invalid own and global serial options in random order; before the start each line gets random terminal settings (all mode flags, speeds and control characters), or a lock held by another process. "
        "After the start the settings requested by the daemon and those in force are compared with an independent parser of the option string; then random bytes of all 256 values go both ways and must arrive unaltered, SIGHUP arrives, lines hang up and are replaced, locks are released and clients attach; "
        "after SIGTERM or SIGINT every line must have exactly the settings it had before, and a line that was never opened must never have been touched. Non-trivial: a line with settings other than the default was opened, or data was passed.")
TECH = "property-based testing: generated options, prior terminal settings, data and line histories on pseudo-terminals, compared with an independent model"
NOTE = "Exploration: pseudo-terminals force eight data bits without parity, so these two are judged by the settings the daemon requests and the other flags also by those in force."

t = termios


def seropts(r):
    return g.pick(r, (5, lambda: g.seropts(r, .15)), (1, lambda: g.seropts(r, 1)), (1, lambda: g.mutate(r, g.seropts(r, 0)).replace(b'"', b"").replace(b"\n", b"").replace(b"\r", b"").replace(b"\\", b"").replace(b"\0", b"")))


def con(r, i):
    parts = [b'name="%s"' % (b"c%d" % i if r.random() < .9 else r.choice([b"c0", b"c1"])), b'dev="%s"' % g.pick(r, (9, lambda: b"@S%d" % r.randrange(3)), (2, lambda: b"s%d" % r.randrange(3)), (1, b"@U0"))]
    if r.random() < .6:
        parts.append(b'seropts="%s"' % seropts(r))
    if r.random() < .2:
        parts.append(b'log="l%d"' % i)
    r.shuffle(parts)
    return b"console " + b" ".join(parts)


def lines(r):
    out = []
    for i in range(r.choice([1, 2, 3, 4, 6])):
        while r.random() < .3:
            out.append(b'global seropts="%s"' % seropts(r))
        out.append(con(r, i))
    return out


def prior(r):
    """Terminal settings before the start, or None."""
    if r.random() < .1:
        return None
    return [r.getrandbits(15), r.getrandbits(16), r.getrandbits(16), r.getrandbits(17), r.randrange(len(opts.BPS)), [r.randrange(256) for _ in range(17)]]


def op(r):
    return g.pick(r, (5, lambda: ["out", r.randrange(3), r.choice([1, 10, 256, 700, 3000]), r.getrandbits(32)]), (5, lambda: ["in", r.randrange(3), r.choice([1, 10, 256, 700, 3000]), r.getrandbits(32)]),
                  (1, ["hup"]), (2, lambda: ["drop", r.randrange(3), prior(r), r.random() < .5]), (1.5, lambda: ["attach", r.randrange(3)]), (1.5, lambda: ["free", r.randrange(3)]), (1, lambda: ["wait", r.choice([1, 70, 4000])]))


def extra(r):
    return {"prior": [prior(r) for _ in range(3)], "held": [r.random() < .1 for _ in range(3)], "ops": [op(r) for _ in range(r.choice([0, 1, 3, 6, 10]))], "int": r.random() < .3, "bg": r.random() < .15}


def strategy(tier):
    return st.fixed_dictionaries({"text": st.integers(0, 1 << 48).map(lambda n: lines(random.Random(n))), "x": st.integers(0, 1 << 48).map(lambda n: extra(random.Random(n)))})


def gen(r):
    return {"text": lines(r), "x": extra(r)}


class Run(confrun.ConfRun):
    counts = {"U": 1, "S": 3}

    def __init__(self, case):
        super().__init__(case)
        self.bg = case["x"]["bg"]
        self.fds = {}

    def __exit__(self, *a):
        for f in self.fds.values():
            os.close(f)
        super().__exit__(*a)

    def preset(self, d, p):
        """Random settings of a line; remembers the outcome."""
        if p is not None:
            a = termios.tcgetattr(d.slave)
            sp = getattr(termios, "B%d" % opts.BPS[p[4]])
            cc = [bytes([x]) for x in p[5]] + a[6][17:]
            if not p[3] & t.ICANON:
                cc[t.VMIN], cc[t.VTIME] = p[5][t.VMIN], p[5][t.VTIME]
            termios.tcsetattr(d.slave, t.TCSANOW, [p[0], p[1], (p[2] & 0xfff0) | t.CREAD, p[3], sp, sp, cc])
        d.prior = termios.tcgetattr(d.slave)
        d.opened = False
        d.mark = self.rig.page.ttycount()       # a number may be used again

    def setup(self):
        super().setup()
        x = self.case["x"]
        for (k, i), d in self.devs.items():
            if k == "S":
                d.n = i
                self.preset(d, x["prior"][i])
                if x["held"][i]:
                    self.hold(i, d)

    def hold(self, i, d):
        fd = os.open(d.path, os.O_RDWR | os.O_NOCTTY | os.O_CLOEXEC)
        fcntl.fcntl(fd, fcntl.F_SETLK, struct.pack("hhqqi4x", fcntl.F_WRLCK, 0, 0, 0, 0))
        self.fds[i] = fd

    def check_devices(self):
        self.rig.settle()
        self.lines = {}
        for (k, i), d in self.devs.items():
            if k == "S" and self.users[id(d)]:
                # two spellings of one path are two devices
                if len(self.users[id(d)]) > 1:
                    raise confrun.Skip("one line twice")
                self.lines[i] = (self.users[id(d)][0], d)
                self.judge(i, i not in self.fds)
            elif k == "S":
                self.untouched(d)
        for i, (c, d) in self.lines.items():
            if (b"Unable to lock [" + c.name + b"] device" in (self.tail if self.bg else self.head()[2])) != (i in self.fds) and not self.bg:
                raise Violation("console %r: a locked line is%s reported" % (c.name, "" if i not in self.fds else " not"))
        super_hit = [self.hit("opened") for i in self.lines if i not in self.fds]
        self.hit("adjusted or other settings", sum(c.opts != opts.SER0 for c, d in self.lines.values()))
        self.hit("locked", len(self.fds))

    def calls(self, d):
        dev = os.stat(d.path).st_rdev
        n = self.rig.page.ttycount() - d.mark
        return [x for x in list(self.rig.page.ttys())[-n:] if x[0] == dev] if n else []

    def untouched(self, d):
        if self.calls(d) or termios.tcgetattr(d.slave) != d.prior:
            raise Violation("a line that is not in use was changed: %s" % (d.path,))

    def judge(self, i, opened):
        c, d = self.lines[i]
        if not opened:
            return self.untouched(d)
        d.opened = True
        self.check_tty(c, d)
        a = termios.tcgetattr(d.slave)
        if a[0] & (t.IGNBRK if 0 else 0) or a[0] & (t.ISTRIP | t.INLCR | t.IGNCR | t.ICRNL | t.IXON | t.PARMRK | t.BRKINT) or a[1] & t.OPOST or a[3] & (t.ICANON | t.ECHO | t.ISIG | t.IEXTEN) or not a[2] & t.CLOCAL:
            raise Violation("console %r: line in force is not raw: %s" % (c.name, a[:4]))
        cs = bool(a[2] & t.CSTOPB)
        if cs != (c.opts[3] == 2):
            raise Violation("console %r: stop bits in force %d, options %s" % (c.name, 1 + cs, c.opts))

    def check_clients(self):
        super().check_clients()
        self.cl = {}
        # a session may have revived a line whose lock was free
        for o in self.case["x"]["ops"]:
            getattr(self, "op_" + o[0])(*o[1:])
            for i in self.lines:
                c, d = self.lines[i]
                if d.opened:
                    self.check_tty(c, d)
                else:
                    self.untouched(d)

    def client(self, i):
        """A client attached to the console, with nothing pending."""
        c, d = self.lines[i]
        down = not d.opened
        if i not in self.cl:
            cl, txt = self.ask(b"CONNECT OPTION=FORCE CONSOLE='" + c.name + b"'\n")
            if not txt.startswith(b"OK"):
                raise Violation("connect to %r refused: %r" % (c.name, txt[:200]))
            self.cl[i] = cl
            self.rig.settle()
            txt += cl.take()
            if down != (b"Console [" + c.name + b"] is currently disconnected from \"" + c.dev + b'"' in txt):
                raise Violation("console %r (down: %s): a new client is told %r" % (c.name, down, txt))
            if down and i not in self.fds:
                d.opened = True
                self.judge(i, True)
                self.hit("revived")
                if b"Console [" + c.name + b"] connected to" not in txt:
                    raise Violation("console %r: the new connection is not announced: %r" % (c.name, txt))
            elif down:
                self.untouched(d)
        return c, d, self.cl[i]

    @staticmethod
    def payload(n, seed):
        r = random.Random(seed)
        b = bytearray(range(256)) if n == 256 else bytearray(r.choice([r.randrange(256), r.choice(b"\r\n\t\0\x03\x04\x11\x13\x1a\x1c\x7f\xff&"), r.randrange(256)]) for _ in range(n))
        if n == 256:
            r.shuffle(b)
        return bytes(b)

    def op_out(self, i, n, seed):
        if i not in self.lines:
            return
        c, d, cl = self.client(i)
        if not d.opened:
            return
        cl.take()
        data, got = self.payload(n, seed), b""
        for k in range(0, n, 700):
            d.ep.send(data[k:k + 700])
            self.rig.settle()
            got += cl.take()
        if got != data:
            raise Violation("console %r: line emitted %r, the client received %r" % (c.name, data[:200], got[:200]))
        self.hit("data out")

    def op_in(self, i, n, seed):
        if i not in self.lines:
            return
        c, d, cl = self.client(i)
        if not d.opened:
            return
        d.ep.take()
        data, got = self.payload(n, seed), b""
        for k in range(0, n, 700):
            cl.send(data[k:k + 700].replace(b"\xff", b"\xff\xff"))
            self.rig.settle()
            got += d.ep.take()
        if got != data:
            raise Violation("console %r: the client sent %r, the line received %r" % (c.name, data[:200], got[:200]))
        self.hit("data in")

    def op_hup(self):
        if self.bg:
            self.rig.proc.send_signal(signal.SIGHUP)
            self.rig.settle()
        else:
            self.rig.signal(signal.SIGHUP, b"Performing reconfig on signal=1")
        self.rig.settle()

    def op_wait(self, s):
        self.rig.advance(s)

    def op_attach(self, i):
        if i in self.lines:
            if i in self.cl:
                self.cl.pop(i).close()
                self.rig.settle()
            self.client(i)

    def op_free(self, i):
        if i in self.fds:
            os.close(self.fds.pop(i))
            self.op_attach(i)

    def op_drop(self, i, p, early):
        """The line hangs up; another one appears in its place, before or after that."""
        if i not in self.lines:
            return
        c, d = self.lines[i]
        if not d.opened or os.fsdecode(c.dev) != d.link:
            return
        if i in self.cl:
            self.cl[i].take()
        old = d.ep
        os.close(d.slave)
        m, s = os.openpty()
        os.chmod(os.ttyname(s), 0o666)
        d.path, d.slave = os.ttyname(s), s
        self.preset(d, p)
        os.unlink(d.link)
        if early:
            os.symlink(d.path, d.link)
        old.close()
        self.rig.settle()
        if early:
            d.opened = True
            txt = self.cl[i].take() if i in self.cl else None
            if txt is not None and txt.count(b"Console [" + c.name + b"] connected to") != 1:
                raise Violation("console %r: its client is told of a new line with %r" % (c.name, txt))
            self.hit("line replaced")
        else:
            os.symlink(d.path, d.link)
            if i in self.cl:
                self.cl.pop(i).close()
                self.rig.settle()
            self.hit("hang-up")
        d.ep = Endpoint(self.rig, fd=m)
        self.judge(i, early)

    def finish(self):
        for cl in self.cl.values():
            cl.take()
        for (k, i), d in self.devs.items():
            if k == "S":
                d.seen = len(self.calls(d))
        rc = self.rig.stop(signal.SIGINT if self.case["x"]["int"] else signal.SIGTERM)
        if rc != 0:
            raise Violation("exit status %s: %s" % (rc, self.rig.crash_text()))
        for i, (c, d) in self.lines.items():
            a = termios.tcgetattr(d.slave)
            if a != d.prior:
                raise Violation("console %r: settings after exit %s, before the start %s" % (c.name, a, d.prior))
            if not d.opened:
                self.untouched(d)
            else:
                self.hit("restored")

    def nontrivial(self):
        return any(self.stats.get(k) for k in ("adjusted or other settings", "data in", "data out"))

    def classes(self):
        return list(self.stats)


def run(case):
    return confrun.run(Run, case)
