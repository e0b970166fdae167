"""Reference model of conmand's sessions, and the executor that drives the real daemon in step with it.

The model is exact: it predicts every byte each client, device and log receives (informational messages included;
the clock is virtual).  Only where the properties allow several outcomes (overflow of a stalled reader, interleaving of
concurrent writers) is the comparison a predicate instead of an equality.
"""
import fcntl
import struct
import os, random, re, signal, time

from .rig import (addr_key, local, Rig, Client, UnixDev, TelnetDev, PtyDev, ProcDev, IpmiDev, Violation, Inconclusive, long_time, short_time, RING)

KEEP = 16000            # retained output the properties promise
TELNET_PREFACE = bytes([255, 253, 0, 255, 253, 1, 255, 253, 3, 255, 251, 0, 255, 251, 3])
PFX, SFX = b"\r\n<ConMan> ", b".\r\n"


def fqdn(src):
    """The name of the client at 127.0.0.SRC as the shim answers."""
    return b"localhost" if src == 1 else (b"peer%d.sub.test", b"peer%d", b"127.0.0.%d")[src % 3] % src


def short(src):
    return fqdn(src) if src > 1 and src % 3 == 2 else fqdn(src).split(b".")[0]


def delta_string(n):
    s, n = n % 60, n // 60
    m, n = n % 60, n // 60
    h, n = n % 24, n // 24
    d, n = n % 7, n // 7
    w, y = n % 52, n // 52
    f = [(y, "y"), (w, "w"), (d, "d"), (h, "h"), (m, "m"), (s, "s")]
    while len(f) > 1 and not f[0][0]:
        f.pop(0)
    return "".join("%d%s" % x for x in f)


def info(s):
    return PFX + (s.encode("latin-1") if isinstance(s, str) else s) + SFX


# -- payloads ---------------------------------------------------------------------------------------------------------
def expand(p):
    """A payload of a case: literal bytes, or [kind, length, seed]."""
    if isinstance(p, (bytes, bytearray)):
        return bytes(p)
    kind, n, seed = p
    r = random.Random(seed * 7 + kind)
    if kind == 0:
        return r.randbytes(n)
    if kind == 1:           # text lines
        out = bytearray()
        while len(out) < n:
            out += bytes(r.choice(b"abcdefghij KLMNOP0123456789") for _ in range(r.randrange(0, 60))) + r.choice([b"\r\n", b"\n", b"\n", b"\r"])
        return bytes(out[:n])
    if kind == 2:           # position coded
        out = bytearray()
        i = seed * 100000
        while len(out) < n:
            out += b"%x;" % i
            i += 1
        return bytes(out[:n])
    if kind == 3:           # special bytes
        return bytes(r.choice(b"\xff\xff\r\n\0\x7f\x80\x1b&a\xf0\xfa\xfb\xfd\xfe~^") for _ in range(n))
    if kind == 4:           # short lines
        return (b"\n" * n) if seed % 3 == 0 else (b"a\n" * n)[:n] if seed % 3 == 1 else (b"\r\0" * n)[:n]
    return bytes([seed % 256]) * n


# -- log rendering ----------------------------------------------------------------------------------------------------
def ctrl(b):
    c = b & 0x7F
    if c < 0x20:
        return bytes([0x7E if b & 0x80 else 0x5E, c + 0x40])
    if c == 0x7F:
        return bytes([0x7E if b & 0x80 else 0x5E, 0x3F])
    return (b"`" if b & 0x80 else b"") + bytes([c])


class Render:
    """Documented line-oriented rendering of a byte stream for sanitized/timestamped logs."""

    def __init__(self, sanitize, timestamp):
        self.s, self.t, self.state = sanitize, timestamp, "I"

    def feed(self, data, us):
        if not (self.s or self.t):
            return bytes(data)
        st = time.strftime("%Y-%m-%d %H:%M:%S ", local(us)).encode() if self.t else b""
        o = bytearray()
        for b in data:
            if b == 13:
                if self.state == "I":
                    o += st
                    self.state = "C"
                elif self.state == "D":
                    self.state = "C"
            elif b == 10:
                if self.state in "IL":
                    o += st
                o += b"\r\n"
                self.state = "L"
            elif b == 0 and self.state in "CL":
                pass
            else:
                if self.state == "C":
                    o += b"\r\n"
                if self.state != "D":
                    o += st
                self.state = "D"
                o += ctrl(b) if self.s else bytes([b])
        return bytes(o)


class LogM:
    def __init__(self, w, con, path, sanitize, timestamp):
        self.w, self.con, self.path = w, con, path
        self.r = Render(sanitize, timestamp)
        self.exp = bytearray()      # content of the current file
        self.hist = bytearray()     # everything logged since start-up (for replay)
        self.open = True
        self.old = []               # (path, content) of rotated files
        self.pathf = None           # computes the path at (re)open time

    def raw(self, b):
        if self.open:
            self.exp += b
            self.hist += b
            if len(self.hist) > 40000:
                del self.hist[:-20000]

    def data(self, b):
        self.raw(self.r.feed(b, self.w.rig.now_us()))

    def info(self, b):
        self.raw(b)
        self.r.state = "I"

    def opened(self):
        self.raw(info("Console [%s] log opened at %s" % (self.con.name, long_time(self.w.rig.now_us()))))
        self.r.state = "I"


class Con:
    def __init__(self, w, name, kind):
        self.w, self.name, self.kind = w, name, kind
        self.dev = None
        self.log = None
        self.readers, self.writers = [], []
        self.din = bytearray()          # bytes the device must have received
        self.up = True
        self.breaks = 0
        self.dpaused = False
        self.pending = False            # an attempt stays incomplete
        self.nodns = False              # the name of its host cannot be resolved
        self.avail = True               # an attempt to connect would succeed
        self.why = None                 # process consoles: why it would not
        self.delay = DELAY[kind][0] if kind in DELAY else 0
        self.next_try = None            # virtual time of the next attempt
        self.reset_at = None            # virtual time at which the delay is reset
        self.tries = 0                  # attempts the model has seen
        self.tel = None                 # telnet parser state
        self.up_at = 0

    def label(self):
        return self.name.encode("latin-1")


# type: first delay, largest delay, time up after which it is reset, delay after that reset, delay after the first doubling from 0
DELAY = {"telnet": (15, 1800, 15, 0), "unix": (1, 60, 60, 1), "process": (60, 1800, 60, 0)}
SLACK = 20000           # us


class Telnet:
    """Data and replies of a telnet byte stream (RFC 854/855): the parser of one connection."""

    def __init__(self):
        self.st = "data"

    def feed(self, raw):
        out, rep = bytearray(), bytearray()
        for b in raw:
            if self.st == "data":
                if b == 255:
                    self.st = "iac"
                else:
                    out.append(b)
            elif self.st == "sb":
                if b == 255:
                    self.st = "sbiac"
            elif self.st == "sbiac" and b == 255:
                self.st = "sb"
            elif self.st in ("iac", "sbiac"):
                self.st = "data"
                if b == 255:
                    out.append(b)
                elif b in (251, 252, 253, 254):
                    self.st = b
                elif b == 250:
                    self.st = "sb"
            else:
                if self.st == 253 and b not in (0, 3):
                    rep += bytes([255, 252, b])
                elif self.st == 251 and b not in (0, 1, 3):
                    rep += bytes([255, 254, b])
                self.st = "data"
        return bytes(out), bytes(rep)


class Cl:
    def __init__(self, w, ep, user, tty, src=1):
        self.w, self.ep, self.user, self.tty, self.host = w, ep, user, tty, short(src)
        self.exp = bytearray()
        self.pend = None                # output withheld since the suspend (None: not suspended)
        self.quiet = self.eof = self.gone = False
        self.bcast = self.force = self.join = False
        self.src = []                   # consoles it reads from (0 or 1)
        self.dst = []                   # consoles it writes to
        self.paused = False
        self.last_read = w.rig.now()
        self.mode = None
        self.resumed = None
        self.allow_gap = False

    @property
    def who(self):
        return b"<" + self.user + b"@" + self.host + b">" + (b" on " + self.tty if self.tty else b"")

    def write(self, b, is_info=False):
        if self.eof or self.gone or (is_info and self.quiet):
            return
        if self.pend is not None:
            self.pend += b
        else:
            self.exp += b

    @property
    def live(self):
        return not self.gone and not self.eof


KINDS = {"unix": UnixDev, "telnet": TelnetDev, "serial": PtyDev, "process": ProcDev, "ipmi": IpmiDev}


FAULTS = ("p_eintr", "p_eagain", "max_read", "max_write", "p_chld", "short_log")


class World:
    """spec: {"cons": [{"kind":..., "log": None|"" |"sanitize"|...}], "reset": bool, ...}"""

    def __init__(self, spec, rig=None):
        self.spec = spec
        self.rig = rig or Rig()
        self.cons, self.clients = [], []
        self.stats = {}
        self.daemon_args = []
        self.deferred, self.unresolved = [], {}
        self.hang = False
        self.reset_cmd = spec.get("reset")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.rig.close()

    def hit(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # -- start
    def conf_text(self):
        L = ["server port=0", "server loopback=on", "server keepalive=off", 'server logdir="%s"' % self.rig.dir]
        if self.reset_cmd:
            L.append('server resetcmd="%s"' % self.reset_cmd)
        L += self.spec.get("extra", [])
        for i, c in enumerate(self.cons):
            cs = self.spec["cons"][i]
            s = 'console name="%s" dev="%s"' % (c.name, c.dev.devstr)
            if cs.get("log") is not None:
                s += ' log="%s"' % cs.get("logname", c.name + ".log")
                if cs["log"]:
                    s += ' logopts="%s"' % cs["log"]
            else:
                s += ' log=""'
            if cs.get("devopts"):
                s += ' %s' % cs["devopts"]
            L.append(s)
        return "\n".join(L) + "\n"

    def make(self):
        for i, cs in enumerate(self.spec["cons"]):
            c = Con(self, cs.get("name", "c%d" % i), cs["kind"])
            kw = {} if cs["kind"] in ("serial", "process") else {"listen": cs.get("up", True)}
            name = "d%d" % i
            if cs["kind"] == "unix" and cs.get("vhost"):        # the same name in different directories
                name = "u%d/sock" % i
                os.makedirs(os.path.join(self.rig.dir, "u%d" % i), exist_ok=True)
            c.dev = KINDS[cs["kind"]](self.rig, name, **kw)
            c.dev.con = c
            if cs["kind"] == "telnet" and cs.get("vhost"):      # by name, so that its resolution can fail
                c.dev.host = "vhost%d" % i
            if cs.get("log") is not None:
                o = re.split("[ ,;.]", cs["log"] or "")
                c.log = LogM(self, c, os.path.join(self.rig.dir, cs.get("logname", c.name + ".log")), "sanitize" in o, "timestamp" in o)
            c.up = c.avail = cs.get("up", True)
            if cs["kind"] == "telnet" and cs.get("vhost") == "lost":
                self.lose_name(c)
                c.up = False
            if cs["kind"] == "serial" and cs.get("vhost"):        # in use by another process
                self.lock_line(c, True)
                c.up = False
            self.cons.append(c)

    def lose_name(self, c, lost=True):
        """The name of a telnet console's host can no longer be resolved."""
        c.nodns = lost
        bit = 1 << int(c.dev.host[5:])
        self.rig.page["nodns"] = self.rig.page["nodns"] | bit if lost else self.rig.page["nodns"] & ~bit

    def hang_connects(self, on):
        """Connections over TCP stay incomplete from now on / are completed now."""
        self.hang = on
        self.rig.page["hang"] = int(on)
        if on:
            return
        self.rig.settle()
        self.rig.settle()
        for c in self.cons:
            if c.pending:
                c.pending = False
                if c.avail:
                    self.con_up(c)
                else:
                    self.schedule(c)
        self.settle("connections complete")
        self.verify_tries("connections complete")

    def start(self):
        if not self.cons:
            self.make()
        for k, v in (self.spec.get("page") or {}).items():
            if k not in FAULTS:
                self.rig.page[k] = v
        self.rig.start(self.conf_text(), self.daemon_args)
        for k, v in (self.spec.get("page") or {}).items():
            self.rig.page[k] = v
        self.wait_procs()
        self.started()
        self.verify("start")

    def wait_procs(self):
        """Programs take a while to be executed and to call back."""
        end = time.monotonic() + 10
        while any(c.up and c.kind == "process" and (c.dev.info is None or c.dev.ep is None or not c.dev.page["magic"])
                  for c in self.cons) and time.monotonic() < end:
            time.sleep(0.001)
            self.rig.settle()
        self.rig.settle()

    def restart(self, zero=False, last=None):
        """Stops the daemon and starts it again on the same configuration.  With last=(console, raw, data) the console
        sends something and SIGTERM arrives as soon as the daemon has read it."""
        self.settle("before restart")
        if last:
            con, raw, data = last
            for k in FAULTS:
                self.rig.page[k] = 0
            self.rig.page["term_read"] = 1
            con.dev.ep.send(raw)
            if con.log:
                con.log.data(data)
            end = time.monotonic() + 5
            while self.rig.proc.poll() is None and time.monotonic() < end:
                time.sleep(0.001)
            self.rig.page["term_read"] = 0
        rc = self.rig.stop()
        if rc != 0:
            raise Violation("daemon exited with status %s: %s" % (rc, self.rig.crash_text()))
        for cl in self.clients:
            if cl.gone:
                continue
            cl.ep.paused = False
            cl.ep.pump()
            end = time.monotonic() + 5
            while not cl.ep.eof and time.monotonic() < end:
                time.sleep(0.001)
                cl.ep.pump()
            if cl.paused or cl.pend is not None:
                cl.ep.take()
            elif not (last[2] if last else b"").startswith(cl.ep.take()):
                raise Violation("client <%s> received output at exit" % cl.user.decode("latin-1"))
            if not cl.ep.eof:
                raise Violation("client <%s> is still connected after the daemon exited" % cl.user.decode("latin-1"))
            cl.gone = cl.eof = True
            cl.ep.close()
        self.verify_logs("after exit")
        for c in self.cons:
            c.readers, c.writers = [], []
            c.din = bytearray()
            if c.dev.ep is not None and c.kind != "serial":
                c.dev.ep.close()
                c.dev.ep = None
            elif c.kind == "serial":
                c.dev.ep.take()
            if c.kind == "process":
                c.dev.info = None
                c.dev.page["magic"] = 0
            if c.log:
                c.log.hist = bytearray()
                c.log.open = True
                c.log.r.state = "I"
                if zero:
                    c.log.exp = bytearray()
        args = self.daemon_args
        for k in FAULTS:
            self.rig.page[k] = 0
        self.rig.restart(self.conf_text(), [a for a in args if a != "-z"] + (["-z"] if zero else []))
        for k, v in (self.spec.get("page") or {}).items():
            self.rig.page[k] = v
        self.wait_procs()
        self.started()
        self.verify("restart")

    def started(self):
        for c in self.cons:
            if c.log:
                c.log.opened()
                c.readers.append(c.log)
        self.seq, _ = self.rig.page.connects(0)
        for c in self.cons:
            c.delay = DELAY[c.kind][0] if c.kind in DELAY else 0
            c.next_try = c.reset_at = None
            if c.up:
                self.con_up(c)
            else:
                self.attempt(c)
            c.tries = 0

    def where(self, c):
        d = c.dev
        if c.kind == "unix":
            return '"%s"' % d.path
        if c.kind == "telnet":
            return "<%s>" % d.devstr
        if c.kind == "serial":
            return '"%s"' % d.path
        if c.kind == "process":
            return '"%s"' % os.path.basename(d.exe)
        return "<%s>" % d.host

    def con_up(self, c, at=None):
        c.up = True
        s = "Console [%s] connected to %s" % (c.name, self.where(c))
        if c.kind == "process":
            if c.dev.info is None:
                raise Violation("console [%s]: the program was not started" % c.name)
            s += " (pid %d)" % c.dev.info["pid"]
        c.din = bytearray(TELNET_PREFACE if c.kind == "telnet" else b"")
        c.tel = Telnet()
        c.up_at = self.rig.now()
        c.next_try = None
        if c.kind in DELAY:
            c.reset_at = (at or self.rig.now_us()) + DELAY[c.kind][2] * 1000000
        self.notify(c, s)

    # -- loss and re-establishment of console connections
    def attempt(self, c, at=None):
        """A connection attempt made now, or within the last moments at time `at`."""
        at = at or self.rig.now_us()
        if c.kind == "serial":
            if c.avail:
                self.con_up(c, at)
            return c.avail
        if c.nodns:
            self.unresolved[c.name] = self.unresolved.get(c.name, 0) + 1
            c.next_try = at + 1800 * 1000000
            self.hit("unresolved")
            return False
        if c.kind == "telnet" and self.hang:
            c.tries += 1
            c.pending, c.next_try = True, None
            self.hit("pending")
            return False
        if c.kind != "unix" or c.avail or getattr(c, "bound", False):
            c.tries += 1        # a missing socket file is noticed without a connect()
        if c.avail:
            if c.kind == "process":
                self.wait_new_proc(c)
            self.con_up(c, at)
            return True
        if c.kind == "process" and c.why:
            self.notify(c, 'Console [%s] connection failed: "%s" %s' % (c.name, os.path.basename(c.dev.exe), c.why))
        self.schedule(c, at)
        return False

    def wait_new_proc(self, c):
        end = time.monotonic() + 10
        while (c.dev.info is None or not c.dev.page["magic"]) and time.monotonic() < end:
            time.sleep(0.001)
            self.rig.settle()

    def lock_line(self, c, on):
        fcntl.fcntl(c.dev.slave, fcntl.F_SETLK, struct.pack("hhqqi4x", fcntl.F_WRLCK if on else fcntl.F_UNLCK, 0, 0, 0, 0))
        c.avail = not on

    def schedule(self, c, at=None):
        first, most, _, _ = DELAY[c.kind]
        c.next_try = (at or self.rig.now_us()) + c.delay * 1000000
        c.delay = first if c.delay == 0 else min(2 * c.delay, most)
        if c.next_try <= self.rig.now_us() + SLACK:
            self.rig.settle()
            self.attempt(c)

    def drop(self, c, act=None):
        """The device ends the connection (act does it)."""
        self.settle("before the loss of [%s]" % c.name)
        pid = c.dev.info["pid"] if c.kind == "process" else 0
        if c.kind == "process":
            c.dev.info = None
            c.dev.page["magic"] = 0
        (act or c.dev.hangup)()
        c.up = False
        c.reset_at = None
        s = "Console [%s] disconnected from %s" % (c.name, self.where(c))
        if c.kind == "process":
            s += " (pid %d) after %s" % (pid, delta_string(self.rig.now() - c.up_at))
        end = time.monotonic() + 5
        self.rig.settle()
        if c.kind == "process":     # the program may take a while to go
            n = self.rig.stderr().count(s.encode("latin-1"))
            while not n and time.monotonic() < end:
                time.sleep(0.002)
                self.rig.settle()
                n = self.rig.stderr().count(s.encode("latin-1"))
        self.notify(c, s)
        self.schedule(c)

    def advance(self, seconds):
        """Moves the clock, making the model's attempts at their times; nothing may happen in between."""
        self.settle("before the clock moves")
        target = self.rig.now_us() + int(seconds * 1000000)
        n = 0
        while True:
            t = min([x for c in self.cons for x in (c.next_try, c.reset_at) if x is not None], default=None)
            if t is None or t > target + 2 * SLACK:
                break
            n += 1
            if n > 3000:
                raise Inconclusive("too many timers")
            if t - SLACK > self.rig.now_us():
                self.rig.advance((t - SLACK - self.rig.now_us()) / 1e6)
                self.settle("before %s" % long_time(t))
                self.verify_tries("before %s" % long_time(t))
            mark = len(self.rig.stderr())
            if t + SLACK > self.rig.now_us():
                self.rig.advance((t + SLACK - self.rig.now_us()) / 1e6)
            lim = t + SLACK
            said = self.rig.stderr()[mark:]     # attempts due at one time are made in any order
            for c in sorted(self.cons, key=lambda c: c.next_try or 0):
                if c.reset_at is not None and c.reset_at <= lim:
                    c.reset_at = None
                    c.delay = DELAY[c.kind][3]
            for c in sorted(self.cons, key=lambda c: (said.find(b"Console [%s] connected" % c.name.encode("latin-1")), c.next_try or 0)):
                if c.next_try is not None and c.next_try <= lim:
                    self.attempt(c, c.next_try)
            self.settle("retry at %s" % long_time(t))
            self.verify_tries("after %s" % long_time(t))
        if target > self.rig.now_us():
            self.rig.advance((target - self.rig.now_us()) / 1e6)
        self.settle("clock moved")
        self.verify_tries("clock moved")

    def verify_tries(self, where):
        """The daemon has tried to connect exactly as often as the model."""
        self.seq, new = self.rig.page.connects(self.seq)
        keys = [k for _, k in new]
        for c in self.cons:
            if c.kind in ("unix", "telnet"):
                k = addr_key(c.dev.port if c.kind == "telnet" else c.dev.path)
                # a missing socket file is noticed without a connect()
                n = keys.count(k)
                want = c.tries
                if n != want:
                    raise Violation("%s: console [%s] (%s): %d connection attempts expected, %d made (delay %s)" % (where, c.name, c.kind, want, n, c.delay))
            c.tries = 0
        if self.unresolved or any(getattr(c.dev, "host", "").startswith("vhost") for c in self.cons):
            for c in self.cons:
                m = self.rig.stderr().count(('WARNING:   Unable to resolve hostname "%s" for [%s]\n' % (c.dev.host, c.name)).encode()) if c.kind == "telnet" else 0
                if m != self.unresolved.get(c.name, 0):
                    raise Violation("%s: console [%s]: %d attempts to resolve the name of its host expected, %d seen" % (where, c.name, self.unresolved.get(c.name, 0), m))

    # -- messages
    def notify(self, con, text):
        m = info(text)
        for r in con.readers:
            if isinstance(r, LogM):
                r.info(m)
            else:
                r.write(m, True)
        for w in con.writers:
            if w not in con.readers:
                w.write(m, True)

    def now_s(self):
        return short_time(self.rig.now_us()).encode()

    def link_writer(self, cl, con):
        stolen = cl.force and bool(con.writers)
        t = self.now_s()
        self.notify(con, b"Console [" + con.label() + b"] " + (b"stolen" if stolen else b"joined") + (b" for B/C" if cl.bcast else b"")
                    + b" by " + cl.who + b" at " + t)
        for w in con.writers:
            cl.write(info(b"Console [" + con.label() + b"] " + (b"stolen from " if stolen else b"joined with ") + w.who + b" at " + t), True)
        if stolen:
            for w in list(con.writers):
                self.unlink(w)
            self.hit("stolen")
        con.writers.append(cl)
        cl.dst.append(con)

    def unlink(self, cl):
        for con in cl.src:
            con.readers.remove(cl)
        cl.src = []
        while cl.dst:
            self.unlink_writer(cl, cl.dst[0])
        cl.eof = True

    def unlink_writer(self, cl, con):
        cl.dst.remove(con)
        con.writers.remove(cl)
        self.notify(con, b"Console [" + con.label() + b"] departed by " + cl.who + b" at " + self.now_s())
        if not cl.dst and not cl.src:
            cl.eof = True

    # -- client operations
    def connect(self, user, tty, cmd, names, opts=(), pipe=False, early=b"", rcvbuf=None, src=1):
        """Full handshake. names: exact console names. Returns the client, or None if refused (reply verified)."""
        rig = self.rig
        ep = Client(rig, rcvbuf, src)
        cl = Cl(self, ep, user, tty, src)
        ep.hello(user, tty)
        if not pipe:
            rig.half_open += 1
            rig.settle()
            end = time.monotonic() + 10
            while not ep.rx.endswith(b"\n") and not ep.eof and time.monotonic() < end:
                time.sleep(0.0005)      # the thread that answers is not covered by the barrier
                rig.check_alive()
                ep.pump()
            rig.half_open -= 1
            got = ep.take()
            if got != b"OK\n":
                raise Violation("greeting of %r answered with %r" % (user, got))
            head = b""
        else:
            head = b"OK\n"
        ep.request(cmd.encode(), [n.encode("latin-1") for n in names], [o.encode() for o in opts])
        cons = sorted({c.name: c for c in self.cons if c.name in names}.values(), key=lambda c: c.name) if len(names) else []
        cl.bcast = "BROADCAST" in opts and len(cons) != 1
        cl.force, cl.join, cl.quiet = "FORCE" in opts, "JOIN" in opts, "QUIET" in opts
        exp, ok = self.predict(cl, cmd, cons, names)
        exp = head + exp
        if ok and cmd != "QUERY":
            self.clients.append(cl)
            cl.mode = cmd
            cl.exp += exp
            self.attach(cl, cmd, cons)
            if early:
                ep.send(early.replace(b"\xff", b"\xff\xff"))
                self.feed(cl, early)
            self.settle("connect")
            return cl
        rig.settle()
        got = ep.take()
        if got != exp:
            raise Violation("request %s %r %r: expected reply %r, got %r" % (cmd, names, opts, exp, got))
        if not ep.eof:
            raise Violation("connection not closed after reply %r" % exp)
        ep.close()
        self.hit("refused" if not ok else "query")
        self.verify("refused request")
        return None

    def ok_reply(self, cons):
        from .rig import lex_encode
        return (b"OK" + (b" OPTION=RESET" if self.reset_cmd else b"")
                + b"".join(b" CONSOLE='" + lex_encode(c.name.encode("latin-1")) + b"'" for c in cons) + b"\n")

    def idle(self, cl):
        return delta_string(self.rig.now() - cl.last_read).encode()

    def predict(self, cl, cmd, cons, names):
        if cmd == "QUERY" and not names:
            cons = sorted(self.cons, key=lambda c: c.name)
        if not cons:
            return b"ERROR CODE=5 MESSAGE='Found no matching consoles'\n", False
        if cmd == "QUERY":
            return self.ok_reply(cons), True
        if len(cons) > 1 and not (cmd == "CONNECT" and cl.bcast):
            return (b"ERROR CODE=6 MESSAGE='Found %d matching consoles'\n" % len(cons)
                    + b"".join(c.label() + b"\n" for c in cons)), False
        if cmd == "CONNECT" and not (cl.force or cl.join):
            busy = [c for c in cons if c.writers]
            if busy:
                m = b"Found console already in use" if len(busy) == 1 else b"Found %d consoles already in use" % len(busy)
                return (b"ERROR CODE=7 MESSAGE='" + m + b"'\n" + b"".join(
                    b"Console [" + c.label() + b"] open " + (b"R/W" if w.src else b"B/C") + b" by " + w.who + b" (idle " + self.idle(w) + b").\n"
                    for c in busy for w in c.writers)), False
        return self.ok_reply(cons), True

    def attach(self, cl, cmd, cons):
        if cmd == "MONITOR":
            cons[0].readers.append(cl)
            cl.src = [cons[0]]
            self.console_state(cons[0], cl)
        elif len(cons) == 1:
            self.link_writer(cl, cons[0])
            cons[0].readers.append(cl)
            cl.src = [cons[0]]
            self.console_state(cons[0], cl)
        else:
            for c in cons:
                self.link_writer(cl, c)
                self.console_state(c, cl)
        while self.deferred:
            self.attempt(self.deferred.pop(0))

    def console_state(self, con, cl):
        if not con.up:
            cl.write(info("Console [%s] is currently disconnected from %s" % (con.name, self.where(con))), True)
            if con.kind in DELAY:
                self.rig.settle()
                if con.kind == "telnet":
                    con.delay = DELAY["telnet"][0]
                con.next_try = None
                self.hit("attach_down")
                if con.pending:         # the attempt goes on
                    self.hit("attach_pending")
                elif con.kind == "telnet":        # completed by the main loop later
                    self.deferred.append(con)
                else:
                    self.attempt(con)
            elif con.kind == "serial":
                self.rig.settle()
                self.hit("attach_down_serial")
                self.attempt(con)

    def feed(self, cl, data):
        """Model effect of unescaped input bytes of a client."""
        cl.last_read = self.rig.now()
        for c in cl.dst:
            if c.up:
                c.din += data.replace(b"\xff", b"\xff\xff") if c.kind == "telnet" else data

    def type(self, cl, data):
        cl.ep.send(data.replace(b"\xff", b"\xff\xff"))
        self.feed(cl, data)

    def esc(self, cl, ch, send=True):
        """Escape command; ch is a one-character str."""
        if send:
            cl.ep.send(b"\xff" + ch.encode("latin-1"))
        cl.last_read = self.rig.now()
        if ch == "Q":
            cl.quiet = not cl.quiet
            op, ac = ("enabled", "suppressed") if cl.quiet else ("disabled", "displayed")
            cl.write(info("Quiet-mode %s -- info msgs will be %s" % (op, ac)))
        elif ch == "Z":
            if cl.pend is None:
                cl.pend = bytearray(cl.exp)
                cl.exp.clear()
            else:
                cl.resumed, cl.pend = bytes(cl.pend), None
        elif ch in "FJM":
            cl.force, cl.join = ch == "F", ch == "J"
            if cl.bcast or not cl.src:
                return
            con = cl.src[0]
            if cl.dst:
                self.unlink_writer(cl, con)
            else:
                self.link_writer(cl, con)
        elif ch == "L":
            if not cl.src:
                return
            con = cl.src[0]
            n = con.name
            if con.log is None or not con.log.open:
                cl.write(info("Console [%s] is not being logged -- cannot replay" % n))
            else:
                cl.write(info("Begin log replay of console [%s]" % n) + bytes(con.log.hist[-4096:]) + info("End log replay of console [%s]" % n))
        elif ch == "B":
            for c in cl.dst:
                if not c.up:
                    continue
                if c.kind == "process":
                    c.din += b"&B"
                elif c.kind == "telnet":
                    c.din += b"\xff\xf3"
                elif c.kind in ("ipmi", "serial"):
                    c.breaks += 1
        elif ch == "D":
            for c in cl.dst:
                if c.up:
                    c.din += b"\x7f"

    def bye(self, cl, how="close"):
        """The client goes away: close, reset, or half-close (waits for the daemon's close)."""
        if how == "half":
            cl.ep.shut_wr()
        else:
            cl.ep.close(rst=(how == "rst"))
            cl.gone = True
        was_eof = cl.eof
        cl.eof = True
        if not was_eof:
            self.unlink(cl)
        elif cl.dst or cl.src:
            self.unlink(cl)

    # -- device operations
    def emit(self, con, raw, visible=None):
        """The device emits raw bytes; `visible` is the console data they carry (telnet quoting removed)."""
        con.dev.ep.send(raw)
        self.emitted(con, raw if visible is None else visible)

    def emitted(self, con, data):
        for r in con.readers:
            if isinstance(r, LogM):
                r.data(data)
            else:
                r.write(data)

    # -- verification
    def diff(self, what, exp, got):
        i = 0
        n = min(len(exp), len(got))
        while i < n and exp[i] == got[i]:
            i += 1
        s = max(0, i - 40)
        raise Violation("%s differs at byte %d: expected (%d bytes) ...%r, got (%d bytes) ...%r"
                        % (what, i, len(exp), bytes(exp[s:i + 120]), len(got), bytes(got[s:i + 120])))

    def gap(self, what, exp, got):
        """got = exp without at most one contiguous part, whose end is followed by at least KEEP bytes (or nothing is missing)."""
        if exp == got:
            return False
        if len(got) > len(exp):
            self.diff(what + " (more than was sent)", exp, got)
        i = 0
        while i < len(got) and exp[i] == got[i]:
            i += 1
        # shortest tail possible: the cut may be anywhere at or before i
        for cut in range(i, -1, -1):
            tail = len(got) - cut
            if tail <= len(exp) - cut and exp[len(exp) - tail:] == got[cut:]:
                # the longest run of retained bytes at the end of got
                t2 = 0
                while t2 < len(got) and exp[len(exp) - 1 - t2] == got[len(got) - 1 - t2]:
                    t2 += 1
                if t2 < min(KEEP, len(exp)):
                    raise Violation("%s: only the last %d of the %d bytes were retained (%d promised)" % (what, t2, len(exp), KEEP))
                return True
        self.diff(what + " (more than one contiguous gap of the oldest bytes)", exp, got)

    def gaps(self, what, exp, got, most=8):
        """As gap(), but the kernel may have taken some of the output in between, so that there can be several gaps."""
        try:
            return self.gap(what, exp, got)
        except Violation as e:
            first = e
        exp, got = bytes(exp), bytes(got)
        if len(got) > len(exp):
            raise first
        keep = min(KEEP, len(exp))
        if got[-keep:] != exp[-keep:]:
            raise Violation("%s: the last %d bytes were not retained" % (what, keep))
        # reach[d]: how much of got can be explained if the last part ends `d` bytes further on in exp
        def lce(i, j):
            n, step = 0, 64
            while i + n < len(exp) and j + n < len(got) and step:
                if exp[i + n:i + n + step] == got[j + n:j + n + step] and i + n + step <= len(exp) and j + n + step <= len(got):
                    n += step
                    step = min(step * 2, 4096)
                else:
                    step //= 2
            return n
        reach = {0: lce(0, 0)}
        for g in range(most):
            if any(j == len(got) and d == len(exp) - len(got) for d, j in reach.items()):
                self.hit("gaps_%d" % min(g, 9))
                return True
            new, best = {}, -1
            marks = []
            for d, j in sorted(reach.items()):
                if j > best:
                    best = j
                    marks.append((d, j))
            for k, (d, j) in enumerate(marks):
                lim = marks[k + 1][0] if k + 1 < len(marks) else len(exp)
                if j == len(got):
                    continue
                w = got[j:j + 4]
                p = exp.find(w, j + d + 1)
                while 0 <= p and p - j <= lim:
                    r = j + lce(p, j)
                    if r > new.get(p - j, -1):
                        new[p - j] = r
                    p = exp.find(w, p + 1)
            for d, j in new.items():
                if j > reach.get(d, -1):
                    reach[d] = j
            if not new:
                break
        self.diff(what + " (not the output minus contiguous gaps)", exp, got)

    def verify(self, where=""):
        for n, cl in enumerate(self.clients):
            if cl.gone or cl.paused:
                continue
            what = "%s: output of client %d <%s>" % (where, n, cl.user.decode("latin-1"))
            got = cl.ep.take()
            if cl.resumed is not None:
                exp, cl.resumed = cl.resumed, None
                head = bytes(cl.exp)
                cl.exp.clear()
                # `exp` was withheld; `head` may have been written after the resume
                full = exp + head
                if self.gap(what + " after resume", full, got):
                    self.hit("overflow")
                self.hit("resumed")
            elif cl.allow_gap:
                exp = bytes(cl.exp)
                cl.exp.clear()
                cl.allow_gap = False
                if self.gaps(what + " after a stall", exp, got):
                    self.hit("overflow")
            else:
                if got != cl.exp:
                    self.diff(what, bytes(cl.exp), got)
                cl.exp.clear()
            if cl.eof and cl.pend is None and not cl.ep.eof:
                raise Violation("%s: session has ended but the connection stays open" % what)
            if not cl.eof and cl.ep.eof:
                raise Violation("%s: connection closed by the daemon" % what)
            if cl.eof and cl.ep.eof:
                cl.gone = True
                cl.ep.close()
        for c in self.cons:
            if not c.up or c.dpaused:
                continue
            ep = c.dev.ep
            what = "%s: input of console [%s] (%s)" % (where, c.name, c.kind)
            if ep is None:
                raise Violation("%s: console never connected" % what)
            got = ep.take()
            exp = bytes(c.din)
            c.din.clear()
            if getattr(c, "dgap", False):
                c.dgap = False
                if self.gaps(what, exp, got):
                    self.hit("dev_overflow")
            elif got != exp:
                self.diff(what, exp, got)
            if c.kind == "ipmi" and c.dev.breaks != c.breaks:
                raise Violation("%s: %d breaks expected, %d seen" % (what, c.breaks, c.dev.breaks))
        self.verify_logs(where)

    def verify_logs(self, where=""):
        for c in self.cons:
            if c.log and c.log.open:
                try:
                    with open(c.log.path, "rb") as f:
                        got = f.read()
                except OSError as e:
                    raise Violation("%s: log of [%s]: %s" % (where, c.name, e))
                if got != c.log.exp:
                    self.diff("%s: log of console [%s]" % (where, c.name), bytes(c.log.exp), got)

    def short(self):
        """Something expected has not arrived yet."""
        for cl in self.clients:
            if cl.gone or cl.paused:
                continue
            if cl.resumed is None and not cl.allow_gap and len(cl.ep.rx) < len(cl.exp):
                return True
            if (cl.resumed is not None or cl.allow_gap) and len(cl.ep.rx) < min(len(cl.resumed or b"") + len(cl.exp), KEEP):
                return True
            if cl.eof and cl.pend is None and not cl.ep.eof:
                return True
        for c in self.cons:
            if c.up and not c.dpaused and c.dev.ep is not None and not getattr(c, "dgap", False) and len(c.dev.ep.rx) < len(c.din):
                return True
        return False

    PATIENCE = 0.6

    def settle(self, where=""):
        self.rig.settle()
        end = time.monotonic() + self.PATIENCE
        while self.short() and time.monotonic() < end:
            time.sleep(0.002)
            self.rig.settle()
        self.verify(where)

    def finish(self):
        """Orderly end: the daemon must stop cleanly and close everybody."""
        self.settle("end")
        page = self.rig.page
        for k in FAULTS:
            page[k] = 0
        rc = self.rig.stop()
        if rc != 0:
            raise Violation("daemon exited with status %s: %s" % (rc, self.rig.crash_text()))
