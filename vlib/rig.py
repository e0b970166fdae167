"""Driver for the real conmand: virtual clock, quiescence barrier, emulated peers."""
import fcntl, mmap, os, re, select, shutil, signal, socket, struct, subprocess, tempfile, termios, time

from . import build

ESC = b"\xff"
PAGE = ("magic vbase vtick idle_seq poll_seq thr_started thr_finished deadline rnd max_read max_write p_eintr "
        "p_eagain accept_fail thread_fail lock_delay poll_delay sndbuf in_delay kills mlock_delay conn_seq sock_fail p_chld term_read short_log count in_bytes net_bytes term_wait nodns acl hang").split()
OFF = {n: 8 * i for i, n in enumerate(PAGE)}
RING = 16384            # documented size of an object's buffer; one byte is a sentinel
T0 = 1600000000         # 2020-09-13 12:26:40 UTC


class Violation(Exception):
    """The property is broken; the message says how."""


class Inconclusive(Exception):
    """The environment (not conman) prevented a verdict."""


class Page:
    def __init__(self, path):
        self.path = path
        with open(path, "wb") as f:
            f.write(b"\0" * 4096)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 4096)

    def __getitem__(self, k):
        return struct.unpack_from("<q", self.m, OFF[k])[0]

    def __setitem__(self, k, v):
        struct.pack_into("<q", self.m, OFF[k], v)

    def connects(self, since):
        """(time, key) of the connect() calls numbered >= since (the last 128 are kept)."""
        n = self["conn_seq"]
        return n, [struct.unpack_from("<qq", self.m, 1024 + 16 * (i % 128)) for i in range(max(since, n - 128), n)]

    def ttycount(self):
        return struct.unpack_from("<q", self.m, 4064)[0]

    def ttys(self):
        """The daemon's tcsetattr calls (the last 31): (device, cflag, iflag, oflag, lflag, VMIN, VTIME)."""
        n = struct.unpack_from("<q", self.m, 4064)[0]
        for i in range(max(0, n - 31), n):
            d, c, io, l = struct.unpack_from("<qqqq", self.m, 3072 + 32 * (i % 31))
            yield d, c, io >> 32 & 0xffffffff, io & 0xffffffff, l >> 16, l >> 8 & 255, l & 255

    def close(self):
        self.m.close()
        self.f.close()


def addr_key(a):
    """As computed by the shim."""
    if isinstance(a, int):
        return a
    k = 7
    for c in a.encode():
        k = (k * 31 + c) & 0x7fffffffffff
    return k


def outq(sock):
    try:
        b = fcntl.ioctl(sock.fileno(), termios.TIOCOUTQ, b"\0\0\0\0")
        return struct.unpack("i", b)[0]
    except OSError:
        return 0


class Endpoint:
    """A nonblocking byte-stream endpoint of the driver."""

    def __init__(self, rig, fd=None, sock=None, tcp=False):
        self.rig, self.sock = rig, sock
        self.fd = sock.fileno() if sock is not None else fd
        os.set_blocking(self.fd, False)
        self.rx, self.tx = bytearray(), bytearray()
        self.eof = False        # peer closed
        self.closed = False     # we closed
        self.paused = False
        self.tcp = tcp
        rig.eps.append(self)

    def send(self, data):
        if not self.closed:
            self.tx += data
            self.flush()

    def flush(self):
        n = 0
        while self.tx and not self.closed:
            try:
                k = os.write(self.fd, self.tx[:65536])
            except BlockingIOError:
                break
            except OSError:
                self.tx.clear()
                break
            n += k
            del self.tx[:k]
        return n

    def pump(self, limit=None):
        """Reads what is available. Returns the number of bytes (EOF counts as one)."""
        n = 0
        while not (self.closed or self.eof or self.paused) and (limit is None or n < limit):
            try:
                b = os.read(self.fd, 65536 if limit is None else min(65536, limit - n))
            except BlockingIOError:
                break
            except OSError:         # ECONNRESET, EIO of a pty
                b = b""
            if not b:
                self.eof = True
                n += 1
                break
            self.rx += b
            n += len(b)
        return n

    def take(self):
        b = bytes(self.rx)
        self.rx.clear()
        return b

    def close(self, rst=False):
        if self.closed:
            return
        self.closed = True
        if self.sock is not None:
            if rst:
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.sock.close()
        else:
            os.close(self.fd)

    def shut_wr(self):
        try:
            self.sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass


class UnixDev:
    """Device behind a unix-socket console: a listening socket the daemon connects to."""
    kind = "unix"

    def __init__(self, rig, name, listen=True):
        self.rig, self.name = rig, name
        self.path = os.path.join(rig.dir, name)
        self.ls = None
        self.ep = None
        self.accepted = 0
        rig.devs.append(self)
        if listen:
            self.up()

    @property
    def devstr(self):
        return "unix:" + self.path

    def up(self):
        if self.ls is None:
            # bind under a temporary name and rename, so that the name appears already listening
            tmp = self.path + ".tmp"
            for p in (tmp, self.path):
                try:
                    os.unlink(p)
                except OSError:
                    pass
            self.ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            self.ls.bind(tmp)
            self.ls.listen(8)
            self.ls.setblocking(False)
            os.rename(tmp, self.path)

    def down(self):
        if self.ls is not None:
            self.ls.close()
            self.ls = None
            try:
                os.unlink(self.path)
            except OSError:
                pass

    def poll(self):
        n = 0
        while self.ls is not None:
            try:
                s, _ = self.ls.accept()
            except BlockingIOError:
                break
            self.ep = Endpoint(self.rig, sock=s)
            self.accepted += 1
            n += 1
        return n

    def hangup(self):
        if self.ep and not self.ep.closed:
            self.ep.close()

    def close(self):
        self.down()


class TelnetDev:
    """A telnet server on 127.0.0.1."""
    kind = "telnet"

    def __init__(self, rig, name, listen=True):
        self.rig, self.name = rig, name
        self.ls = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.ls.bind(("127.0.0.1", 0))
        self.port = self.ls.getsockname()[1]
        self.listening = False
        self.ep = None
        self.accepted = 0
        self.host = "127.0.0.1"
        rig.devs.append(self)
        if listen:
            self.up()

    @property
    def devstr(self):
        return "%s:%d" % (self.host, self.port)

    def up(self):
        if not self.listening:
            if self.ls is None:
                self.ls = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                for _ in range(50):
                    try:
                        self.ls.bind(("127.0.0.1", self.port))
                        break
                    except OSError:
                        time.sleep(0.02)
                else:
                    raise Inconclusive("cannot rebind port")
            self.ls.listen(8)
            self.ls.setblocking(False)
            self.listening = True

    def down(self):
        if self.listening:
            self.poll()
            self.ls.close()
            self.ls = None
            self.listening = False

    def poll(self):
        n = 0
        while self.listening:
            try:
                s, _ = self.ls.accept()
            except BlockingIOError:
                break
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.ep = Endpoint(self.rig, sock=s, tcp=True)
            self.accepted += 1
            n += 1
        return n

    def hangup(self, rst=False):
        if self.ep and not self.ep.closed:
            self.ep.close(rst)

    def close(self):
        if self.ls is not None:
            self.ls.close()


class PtyDev:
    """A serial line: the daemon opens the slave, the driver holds the master."""
    kind = "serial"

    def __init__(self, rig, name):
        self.rig, self.name = rig, name
        m, s = os.openpty()
        self.path = os.ttyname(s)
        self.slave = s                  # kept open so that the line survives the daemon
        self.ep = Endpoint(rig, fd=m)
        rig.devs.append(self)

    @property
    def devstr(self):
        return self.path

    def poll(self):
        return 0

    def close(self):
        try:
            os.close(self.slave)
        except OSError:
            pass


class ProcDev:
    """A process console running the vproc helper, which relays to a socket of the driver."""
    kind = "process"

    def __init__(self, rig, name):
        self.rig, self.name = rig, name
        self.path = os.path.join(rig.dir, name + ".ctl")
        self.ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.ls.bind(self.path)
        self.ls.listen(8)
        self.ls.setblocking(False)
        self.page = Page(os.path.join(rig.dir, name + ".pg"))
        self.ep = None
        self.accepted = 0
        self.pending = []
        self.info = None
        self.exe = os.path.join(rig.dir, "p_" + name)
        os.symlink(os.path.join(build.helpers(), "vproc"), self.exe)
        rig.devs.append(self)

    def disable(self, how):
        """Makes the program impossible to run; returns the reason the daemon gives."""
        os.unlink(self.exe)
        if how == 0:
            return "stat error: No such file or directory"
        if how == 1:
            os.symlink(self.rig.dir, self.exe)
            return "not a regular file"
        with open(self.exe, "w"):
            pass
        os.chmod(self.exe, 0o644)
        return "not executable"

    def enable(self):
        os.unlink(self.exe) if os.path.lexists(self.exe) else None
        os.symlink(os.path.join(build.helpers(), "vproc"), self.exe)

    @property
    def devstr(self):
        return "%s %s %s" % (self.exe, self.path, self.page.path)

    def poll(self):
        n = 0
        while True:
            try:
                s, _ = self.ls.accept()
            except (BlockingIOError, OSError):
                break
            s.setblocking(False)
            self.pending.append([s, b""])
            n += 1
        for p in list(self.pending):
            try:
                while not p[1].endswith(b"\n"):
                    c = p[0].recv(65536)
                    if not c:
                        break
                    p[1] += c
                    n += 1
            except BlockingIOError:
                continue
            except OSError:
                pass
            self.pending.remove(p)
            if p[1].startswith(b"PROC ") and p[1].endswith(b"\n"):
                _, pid, ppid, pgrp, argv, env, fds, cwd = (p[1][:-1] + b" ").split(b" ")[:8]
                un = lambda x: [bytes.fromhex(v.decode()) for v in x.split(b",")[:-1]]
                self.info = {"pid": int(pid), "ppid": int(ppid), "pgrp": int(pgrp), "argv": un(argv), "env": un(env),
                             "fds": {int(v.split(b":")[0]): bytes.fromhex(v.split(b":")[1].decode()) for v in fds.split(b",")[:-1]},
                             "cwd": bytes.fromhex(cwd.decode())}
                self.ep = Endpoint(self.rig, sock=p[0])
                self.accepted += 1
            else:
                p[0].close()
        return n

    def hangup(self):
        if self.ep and not self.ep.closed:
            self.ep.close()

    def close(self):
        for p in self.pending:
            p[0].close()
        self.ls.close()
        self.page.close()


class IpmiDev:
    """A BMC, through the stand-in for libipmiconsole: a unix socket named after the host."""
    kind = "ipmi"

    def __init__(self, rig, name, listen=True):
        self.rig, self.name = rig, name
        self.host = "bmc-" + name
        self.path = os.path.join(rig.dir, self.host)
        self.ls = None
        self.ep = None
        self.accepted = 0
        self.breaks = 0
        self.confs = []
        self.pending = []
        rig.devs.append(self)
        if listen:
            self.up()

    @property
    def devstr(self):
        return "ipmi:" + self.host

    def up(self):
        if self.ls is None:
            self.ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            self.ls.bind(self.path)
            self.ls.listen(8)
            self.ls.setblocking(False)

    def down(self):
        if self.ls is not None:
            self.ls.close()
            self.ls = None
            os.unlink(self.path)

    def poll(self):
        n = 0
        while self.ls is not None:
            try:
                s, _ = self.ls.accept()
            except BlockingIOError:
                break
            self.pending.append([s, b""])
            s.setblocking(False)
            n += 1
        for p in list(self.pending):
            try:
                while b"\n" not in p[1]:
                    c = p[0].recv(1)
                    if not c:
                        break
                    p[1] += c
                    n += 1
            except BlockingIOError:
                continue
            except OSError:
                pass
            self.pending.remove(p)
            if p[1] == b"BREAK\n":
                self.breaks += 1
                p[0].close()
            elif p[1].startswith(b"CONF"):
                self.confs.append(p[1].decode().split()[1:])
                self.ep = Endpoint(self.rig, sock=p[0])
                self.accepted += 1
            else:
                p[0].close()
        return n

    def hangup(self):
        if self.ep and not self.ep.closed:
            self.ep.close()

    def close(self):
        self.down()


def lex_encode(s):
    """Wire form of a quoted string (documented in lex.h): characters the lexer would interpret get their high bit set."""
    out = bytearray()
    for c in s:
        if c in (0x22, 0x27) or c < 0x20 or c == 0x7f:
            c |= 0x80
        out.append(c)
    return bytes(out)


class Client(Endpoint):
    """A session speaking the client side of the protocol."""

    def __init__(self, rig, rcvbuf=None, src=1):
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        if src > 1:         # from 127.0.0.SRC, whose name the shim makes up
            s.bind(("127.0.0.%d" % src, 0))
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_MAXSEG, 1000)
        try:
            s.connect(("127.0.0.1", rig.port))
        except OSError as e:
            rig.check_alive()
            raise Inconclusive("connect: %s" % e)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        Endpoint.__init__(self, rig, sock=s, tcp=True)
        self.lport = s.getsockname()[1]

    def hello(self, user=b"u", tty=b"t"):
        self.send(b"HELLO USER='" + lex_encode(user) + b"'" + (b" TTY='" + lex_encode(tty) + b"'" if tty is not None else b"") + b"\n")

    def request(self, cmd, pats, opts=()):
        self.send(cmd + b"".join(b" OPTION=" + o for o in opts)
                  + b"".join(b" CONSOLE='" + lex_encode(p) + b"'" for p in pats) + b"\n")


def subreaper():
    """Makes daemons that put themselves in the background children of this process."""
    import ctypes
    ctypes.CDLL(None, use_errno=True).prctl(36, 1, 0, 0, 0)


class BgProc:
    """A daemon in the background, with the interface of subprocess.Popen used here."""

    def __init__(self, pid):
        self.pid, self.returncode = pid, None

    def poll(self):
        if self.returncode is None:
            try:
                p, st = os.waitpid(self.pid, os.WNOHANG)
            except ChildProcessError:
                p, st = self.pid, 0
            if p:
                self.returncode = os.waitstatus_to_exitcode(st)
        return self.returncode

    def send_signal(self, sig):
        if self.poll() is None:
            os.kill(self.pid, sig)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def wait(self):
        while self.poll() is None:
            time.sleep(0.001)
        return self.returncode


class Rig:
    START_TMO = 20.0
    HANG_TMO = 20.0

    def __init__(self, frozen=True, t0=T0):
        self.dir = tempfile.mkdtemp(prefix="vf", dir="/tmp")
        self.eps, self.devs, self.clients = [], [], []
        self.page = Page(os.path.join(self.dir, "shim.pg"))
        if frozen:
            self.page["vbase"] = t0 * 1000000 + 100000
        self.page["rnd"] = 12345
        self.proc = None
        self.port = None
        self.stderr_path = os.path.join(self.dir, "stderr")
        self.half_open = 0          # client threads expected to be blocked in a read
        self.extra_env = {}
        self.exited = self.err = None
        self.prefix = []
        self.popen = {}

    # -- life cycle
    def write_conf(self, text, name="conf"):
        p = os.path.join(self.dir, name)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("latin-1"))
        return p

    def env(self):
        e = dict(build.ENV)
        off = -ZONE[1]
        e.update({"TZ": "%s%s%d:%02d" % (ZONE[0], "-" if off < 0 else "", abs(off) // 3600, abs(off) % 3600 // 60), "VSHIM": self.page.path, "FAKEIPMI": self.dir,
                  "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=0",
                  "UBSAN_OPTIONS": "print_stacktrace=1"})
        e.update(self.extra_env)
        return e

    def start(self, conf, args=(), wait=True, cwd=None):
        self.conf = self.write_conf(conf)
        d = build.daemon()
        self.err = open(self.stderr_path, "ab")
        self.proc = subprocess.Popen(self.prefix + [os.path.join(d, "conmand"), "-F", "-c", self.conf] + list(args),
                                     stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, env=self.env(),
                                     cwd=cwd or self.dir, start_new_session=True, **self.popen)
        if wait:
            self.wait_port()
            self.settle()

    def start_bg(self, conf, args=(), log="daemon.log"):
        """As start(), in the background; `log` is the daemon's log file, in self.logs from then on."""
        subreaper()
        self.conf = self.write_conf(conf)
        self.err = open(self.stderr_path, "ab")
        self.logs = [os.path.join(self.dir, log)]
        self.extra_env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:log_path=%s/asan" % self.dir
        self.extra_env["UBSAN_OPTIONS"] = "print_stacktrace=1:log_path=%s/asan" % self.dir
        p = subprocess.Popen(self.prefix + [os.path.join(build.daemon(), "conmand"), "-c", self.conf] + list(args),
                             stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, env=self.env(), cwd=self.dir, start_new_session=True, **self.popen)
        try:
            rc = p.wait(self.START_TMO)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Inconclusive("the daemon did not go to the background in time")
        m = re.findall(rb"Starting ConMan daemon \S+ \(pid (\d+)\)", self.stderr())
        if rc != 0 or not m:
            raise Violation("the daemon did not start in the background (status %s): %s" % (rc, self.stderr()[-1500:].decode("latin-1")))
        self.proc = BgProc(int(m[-1]))
        self.wait_port()
        self.settle()

    def restart(self, conf, args=()):
        """After stop(): a new daemon in the same directory."""
        self.err.close()
        self.old_stderr = self.stderr()
        os.unlink(self.stderr_path)
        self.exited = None
        self.half_open = 0
        self.page["thr_finished"] = self.page["thr_started"]
        self.start(conf, args)

    logs = ()

    def stderr(self):
        t = b""
        import glob
        for p in [self.stderr_path] + [q for l in self.logs for q in (sorted(glob.glob(l)) if "*" in l else [l])] + ([os.path.join(self.dir, n) for n in sorted(os.listdir(self.dir)) if n.startswith("asan")] if self.logs else []):
            try:
                with open(p, "rb") as f:
                    t += f.read()
            except OSError:
                pass
        return t

    def wait_port(self):
        end = time.monotonic() + self.START_TMO
        while True:
            m = re.findall(rb"Listening on TCP port (\d+)", self.stderr())
            if m:
                self.port = int(m[-1])
                return
            if self.proc.poll() is not None:
                raise Violation("daemon did not start (status %s): %s" % (self.proc.returncode, self.stderr()[-2000:].decode("latin-1")))
            if time.monotonic() > end:
                raise Inconclusive("daemon start timed out")
            time.sleep(0.002)

    def check_alive(self):
        if self.proc is None or self.exited is not None:
            return
        rc = self.proc.poll()
        if rc is not None:
            self.exited = rc
            raise Violation("daemon died (status %s): %s" % (rc, self.crash_text()))

    def crash_text(self):
        t = self.stderr().decode("latin-1")
        i = t.find("ERROR: AddressSanitizer")
        j = t.find("runtime error:")
        if i < 0 and j >= 0:
            i = max(0, j - 200)
        return t[i:i + 1500] if i >= 0 else t[-800:]

    def stop(self, sig=signal.SIGTERM, tmo=15.0):
        """Terminates the daemon; returns its exit status."""
        if self.proc is None:
            return None
        if self.proc.poll() is None:
            self.proc.send_signal(sig)
            end = time.monotonic() + tmo
            while self.proc.poll() is None and time.monotonic() < end:
                for e in self.eps:
                    e.pump()
                time.sleep(0.001)
            if self.proc.poll() is None:
                raise Violation("daemon did not exit within %gs of signal %d" % (tmo, sig))
        self.exited = self.proc.returncode
        return self.exited

    def close(self):
        try:
            if self.proc is not None and self.proc.poll() is None:
                self.proc.kill()
                self.proc.wait()
            if self.err is not None:
                self.err.close()
        finally:
            for e in self.eps:
                try:
                    e.close()
                except OSError:
                    pass
            for d in self.devs:
                try:
                    d.close()
                except OSError:
                    pass
            self.page.close()
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def signal(self, sig, msg, tmo=5.0):
        """Sends a signal and waits until the daemon has logged that it acts on it."""
        n = self.stderr().count(msg)
        self.proc.send_signal(sig)
        end = time.monotonic() + tmo
        while self.stderr().count(msg) <= n:
            self.check_alive()
            if time.monotonic() > end:
                raise Violation("signal %d was not acted upon within %gs" % (sig, tmo))
            time.sleep(0.001)
        self.settle()

    # -- barrier
    def actors(self):
        a = [self.page]
        for d in self.devs:
            if isinstance(d, ProcDev) and d.page["magic"] and d.ep is not None and not (d.ep.eof or d.ep.closed):
                a.append(d.page)
        return a

    def _sig(self):
        return tuple(p["poll_seq"] for p in self.actors()) + (self.page["thr_started"], self.page["thr_finished"],
                                                                sum(d.accepted for d in self.devs if hasattr(d, "accepted")))

    def pump(self):
        n = 0
        for d in self.devs:
            n += d.poll()
        for e in self.eps:
            n += e.flush()
            n += e.pump()
        return n

    def _wait_idle(self, page, main):
        end = time.monotonic() + self.HANG_TMO
        s = page["idle_seq"]
        k = 0
        while True:
            if page["idle_seq"] >= s + 2:
                if not main or page["thr_started"] - page["thr_finished"] <= self.half_open:
                    return
            k += 1
            if k % 8 == 0:
                self.pump()
                if main:
                    self.check_alive()
                elif page not in self.actors():
                    return
            if time.monotonic() > end:
                self.check_alive()
                self.hang_detail = "idle %d->%d polls %d threads %d/%d" % (
                    s, page["idle_seq"], page["poll_seq"], page["thr_started"], page["thr_finished"])
                raise Violation("daemon never became idle within %gs (%s)" % (self.HANG_TMO, self.hang_detail))
            time.sleep(0.0004)

    def settle(self):
        """Returns when everything sent so far has been processed by the daemon and its helpers."""
        end = time.monotonic() + 4 * self.HANG_TMO
        while True:
            self.check_alive()
            s0 = self._sig()
            n = self.pump()
            for i, p in enumerate(self.actors()):
                self._wait_idle(p, i == 0)
            n += self.pump()
            undelivered = any(e.tcp and not e.closed and not e.eof and not e.tx and outq(e.sock) and not self._stuck(e) for e in self.eps)
            if n == 0 and s0 == self._sig() and not undelivered:
                return
            if time.monotonic() > end:
                raise Violation("system never became quiescent")

    def _stuck(self, e):
        return getattr(e, "may_block", False)

    # -- clock
    def now_us(self):
        return self.page["vbase"] + self.page["vtick"]

    def now(self):
        return self.now_us() // 1000000

    def set_clock(self, us):
        self.page["vbase"] = us - self.page["vtick"]

    def advance(self, seconds, step=None):
        """Moves the clock forward, stopping at each timer of the daemon on the way."""
        self.settle()
        target = self.now_us() + int(seconds * 1000000)
        guard = 0
        while True:
            d = self.page["deadline"]
            if 0 <= d <= target and d > self.now_us():
                self.set_clock(d)
                self.settle()
                guard += 1
                if guard > 20000:
                    raise Inconclusive("too many timers")
                continue
            if d >= 0 and d <= self.now_us():
                self.settle()
                d2 = self.page["deadline"]
                if d2 == d:
                    self.set_clock(self.now_us() + 1000)
                continue
            break
        if target > self.now_us():
            self.set_clock(target)
        self.settle()

    def advance_all(self, seconds):
        self.advance(seconds)


ZONE = ["UTC", 0]       # local time zone of the daemon under test: name and seconds east


def set_zone(name, east):
    ZONE[:] = [name, east]


def local(us):
    return time.gmtime(us // 1000000 + ZONE[1])


def long_time(us):
    return time.strftime("%Y-%m-%d %H:%M:%S ", local(us)) + ZONE[0]


def short_time(us):
    return time.strftime("%m-%d %H:%M", local(us))
