"""Driver for the real client program: a scripted server, terminals owned by the test, a quiescence barrier."""
import fcntl, os, select, shutil, signal, socket, struct, subprocess, tempfile, termios, time

from . import build
from .rig import Inconclusive, Page, T0, Violation, ZONE  # noqa: F401

START = "2020-09-13 12:26:40 UTC"


class CliRig:
    def __init__(self, tcp_backlog=4):
        self.dir = tempfile.mkdtemp(prefix="cmc-")
        os.chmod(self.dir, 0o755)
        self.page = Page(os.path.join(self.dir, "page"))
        os.chmod(self.page.path, 0o666)
        self.page["vbase"] = T0 * 1000000
        self.page["count"] = 1
        self.lsock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.lsock.bind(("127.0.0.1", 0))
        self.lsock.listen(tcp_backlog)
        self.lsock.setblocking(False)
        self.port = self.lsock.getsockname()[1]
        self.sock = None
        self.fds, self.rx, self.out, self.echo = [], bytearray(), bytearray(), bytearray()
        self.rx_eof = self.rx_err = False
        self.txq, self.tyq = bytearray(), bytearray()       # to the client's socket, to its terminal
        self.typed = self.sent = 0
        self.p, self.rc, self.stopped = None, None, False
        self.outm = self.inm = self.ins = self.outs = None

    def pty(self, tio=None):
        m, s = os.openpty()
        self.fds += [m, s]
        if tio:
            tio(s)
        fcntl.fcntl(m, fcntl.F_SETFL, fcntl.fcntl(m, fcntl.F_GETFL) | os.O_NONBLOCK)
        return m, s

    def start(self, args, tty=None, env=None, tio=None, stdin=None, **kw):
        """tty: None (stdin from /dev/null, stdout to a file), 'shared' (one terminal) or 'split' (two)."""
        exe = os.path.join(build.daemon(), "conman")
        e = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "LC_ALL": "C", "VSHIM": self.page.path,
             "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99", "UBSAN_OPTIONS": "print_stacktrace=1"}
        e.update(env or {})
        self.errf = open(os.path.join(self.dir, "stderr"), "w+b")
        if tty:
            self.inm, self.ins = self.pty(tio)
            if tty == "shared":
                self.outm, self.outs = self.inm, self.ins
            else:
                def raw(fd):
                    a = termios.tcgetattr(fd)
                    a[1] &= ~termios.OPOST
                    termios.tcsetattr(fd, termios.TCSANOW, a)
                self.outm, self.outs = self.pty(raw)
            i, o = self.ins, self.outs
        else:
            self.outf = open(os.path.join(self.dir, "stdout"), "w+b")
            i, o = (stdin if stdin is not None else subprocess.DEVNULL), self.outf
        self.p = subprocess.Popen([exe] + args, stdin=i, stdout=o, stderr=self.errf, env=e, cwd=self.dir, process_group=0, **kw)

    # -- state of the client process
    def wait(self):
        """Reaps; returns the exit status once it has ended, else None."""
        while self.rc is None:
            try:
                pid, st = os.waitpid(self.p.pid, os.WNOHANG | os.WUNTRACED | os.WCONTINUED)
            except ChildProcessError:
                raise Inconclusive("the client vanished")
            if pid == 0:
                break
            if os.WIFSTOPPED(st):
                self.stopped = True
            elif os.WIFCONTINUED(st):
                self.stopped = False
            else:
                self.rc = self.p.returncode = os.waitstatus_to_exitcode(st)
        return self.rc

    def accept(self, tmo=10.0):
        end = time.monotonic() + tmo
        while self.sock is None:
            try:
                self.sock, _ = self.lsock.accept()
                self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                self.sock.setblocking(False)
            except BlockingIOError:
                if self.wait() is not None:
                    return False
                if time.monotonic() > end:
                    raise Inconclusive("the client did not connect")
                select.select([self.lsock], [], [], 0.01)
        return True

    def pump(self, tmo=0.0):
        r = [x for x in (self.outm, self.inm if self.inm != self.outm else None) if x is not None]
        w = []
        if self.sock is not None:
            if not self.rx_eof:
                r.append(self.sock)
            if self.txq:
                w.append(self.sock)
        if self.tyq and self.inm is not None:
            w.append(self.inm)
        if tmo and not r and not w:
            time.sleep(tmo)
            return
        rr, ww, _ = select.select(r, w, [], tmo)
        if self.sock in rr:
            try:
                b = self.sock.recv(65536)
                self.rx += b
                if not b:
                    self.rx_eof = True
            except BlockingIOError:
                pass
            except OSError:
                self.rx_eof = self.rx_err = True
        for fd, buf in ((self.outm, self.out), (self.inm if self.inm != self.outm else None, self.echo)):
            if fd is not None and fd in rr:
                try:
                    buf += os.read(fd, 65536)
                except BlockingIOError:
                    pass
                except OSError:
                    pass
        if self.sock is not None and self.sock in ww:
            try:
                n = self.sock.send(self.txq[:65536])
                self.sent += n
                del self.txq[:n]
            except BlockingIOError:
                pass
            except OSError:
                self.txq.clear()
        if self.inm in ww and self.tyq:
            try:
                n = os.write(self.inm, bytes(self.tyq[:1024]))
                self.typed += n
                del self.tyq[:n]
            except BlockingIOError:
                pass
            except OSError:
                self.tyq.clear()

    def send(self, b):
        self.txq += b

    def type(self, b):
        self.tyq += b

    def close_srv(self, rst=False):
        while self.txq and not self.rx_err:
            self.pump(0.01)
            if self.wait() is not None:
                break
        if self.sock is not None:
            if rst:
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.sock.close()
            self.sock = None

    def until(self, cond, what, tmo=10.0):
        """Pumps until cond() or the client's end; False on the latter."""
        end = time.monotonic() + tmo
        while True:
            if cond():
                return True
            if self.wait() is not None:
                self.pump()
                return bool(cond())
            if time.monotonic() > end:
                raise Violation("the client hangs: %s (sent it %d of %d bytes, it read %d; typed %d, it read %d)" % (
                    what, self.sent, self.sent + len(self.txq), self.page["net_bytes"], self.typed, self.page["in_bytes"]))
            self.pump(0.002)

    def settle(self, typed=True):
        """Everything typed and sent has been read and acted upon, or the client has ended or is stopped."""
        def quiet():
            if self.stopped:
                return True
            return not self.txq and not self.tyq and self.page["net_bytes"] >= self.sent and (not typed or self.page["in_bytes"] >= self.typed)
        self.wait()
        self.until(quiet, "input is left unread")
        if self.rc is None and not self.stopped:
            n = self.page["idle_seq"] + 2
            self.until(lambda: self.stopped or (quiet() and self.page["idle_seq"] >= n), "it does not wait for input again")
        return self.rc is None

    def settle_net(self):
        """Everything sent has been read (or the client has ended)."""
        self.until(lambda: not self.txq and self.page["net_bytes"] >= self.sent, "a reply is left unread")
        return True

    def ended(self, tmo=10.0):
        """Waits for the end of the client and collects all its output."""
        end = time.monotonic() + tmo
        while self.wait() is None:
            if time.monotonic() > end:
                raise Violation("the client did not end")
            self.pump(0.005)
        for _ in range(200):
            if self.sock is None or self.rx_eof:
                break
            self.pump(0.005)
        return self.rc

    def drain(self):
        """Closes the driver's side of the terminals; afterwards .out is complete."""
        for s in {self.ins, self.outs} - {None}:
            os.close(s)
            self.fds.remove(s)
        self.ins = self.outs = None
        for m, buf in ((self.outm, self.out), (self.inm, self.echo)):
            if m is None or m not in self.fds:
                continue
            end = time.monotonic() + 5
            while time.monotonic() < end:
                try:
                    b = os.read(m, 65536)
                    if not b:
                        break
                    buf += b
                except BlockingIOError:
                    time.sleep(0.001)
                except OSError:
                    break

    def drain_in(self):
        """The terminal the client reads from goes away."""
        os.close(self.inm)
        self.fds.remove(self.inm)
        self.inm = None
        self.tyq.clear()

    def stdout(self):
        if self.outm is not None:
            return bytes(self.out)
        self.outf.seek(0)
        return self.outf.read()

    def stderr(self):
        self.errf.seek(0)
        return self.errf.read()

    def crashed(self):
        e = self.stderr()
        if b"AddressSanitizer" in e or b"runtime error" in e:
            raise Violation("memory error in the client:\n" + e.decode("latin-1")[:3000])
        if self.rc is not None and self.rc < 0:
            raise Violation("the client was killed by signal %d; stderr: %r" % (-self.rc, e[-500:]))

    def close(self):
        try:
            if self.p is not None and self.rc is None:
                try:
                    os.kill(self.p.pid, signal.SIGKILL)
                    os.kill(self.p.pid, signal.SIGCONT)
                except ProcessLookupError:
                    pass
                try:
                    _, st = os.waitpid(self.p.pid, 0)
                    self.p.returncode = -9
                except ChildProcessError:
                    pass
        finally:
            for s in (self.sock, self.lsock):
                if s is not None:
                    s.close()
            for fd in self.fds:
                try:
                    os.close(fd)
                except OSError:
                    pass
            self.page.close()
            for f in ("errf", "outf"):
                if hasattr(self, f):
                    getattr(self, f).close()
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def show(c):
    """As the client displays a character of an escape sequence."""
    c &= 0x7f
    if c < 0x20:
        return "^" + chr(c + 64)
    return "^?" if c == 0x7f else chr(c)


class CliModel:
    """What an interactive or monitoring session of the client program does with typed and received bytes."""

    def __init__(self, cmd, broadcast, consoles, quiet, reset, esc, host, port):
        self.cmd, self.quiet, self.reset, self.esc, self.host, self.port = cmd, quiet, reset, esc, host, port
        self.consoles = consoles
        self.bc = broadcast and len(consoles) != 1
        self.echoed = self.echo = self.pend = self.closed = self.over = self.stop = False
        self.out, self.tx, self.log, self.classes = bytearray(), bytearray(), bytearray(), []
        self.status("opened")

    def say(self, s):
        self.out += s.encode("latin-1")

    def status(self, what):
        if len(self.consoles) == 1:
            s = "\r\n<ConMan> Connection to console [%s] %s.\r\n" % (self.consoles[0], what)
        else:
            s = "\r\n<ConMan> Broadcast to %d consoles %s.\r\n" % (len(self.consoles), what)
        if len(s) >= 1024:
            s = s[:1021] + "\r\n"
        self.say(s)

    def recv(self, b):
        self.out += b
        self.log += b

    def write(self, b):
        if self.closed:             # the sending side is shut down
            self.over = True
        else:
            self.tx += b

    def help(self):
        e = show(self.esc)
        w = self.cmd == "c"
        L = [(True, "?", "Display this help message"), (True, ".", "Terminate the connection"), (True, e, "Send the escape character"),
             (w, "B", "Transmit a serial-break"), (w, "D", "Transmit a DEL character"),
             (w, "E", "%s echoing of client input" % ("Disable" if self.echo else "Enable")),
             (not w, "F", "Force write-privileges (console-stealing)"), (True, "I", "Display connection information"),
             (not w, "J", "Join write-privileges (console-sharing)"), (not self.bc, "L", "Replay up to the last 4096 bytes of the log"),
             (w and not self.bc, "M", "Monitor without write-privileges (read-only)"),
             (True, "Q", "Disable quiet-mode (display info msgs)" if self.quiet else "Enable quiet-mode (suppress info msgs)"),
             (w and self.reset, "R", "Reset node%s associated with this console" % ("" if len(self.consoles) == 1 else "s")),
             (True, "Z", "Suspend the client")]
        self.say("\r\nSupported ConMan Escape Sequences:\r\n" + "".join("  %2s%-2s -  %s.\r\n" % (e, k, t) for ok, k, t in L if ok))

    def type(self, c):
        """One typed byte."""
        if not self.pend and c == self.esc:
            self.pend = True
            return
        b = bytes([c])
        if self.pend:
            self.pend = False
            k = chr(c)
            w = self.cmd == "c"
            if k in "BDEFIJLMQRZ.?":
                self.classes.append("escape " + k)
                if k in "BD":
                    if w:
                        self.write(b"\xff" + b)
                elif k == "E":
                    if w:
                        self.echo = not self.echo
                        self.echoed = True
                elif k in "FJ":
                    if not w:
                        self.cmd = "c"
                        self.write(b"\xff" + b)
                elif k == "I":
                    if len(self.consoles) == 1:
                        self.say("\r\n<ConMan> Connected %s to console [%s] on <%s:%d>.\r\n" % ("R/W" if w else "R/O", self.consoles[0], self.host, self.port))
                    else:
                        self.say("\r\n<ConMan> Broadcasting to %d consoles on <%s:%d>.\r\n" % (len(self.consoles), self.host, self.port))
                elif k == "L":
                    if not self.bc:
                        self.write(b"\xff" + b)
                elif k == "M":
                    if w and not self.bc:
                        self.cmd = "m"
                        self.write(b"\xff" + b)
                elif k == "Q":
                    self.quiet = not self.quiet
                    self.write(b"\xff" + b)
                elif k == "R":
                    if w and self.reset:
                        self.write(b"\xff" + b)
                elif k == "Z":
                    self.say(show(self.esc) + "Z")
                    self.write(b"\xff" + b)
                    if not self.over:
                        self.status("suspended")
                        self.stop = True
                elif k == ".":
                    self.say(show(self.esc) + ".")
                    self.status("closed")
                    self.closed = True
                else:
                    self.help()
                return
            if c != self.esc:
                self.classes.append("no escape")
                b = bytes([self.esc]) + b
            else:
                self.classes.append("escaped escape")
        if self.cmd == "c":
            self.write(b.replace(b"\xff", b"\xff\xff"))

    def resume(self):
        self.stop = False
        self.status("resumed")
        self.write(b"\xffZ")
