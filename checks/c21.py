"""C21: the client program relays a session faithfully; the real program between emulated terminals and a scripted server."""
import os, random, re, signal, socket, termios

from hypothesis import strategies as st

from vlib.clirig import CliModel, CliRig, Inconclusive, START, Violation
from .c01 import ASSUMPTIONS  # noqa: F401

ID = "C21"
N = {"quick": 4000, "thorough": 70000}
TECH = "stateful property-based testing of the real client program (ASan/UBSan) between emulated terminals and a scripted server, against an exact model of the session"
RULE = "a session in which bytes were typed and received, or that ended by another way than the quit escape"
NOTE = "exact byte streams to the server, the terminal and the session log, terminal modes during, while suspended and after the session, exit status"

ESCS = [b"&", b"~", b"\x1d", b"!", b"%", b"\x7f", b"\xe9", b"\xff", b"\x80", b""]


def chunk(r, esc):
    e = bytes([esc])
    k = r.randrange(12)
    if k < 5:
        return b"".join(e + r.choice([b"B", b"D", b"E", b"F", b"I", b"J", b"L", b"M", b"Q", b"R", b"?", e, b"x", b"\xff", b"\r", b"f", b"\x00", b"b", b"Z"])
                        if r.random() < .6 else bytes(r.randrange(256) for _ in range(r.randrange(1, 6))) for _ in range(r.randrange(1, 6)))
    if k < 7:
        return bytes(r.randrange(256) for _ in range(r.choice([1, 5, 60, 300])))
    if k < 8:
        return e
    if k < 9:
        return r.choice([b"ls -l\r", b"\x03\x1a\x1c\x13\x11\x16\x04\x12", b"\n\r\n", b"\xff\xff\xff", e + e + e, b"\xff" + e + b"\xff", e + e + b"."])
    if k < 10:
        return b"".join(bytes([x]) for x in range(256) if x != esc)
    if k < 11:
        return bytes(r.choice([0xff, esc, 0x42, 0x5a ^ 0x20]) for _ in range(r.randrange(1, 20)))
    return b"x" * r.choice([1, 4095, 4096, 5000])


def output(r):
    k = r.randrange(6)
    n = r.choice([1, 1, 7, 100, 4095, 4096, 4097, 9000])
    if k < 3:
        return bytes(r.randrange(256) for _ in range(n if r.random() < .6 else n % 40 + 1))
    if k < 4:
        return b"\r\n<ConMan> Console [c0] joined by <x@h>.\r\n"
    if k < 5:
        return r.choice([b"\x00", b"\xff", b"\n", b"\r\n", b"\x1b[2J", b"%s%n", b"&."])
    return bytes(range(256)) * r.choice([1, 8, 64])


def gen(r):
    e = r.choice(ESCS) if r.random() < .6 else b"&"
    esc = e[0] if e else 0
    mode = r.choice("cccmb")
    c = {"mode": mode, "n": r.choice([1, 2, 3]) if mode == "b" else 1, "reset": r.random() < .6, "quiet": r.random() < .3, "fj": r.choice(["", "", "f", "j"]),
         "esc": e, "how": "none" if e == b"&" and r.random() < .6 else ("env" if e and r.random() < .4 else "opt"), "tty": r.choice(["split", "split", "shared"]),
         "tio": [r.randrange(4) for _ in range(6)], "log": r.random() < .5, "prelog": r.random() < .4,
         "name": r.choice(["c0", "c0", "rack1-node2", "a b", "q'uote\"s", "n" * 1000]), "fault": [0, 0, 0]}
    if r.random() < .4:
        c["fault"] = [r.choice([0, 1, 3, 50]), r.choice([0, 1, 2, 50]), r.choice([0, 0, 100, 300])]
    ops = []
    for _ in range(r.randrange(1, 14)):
        x = r.random()
        if x < .5:
            ops.append(["t", chunk(r, esc)])
        elif x < .8:
            ops.append(["s", output(r)])
        elif x < .87:
            ops.append(["z", output(r) if r.random() < .7 else b"", False])
        elif x < .94:
            ops.append(["sig", r.choice([signal.SIGINT, signal.SIGQUIT, signal.SIGHUP, signal.SIGPIPE])])
        else:
            ops.append(["both", bytes(x for x in chunk(r, esc) if x != esc) or b"y", output(r)])
    c["ops"] = ops
    c["end"] = [r.choice(["quit", "quit", "quit", "fin", "fin", "rst", "rstt", "term", "term", "termwait", "hang", "outhang", "zterm"]),
                r.choice([b"", b"x", b"abc", bytes([esc]) + b".", bytes([esc]) + b"Q", bytes([esc]) + b"I", bytes([esc])]), output(r) if r.random() < .5 else b""]
    return c


def strategy(tier):
    return st.integers(0, 2 ** 48).map(lambda s: gen(random.Random(s)))


def encode(s):
    return bytes(b | 0x80 if b in b"'\"" else b for b in s)


def tio_setup(bits):
    def f(fd):
        a = termios.tcgetattr(fd)
        for i, (w, choice) in enumerate(((0, termios.ICRNL | termios.IXON), (0, termios.ISTRIP | termios.INLCR), (0, termios.PARMRK | termios.IXANY),
                                         (3, termios.ECHO | termios.ECHOCTL), (3, termios.ISIG | termios.ICANON), (1, termios.OPOST | termios.ONLCR))):
            k = bits[i]
            if k == 1:
                a[w] |= choice
            elif k == 2:
                a[w] &= ~choice
            elif k == 3:
                a[w] ^= choice
        if bits[4] == 2:        # without ICANON, VMIN and VTIME matter
            a[6][termios.VMIN], a[6][termios.VTIME] = bits[0] & 1, bits[1] & 1
        a[4] = a[5] = (termios.B9600, termios.B38400, termios.B19200, termios.B1200)[bits[2]]
        termios.tcsetattr(fd, termios.TCSANOW, a)
    return f


def mode_of(fd):
    return termios.tcgetattr(fd)


def israw(a, echo):
    i, o, c, l = a[:4]
    t = termios
    bad = []
    if i & (t.BRKINT | t.ICRNL | t.IGNCR | t.INLCR | t.INPCK | t.ISTRIP | t.IXON | t.PARMRK):
        bad.append("iflag %o" % i)
    if o & t.OPOST:
        bad.append("oflag %o" % o)
    if (c & t.CSIZE) != t.CS8 or c & t.PARENB:
        bad.append("cflag %o" % c)
    if l & (t.ICANON | t.ISIG | t.IEXTEN):
        bad.append("lflag %o" % l)
    if bool(l & t.ECHO) != echo:
        bad.append("echo is %s" % bool(l & t.ECHO))
    if a[6][t.VMIN] not in (1, b"\x01") or a[6][t.VTIME] not in (0, b"\0"):
        bad.append("VMIN %r VTIME %r" % (a[6][t.VMIN], a[6][t.VTIME]))
    return bad


def diff(what, got, want):
    if got == want:
        return
    i = 0
    while i < min(len(got), len(want)) and got[i] == want[i]:
        i += 1
    raise Violation("%s: %d bytes instead of %d, different from byte %d on: got %r, expected %r" % (what, len(got), len(want), i, bytes(got[i:i + 60]), bytes(want[i:i + 60])))


def host_of(addr):
    try:
        return socket.gethostbyaddr(addr)[0].split(".")[0]
    except OSError:
        return addr


def run(case):
    with CliRig() as r:
        return _run(case, r)


def _run(case, r):
    esc = case["esc"][0] if case["esc"] else 0
    names = [case["name"]] if case["n"] == 1 else ["c%d" % i for i in range(case["n"])]
    args, env = ["-d", "127.0.0.1:%d" % r.port], {}
    if case["how"] == "env":
        env["CONMAN_ESCAPE"] = os.fsdecode(case["esc"] + b"zz")
    elif case["how"] == "opt":
        args += ["-e", os.fsdecode(case["esc"])]
        env["CONMAN_ESCAPE"] = "^"
    for k, o in (("m", case["mode"] == "m"), ("b", case["mode"] == "b"), ("Q", case["quiet"]), (case["fj"], case["fj"])):
        if o:
            args.append("-" + k)
    logf = os.path.join(r.dir, "session.log")
    pre = b""
    if case["log"]:
        args += ["-l", logf]
        if case["prelog"]:
            pre = b"earlier\n\x00"
            with open(logf, "wb") as f:
                f.write(pre)
    args.append("c*")
    r.start(args, case["tty"], env, tio=tio_setup(case["tio"]))
    before = mode_of(r.ins)
    if not r.accept():
        r.drain()
        r.crashed()
        raise Violation("the client did not connect: exit %r, %r" % (r.rc, r.stderr()))
    if not r.until(lambda: b"\n" in r.rx, "no greeting"):
        raise Violation("no greeting: exit %r %r" % (r.rc, r.stderr()))
    r.send(b"OK\n")
    if not r.until(lambda: r.rx.count(b"\n") == 2, "no request"):
        raise Violation("no request: exit %r %r" % (r.rc, r.stderr()))
    hs = bytes(r.rx)
    r.rx.clear()
    rsp = b"OK" + (b" OPTION=RESET" if case["reset"] else b"") + b"".join(b" CONSOLE='" + encode(n.encode()) + b"'" for n in names) + b"\n"
    m = CliModel("m" if case["mode"] == "m" else "c", case["mode"] == "b", names, case["quiet"], case["reset"], esc, host_of("127.0.0.1"), r.port)
    pg = r.page
    pg["rnd"] = len(hs) * 7919 + len(case["ops"])
    pg["max_read"], pg["max_write"], pg["p_eintr"] = case["fault"]
    first = b"early output\r\n" if case["tio"][5] & 1 else b""
    r.send(rsp)
    r.send(first)
    m.recv(first)
    r.settle()
    cls = {"mode " + case["mode"], case["tty"]}
    if sum(case["fault"]):
        cls.add("faults")

    def live(when):
        if not m.over and not r.settle():
            r.drain()
            r.crashed()
            raise Violation("the client ended (%s): exit %d, stderr %r" % (when, r.rc, r.stderr()[-300:]))
        if not r.stopped and not m.over:
            bad = israw(mode_of(r.ins), m.echo)
            if bad:
                raise Violation("%s the terminal is not in the session's mode: %s" % (when, ", ".join(bad)))

    def stopped(data, term):
        """The client was told to suspend itself."""
        if not r.until(lambda: r.stopped, "it does not suspend itself"):
            raise Violation("the client ended instead of suspending: exit %r %r" % (r.rc, r.stderr()[-300:]))
        if mode_of(r.ins) != before:
            raise Violation("while suspended the terminal is not as it was before: %r instead of %r" % (mode_of(r.ins), before))
        if data:
            r.send(data)
        if term:
            os.kill(r.p.pid, signal.SIGTERM)
        os.kill(r.p.pid, signal.SIGCONT)
        r.stopped = False
        m.resume()
        cls.add("suspended")
        if term:
            m.over = True
            return
        r.until(lambda: len(m.tx) <= len(r.rx) and len(m.out) <= len(r.out), "it does not resume")
        m.recv(data)
        r.settle()

    def type_(b):
        i = 0
        for j, c in enumerate(b):
            m.type(c)
            if m.stop:
                r.type(b[i:j + 1])
                i = j + 1
                stopped(b"", False)
            if m.over:
                r.type(b[i:j + 1])
                i = j + 1
                break
        r.type(b[i:] if not m.over else b"")

    live("at the start")
    for op in case["ops"]:
        if op[0] == "t":
            type_(op[1])
        elif op[0] == "s":
            r.send(op[1])
            m.recv(op[1])
        elif op[0] == "both":       # at once: what the client prints by itself may come before or after the output
            b = op[1]
            if m.pend:
                type_(b"x")
                r.settle()
            n0 = len(m.out)
            for c in b:
                m.type(c)
                if m.stop or len(m.out) != n0 or m.closed:
                    raise Inconclusive("concurrent input that prints")
            r.type(b)
            r.send(op[2])
            m.recv(op[2])
        elif op[0] == "z":
            if m.pend:              # completes the started sequence first
                type_(b"x")
            r.settle()
            type_z(m, r, stopped, op, esc)
        elif op[0] == "sig":
            os.kill(r.p.pid, op[1])
            cls.add("signal")
        if m.over or m.closed:
            break
        live("after %r" % (op[:1] if op[0] != "sig" else op,))
    how, late, trail = case["end"]
    if m.over or m.closed:
        how = "quit"
    want = 0
    if how in ("quit", "zterm") and not m.closed and m.pend:
        type_(b"x")
    if how == "zterm":
        r.settle()
        type_z(m, r, stopped, ["z", b"", True], esc)
        m.status("terminated by server")
    elif how == "quit":
        if not m.closed:
            type_(bytes([esc]) + b".")
        r.settle()
        r.until(lambda: r.rx_eof, "it does not close its side of the connection")
        if not m.over:
            r.send(trail)
            m.recv(trail)
            r.settle()
            type_(late)
        if not m.over:
            r.settle()
            r.close_srv()
    elif how == "fin":
        r.send(trail)
        m.recv(trail)
        r.close_srv()
        m.status("terminated by server")
    elif how in ("rst", "rstt"):
        r.settle()
        if how == "rstt" and not m.pend and case["tty"] == "split":
            r.type(b"typed")        # may or may not be sent any more
        r.close_srv(rst=True)
        m.status("terminated by server")
    elif how in ("term", "termwait"):
        r.settle()
        if how == "term":
            os.kill(r.p.pid, signal.SIGTERM)
        else:                       # the signal arrives just before the client blocks
            pg["term_wait"] = 1
            r.send(b"!")
            m.recv(b"!")
        m.status("terminated by server")
    elif how == "hang":
        r.settle()
        if case["tty"] == "split":
            r.drain_in()
            m.status("terminated by server")
        else:
            how = "fin"
            r.close_srv()
            m.status("terminated by server")
    elif how == "outhang":
        r.settle()
        if case["tty"] == "split":
            os.close(r.outm)
            r.fds.remove(r.outm)
            r.outm = None
            r.send(b"lost")
            want = 1
        else:
            r.close_srv()
            m.status("terminated by server")
    cls.add("end " + how)
    rc = r.ended()
    if how != "hang" and mode_of(r.ins) != before:
        raise Violation("after the end (%s) the terminal is not as it was before: %r instead of %r" % (how, mode_of(r.ins), before))
    r.pump()
    rx = bytes(r.rx)
    out_known = r.outm is not None
    r.drain()
    r.crashed()
    if how == "hang" and rc == 1 and r.stderr() == b"ERROR:     Unable to read from stdin: Input/output error\n":
        return True, cls            # what the kernel says in the middle of a hang-up
    if rc != want:
        raise Violation("the client ended (%s) with exit status %d, stderr %r" % (how, rc, r.stderr()[-300:]))
    if want == 0 and r.stderr():
        raise Violation("the client wrote to stderr: %r" % r.stderr()[:300])
    if out_known and not (m.echoed and case["tty"] == "shared"):       # where the terminal itself echoes
        diff("the terminal shows", r.out, m.out)
    if how == "rstt":
        if not rx.startswith(bytes(m.tx)) and not (r.rx_err and bytes(m.tx).startswith(rx)):
            diff("the server received", rx, m.tx)
    elif how not in ("rst",) or not r.rx_err:
        diff("the server received", rx, m.tx)
    if case["log"] and want == 0:
        with open(logf, "rb") as f:
            got = f.read()
        diff("the session log", got, pre + ("\r\n<ConMan> Log started at %s.\r\n" % START).encode() + bytes(m.log) + ("\r\n<ConMan> Log finished at %s.\r\n" % START).encode())
        cls.add("log")
    for k in m.classes:
        cls.add(k)
    return (len(m.tx) > 0 and len(m.log) > 0) or how != "quit", cls


def type_z(m, r, stopped, op, esc):
    m.type(esc)
    m.type(0x5a)
    r.type(bytes([esc]) + b"Z")
    if m.stop:
        stopped(op[1], op[2])
