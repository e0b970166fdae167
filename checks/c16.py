import os, random, signal
from hypothesis import strategies as st
from vlib import confgen as g
from vlib import conf, confrun, rig as rigm
from vlib.rig import Violation, long_time
from vlib.world import Render, info
from .c01 import ASSUMPTIONS

ID = "C16"
N = {"quick": 2200, "thorough": 40000}
RULE = ("One to five consoles with names and devices of arbitrary printable, blank, control and eight-bit characters, whose log names, the global log name and the daemon's log name are random mixtures of literal text, all conversion specifiers, unknown and incomplete ones and directories, with lengths concentrated around the 1023-byte bound; "
        "random start times from 1970 to 2100 and time zones; then jumps of seconds to months, each followed by SIGHUP, and reset requests whose command records its expansion. An independent expander predicts every path; the files and directories found, the warnings, their contents and the recorded commands must be exactly those. "
        "Non-trivial: a specifier was expanded and a file was opened, or a name was refused for its length.")
TECH = "property-based testing: generated names, formats and times, files and commands compared with an independent expander"
NOTE = "Exploration: random formats and times; names of exactly '.' or '..' are outside the promise, since no character of theirs is replaced."

SPECS = b"NDPdgGHjmMsSuUVwWyY%"


def name(r):
    return g.pick(r, (4, lambda: r.choice([b"c0", b"c1", b"c2", b"node-7", b"A_b", b"a/b", b"../../up", b"/abs", b"x y", b"it's", b"n#1", b"%N", b"%%D", b"caf\xe9", b"~", b"-rf", b"a\x01b", b"tab\tx", b"w{1}", b"$HOME", b"`id`", b"*", b"...", b"x/..", b"\x7f\xff"])),
                  (2, lambda: bytes(r.choice(b"abcXYZ019 ./%-_#\x80\xc3\xa9\xff\x02") for _ in range(r.randint(1, 12)))), (.5, lambda: b"L" * r.choice([100, 240, 250, 255, 256, 300, 500, 900, 1010])))


def dev(r):
    return g.pick(r, (3, lambda: b"@U%d" % r.randrange(3)), (2, lambda: b"@S%d" % r.randrange(2)), (2, lambda: b"@T%d" % r.randrange(2)), (1, b"@P0"), (1, b"@I0"), (.5, b"test:"), (1.5, lambda: b"unix:@D/" + r.choice([b"we_rd#1", b"%%x", b"a%Yb", b"d/e/f", b"-x", b"caf\xe9", b"n\x01", b"{}", b"%N.s", b"x" * 60])),
                  (.7, b"'unix:@D/a b'"), (1, lambda: b"vhost" + r.choice([b"/x", b"/../..", b"_%%", b"{a}", b"\xc3\xa9", b"-%N", b"/%D", b"\x01", b"#1*", b"a" * 40]) + r.choice([b":17", b":65535", b":1"])), (.4, b"'vhost a/ b':7"), (.5, b"unix:"+b"q%q"))


def fmt(r, long=True):
    n = r.choice([1, 2, 3, 5, 8])
    out = b""
    for _ in range(n):
        out += g.pick(r, (6, lambda: b"%" + bytes([r.choice(SPECS)])), (2, lambda: r.choice([b"l", b"log", b"x-", b".log", b"_", b" ", b"caf\xe9"])), (1.5, lambda: r.choice([b"/", b"/", b"d/", b"//", b"/./"])), (.8, lambda: b"%" + bytes([r.choice(b"qaAbBcCeFhIklLnOpQrRtTvxXzZ1-. \xe9/")])))
    if r.random() < .1:
        out += b"%"
    if long and r.random() < .2:
        # near the bound
        pad = r.choice([1000, 1010, 1015, 1020, 1023, 1024, 900]) - r.randint(0, 40) - len(out)
        seg = b"".join(b"p" * r.choice([1, 30, 100, 200]) + b"/" for _ in range(40))
        out = (seg[:pad] + out) if r.random() < .5 else out + seg[:pad]
    if out[:1] == b"/":
        out = b"@D" + out if r.random() < .7 else b"r" + out
    return out.replace(b'"', b"")


def con(r, i):
    n, f = name(r), fmt(r)
    if r.random() < .15:
        f = b"@D/" + f.replace(b"@D", b"")
    parts = [b'name="%s"' % n, b'dev="%s"' % dev(r)]
    if r.random() < .85:
        parts.append(b'log="%s"' % f)
    if r.random() < .2:
        parts.append(b'logopts="%s"' % r.choice([b"nolock", b"timestamp"]))
    return b"console " + b" ".join(parts)


def lines(r):
    out = []
    if r.random() < .6:
        out.append(b'server logdir="%s"' % r.choice([b"logs", b"@D/logs", b"new/%Y", b"@D", b"lg"]))
    if r.random() < .5:
        out.append(b'server logfile="%s"' % r.choice([b"dd-" + fmt(r, False), b"dd-" + fmt(r), b"dd", b"dd%N%D", b"dd%P.%s", b"e/%Y/dd"]))
    if r.random() < .4:
        out.append(b'global log="%s"' % (b"%N" + fmt(r)).replace(b"@D", b""))
    if r.random() < .5:
        out.append(b'server resetcmd="printf \'%%%%s\\n\' \'%s\' >> @D/rst"' % reset(r))
    return out + [con(r, i) for i in range(r.randint(1, 5))]


def reset(r):
    out = b""
    for _ in range(r.choice([1, 2, 4, 8])):
        out += g.pick(r, (6, lambda: b"%" + bytes([r.choice(SPECS)])), (2, b"-"), (1, b" . "), (.8, lambda: b"%" + bytes([r.choice(b"qaAbBcCeFhIkzZ1-. /")])))
    if r.random() < .4:
        out += b"R" * (r.choice([1000, 1023, 980, 940]) - len(out) - r.randint(30, 110))
    return out


def t0(r):
    return g.pick(r, (4, rigm.T0), (4, lambda: r.randrange(100000, 4102444800)), (2, lambda: r.choice([86399, 951782399, 951868799, 1230767999, 1261440000, 1293839999, 1325375999, 1356998399, 1451606399, 1483228799, 1577836799, 1609459199, 2147483640, 4102444799]) - r.randrange(3)))


def extra(r):
    return {"t0": t0(r), "zone": r.choice([["UTC", 0]] * 2 + [["XST", -12600], ["YST", 50400], ["ZST", -43200]]), "jumps": [int(10 ** r.uniform(0, 7)) for _ in range(r.choice([0, 1, 2]))], "bg": r.random() < .3}


def strategy(tier):
    return st.fixed_dictionaries({"text": st.integers(0, 1 << 48).map(lambda n: lines(random.Random(n))), "x": st.integers(0, 1 << 48).map(lambda n: extra(random.Random(n)))})


def gen(r):
    return {"text": lines(r), "x": extra(r)}


def tz(z):
    e = -z[1]
    return "%s%s%02d:%02d" % (z[0], "-" if e < 0 else "", abs(e) // 3600, abs(e) // 60 % 60)


class Run(confrun.ConfRun):
    counts = {"U": 3, "T": 2, "S": 2, "P": 1, "I": 1}

    def __init__(self, case):
        x = case["x"]
        rigm.set_zone(*x["zone"])
        super().__init__(dict(case, t0=x["t0"]))
        self.rig.extra_env["TZ"] = tz(x["zone"])
        self.bg = x["bg"]

    def __exit__(self, *a):
        super().__exit__(*a)
        rigm.set_zone("UTC", 0)

    def setup(self):
        super().setup()
        for d in ("d", "lg"):
            os.mkdir(os.path.join(self.rig.dir, d), 0o777)
            os.chmod(os.path.join(self.rig.dir, d), 0o777)

    def admissible(self, m):
        super().admissible(m)
        for c in m.cons:
            if conf.clean(c.name) in (b".", b".."):
                raise confrun.Skip("dot name")

    def finish(self):
        self.resets("first")
        for j in self.case["x"]["jumps"]:
            self.jump(j)
        super().finish()

    def resets(self, what):
        m, r = self.m, self.rig
        if not m.s["resetcmd"] or not m.s["resetcmd"].endswith(b"/rst"):    # too long a string
            return
        f = os.path.join(r.dir, "rst")
        want, cmds = [], []
        for c in m.cons[:3]:
            if len(c.name) > 200 or set(c.name) & set(b"'\"\\$`&;|<>()*?[]~#!") or any(x < 32 or x > 126 for x in c.name) or conf.clean(getattr(c, "dev", b"")) and set(c.dev) & set(b"'"):
                continue
            cmd = conf.expand(c, m.s["resetcmd"], r.proc.pid, r.now())
            before = self.slurp(f)
            cl, t = self.ask(b"CONNECT OPTION=FORCE CONSOLE='" + c.name.replace(b"'", b"") + b"'\n")
            if not t.startswith(b"OK"):
                raise Violation("connect to %r refused: %r" % (c.name, t[:200]))
            cl.take()
            cl.send(b"\xffR")
            r.settle()
            got = cl.take()
            if cmd is None:
                if b"Unable to reset console [" + c.name + b"]: command too long" not in got:
                    raise Violation("reset of %r with a command of %d bytes: %r" % (c.name, len(conf.expand(c, m.s["resetcmd"], r.proc.pid, r.now(), None)), got[:300]))
                new = before
                self.hit("command refused")
            else:
                # what the shell makes of the command
                w = cmd.split(b"'")
                new = before + w[3] + b"\n"
                if len(w) != 5:
                    raise confrun.Skip("quoting")
                self.wait_for(lambda: self.slurp(f) == new)
                self.hit("command run")
            if self.slurp(f) != new:
                raise Violation("reset of %r with %r recorded %r, expected %r" % (c.name, m.s["resetcmd"], self.slurp(f)[len(before):][:1200], new[len(before):][:1200]))
            cl.close()
            r.settle()
        self.before.add(f)

    def wait_for(self, f, tmo=5):
        import time
        end = time.monotonic() + tmo
        while not f() and time.monotonic() < end:
            time.sleep(0.002)

    def slurp(self, p):
        return open(p, "rb").read() if os.path.isfile(p) else b""

    def jump(self, secs):
        r, m = self.rig, self.m
        r.set_clock(r.now_us() + secs * 1000000)
        r.settle()
        r.advance(0)
        old = set(self.files())
        sizes = {p: self.slurp(p) for p in old}
        if self.bg:
            t = self.read(self.dlog) if self.dlog else None
        # files of the new time
        new, use = set(), {}
        pid, now = r.proc.pid, r.now()
        for c, x in m.logs:
            full = conf.expand(c, c.log, pid, now)
            if full is not None and self.openable(full):
                p = os.path.normpath(os.fsdecode(full))
                if not self.inside(full) or p in use.values() or (os.path.lexists(p) and not os.path.isfile(p)) or p == self.dlog or p.endswith("/rst"):
                    raise confrun.Skip("names meet later")
                use[id(c)] = p
        dlog = None
        if self.bg and m.s["logfile"] is not None:
            dlog = self.dname(m, pid)
            dlog = dlog and os.path.normpath(dlog)
            if dlog is not None and (not self.inside(dlog) or dlog in use.values() or os.path.isdir(dlog) or not self.openable(os.fsencode(dlog))):
                raise confrun.Skip("daemon log meets another")
        paths = list(use.values()) + ([dlog] if dlog else [])
        if any(a.startswith(b + "/") for a in paths for b in paths):
            raise confrun.Skip("names meet later")
        if self.bg:
            r.proc.send_signal(signal.SIGHUP)
            r.settle()
            r.advance(0.01)
            self.wait_for(lambda: set(self.files()) >= {os.path.normpath(x) for x in list(use.values()) + ([dlog] if dlog else [])}, 3)
            r.settle()
        else:
            r.signal(signal.SIGHUP, b"Performing reconfig on signal=1")
        now = r.now()
        want = old | set(use.values()) | ({dlog} if dlog else set())
        norm = lambda s: {confrun.real(x) for x in s}
        if norm(self.files()) != norm(want):
            raise Violation("after HUP at %s new files %s, expected %s" % (long_time(r.now_us()), sorted(norm(self.files()) - norm(old)), sorted(norm(want) - norm(old))))
        for c in m.cons:
            if id(c) in use:
                t = self.slurp(use[id(c)])
                e = sizes.get(use[id(c)], b"")
                w = info(b"Console [" + c.name + b"] log opened at " + long_time(r.now_us()).encode())
                if c.kind != "test" and w not in t[len(e):] and id(c) in self.open_logs:
                    w2 = info(b"Console [" + c.name + b"] log opened at " + long_time(r.now_us() - 10000).encode())
                    if w2 not in t[len(e):]:
                        raise Violation("console %r: log %s after HUP ends with %r, expected %r" % (c.name, use[id(c)], t[-300:], w))
        self.dlog = dlog if self.bg else None
        self.hit("later names", norm(want) != norm(old))

    def nontrivial(self):
        m = self.m
        n = any(b"%" in c.log for c, x in m.logs)
        big = any(conf.expand(c, c.log, self.rig.proc.pid if self.rig.proc else 0, self.rig.now()) is None for c, x in m.logs)
        self.hit("too long", big)
        self.hit("expanded", n)
        self.hit("near bound", any(900 < len(x) < 1024 for c, x in m.logs))
        return bool(self.open_logs and n) or big if m.cons else False

    def classes(self):
        return list(self.stats)


def run(case):
    return confrun.run(Run, case)
