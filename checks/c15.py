import fcntl, os, random, signal, struct
from hypothesis import strategies as st
from vlib import confgen as g
from vlib import confrun
from vlib.rig import Violation, long_time
from vlib.world import Render, info
from .c01 import ASSUMPTIONS

ID = "C15"
N = {"quick": 2500, "thorough": 40000}
RULE = ("Configuration files of 2-14 console directives (with global log names and changing log directories in between) whose names, devices and log names are drawn from few values, so that they collide: same console name, same terminal, socket or BMC under one path or under relative and absolute spellings, "
        "log names that become equal only through specifiers, replacement of characters or log directories; directives that are invalid for another reason in between; log files that already exist, some with a read or write lock held by another process, with locking on or off. "
        "The reference interpreter predicts the reported duplicates, the consoles served, device connections, log files, locks and their contents; then marked output is sent on every device, a HUP signal arrives with the locks still held and again after they are released, and each time every log must contain exactly what its console received. "
        "Non-trivial: at least one duplicate or one locked log.")
TECH = "property-based testing: generated colliding configurations and file locks, the running daemon compared with a reference interpreter"
NOTE = "Exploration: random configurations; several spellings of one path (symbolic links, /./) count as different devices and log names, as the daemon documents no more."

NAMES = [b"c0", b"c0", b"c1", b"c2", b"C0", b"c 0", b"c_0", b"c/0", b"c#0", b"l0", b"x"]
FMTS = [b"l0", b"l0", b"l1", b"%N", b"%N", b"%N", b"d%D", b"@D/l0", b"@D/%N", b"c0", b"c_0", b"x%%", b"x%", b"x%N", b"logs/%N", b"logs/c_0", b"%N%N", b"c0c0", b"%Y", b"%q", b"%%q"]


def dev(r):
    return g.pick(r, (5, lambda: b"@U%d" % r.randrange(3)), (2, lambda: b"unix:u%d" % r.randrange(2)), (1, b"UNIX:@D/u0"), (2, lambda: b"@T%d" % r.randrange(2)), (3, lambda: b"@S%d" % r.randrange(2)), (2, lambda: b"s%d" % r.randrange(2)), (1.5, lambda: b"@P%d" % r.randrange(2)),
                  (2, lambda: b"@I%d" % r.randrange(2)), (.5, b"IPMI:bmc-i0"), (1.5, b"test:"), (.4, b"nosuch"), (.3, b"@U0 x"), (.3, b"unix:%N"))


def con(r):
    parts = [b'name="%s"' % r.choice(NAMES), b'dev="%s"' % dev(r)]
    if r.random() < .7:
        parts.append(b'log="%s"' % r.choice(FMTS))
    if r.random() < .3:
        parts.append(b'logopts="%s"' % r.choice([b"nolock", b"nolock", b"lock", b"timestamp", b"sanitize,nolock"]))
    if r.random() < .03:
        parts.append(b"bogus")
    return b"console " + b" ".join(parts)


def line(r):
    return g.pick(r, (12, lambda: con(r)), (1.2, lambda: b'global log="%s"' % r.choice([b"%N", b"d%D", b"x%N", b"", b"logs/%N"])), (.4, lambda: b'global logopts="%s"' % r.choice([b"nolock", b"lock"])), (.8, lambda: b'server logdir="%s"' % r.choice([b"logs", b"@D", b"", b"@D/logs"])))


def held(r):
    return [[r.choice(["l0", "l1", "c0", "c1", "c2", "c_0", "logs/c0", "x"]), r.choice(["w", "w", "r", ""])] for _ in range(r.choice([0, 0, 1, 2, 4]))]


def strategy(tier):
    return st.fixed_dictionaries({"text": g.lines(line, 2, 14 if tier == "quick" else 30), "held": st.integers(0, 1 << 40).map(lambda n: held(random.Random(n))), "z": st.sampled_from([False, False, False, True])})


def gen(r):
    return {"text": [line(random.Random(r.getrandbits(48))) for _ in range(r.randint(2, 14))], "held": held(r), "z": r.random() < .25}


class Run(confrun.ConfRun):
    def __init__(self, case):
        super().__init__(case)
        if case.get("z"):
            self.extra_args += ("-z",)

    def setup(self):
        super().setup()
        self.prelogs, self.held, self.fds = {}, {}, {}
        for n, how in self.case["held"]:
            p = os.path.join(self.rig.dir, n)
            if p in self.prelogs:
                continue
            self.prelogs[p] = b"before %s\n" % n.encode()
            with open(p, "wb") as f:
                f.write(self.prelogs[p])
            os.chmod(p, 0o666)
            if how:
                fd = os.open(p, os.O_RDWR | os.O_CLOEXEC)
                fcntl.fcntl(fd, fcntl.F_SETLK, struct.pack("hhqqi4x", fcntl.F_WRLCK if how == "w" else fcntl.F_RDLCK, 0, 0, 0, 0))
                self.held[p] = how
                self.fds[p] = fd

    # the driver's own locks would vanish with any other descriptor of the file
    def locked(self, p):
        return 0 if p in self.fds else super().locked(p)

    def read(self, p):
        if p in self.fds:
            return os.pread(self.fds[p], 1 << 20, 0)
        return super().read(p)

    def finish(self):
        self.stage(None)
        if self.held:
            self.stage("held")
        # the locks go
        self.late = {p for p in self.held}
        for p in list(self.fds):
            os.close(self.fds.pop(p))
        self.held = {}
        self.stage("free")
        super().finish()

    def stage(self, hup):
        r, m = self.rig, self.m
        files = {}
        for c, x in m.logs:
            full = self.rig_expand(c)
            if full is not None and self.openable(full):
                files[id(c)] = os.fsdecode(full)
        snap = {p: self.read(p) if os.path.exists(p) else b"" for p in list(files.values()) + list(self.held)}
        add = {p: b"" for p in snap}
        if hup:
            r.advance(1.5)
            r.signal(signal.SIGHUP, b"Performing reconfig on signal=1")
            r.settle()
            self.open_logs = {}
            for c, x in m.logs:
                p = files.get(id(c))
                if p and not (p in self.held and c.logopts["lock"]):
                    self.open_logs[id(c)] = p
                    add[p] += info(b"Console [" + c.name + b"] log opened at " + long_time(r.now_us()).encode())
        for c in m.cons:
            if c.kind == "test":
                continue
            for n, d in enumerate(self.devs.values()):
                if d is c.peer and d.ep is not None and len(self.users[id(d)]) == 1:
                    d.ep.send(b"{%s %d}\n" % (c.name, n))
                    p = self.open_logs.get(id(c))
                    if p:
                        add[p] += Render(c.logopts["sanitize"], c.logopts["timestamp"]).feed(b"{%s %d}\n" % (c.name, n), r.now_us())
                    r.settle()
        for p in add:
            got = self.read(p) if os.path.exists(p) else b""
            if any(c.kind == "test" and files.get(id(c)) == p for c in m.cons):
                continue
            if hup == "free" and p in self.late and got.startswith(snap[p]) and got.endswith(add[p]):
                # what the console sent before the file could be opened may precede
                x = got[len(snap[p]):len(got) - len(add[p])]
                c = [c for c in m.cons if files.get(id(c)) == p][0]
                if not any(b"{%s " % c2.name in x for c2 in m.cons if c2.name != c.name):
                    continue
            if hup is None and p in self.held and not got.startswith(self.prelogs[p]) and not (self.case.get("z") and any(files.get(id(c)) == p and not c.logopts["lock"] for c in m.cons)):
                raise Violation("log %s, locked by another process, was changed to %r" % (p, got[:300]))
            if got != snap[p] + add[p]:
                raise Violation("log %s (locked by another process: %s) grew by %r, expected %r" % (p, self.held.get(p), got[len(snap[p]):][:600], add[p][:600]))
            if hup and p in self.open_logs.values():
                own = [c for c in m.cons if self.open_logs.get(id(c)) == p]
                if len(own) != 1:
                    raise Violation("log %s is used by consoles %r" % (p, [c.name for c in own]))
                if p not in self.held and self.locked(p) != (r.proc.pid if own[0].logopts["lock"] else 0):
                    raise Violation("lock on %s after HUP is held by %d" % (p, self.locked(p)))
        self.hit("stage %s" % (hup or "first"))

    def nontrivial(self):
        d = sum(b"duplicate" in t for _, t in self.m.msgs)
        l = sum(b"already logging" in t for _, t in self.m.msgs)
        k = sum(os.fsdecode(x) in self.prelogs for c, x in self.m.logs)
        self.hit("duplicates", d)
        self.hit("same log", l)
        self.hit("log existed", k)
        return bool(d or l or k)

    def classes(self):
        return list(self.stats)


def run(case):
    return confrun.run(Run, case)
