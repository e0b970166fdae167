import os, random, re, signal, time
from hypothesis import strategies as st
from vlib import build, confgen as g
from vlib import conf, confrun
from vlib.rig import Violation
from .c01 import ASSUMPTIONS

ID = "C25"
N = {"quick": 1600, "thorough": 30000}
RULE = ("Configurations of 1-5 process consoles whose program is named by an absolute path, a path relative to the start directory or a bare name looked up along a random search path (with missing directories, empty elements, and decoys of that name that are directories, not executable or not programs), "
        "and whose 0-6 extra arguments are random bytes in all quotings, with the console name substituted; the daemon runs in the foreground or background with a random environment, beside consoles of other kinds. Each program reports its arguments, environment, descriptors, directory and parent. "
        "Then random histories: programs exit, are killed (several at once), give up their console but live on, ignore it, clients attach, logs are open, SIGHUP arrives, and the daemon is terminated. Judged: program, arguments, environment, descriptors and parent at every start, death of every dropped program, restart, announcements, no zombie, no program left after a background daemon has exited. "
        "Non-trivial: a program with extra arguments or found by the search path, or one that was started again.")
TECH = "property-based testing: generated command lines, environments and process histories compared with an independent model"
NOTE = "Exploration: random histories; the program is a probe which reports what it was given."


def word(r):
    w = g.pick(r, (4, lambda: r.choice([b"-x", b"a", b"--opt=1", b"%N", b"x%Ny", b"%%N", b"%D", b"$HOME", b"`id`", b"*", b"a;b", b"<>|&", b"-", b"caf\xe9", b"\x7f\x01", b"~", b"#c", b"=", b"%n"])), (2, lambda: bytes(r.choice(b"abcXYZ019%N-_./:=+!~$*?{}()[]#,;|&<>\x80\xff") for _ in range(r.randint(1, 20)))), (.3, lambda: b"l" * r.choice([200, 400])))
    return g.pick(r, (3, w), (2, lambda: b"'" + w + b"'"), (1.5, lambda: b"'" + w + b" " + w + b"'"), (.4, b"''"), (.5, lambda: b"'" + w), (.5, lambda: w[:3] + b"'" + w[3:] + b"'"), (.3, lambda: w + b"'"))


def con(r, i):
    n = i % 4 if r.random() < .95 else r.randrange(4)
    prog = g.pick(r, (3, lambda: b"@D/p_p%d" % n), (2, lambda: b"p_p%d" % n), (1, lambda: b"./p_p%d" % n), (4, lambda: b"prog"), (1.5, lambda: b"tool"), (1, lambda: b"bin/prog"), (.6, b"decoy"), (.25, b"noexec"), (.25, b"bin"), (.2, b"nosuch"), (.2, b"''"), (.4, lambda: b"'@D/p_p%d'" % n))
    name = b"c%d" % i if r.random() < .8 else r.choice([b"a b", b"x'y", b"%N", b"c0", b"prog", b"N", b"L" * 250])
    sp = lambda: r.choice([b" ", b" ", b"  ", b"\t", b" \t "])
    dev = prog + sp() + b"@C%d" % n + b"".join(sp() + word(r) for _ in range(r.choice([0, 0, 1, 2, 4, 6])))
    q = b'"'
    if r.random() < .25 and b'"' not in dev:        # the other way around
        dev, q = dev.replace(b"'", b'"'), b"'"
    out = b'console name="%s" dev=%s%s%s' % (name, q, r.choice([b"", b"", b" "]) + dev, q)
    if r.random() < .4:
        out += b' log="l%d"' % i
    return out


OTHERS = [b"@U0", b"@U1", b"@T0", b"@T1", b"@S0", b"@S1", b"@I0"]


def lines(r):
    out = []
    while r.random() < (.6 if out else .9):
        out.append(b'server execpath="%s"' % b":".join(r.choice([b"bin", b"bin", b"bin2", b"@D/bin", b"@D/bin2", b"nosuch", b"decoys", b"@D/decoys", b".", b"./bin", b"conf", b"", b"bin/"]) for _ in range(r.choice([1, 2, 3, 4]))))
    # consoles of other kinds, whose descriptors are no business of the programs
    out += [b'console name="%s" dev="%s"%s' % (d[1:].lower(), d, r.choice([b"", b' log="lo%d"' % i])) for i, d in enumerate(r.sample(OTHERS, r.choice([0, 0, 1, 2, 4])))]
    r.shuffle(out)
    return out + [con(r, i) for i in range(r.choice([1, 2, 3, 4, 5]))]


def op(r):
    return g.pick(r, (2, lambda: ["exit", r.randrange(4)]), (2, lambda: ["kill", [r.randrange(4) for _ in range(r.choice([1, 2, 4]))], r.choice([9, 9, 15, 2, 6])]), (2, lambda: ["drop", r.randrange(4)]), (1, lambda: ["deaf", r.randrange(4)]), (2, lambda: ["attach", r.randrange(4)]),
                  (2, lambda: ["wait", r.choice([1, 59, 61, 200, 2000])]), (1, ["hup"]), (2, lambda: ["data", r.randrange(4), r.choice([1, 100, 2000]), r.getrandbits(32)]))


ENVS = ["LD_LIBRARY_PATH", "BASH_ENV", "HOME", "FOO", "A B", "PATH", "IFS", "TERM", "DEBUG", "TZ", "USER", "LANG", "DEBUGX", "XTZ", "SHELL", "PERL5LIB", "TZDIR"]


def extra(r):
    env = [[r.choice(ENVS), r.choice(["", "x", "a=b", "/tmp", "UTC0", "9", "x" * 3000, "\udce9t\udce9"])] for _ in range(r.choice([0, 1, 3, 8]))]
    return {"env": env, "ops": [op(r) for _ in range(r.choice([0, 1, 3, 5, 8]))], "bg": r.random() < .4}


def strategy(tier):
    return st.fixed_dictionaries({"text": st.integers(0, 1 << 48).map(lambda n: lines(random.Random(n))), "x": st.integers(0, 1 << 48).map(lambda n: extra(random.Random(n)))})


def gen(r):
    return {"text": lines(r), "x": extra(r)}


class Run(confrun.ConfRun):
    counts = {"P": 4, "U": 2, "T": 2, "S": 2, "I": 1}

    def __init__(self, case):
        super().__init__(case)
        self.bg = case["x"]["bg"]
        self.gone = set()
        self.env = {}
        for k, v in case["x"]["env"]:
            if k == "TZ":
                v = "UTC0"
            self.rig.extra_env[k] = self.env[k] = v

    def __exit__(self, *a):
        for p in self.gone | {d.info["pid"] for d in getattr(self, "devs", {}).values() if getattr(d, "info", None)}:
            if self.alive(p):
                os.kill(p, 9)
        super().__exit__(*a)

    def make(self, text):
        # all four exist as programs
        return super().make(text + b"\n# @P0 @P1 @P2 @P3\n")

    def setup(self):
        super().setup()
        D, vp = self.rig.dir, os.path.join(build.helpers(), "vproc")
        os.mkdir(D + "/decoys")
        os.chmod(D + "/decoys", 0o777)
        for p in ("bin/prog", "bin2/prog", "bin2/tool", "bin2/decoy"):
            os.symlink(vp, os.path.join(D, p))
        os.mkdir(D + "/decoys/prog")
        os.mkdir(D + "/bin/decoy")
        for p in ("decoys/tool", "noexec", "bin/noexec"):
            with open(os.path.join(D, p), "w") as f:
                f.write("#!/bin/sh\n")
            os.chmod(os.path.join(D, p), 0o644)

    def admissible(self, m):
        super().admissible(m)
        for c in m.cons:
            if c.kind == "process" and (self.dev_of(c) is None or not c.dev):
                raise confrun.Skip("not the probe")
        ds = [self.dev_of(c) for c in m.cons]
        if len(set(map(id, ds))) != len(ds):
            raise confrun.Skip("one probe twice")

    # -- what the probe reports
    def check_devices(self):
        for c in self.m.cons:
            if c.kind == "process":
                self.started(c)
            else:
                self.hit("beside other consoles")
        super().check_devices()

    def started(self, c):
        d, r = c.peer, self.rig
        self.hit("arguments", len(c.argv) > 3)
        self.hit("search path", b"/bin" in c.dev)
        i = d.info
        bad = lambda what, got, want: Violation("console %r: the program's %s %r, expected %r" % (c.name, what, got, want))
        if i["argv"] != c.argv:
            raise bad("arguments are", i["argv"], c.argv)
        e = {b"IFS": b" \t\n", b"PATH": b"/usr/bin:/bin:/usr/sbin:/sbin", b"TERM": b"dumb"}
        for k in ("DEBUG", "TZ"):
            v = self.env.get(k, r.env().get(k))
            if v is not None:
                e[k.encode()] = os.fsencode(v)
        w = sorted(k + b"=" + v for k, v in e.items())
        if sorted(i["env"]) != w:
            raise bad("environment is", sorted(i["env"]), w)
        if sorted(i["fds"]) != [0, 1, 2] or len(set(i["fds"].values())) != 1 or not i["fds"][0].startswith(b"socket:"):
            raise bad("descriptors are", i["fds"], "one socket as 0, 1 and 2")
        w = b"/" if self.bg else r.dir.encode()
        if i["cwd"] != w:
            raise bad("directory is", i["cwd"], w)
        if i["ppid"] != r.proc.pid:
            raise bad("parent is", i["ppid"], r.proc.pid)
        d.deaf = False
        d.pid = i["pid"]

    # -- the history
    def check_clients(self):
        super().check_clients()
        self.by = {}
        for c in self.m.cons:
            for k, d in self.devs.items():
                if d is c.peer and k[0] == "P":
                    self.by[k[1]] = c
        # one session sees all announcements of a console
        self.cl = {}
        for i, c in self.by.items():
            n = bytes(b"[%c]" % x if x in b"*?[\\" else b"" for x in b"")
            cl, t = self.ask(b"CONNECT OPTION=FORCE CONSOLE='" + bytes(x | 128 if x in b"'\"" else x for x in c.name) + b"'\n")
            if not t.startswith(b"OK"):
                raise Violation("connect to %r refused: %r" % (c.name, t[:300]))
            cl.take()
            self.cl[i] = cl
        for o in self.case["x"]["ops"]:
            getattr(self, "op_" + o[0])(*o[1:])
            self.zombies()

    def alive(self, pid):
        try:
            with open("/proc/%d/stat" % pid) as f:
                return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
        except OSError:
            return False

    def until(self, f, what, tmo=5):
        end = time.monotonic() + tmo
        while not f():
            self.rig.pump()
            if time.monotonic() > end:
                raise Violation(what)
            time.sleep(0.001)

    def kids(self):
        out = []
        for p in os.listdir("/proc"):
            if p.isdigit():
                try:
                    with open("/proc/%s/stat" % p) as f:
                        w = f.read().rsplit(")", 1)[1].split()
                except OSError:
                    continue
                if int(w[1]) == self.rig.proc.pid:
                    out.append((int(p), w[0]))
        return out

    def zombies(self):
        self.until(lambda: not any(s == "Z" for p, s in self.kids()), "zombies of the daemon: %s" % self.kids())
        known = {c.peer.pid for c in self.by.values() if c.peer.pid}
        k = {p for p, s in self.kids()}
        if k != known:
            # a program that has just been started reports soon
            self.until(lambda: self.follow() and {p for p, s in self.kids()} == {c.peer.pid for c in self.by.values() if c.peer.pid}, "programs of the daemon: %s, expected %s" % (sorted(k), sorted(known)))

    def follow(self):
        """Notices programs that were started."""
        for i, c in self.by.items():
            if c.peer.pid is None and c.peer.info["pid"] not in self.gone:
                self.started(c)
                self.hit("restarted")
        return True

    def lost(self, i, tell=True):
        """The program of a console is gone or lost its console."""
        c = self.by[i]
        d, pid = c.peer, c.peer.pid
        if pid is None:
            return
        self.gone.add(pid)
        w = b"Console [" + c.name + b"] disconnected from \"" + c.dev.rsplit(b"/", 1)[1] + b"\" (pid %d) after " % pid
        self.until(lambda: w in self.cl[i].rx, "console %r: no announcement %r, the session received %r" % (c.name, w, bytes(self.cl[i].rx)[:300]))
        self.until(lambda: not self.alive(pid), "console %r: its program %d is still running" % (c.name, pid))
        d.pid = None
        self.until(lambda: d.ep.eof or d.ep.closed or d.info["pid"] != pid, "connection of the probe is still open")
        self.rig.settle()
        if self.cl[i].take().count(w) != 1:
            raise Violation("console %r: announced more than once: %r" % (c.name, w))
        self.follow()

    def op_exit(self, i):
        if i in self.by and self.by[i].peer.pid and not self.by[i].peer.deaf:
            self.by[i].peer.hangup()
            self.lost(i)
            self.hit("exit")

    def op_kill(self, l, sig):
        l = [i for i in sorted(set(l)) if i in self.by and self.by[i].peer.pid]
        for i in l:
            os.kill(self.by[i].peer.pid, sig)
        for i in l:
            self.lost(i)
            self.hit("killed")

    def op_drop(self, i):
        if i in self.by and self.by[i].peer.pid:
            os.kill(self.by[i].peer.pid, signal.SIGUSR1)
            self.lost(i)
            self.hit("dropped")

    def op_deaf(self, i):
        d = i in self.by and self.by[i].peer
        if d and d.pid:
            os.kill(d.pid, signal.SIGUSR2)
            d.deaf = True
            time.sleep(.003)

    def op_attach(self, i):
        if i not in self.by:
            return
        c = self.by[i]
        cl, t = self.ask(b"CONNECT OPTION=JOIN CONSOLE='" + bytes(x | 128 if x in b"'\"" else x for x in c.name) + b"'\n")
        self.rig.settle()
        t += cl.take()
        down = b"is currently disconnected from" in t
        if down != (c.peer.pid is None):
            raise Violation("console %r (running: %s): a new session is told %r" % (c.name, c.peer.pid, t))
        if down:
            self.until(lambda: self.follow() and c.peer.pid, "console %r: its program was not started for a new session: %r" % (c.name, t))
            self.hit("started for a session")
        cl.close()
        self.rig.settle()

    def op_wait(self, s):
        self.rig.advance(s)
        self.follow()
        if s >= 1900:
            for c in self.by.values():
                self.until(lambda: self.follow() and c.peer.pid, "console %r: its program was not started again" % c.name)

    def op_hup(self):
        if self.bg:
            self.rig.proc.send_signal(signal.SIGHUP)
            self.rig.settle()
        else:
            self.rig.signal(signal.SIGHUP, b"Performing reconfig on signal=1")
        self.rig.settle()

    def op_data(self, i, n, seed):
        if i not in self.by or not self.by[i].peer.pid or self.by[i].peer.deaf:
            return
        c, d, r = self.by[i], self.by[i].peer, random.Random(seed)
        self.rig.settle()
        self.cl[i].take()
        d.ep.take()
        b = bytes(r.randrange(256) for _ in range(n))
        d.ep.send(b)
        self.cl[i].send(b[::-1].replace(b"\xff", b"\xff\xff"))
        self.rig.settle()
        x, y = self.cl[i].take(), d.ep.take()
        if x != b or y != b[::-1]:
            raise Violation("console %r: program wrote %r, session received %r; session sent %r, program read %r" % (c.name, b[:200], x[:200], b[::-1][:200], y[:200]))
        self.hit("data")

    def finish(self):
        self.rig.settle()
        self.follow()
        ps = [c.peer.pid for c in self.by.values() if c.peer.pid]
        rc = self.rig.stop()
        if rc != 0:
            raise Violation("exit status %s: %s" % (rc, self.rig.crash_text()))
        if self.bg:
            self.until(lambda: not any(self.alive(p) for p in ps), "programs %s survive the daemon" % [p for p in ps if self.alive(p)])
            self.hit("taken along", len(ps))

    def nontrivial(self):
        return any(self.stats.get(k) for k in ("arguments", "search path", "restarted"))

    def classes(self):
        return list(self.stats)


def run(case):
    return confrun.run(Run, case)
