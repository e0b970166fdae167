import fcntl, os, random
from hypothesis import strategies as st
from vlib import confgen as g
from vlib import confrun
from .c01 import ASSUMPTIONS

ID = "C14"
N = {"quick": 2200, "thorough": 40000}
RULE = ("Configuration files of 3-16 mostly valid lines: server directives repeated and overriding each other (port, loopback, pid file, log directory, daemon log and level, keep-alive, limits, reset command, timestamp), global directives set, changed and emptied between consoles, "
        "consoles with and without their own log, log, serial, test and IPMI options; with -p, -P and -z on the command line or not; started in the foreground or in the background. A reference interpreter predicts the listening port and address, pid file, log files and how console output is rendered and locked, terminal settings, BMC settings, burst rates, "
        "what the daemon's log contains, limits, keep-alive and reset behaviour; all are compared with the running daemon. Non-trivial: some setting was given twice, or both globally and for a console, or on the command line and in the file.")
TECH = "property-based testing: generated configurations and command lines, the running daemon compared with a reference interpreter of the precedence rules"
NOTE = "Exploration: random configurations; the daemon runs as an unprivileged user where possible."


def server(r):
    parts = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        k = g.pick(r, (3, b"port"), (2, b"loopback"), (2, b"pidfile"), (3, b"logdir"), (3, b"logfile"), (1.5, b"keepalive"), (1, b"nofile"), (1, b"resetcmd"), (1, b"timestamp"), (1, b"coredump"), (.5, b"execpath"), (.5, b"tcpwrappers"))
        if k == b"port":
            parts.append(g.kv(r, k, b"@L%d" % r.randrange(3), False))
        elif k in (b"loopback", b"keepalive", b"coredump", b"tcpwrappers"):
            parts.append(g.kv(r, k, g.case(r, r.choice([b"on", b"off"])), False))
        elif k in (b"nofile", b"timestamp"):
            parts.append(g.kv(r, k, r.choice([b"0", b"-1", b"300", b"512", b"1024"] if k == b"nofile" else [b"0", b"30", b"90m", b"2h", b"1d"]), False))
        else:
            parts.append(g.kv(r, k, r.choice({b"pidfile": [b"pid", b"run/pid", b"@D/pid2", b"logs/p"], b"logdir": [b"logs", b"@D/logs", b"", b"newdir", b"a/b", b"@D"], b"logfile": [b"d.log", b"d.log,info", b"@D/d,debug", b"d.log, ERR", b"d2,notice", b"d2,warning", b"d%P.log", b"d%N"],
                                                b"resetcmd": [b"true", b"echo %N"], b"execpath": [b"bin:bin2", b"@D/bin", b""]}[k])))
    if r.random() < .04:
        parts.insert(r.randrange(len(parts) + 1), b"bogus")
    return g.case(r, b"server") + b" " + b" ".join(parts)


def line(r):
    return g.pick(r, (7, lambda: g.con(r, g.PLAIN, bad=.02, logp=.4)), (4, lambda: g.glob(r, .03)), (5, lambda: server(r)), (.3, lambda: g.junk(r)))


def opts(r):
    return {"bg": r.random() < .4, "p": r.choice([None, None, 0, 0, 3]), "P": r.choice([None, None, None, b"cl.pid", b"@D/run2/cl"]), "z": r.random() < .1, "short": r.random() < .5}


def strategy(tier):
    return st.fixed_dictionaries({"text": g.lines(line, 3, 16 if tier == "quick" else 30), "opts": st.integers(0, 1 << 40).map(lambda n: opts(random.Random(n)))})


def gen(r):
    return {"text": [line(random.Random(r.getrandbits(48))) for _ in range(r.randint(3, 16))], "opts": opts(r)}


class Run(confrun.ConfRun):
    rates = True

    def __init__(self, case):
        super().__init__(case)
        o = case["opts"]
        self.ports = self.free_ports(4)
        self.bg = o["bg"]
        args = ["-v"]
        self.port = None
        self.lock = None
        if o["p"] is not None:
            self.port = 0 if o["p"] == 0 else self.ports[3]
            args += ["-p%d" % self.port] if o["short"] else ["-p", "%d" % self.port]
        if o["P"]:
            p = os.fsdecode(o["P"]).replace("@D", self.rig.dir)
            self.pidarg = os.path.join(self.rig.dir, p)
            args = args + ["-P", p] if o["short"] else ["-P" + p] + args
        if o["z"]:
            args.append("-z")
        self.extra_args = args

    def setup(self):
        super().setup()
        if self.case["opts"]["z"]:
            # logs of an earlier run
            for n in ("c0", "l0", "l1"):
                with open(os.path.join(self.rig.dir, n), "wb") as f:
                    f.write(b"old contents of the log\n")
                os.chmod(f.name, 0o666)
                self.prelogs[f.name] = b"old contents of the log\n"

    def admissible(self, m):
        if m.s["port"] == 7890:
            # the standard port: one case at a time
            self.lock = os.open("/tmp/.verif-7890", os.O_RDWR | os.O_CREAT | os.O_CLOEXEC, 0o666)
            fcntl.flock(self.lock, fcntl.LOCK_EX)
            self.ports = self.ports + [7890]
        super().admissible(m)

    def __enter__(self):
        self.prelogs = {}
        return self

    def __exit__(self, *a):
        super().__exit__(*a)
        if self.lock is not None:
            os.close(self.lock)

    def nontrivial(self):
        m, o = self.m, self.case["opts"]
        t = b"\n".join(self.case["text"]).lower()
        self.hit("own and global", any(c.ownlog is not None and c.globlog is not None for c in m.cons))
        self.hit("port on both", o["p"] is not None and t.count(b"port") > 0)
        self.hit("pidfile on both", o["P"] is not None and t.count(b"pidfile") > 0)
        self.hit("repeated", any(t.count(k) > 1 for k in (b"port", b"pidfile", b"logdir", b"logfile", b"loopback", b"keepalive")) or t.count(b"global") > 1)
        self.hit("logged twice", len(m.logs) > 1)
        return bool(m.cons) and any(k in self.stats for k in ("own and global", "port on both", "pidfile on both", "repeated"))

    def classes(self):
        return list(self.stats)


def run(case):
    return confrun.run(Run, case)
