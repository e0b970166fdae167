import fcntl, os, random, re, shutil, signal, socket, struct, subprocess, time
from hypothesis import strategies as st
from vlib import build, confgen as g
from vlib import confrun, rig as rigm
from vlib.rig import Client, Rig, UnixDev, Violation
from .c01 import ASSUMPTIONS

ID = "C17"
N = {"quick": 900, "thorough": 20000}
RULE = ("Histories of 3-25 steps over three configuration files, each reachable under several names (absolute, relative, through symbolic and hard links), with or without a pid file in the configuration or on the command line: starting daemons in the foreground and background, also on files in use and several at the same moment; -q, -k and -r with and without -v, -F and -P, "
        "with pid files that are right, missing, stale, malformed or name another process (a decoy); SIGTERM, SIGINT, both together, SIGKILL; configuration files rewritten in place or replaced; clients attached, half connected or stalled. A model says which process each command reaches. Judged after every step: exit status and complete output of every command, which daemons run, whether their sessions, locks, ports and pid files are intact, "
        "that exactly the addressed daemon reopened its logs or stopped (with exit status 0, its clients' connections closed, its pid file gone, its stop message logged last), and that decoys were signalled only when a pid file names them and no lock does. "
        "Non-trivial: a daemon was signalled by a command, or a second start was refused.")
TECH = "property-based testing: generated histories of daemons and commands compared with a reference model"
NOTE = "Exploration: random histories; stale pid files hold a pid beyond the system's maximum, as a reused pid cannot be told from the daemon's."
BIG = b"2000000000\n"


def op(r):
    s = lambda: r.randrange(3) if r.random() < .4 else 0
    return g.pick(r, (5, lambda: ["start", s(), r.randrange(5), r.random() < .6, r.random() < .3, r.choice([None, None, None, "p1", "p2", "run/p3"])]), (9, lambda: ["ctl", s(), r.choice("qqkkrrr"), r.randrange(5), r.random() < .5, r.random() < .3, r.choice([None, None, None, "own", "own", "own", "none", "bad", "decoy", "decoy"]), r.randrange(12)]),
                  (2, lambda: ["sig", s(), r.choice([["TERM"], ["INT"], ["TERM", "INT"], ["HUP", "TERM"], ["INT", "INT"]])]), (1, lambda: ["crash", s()]), (1, lambda: ["file", s(), r.random() < .5]), (1.5, lambda: ["clients", s(), r.choice(["half", "stall", "quiet", "idle"])]),
                  (.7, lambda: ["race", s(), r.choice([2, 3])]), (.5, lambda: ["missing", r.choice("qkr-")]), (1, lambda: ["hup", s()]))


def gen_ops(r):
    return [["start", 0, 0, r.random() < .7, False, None]] * (r.random() < .8) + [op(r) for _ in range(r.choice([3, 6, 10, 16, 25]))]


def strategy(tier):
    return st.fixed_dictionaries({"pid": st.lists(st.sampled_from([None, "pid", "run/pid"]), min_size=3, max_size=3),
                                  "ops": st.lists(st.integers(0, 1 << 48).map(lambda n: op(random.Random(n))), min_size=2, max_size=20 if tier == "quick" else 40).map(lambda l: [["start", 0, 0, True, False, None]] + l)})


def gen(r):
    return {"pid": [r.choice([None, "pid", "run/pid"]) for _ in range(3)], "ops": gen_ops(r)}


class Slot:
    """One configuration file and what runs on it."""

    def __init__(self, i, pid, un):
        self.i, self.un = i, un
        self.rig = r = Rig()
        r.popen = un
        os.chmod(r.dir, 0o777)
        os.chmod(r.page.path, 0o666)
        self.dev = UnixDev(r, "u")
        os.chmod(self.dev.path, 0o777)
        os.mkdir(r.dir + "/run", 0o777)
        os.chmod(r.dir + "/run", 0o777)
        self.conf = r.dir + "/conf"
        self.confpid = pid and os.path.join(r.dir, pid)
        self.write()
        os.symlink("conf", r.dir + "/sym")
        os.link(self.conf, r.dir + "/hard")
        self.run = None             # running: dict
        self.replaced = False
        self.logn = 0

    def text(self):
        return "server logdir=\"%s\"\nserver logfile=\"dlog\"\n%sserver loopback=on\nserver execpath=\"/\"\nconsole name=\"c%d\" dev=\"%s\" log=\"clog\"\n# %d\n" % (self.rig.dir, "server pidfile=\"%s\"\n" % self.confpid if self.confpid else "", self.i, self.dev.devstr, random.random() * 1e9)

    def write(self):
        self.rig.write_conf(self.text())
        os.chmod(self.conf, 0o666)

    def name(self, n):
        """A spelling of the file's name."""
        n = n % (4 if self.replaced else 5)
        return [self.conf, "conf", "./conf", "sym", "hard"][n]

    def holder(self):
        with open(self.conf, "r+b") as f:
            b = fcntl.fcntl(f, 5, struct.pack("hhqqi4x", fcntl.F_WRLCK, 0, 0, 0, 0))
        t, _, _, _, pid = struct.unpack("hhqqi4x", b)
        return 0 if t == fcntl.F_UNLCK else pid


class World:
    def __init__(self, case):
        self.case = case
        self.un = confrun.unprivileged()
        self.slots = [Slot(i, p, self.un) for i, p in enumerate(case["pid"])]
        self.decoys, self.stats = [], {}

    def hit(self, k, n=1):
        if n:
            self.stats[k] = self.stats.get(k, 0) + n

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for d in self.decoys:
            d.kill()
            d.wait()
        for s in self.slots:
            s.rig.close()

    # -- commands
    def spawn(self, s, args):
        e = dict(s.rig.env())
        return subprocess.Popen([os.path.join(build.daemon(), "conmand")] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=s.rig.dir, start_new_session=True, **self.un)

    def command(self, s, args):
        e = dict(s.rig.env())
        del e["VSHIM"]
        p = subprocess.Popen([os.path.join(build.daemon(), "conmand")] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=s.rig.dir, start_new_session=True, **self.un)
        try:
            o, er = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Violation("conmand %s does not finish" % args)
        return p.returncode, o, er

    def judge(self, what, got, want):
        if got != want:
            raise Violation("conmand %s: exit status, output and errors %r, expected %r" % (what, got, want))

    def read(self, p):
        try:
            with open(p, "rb") as f:
                return f.read()
        except OSError:
            return None

    def until(self, f, what, tmo=8):
        end = time.monotonic() + tmo
        while not f():
            for s in self.slots:
                s.rig.pump()
            if time.monotonic() > end:
                raise Violation(what())
            time.sleep(0.001)

    @staticmethod
    def err(t, level="ERROR"):
        return (level + ":").ljust(11).encode() + t.encode() + b"\n"

    def op_missing(self, k):
        s = self.slots[0]
        rc, o, e = self.command(s, ["-c", "nosuch"] + (["-" + k] if k != "-" else []))
        self.judge("-%s without a file" % k, (rc, o, e), (1, b"", self.err('Unable to open "nosuch": No such file or directory')))

    # -- starting
    def op_start(self, i, n, bg, v, P):
        s = self.slots[i]
        name = s.name(n)
        args = ["-c", name, "-p", "0"] + ([] if bg else ["-F"]) + (["-v"] if v else []) + (["-P", P] if P else [])
        if s.run and not s.replaced:
            before = {p: self.read(os.path.join(s.rig.dir, p)) for p in ("dlog", "clog", "pid", "run/pid", "p1", "p2", "run/p3")}
            got = self.command(s, args)
            self.judge(" ".join(args) + " on a file in use", got, (1, b"", self.err('Configuration "%s" in use by pid %d' % (name, s.run["pid"]))))
            after = {p: self.read(os.path.join(s.rig.dir, p)) for p in before}
            if before != after:
                raise Violation("a refused start changed files: %s" % [(p, before[p], after[p]) for p in before if before[p] != after[p]])
            self.hit("second refused")
            return
        if s.run:       # on another inode; both would share the pid file and the logs
            return
        self.launch(s, args, bg, P, v)

    def launch(self, s, args, bg, P, v):
        r = s.rig
        rigm.subreaper()
        for f in ("dlog", "clog"):
            if os.path.exists(os.path.join(r.dir, f)):
                s.logn += 1
                os.rename(os.path.join(r.dir, f), os.path.join(r.dir, "%s.%d" % (f, s.logn)))
        r.exited, r.half_open = None, 0
        r.page["thr_finished"] = r.page["thr_started"]
        p = self.spawn(s, args)
        if bg:
            try:
                o, e = p.communicate(timeout=20)
            except subprocess.TimeoutExpired:
                p.kill()
                raise Violation("the daemon did not go to the background")
            if p.returncode != 0 or o or (e and not v):
                raise Violation("conmand %s: exit status %d, output %r, errors %r" % (args, p.returncode, o, e))
            pid = s.holder()
            if not pid:
                raise Violation("conmand %s: no daemon holds the configuration" % args)
            r.proc = rigm.BgProc(pid)
            log = lambda: self.read(r.dir + "/dlog") or b""
        else:
            buf = bytearray()
            os.set_blocking(p.stderr.fileno(), False)

            def log():
                try:
                    while True:
                        b = os.read(p.stderr.fileno(), 65536)
                        if not b:
                            break
                        buf.extend(b)
                except BlockingIOError:
                    pass
                return bytes(buf)
            r.proc = p
            pid = p.pid
        pf = os.path.join(r.dir, P) if P else s.confpid
        s.run = {"pid": pid, "log": log, "bg": bg, "pidfile": pf, "hup": 0, "cl": [], "att": None}
        self.until(lambda: b"Open file limit set to" in log() or r.proc.poll() is not None, lambda: "the daemon does not start: %r" % log()[-600:])
        m = re.search(rb"Starting ConMan daemon \S+ \(pid (\d+)\)\n", log())
        if r.proc.poll() is not None or not m or int(m.group(1)) != pid:
            raise Violation("the daemon with pid %d (%s) logs %r" % (pid, r.proc.returncode, log()[-600:]))
        r.port = int(re.search(rb"Listening on TCP port (\d+)", log()).group(1))
        r.settle()
        cl = s.run["att"] = self.attach(s)
        self.hit("background" if bg else "foreground")

    def attach(self, s, opt=b""):
        cl = Client(s.rig)
        s.rig.half_open += 1
        cl.hello()
        self.until(lambda: cl.rx.endswith(b"\n") or cl.eof, lambda: "greeting not answered: %r" % bytes(cl.rx))
        s.rig.half_open -= 1
        cl.take()
        cl.send(b"MONITOR" + opt + b" CONSOLE='c%d'\n" % s.i)
        s.rig.settle()
        t = cl.take()
        if not t.startswith(b"OK CONSOLE='c%d'" % s.i):
            raise Violation("monitor request on file %d answered with %r" % (s.i, t))
        return cl

    def op_race(self, i, n):
        """Several starts at the same moment."""
        s = self.slots[i]
        if s.run:
            return
        rigm.subreaper()
        e = dict(s.rig.env())
        del e["VSHIM"]
        ps = [subprocess.Popen([os.path.join(build.daemon(), "conmand"), "-c", s.name(k), "-p", "0"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=s.rig.dir, start_new_session=True, **self.un) for k in range(n)]
        out = [p.communicate(timeout=30) for p in ps]
        ok = [p for p in ps if p.returncode == 0]
        for p, (o, er) in zip(ps, out):
            if p.returncode not in (0, 1) or p.returncode == 0 and er or p.returncode == 1 and not re.fullmatch(rb"ERROR:     Configuration \".*\" in use by pid \d+\n", er):
                raise Violation("simultaneous start: exit status %d, %r" % (p.returncode, er))
        if len(ok) > 1:
            raise Violation("%d daemons were started on one configuration at the same moment" % len(ok))
        pid = s.holder()
        if bool(pid) != bool(ok):
            raise Violation("%d starts succeeded, the configuration is held by %d" % (len(ok), pid))
        self.hit("race")
        if pid:
            q = rigm.BgProc(pid)
            os.kill(pid, signal.SIGTERM)
            if q.wait() != 0:
                raise Violation("exit status %d after SIGTERM" % q.returncode)

    # -- commands to daemons
    def op_ctl(self, i, what, n, v, F, P, k):
        s = self.slots[i]
        r, name = s.rig, s.name(n)
        args = ["-c", name, "-" + what] + (["-v"] if v else []) + (["-F"] if F else [])
        content, path, decoy = None, None, None
        if P == "own":
            path = (s.run and s.run["pidfile"]) or s.confpid or r.dir + "/pid"
        elif P == "none":
            path = r.dir + "/nothing"
        elif P == "bad":
            path = r.dir + "/bad"
            with open(path, "wb") as f:
                f.write([b"", b"abc\n", b"-5\n", b"1\n", b"0\n", BIG, b"\n\n", b"x12\n", b"-1\n", b"+1", b" ", BIG + b"3\n"][k])
        elif P == "decoy":
            path = r.dir + "/decoy"
            decoy = subprocess.Popen(["sleep", "1000"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd="/", start_new_session=True, **self.un)
            self.decoys.append(decoy)
            with open(path, "wb") as f:
                f.write([b"%d\n", b" %d\n", b"%d", b"%d x\n"][k % 4] % decoy.pid)
        if path:
            args += ["-P", path if k % 2 else os.path.relpath(path, r.dir)]
            content = self.read(path)
        target, warn = None, b""
        if s.run and not s.replaced:
            target = s.run["pid"]
        elif content is not None:
            m = re.match(rb"\s*([-+]?\d+)", content)
            full = path
            if m:
                target = int(m.group(1))
            elif content.strip() == b"":
                warn = self.err('Unable to read from pidfile "%s"' % full, "WARNING")
            else:
                warn = self.err('Unable to obtain pid from pidfile "%s"' % full, "WARNING")
            if target is not None and target <= 1 or target == int(BIG):
                target = None
        if path and target is None and k % 2 == 0 and warn:
            warn = warn.replace(full.encode(), (r.dir + "/" + os.path.relpath(path, r.dir)).encode())
        got = self.command(s, args)
        if target is None:
            self.judge(" ".join(args), got, (1, b"", warn + self.err('Configuration "%s" does not appear to be active' % name)))
            self.hit("inactive")
        else:
            o = b"%d\n" % target if what == "q" else b""
            e = b"" if what == "q" or not v else ('Configuration "%s" (pid %d) %s on signal=%d\n' % (name, target, *{"k": ("terminated", 15), "r": ("reconfigured", 1)}[what])).encode()
            self.judge(" ".join(args), got, (0, o, e))
            self.hit("command " + what)
        if decoy:
            hit = target == decoy.pid and what != "q"
            if hit:
                rc = decoy.wait(10)
                if rc != {"k": -15, "r": -1}[what]:
                    raise Violation("conmand %s: the process named by the pid file ended with %d" % (args, rc))
                self.hit("by pid file")
            else:
                time.sleep(0.002)
                if decoy.poll() is not None:
                    raise Violation("conmand %s signalled a process it should not (%d)" % (args, decoy.returncode))
                decoy.kill()
                decoy.wait()
        if s.run and target == s.run["pid"]:
            if what == "k":
                self.ended(s, 15)
            elif what == "r":
                self.reopened(s)
        if path and os.path.basename(path) in ("bad", "decoy"):
            os.unlink(path)

    def op_hup(self, i):
        s = self.slots[i]
        if s.run:
            self.drain(s)
            os.kill(s.run["pid"], signal.SIGHUP)
            self.reopened(s)

    def reopened(self, s):
        """After a HUP signal to the daemon: its logs are open again; those of the others are not."""
        s.run["hup"] += 1
        self.until(lambda: self.allog(s).count(b"Performing reconfig on signal=1") >= s.run["hup"], lambda: "the signal was not acted upon: %r" % s.run["log"]()[-500:])
        s.rig.settle()
        c = self.read(s.rig.dir + "/clog") or b""
        if s.run.get("moved"):
            if b"log opened at" not in c:
                raise Violation("after HUP the console log is %r" % c[:200])
        s.run["moved"] = False
        self.hit("reopened")

    def allog(self, s):
        t = s.run["log"]()
        if s.run["bg"]:
            t = b"".join(self.read(os.path.join(s.rig.dir, "dlog.r%d" % k)) or b"" for k in range(s.run.get("rot", 0))) + t
        return t

    def op_sig(self, i, names):
        s = self.slots[i]
        if not s.run:
            return
        self.drain(s)
        for n in names:
            try:
                os.kill(s.run["pid"], getattr(signal, "SIG" + n))
            except ProcessLookupError:
                pass
        self.ended(s, None)
        self.hit("signalled")

    def drain(self, s):
        s.rig.settle()

    def ended(self, s, sig):
        """The daemon has been told to terminate."""
        r, run = s.rig, s.run
        self.until(lambda: r.proc.poll() is not None, lambda: "the daemon does not exit: %r" % run["log"]()[-500:])
        rc = r.exited = r.proc.returncode
        if rc != 0:
            raise Violation("the daemon exited with %d: %s" % (rc, run["log"]()[-800:]))
        t = run["log"]()
        w = rb"Exiting on signal=(\d+)\n(.*\n)*.*Stopping ConMan daemon \S+ \(pid %d\)\n$" % run["pid"]
        m = re.search(w, t)
        if not m or sig and int(m.group(1)) != sig:
            raise Violation("the daemon's log ends with %r" % t[-400:])
        for cl in [run["att"]] + run["cl"]:
            cl.paused = False
            self.until(lambda: cl.eof or cl.pump() and False, lambda: "the connection of a client is still open after the daemon's exit")
        with socket.socket() as k:
            if k.connect_ex(("127.0.0.1", r.port)) == 0 and k.getsockname() != k.getpeername():
                raise Violation("something still listens on port %d" % r.port)
        if run["pidfile"] and os.path.lexists(run["pidfile"]):
            raise Violation("pid file %s is left behind" % run["pidfile"])
        if s.holder():
            raise Violation("the configuration is still locked")
        for cl in [run["att"]] + run["cl"]:
            cl.close()
        if hasattr(r.proc, "stderr") and r.proc.stderr:
            r.proc.stderr.close()
            r.proc.stdout.close()
        r.proc, s.run, s.replaced = None, None, False
        self.renew(s)

    def renew(self, s):
        for n in ("hard",):
            p = s.rig.dir + "/" + n
            if os.path.lexists(p):
                os.unlink(p)
            os.link(s.conf, p)

    def op_crash(self, i):
        s = self.slots[i]
        if not s.run:
            return
        run = s.run
        os.kill(run["pid"], signal.SIGKILL)
        s.rig.proc.wait()
        s.rig.exited = -9
        if run["pidfile"]:
            if self.read(run["pidfile"]) is None:
                raise Violation("the pid file was gone before the daemon")
            with open(run["pidfile"], "wb") as f:       # its pid may soon be somebody else's
                f.write(BIG)
        for cl in [run["att"]] + run["cl"]:
            cl.close()
        if hasattr(s.rig.proc, "stderr") and s.rig.proc.stderr:
            s.rig.proc.stderr.close()
            s.rig.proc.stdout.close()
        s.rig.proc, s.run, s.replaced = None, None, False
        self.renew(s)
        self.hit("crash")

    def op_file(self, i, inplace):
        s = self.slots[i]
        if inplace:
            with open(s.conf, "r+b") as f:
                f.seek(0, 2)
                f.write(b"# edited\n")
            # that closing gave up no lock of the daemon's is seen later
        else:
            os.rename(s.conf, s.conf + ".old")
            s.write()
            if s.run:
                s.replaced = True
            else:
                self.renew(s)
            os.unlink(s.conf + ".old")
        self.hit("edited")

    def op_clients(self, i, how):
        s = self.slots[i]
        if not s.run or len(s.run["cl"]) > 6:
            return
        if how == "half":
            cl = Client(s.rig)
            s.rig.half_open += 1
            s.rig.settle()
        else:
            cl = self.attach(s, b" OPTION=QUIET" if how == "quiet" else b"")
            if how == "stall":
                cl.paused = True
                self.dev_send(s, b"z" * 30000)
        s.run["cl"].append(cl)
        s.rig.settle()

    def dev_send(self, s, b):
        if s.dev.ep is not None:
            for k in range(0, len(b), 3000):
                s.dev.ep.send(b[k:k + 3000])
                s.rig.settle()

    # -- after each step
    def check(self):
        for s in self.slots:
            r, run = s.rig, s.run
            if not run:
                if s.holder():
                    raise Violation("configuration %d is held by pid %d, no daemon was to run" % (s.i, s.holder()))
                continue
            r.check_alive()
            r.settle()
            if run["hup"] != self.allog(s).count(b"Performing reconfig on signal=1"):
                raise Violation("daemon %d: HUP signals seen %d, sent %d" % (s.i, self.allog(s).count(b"Performing reconfig on signal=1"), run["hup"]))
            if not s.replaced and s.holder() != run["pid"]:
                raise Violation("configuration %d is held by pid %d instead of %d" % (s.i, s.holder(), run["pid"]))
            if run["pidfile"] and self.read(run["pidfile"]) != b"%d\n" % run["pid"]:
                raise Violation("pid file %s of daemon %d contains %r" % (run["pidfile"], run["pid"], self.read(run["pidfile"])))
            # a session goes on
            run["att"].take()
            mark = b"<%d>" % (time.monotonic_ns() % 10**9)
            self.dev_send(s, mark)
            self.until(lambda: mark in run["att"].rx, lambda: "daemon %d: the session no longer receives output" % s.i)
            for cl in run["cl"]:
                if cl.eof:
                    raise Violation("daemon %d: a client's connection was closed" % s.i)
            # so that a reopening can be told
            if run["hup"] < 6 and not run.get("moved"):
                n = s.logn = s.logn + 1
                os.rename(r.dir + "/clog", r.dir + "/clog.%d" % n)
                run["moved"] = True
                run["clog"] = r.dir + "/clog.%d" % n
            elif run.get("moved") and os.path.exists(r.dir + "/clog"):
                raise Violation("daemon %d reopened its logs unasked" % s.i)

    def go(self):
        for o in self.case["ops"]:
            getattr(self, "op_" + o[0])(*o[1:])
            self.check()
        for s in self.slots:
            if s.run:
                self.drain(s)
                os.kill(s.run["pid"], signal.SIGTERM)
                self.ended(s, 15)


def run(case):
    with World(case) as w:
        w.go()
        return any(k.startswith("command") or k == "second refused" for k in w.stats), list(w.stats)
