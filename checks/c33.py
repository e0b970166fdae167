import time

from hypothesis import strategies as st

from vlib import session
from vlib.rig import Client, Violation
from vlib.session import C, TTYS, USERS, ints
from vlib.world import Cl, World, fqdn
from .c01 import ASSUMPTIONS  # noqa: F401

ID = "C33"
N = {"quick": 400, "thorough": 12000}
RULE = ("Histories of clients from ten addresses (with a qualified name, a plain name, or none) connecting in every way (query, connect, join, force, broadcast, monitor; at once, after the greeting, or silent) "
        "while the access rules change, sessions go on and the configuration enables or disables the rules (last directive wins). Every question put to the rules, every reply, the sessions of everybody else and the log of refusals "
        "are compared with the model. Non-trivial: the rules are on, and refused one connection and admitted another.")
P = {"ops": {"conn": 3, "jconn": 3, "knock": 7, "rule": 4, "query": 1, "type": 2, "emit": 2, "esc": 2, "bye": 2}, "maxlen": 300, "maxcons": 3, "maxops": 34, "hosts": 10, "faults": False,
     "escs": list("FJMQL"), "opts": ["FORCE", "FORCE", "JOIN", "QUIET", "BROADCAST", "REGEX"]}
TECH = "property-based testing: stateful generated sessions against a reference model, the access rules being a recording stand-in (link-time) whose answers are part of the history"
NOTE = "Exploration: random histories on the real daemon; libwrap's hosts_ctl() is replaced by a stand-in that records its arguments and answers as the history says, so the system's own rules play no part."


class AWorld(World):
    def __init__(self, spec):
        World.__init__(self, spec)
        self.acl = self.rig.dir + "/acl"
        self.rig.extra_env["SHIM_ACL"] = self.acl
        self.on = bool(spec["wrap"]) and spec["wrap"][-1]
        self.denied, self.asked, self.refused = set(), [], []

    def conf_text(self):
        self.spec["extra"] = ["server tcpwrappers=%s" % ("on" if x else "off") for x in self.spec["wrap"]]
        return World.conf_text(self)

    def connect(self, user, tty, cmd, names, opts=(), pipe=False, early=b"", rcvbuf=None, src=1):
        if self.ask(src):
            cl = World.connect(self, user, tty, cmd, names, opts, pipe, early, rcvbuf, src)
            self.hit("admitted")
            return cl
        self.knock(src, pipe, user, tty, cmd, names, opts)
        return None

    def ask(self, src):
        """A client connects from 127.0.0.SRC; returns whether the rules let it in."""
        if not self.on:
            return True
        name = b"unknown" if src > 1 and src % 3 == 2 else fqdn(src)
        self.asked.append(b"conmand|%s|127.0.0.%d|unknown" % (name, src))
        return src not in self.denied

    def knock(self, src, pipe, user, tty, cmd, names, opts):
        """A connection that is refused, whatever the client sends."""
        ep = Client(self.rig, None, src)
        self.refused.append(b"<%s:%d>" % (fqdn(src), ep.lport))
        try:
            if pipe is not None:
                ep.hello(user, tty)
                if pipe:
                    ep.request(cmd.encode(), [n.encode("latin-1") for n in names], [o.encode() for o in opts])
        except OSError:
            pass
        self.rig.settle()
        end = time.monotonic() + 10
        while not ep.eof and time.monotonic() < end:
            ep.pump()
            time.sleep(0.0005)
        if ep.take():
            raise Violation("a client refused by the rules (127.0.0.%d) was sent data" % src)
        if not ep.eof:
            raise Violation("the connection of a client refused by the rules (127.0.0.%d) stays open" % src)
        ep.close()
        self.hit("knock_" + {None: "silent", True: "request", False: "hello"}[pipe])
        self.verify("refused connection")
        self.questions()

    def questions(self):
        try:
            with open(self.acl, "rb") as f:
                got = f.read().splitlines()
        except OSError:
            got = []
        if got != self.asked:
            i = next((i for i, (a, b) in enumerate(zip(got, self.asked)) if a != b), min(len(got), len(self.asked)))
            raise Violation("question %d put to the access rules: %r, expected %r (rules %s)" % (i, got[i:i + 1], self.asked[i:i + 1], "on" if self.on else "off"))
        with open(self.rig.stderr_path, "rb") as f:
            t = [l for l in f.read().splitlines() if b"TCP-Wrappers" in l]
        for w in self.refused:
            if len([l for l in t if w in l]) != 1:
                raise Violation("refusal of %r logged as %r" % (w, t[-3:]))
        if len(t) != len(self.refused):
            raise Violation("%d refusals logged, %d expected: %r" % (len(t), len(self.refused), t[-3:]))


class Run(session.Run):
    def op_rule(self, srcs, deny):
        w = self.w
        for s in srcs:
            (w.denied.add if deny else w.denied.discard)(s)
        m = sum(1 << s for s in w.denied)
        w.rig.page["acl"] = m
        w.hit("rules")

    def op_knock(self, src, pipe, u, t, cmd, cons, opts):
        w = self.w
        if len([c for c in w.clients if c.live]) >= 7:
            return
        names = [self.con(c).name for c in cons]
        if pipe is not None or src in w.denied and w.on:
            w.connect(USERS[u], TTYS[t], cmd, names, opts, pipe, src=src)
        else:           # a client that says nothing and leaves
            w.ask(src)
            ep = Client(w.rig, None, src)
            w.rig.half_open += 1
            w.rig.settle()
            w.rig.half_open -= 1
            ep.pump()
            if ep.eof or ep.take():
                raise Violation("a silent client (127.0.0.%d) was answered or disconnected" % src)
            ep.close()
            w.rig.settle()
            w.hit("silent")
        w.questions()

    def end(self):
        session.Run.end(self)
        self.w.questions()


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=50, maxcons=5)
    src = ints(1, 10)
    extra = {"rule": st.tuples(st.just("rule"), st.lists(src, min_size=1, max_size=8, unique=True), st.booleans()).map(list),
             "knock": st.tuples(st.just("knock"), src, st.sampled_from([None, False, True, True]), ints(0, len(USERS) - 1), ints(0, len(TTYS) - 1), st.sampled_from(["CONNECT", "CONNECT", "MONITOR", "QUERY"]),
                                st.lists(C, min_size=1, max_size=2), st.lists(st.sampled_from(P["opts"]), max_size=2, unique=True)).map(list)}
    return st.tuples(session.strategy(p, extra), st.sampled_from([[True], [True], [True], [True, True], [False, True], [False, True, True], [True, False], []]), st.lists(src, min_size=2, max_size=6, unique=True)).map(
        lambda t: dict(t[0], wrap=t[1], ops=[["rule", t[2], True]] + t[0]["ops"]))


def run(case):
    s = session.execute(case, runner=Run, world=AWorld)
    return s.get("rules", 0) > 0 and any(k.startswith("knock_") for k in s) and s.get("admitted", 0) > 0, list(s)
