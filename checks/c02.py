from hypothesis import strategies as st
from vlib import session
from vlib.session import ints, K, C, payload, frag, pieces
from vlib.world import expand
from .c01 import ASSUMPTIONS

ID = "C02"
N = {"quick": 520, "thorough": 16000}
RULE = ("Programs of connects (R/W, joined, broadcast, forced, monitoring; with input pipelined behind the request), typing of arbitrary bytes and "
        "escape pairs cut at arbitrary places, mode switches, simultaneous typing by several writers, disconnects with input in flight, slow "
        "devices, on 1-4 consoles of all types with short reads/writes injected; what every device receives is compared with the model. "
        "Non-trivial: input of a writer reached a device and at least one of: several writers, a broadcast, a split escape pair, a monitoring client that typed, early input.")
P = {"ops": {"conn": 3, "bconn": 2, "jconn": 2, "emit": 1, "type": 8, "raw": 4, "esc": 4, "bye": 1, "burst": 3, "early": 2, "lastwords": 1, "dpause": 1, "dunpause": 1},
     "escs": list("FJMMJQBD"), "opts": ["JOIN", "JOIN", "FORCE", "BROADCAST", "BROADCAST"], "maxcons": 4, "maxlen": 7000, "bmul": 2}
TECH = "property-based testing: stateful generated sessions against an exact reference model of console input"
NOTE = ("Exploration: random session programs on the real daemon; the byte stream every device receives is predicted exactly "
        "(per writer where several type at once).")


class Run(session.Run):
    def op_early(self, u, cons, opts, p, pipe):
        w = self.w
        data = expand(p)[:1200]
        names = [self.con(c).name for c in cons]
        if len([c for c in w.clients if c.live]) >= 7 or any(c.dpaused for c in w.cons):
            return
        if w.connect(session.USERS[u], b"t", "CONNECT", names, opts, pipe, early=data):
            w.hit("early")

    def op_lastwords(self, k, p):
        """Input immediately followed by the end of the connection."""
        w, cl = self.w, self.live(k, lambda c: not c.paused and c.pend is None and c.dst)
        if cl is None:
            return
        data = expand(p)[:1500]
        cl.ep.send(data.replace(b"\xff", b"\xff\xff"))
        w.feed(cl, data)
        w.bye(cl, "half")
        w.settle("last words")
        w.hit("lastwords")


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=45, maxcons=5)
    extra = {
        "early": st.tuples(st.just("early"), ints(0, 5), st.lists(C, min_size=1, max_size=2), st.lists(st.sampled_from(["FORCE", "JOIN", "BROADCAST"]), max_size=2, unique=True),
                           payload(1200), st.booleans()).map(list),
        "lastwords": st.tuples(st.just("lastwords"), K, payload(1500)).map(list)}
    return session.strategy(p, extra)


def run(case):
    s = session.execute(case, runner=Run)
    nt = (s.get("type_rw", 0) + s.get("type_bcast", 0) + s.get("burst", 0) > 0 and
          any(s.get(k) for k in ("burst_multi_writer", "type_bcast", "type_frag_ff", "type_ro", "early")))
    return nt, list(s)
