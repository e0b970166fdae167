from hypothesis import strategies as st
from vlib import session
from vlib.session import ints, C, weighted, pieces
from .c01 import ASSUMPTIONS

ID = "C11"
N = {"quick": 560, "thorough": 16000}
RULE = ("Programs in which telnet devices send arbitrary byte streams dense in IAC, commands, options and subnegotiations, cut at arbitrary places (also by the daemon's short reads, "
        "by loss of the connection in mid-sequence and with urgent data), clients type 0xFF-rich input and breaks, and connections are lost and re-established. Data seen by clients, logs "
        "and every byte the device receives (offers, refusals, doubled 0xFF, breaks) are compared with an RFC 854/855 model. Non-trivial: a stream with at least one command or doubled IAC.")
P = {"ops": {"conn": 2, "jconn": 1, "temit": 10, "type": 3, "raw": 1, "esc": 2, "drop": 3, "adv": 2, "emit": 1, "burst": 1, "flood": 1}, "kinds": ["telnet", "telnet", "telnet", "unix"],
     "escs": list("BBBDQM"), "cmds": ["CONNECT", "CONNECT", "MONITOR"], "maxcons": 2, "maxlen": 3000, "pkinds": (0, 3, 3, 5)}
TECH = "property-based testing: generated telnet streams and sessions against a reference telnet parser"
NOTE = "Exploration: random telnet streams, segmentations and reconnects on the real daemon; both directions are predicted exactly."

BYTE = weighted([(6, st.just(255)), (5, st.sampled_from([250, 251, 252, 253, 254, 240])), (3, st.sampled_from([0, 1, 3, 5, 6, 24, 31, 34])),
                 (2, ints(236, 255)), (3, ints(0, 255)), (2, st.sampled_from(list(b"ab\r\n\0&")))])
TOKEN = st.one_of(
    st.lists(BYTE, min_size=1, max_size=8).map(bytes),
    st.tuples(ints(251, 254), ints(0, 255)).map(lambda t: bytes([255, t[0], t[1]])),
    st.tuples(ints(251, 254), st.sampled_from([0, 1, 3])).map(lambda t: bytes([255, t[0], t[1]])),
    # many options, or all the commands, in one go
    st.tuples(ints(251, 254), ints(0, 250), ints(3, 40)).map(lambda t: b"".join(bytes([255, t[0], o % 256]) for o in range(t[1], t[1] + t[2]))),
    st.integers(0, 3).map(lambda k: b"".join(bytes([255, c]) for c in [range(236, 251), (241, 242, 249), range(0, 240, 7), range(236, 250)][k] if c != 250)),
    st.binary(max_size=8).map(lambda b: b"\xff\xfa" + b.replace(b"\xff", b"\xff\xff") + b"\xff\xf0"),
    st.binary(min_size=1, max_size=12).map(lambda b: b.replace(b"\xff", b"\xff\xff")))


class Run(session.Run):
    def op_temit(self, ci, toks, cuts, urgent):
        w = self.w
        v = [c for c in w.cons if c.kind == "telnet" and c.up and not c.dpaused]
        if not v:
            return
        con = v[ci % len(v)]
        raw = b"".join(toks)
        if not raw:
            return
        parts = pieces(raw, cuts)
        for x in parts[:-1]:
            con.dev.ep.send(x)
            w.rig.settle()
        if urgent and not con.dev.ep.tx:
            import socket
            con.dev.ep.sock.send(parts[-1], socket.MSG_OOB)
            w.hit("urgent")
        else:
            con.dev.ep.send(parts[-1])
        data, rep = con.tel.feed(raw)
        if data:
            w.emitted(con, data)
        con.din += rep
        w.settle("telnet stream %r" % raw[:60])
        if b"\xff" in raw:
            w.hit("tel")
        if rep:
            w.hit("refusal")
        if con.tel.st != "data":
            w.hit("left_open")

    def emit_ok(self, con):
        return con.kind != "telnet" or con.tel is None or con.tel.st == "data"

    def op_drop(self, ci, how):
        con = self.lossy(ci, lambda c: c.up)
        if con is not None and con.kind == "telnet" and con.tel.st != "data":
            self.w.hit("drop_mid")
        session.Run.op_drop(self, ci, how)

    # whole-data operations need a parser that is not in the middle of a sequence
    def op_emit(self, ci, p, cuts):
        if self.emit_ok(self.con(ci)):
            session.Run.op_emit(self, ci, p, cuts)

    def op_flood(self, ci, n, seed):
        if self.emit_ok(self.con(ci)):
            session.Run.op_flood(self, ci, n, seed)

    def op_burst(self, *a):
        if all(self.emit_ok(c) for c in self.w.cons):
            session.Run.op_burst(self, *a)


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=45, maxcons=3)
    extra = {"temit": st.tuples(st.just("temit"), C, st.lists(TOKEN, min_size=1, max_size=14 if tier == "quick" else 60), st.lists(ints(1, 12), max_size=5),
                                weighted([(9, st.just(False)), (1, st.just(True))])).map(list)}
    return session.strategy(p, extra)


def run(case):
    s = session.execute(case, runner=Run)
    return s.get("tel", 0) > 0, list(s)
