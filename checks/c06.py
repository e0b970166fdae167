import os, random
from hypothesis import strategies as st
from vlib import session, world
from vlib.rig import Violation
from vlib.session import ints, C, weighted
from .c01 import ASSUMPTIONS

ID = "C06"
N = {"quick": 420, "thorough": 14000}
RULE = ("Programs on 1-3 consoles of all types with sanitized and/or timestamped logs (beside plain ones): output rich in CR, LF, NUL, DEL, control and eight-bit bytes, cut at every possible place, across moving clocks "
        "(seconds, midnight, year ends), daemon messages in mid-line, SIGHUPs, restarts, replays, and bursts whose rendering is far larger than the daemon's buffers. Each log is compared byte for byte with a reference renderer; "
        "the data between daemon messages is also judged directly: only printable characters and line breaks when sanitized, printable text unaltered, every line stamped once. "
        "Non-trivial: a processed log received data that held a line break and a control or eight-bit byte.")
P = {"ops": {"conn": 2, "line": 14, "emit": 3, "esc": 3, "type": 1, "bye": 1, "tick": 4, "hup": 1, "restart": 1, "burst": 1, "suspend": 1, "lastout": 1}, "maxlen": 8000, "escs": list("LLQFJM"),
     "logs": ["sanitize", "timestamp", "sanitize,timestamp", "sanitize,timestamp", "timestamp,nosanitize", "sanitize;nolock timestamp", None, ""], "maxops": 22, "pkinds": (0, 1, 3, 3, 4, 4, 5)}
TECH = "property-based testing: generated byte streams, cuts and histories against a reference renderer, plus metamorphic checks of the recorded text"
NOTE = "Exploration: random streams and histories on the real daemon under a virtual clock; the log is predicted byte for byte and its content judged by rules that do not use the renderer."
SYM = [b"\r", b"\n", b"\r\n", b"\0", b"\r\0", b"\n\r", b"a", b"B c", b"\x7f", b"\x80", b"\x8d", b"\x8a", b"\xff", b"\x1b[1m", b"~^`", b"\t", b"<ConMan>", b"\xe4\xf6"]


class Run(session.Run):
    def op_line(self, ci, syms, cuts, jump):
        """Symbols, cut anywhere, with the clock moving between the pieces."""
        w, con = self.w, self.con(ci)
        if not con.up:
            return
        data = b"".join(SYM[s % len(SYM)] for s in syms)
        if self.faults:
            data = data[:1500]
        for i, x in enumerate(session.pieces(data, cuts)):
            if i and jump and not any(c.kind == "unix" and not c.up for c in w.cons):
                w.advance(jump)
            w.emit(con, self.tel(con, x), x)
            w.settle("line")
        w.hit("line")
        if con.log and (con.log.r.s or con.log.r.t):
            w.hit("line_processed")
            if b"\n" in data and any(b < 32 and b not in (10, 13) or b > 126 for b in data):
                w.hit("line_rich")

    def op_lines(self, ci, n, seed, k):
        """Many short lines at once: their rendering is larger than the buffers."""
        w, con = self.w, self.con(ci)
        if not con.up:
            return
        r = random.Random(seed)
        data = b"".join(r.choice([b"\n", b"\n", b"\r\n", b"a\n", b"\r", b"x\r", b"\x80\n", b"\n\0"]) for _ in range(n))[:1500 if self.faults else 8000]
        w.emit(con, self.tel(con, data), data)
        w.settle("lines")
        w.hit("line_burst")


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=45, maxcons=4)
    S = ints(0, len(SYM) - 1)
    line = st.tuples(st.just("line"), C, weighted([(4, st.lists(S, min_size=1, max_size=14)), (1, st.lists(S, min_size=15, max_size=80))]),
                     st.lists(ints(1, 12), max_size=5), st.sampled_from([0, 0, 1, 1, 61, 3600])).map(list)
    lines = st.tuples(st.just("lines"), C, st.one_of(ints(1, 60), ints(300, 5000)), ints(0, 999), ints(0, 9)).map(list)
    return session.strategy(p, {"line": weighted([(5, line), (1, lines)]), "tick": st.tuples(st.just("tick"), st.sampled_from([1, 1, 2, 59, 60, 3600, 40000, 86400, 86400 * 200])).map(list)})


def judge(w, r):
    """What a sanitized log may hold at all."""
    for c in w.cons:
        if c.log and c.log.r.s:
            with open(c.log.path, "rb") as f:
                t = f.read()
            bad = [b for b in t if not (32 <= b <= 126 or b in (10, 13))]
            if bad:
                raise Violation("the sanitized log of [%s] holds byte %#x" % (c.name, bad[0]))
            if t.replace(b"\r\n", b"").count(b"\r") or t.replace(b"\r\n", b"").count(b"\n"):
                raise Violation("the sanitized log of [%s] holds a lone CR or LF" % c.name)


def run(case):
    s = session.execute(case, after=judge, runner=Run)
    return s.get("line_rich", 0) + s.get("line_burst", 0) > 0 and s.get("line_processed", 0) + s.get("line_burst", 0) > 0, list(s)
