from hypothesis import strategies as st
from vlib import session
from vlib.session import ints, K
from .c01 import ASSUMPTIONS

ID = "C07"
N = {"quick": 460, "thorough": 16000}
RULE = ("Programs that log amounts of output around 0, 4096 and 16384 bytes (raw, sanitized, timestamped and unlogged consoles), then request replays from "
        "monitoring, interactive, broadcast, quiet and suspended clients, before and after SIGHUP, restarts and further output. The replay must be exactly the last bytes "
        "logged since start-up between the two markers; log, live output and other sessions are compared too. Non-trivial: a replay of a console with at least 100 logged bytes.")
P = {"ops": {"conn": 3, "emit": 6, "fill": 3, "esc": 8, "type": 1, "bye": 1, "hup": 1, "bconn": 1, "restart": 1, "flood": 1}, "maxlen": 7000,
     "escs": list("LLLLLLQZMJF"), "logs": [None, "", "", "sanitize", "timestamp", "sanitize,timestamp"], "faults": True, "cmds": ["CONNECT", "MONITOR"],
     "kinds": ["unix", "unix", "telnet", "process", "serial", "ipmi"]}
TECH = "property-based testing: stateful generated sessions against an exact model of the replayed log tail"
NOTE = "Exploration: random logging histories and replay requests on the real daemon, compared byte for byte with the model."


class Run(session.Run):
    def op_fill(self, ci, target, d):
        """Brings what has been logged since start-up to about `target` bytes."""
        w, con = self.w, self.con(ci)
        if con.log is None:
            return
        n = target + d - len(con.log.hist)
        while n > 0:
            k = min(n, 7000)
            from vlib.world import expand
            x = expand([2, k, len(con.log.hist) % 997])
            w.emit(con, self.tel(con, x), x)
            w.settle("fill")
            n -= k
        w.hit("fill")

    def op_esc(self, k, ch):
        w = self.w
        if ch == "L":
            cl = self.live(k)
            if cl and cl.src and cl.src[0].log and len(cl.src[0].log.hist) >= 100:
                w.hit("replayed")
                w.hit("replay_full" if len(cl.src[0].log.hist) > 4096 else "replay_partial")
        session.Run.op_esc(self, k, ch)


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=45, maxcons=4)
    extra = {"fill": st.tuples(st.just("fill"), session.C, st.sampled_from([100, 4096, 4096, 16383, 16384, 20480, 32768]), ints(-30, 30)).map(list)}
    from . import c08
    rot = c08.strategy(tier).filter(lambda c: any(o[0] == "wfull" or o[:1] == ["esc"] and o[2] == "L" for o in c["ops"]))
    from . import c31
    tst = c31.strategy(tier, ops={"conn": 4, "step": 5, "type": 1, "esc": 7, "bye": 1, "emit": 2, "bconn": 1}, escs=list("LLLQFJM"), maxops=16)
    return session.weighted([(12, session.strategy(p, extra)), (3, rot), (2, tst)])


def run(case):
    if "bg" in case:        # rotation histories (files renamed, blocked, full) as in C08
        from . import c08
        s = session.execute(case, runner=c08.Run, world=c08.HWorld)
        return s.get("esc_L", 0) > 0 and s.get("rot", 0) > 0, list(s)
    if any(c["kind"] == "test" for c in case["cons"]):      # test consoles, as in C31
        from . import c31
        s = session.execute(case, runner=c31.Run, world=c31.TWorld)
        return s.get("esc_L", 0) > 0 and s.get("burst_seen", 0) > 0, list(s)
    s = session.execute(case, runner=Run)
    return s.get("replayed", 0) > 0, list(s)
