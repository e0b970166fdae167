import re
from hypothesis import strategies as st
from vlib import session, rig
from vlib.rig import Violation, Rig, T0, long_time
from vlib.session import ints, C, weighted
from vlib.world import World, info
from .c01 import ASSUMPTIONS

ID = "C24"
N = {"quick": 300, "thorough": 14000}
RULE = ("Intervals of 1 minute to 60 days in every documented spelling, start times anywhere in the day (also seconds before and at a multiple), time zones with whole and half hour offsets, 1-3 consoles with raw, "
        "processed or no logs; programs of output, sessions, SIGHUPs and restarts while the clock moves over up to dozens of intervals, stopping just before and at each multiple. A reference schedule predicts every log byte. "
        "Non-trivial: at least two timestamps came due on a console with a log.")
TECH = "property-based testing: generated histories on a virtual clock against a reference timestamp schedule and an exact model of the logs"
NOTE = "Exploration: random schedules and histories on the real daemon under a virtual clock."
P = {"ops": {"conn": 2, "emit": 5, "esc": 2, "type": 1, "bye": 1, "to": 7, "over": 3, "tick": 2, "hup": 1, "restart": 1, "suspend": 1}, "maxlen": 2000, "escs": list("LQZ"),
     "logs": [None, "", "", "", "sanitize", "timestamp", "sanitize,timestamp"], "kinds": ["unix", "telnet", "process"], "maxops": 18, "minops": 6, "faults": False}
UNIT = {"": 1, "m": 1, "M": 1, "h": 60, "H": 60, "d": 1440, "D": 1440}
ZONES = [("UTC", 0), ("UTC", 0), ("EST", -18000), ("IST", 19800), ("NZT", 46800), ("MST", -25200)]


class TWorld(World):
    next = None

    def __init__(self, spec):
        rig.set_zone(*ZONES[spec["tz"]])
        day = T0 - T0 % 86400 - ZONES[spec["tz"]][1]
        World.__init__(self, spec, Rig(t0=day + spec["at"] % 86400))
        n, u = spec["ts"]
        self.mins = n * UNIT[u]

    def __exit__(self, *a):
        rig.set_zone("UTC", 0)
        World.__exit__(self, *a)

    def conf_text(self):
        n, u = self.spec["ts"]
        s = World.conf_text(self)
        if self.spec.get("dead"):       # logs that cannot be opened take no part
            for i, c in enumerate(self.cons):
                if c.log is None:
                    s = re.sub('(console name="%s" .*) log=""' % re.escape(c.name), lambda m: m.group(1) + ' log="/dev/null/%d"' % i, s)
        return "server timestamp=%d%s%s\n" % (n, " " if self.spec["sp"] else "", u) + s

    def started(self):
        t = self.rig.now()
        loc = t + rig.ZONE[1]
        midnight = t - loc % 86400
        k = (t - midnight) // 60 // self.mins + 1 if self.mins else 0
        self.next = midnight + k * self.mins * 60 if self.mins and any(c.log for c in self.cons) else None
        World.started(self)

    def advance(self, seconds):
        target = self.rig.now_us() + int(seconds * 1000000)
        n = 0
        while self.next is not None and self.next * 1000000 <= target + 50000:
            n += 1
            if n > 60:
                return
            d = self.next * 1000000 - self.rig.now_us()
            if d > 1200000:
                World.advance(self, (d - 700000) / 1e6)
                self.settle("just before %s" % long_time(self.next * 1000000))
            self.settle("before a timestamp")
            self.rig.set_clock(max(self.next * 1000000 + 2500, self.rig.now_us() + 1))
            self.rig.settle()
            for c in self.cons:
                if c.log:
                    c.log.info(info("Console [%s] log at %s" % (c.name, long_time(self.next * 1000000))))
                    self.hit("stamped")
            self.next += self.mins * 60
            self.settle("timestamp")
        d = target - self.rig.now_us()
        if d > 0:
            World.advance(self, d / 1e6)


class Run(session.Run):
    def op_to(self, n, d):
        """To (about) the n-th timestamp from now."""
        w = self.w
        if w.next is None:
            return w.advance(3600 * n)
        w.advance(max(0.1, w.next + (n - 1) * w.mins * 60 + d - w.rig.now_us() / 1e6))

    def op_over(self, k):
        self.w.advance(self.w.mins * 60 * k / 10)


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=40, maxcons=5)
    extra = {"to": st.tuples(st.just("to"), st.sampled_from([1, 1, 1, 2, 5, 24]), st.sampled_from([-1.4, -0.6, -0.6, 0.3, 0.3, 1.4, 30.5, 61.5])).map(list),
             "over": st.tuples(st.just("over"), ints(1, 45)).map(list),
             "restart": st.tuples(st.just("restart"), st.just(False)).map(list)}
    unit = st.sampled_from(list(UNIT))
    ts = weighted([(3, st.tuples(ints(1, 90), st.sampled_from(["", "m", "M"]))), (1, st.tuples(st.sampled_from([0, 60, 100, 720, 1000, 1439, 1440, 1441, 2000, 50000]), st.sampled_from(["", "m", "M"]))),
                   (2, st.tuples(ints(1, 30), st.sampled_from(["h", "H"]))), (2, st.tuples(st.sampled_from([1, 1, 2, 7, 24, 25, 60]), st.sampled_from(["d", "D"])))]).map(list)
    at = st.one_of(ints(0, 86399), st.sampled_from([0, 1, 59, 60, 3599, 3600, 43200, 86399, 86340]))
    return st.tuples(session.strategy(p, extra), st.fixed_dictionaries({"dead": st.booleans(), "ts": ts, "sp": st.booleans(), "at": at, "tz": ints(0, len(ZONES) - 1)})).map(lambda t: dict(t[0], **t[1]))


def run(case):
    s = session.execute(case, runner=Run, world=TWorld)
    return s.get("stamped", 0) >= 2, list(s)
