import math, os
from hypothesis import strategies as st
from vlib import session, world
from vlib.rig import Violation, Inconclusive
from vlib.session import ints, C, weighted
from vlib.world import World
from .c01 import ASSUMPTIONS

ID = "C31"
N = {"quick": 300, "thorough": 10000}
RULE = ("1-3 test consoles with generated options (burst size, minimum and maximum delay, probability, in any order and case, or none) beside consoles of other types; clients attach, type, detach, replay and go quiet "
        "while the clock is moved timer by timer. The bytes each burst adds to the log must continue the cyclic printable sequence, come in whole bursts at times the delays allow and as often as the probability says "
        "(fixed for 0 and 100, within a bound exceeded with chance < 1e-10 otherwise); the model then predicts all clients and logs. Non-trivial: at least five bursts of a console.")
TECH = "property-based testing: generated histories on a virtual clock; the observed bursts checked against the option constraints and fed to an exact model of all readers"
NOTE = "Exploration: random option strings and histories on the real daemon under a virtual clock."
FIRST, LAST = 0x21, 0x7E
CYCLE = bytes(range(FIRST, LAST + 1))
SLK = 6000      # us


class NoEp:
    eof = closed = False
    paused = False
    rx = bytearray()

    def take(self):
        return b""


class TestDev:
    kind = "test"
    devstr = "test:"
    accepted = 0

    def __init__(self, rig, name, listen=True):
        self.ep = NoEp()
        rig.devs.append(self)

    def poll(self):
        return 0

    def hangup(self):
        pass

    def close(self):
        pass


world.KINDS["test"] = TestDev


class TWorld(World):
    def make(self):
        World.make(self)
        for i, c in enumerate(self.cons):
            if c.kind == "test":
                o = self.spec["cons"][i].get("topt") or []
                v = {"b": 1024, "m": -1, "n": -1, "p": 100}
                for k, x in o:
                    v[k.lower()] = x
                c.b, c.p = v["b"], min(v["p"], 100)
                c.hi = 100 if v["m"] < 0 else v["m"]
                c.lo = c.hi if v["m"] < 0 or v["n"] < 0 or v["n"] >= v["m"] else v["n"]
                c.pos = 0
                c.last = None           # time of the last burst
                c.bursts = 0
                c.begin = None
                c.gaps = []

    def conf_text(self):
        L = World.conf_text(self).splitlines()
        for i, c in enumerate(self.cons):
            o = self.spec["cons"][i].get("topt")
            if c.kind == "test" and o:
                j = [k for k, l in enumerate(L) if l.startswith('console name="%s"' % c.name)][0]
                L[j] += ' testopts="%s"' % ",".join("%s:%d" % (k, x) for k, x in o)
        return "\n".join(L) + "\n"

    def con_up(self, c, at=None):
        if c.kind == "test":
            c.up = True
            c.din = bytearray()
            c.begin = c.last = self.rig.now_us()
            c.fresh = True
            return
        World.con_up(self, c, at)

    def feed(self, cl, data):
        World.feed(self, cl, data)
        for c in self.cons:
            if c.kind == "test":
                c.din.clear()

    def esc(self, cl, ch, send=True):
        World.esc(self, cl, ch, send)
        for c in self.cons:
            if c.kind == "test":
                c.din.clear()

    def absorb(self, where):
        """Bursts seen in the logs since the last time."""
        for c in self.cons:
            if c.kind != "test":
                continue
            with open(c.log.path, "rb") as f:       # what precedes is compared by verify()
                f.seek(len(c.log.exp))
                new = f.read()
            now = self.rig.now_us()
            if c.p == 100 and c.b and not new and now > c.last + c.hi * 1000 + SLK:
                raise Violation("%s: console [%s]: no burst for %d ms, longest delay %d ms" % (where, c.name, (now - c.last) // 1000, c.hi))
            if not new:
                continue
            if c.b == 0 or c.p == 0:
                raise Violation("%s: console [%s] emitted %d bytes although its %s is 0" % (where, c.name, len(new), "burst size" if c.b == 0 else "probability"))
            exp = (CYCLE * (len(new) // len(CYCLE) + 2))[c.pos:c.pos + len(new)]
            if new != exp:
                self.diff("%s: sequence of console [%s]" % (where, c.name), exp, new)
            j = len(new) // c.b         # several if the delay is next to nothing
            if len(new) % c.b or (j - 1) * c.lo * 1000 > SLK:
                raise Violation("%s: console [%s] emitted %d bytes at once, bursts are of %d" % (where, c.name, len(new), c.b))
            gap = now - c.last
            if c.fresh and gap < SLK:
                k = 0               # the first burst comes right away
            else:
                k = max(1, math.ceil((gap - SLK) / (c.hi * 1000 + SLK)))
                if gap < k * c.lo * 1000:
                    raise Violation("%s: console [%s]: burst %.3f ms after the one before, delays are %d to %d ms" % (where, c.name, gap / 1000, c.lo, c.hi))
                if c.p == 100 and j == 1:
                    c.gaps.append(gap // 1000)
                    if gap > c.hi * 1000 + SLK:
                        raise Violation("%s: console [%s]: burst %.3f ms after the one before, longest delay %d ms" % (where, c.name, gap / 1000, c.hi))
            c.fresh = False
            c.pos = (c.pos + len(new)) % len(CYCLE)
            c.last = now
            c.bursts += j
            self.hit("burst_seen")
            self.emitted(c, new)

    def verify_first(self):
        self.absorb("burst")

    def verify(self, where=""):
        self.absorb(where)
        World.verify(self, where)

    def advance(self, seconds):
        self.settle("before the clock moves")
        rig = self.rig
        target = rig.now_us() + int(seconds * 1000000)
        n = 0
        while True:
            d = rig.page["deadline"]
            if d < 0:
                raise Violation("no test console has a timer")
            if d > target:
                break
            n += 1
            if n > 900:
                break
            rig.set_clock(max(d, rig.now_us()) + 1)
            rig.settle()
            end = rig.now_us() + SLK
            while rig.page["deadline"] <= rig.now_us() and rig.now_us() < end:
                rig.set_clock(rig.now_us() + 100)
                rig.settle()
            self.absorb("timer")
            if n % 8 == 0:
                self.settle("timer")
        else:
            rig.set_clock(target)
        self.settle("clock moved")

    def totals(self):
        now = self.rig.now_us()
        for c in self.cons:
            if c.kind != "test" or not c.b:
                continue
            if 0 < c.p < 100:
                k = (now - c.begin) / ((c.lo + c.hi) * 500.0)       # expected attempts
                dev = math.sqrt(k * 12) + (2 + 4 * math.sqrt(k) * (c.hi - c.lo) / (c.hi + c.lo))
                if k > 40 and abs(c.bursts - k * c.p / 100) > dev:
                    raise Violation("console [%s]: %d bursts in %d ms, about %.0f expected (delays %d to %d ms, probability %d%%)"
                                    % (c.name, c.bursts, (now - c.begin) / 1000, k * c.p / 100, c.lo, c.hi, c.p))
                if k > 60:
                    self.hit("prob_judged")
            if c.hi - c.lo >= 10 and len(c.gaps) >= 60:
                m = sum(c.gaps) / len(c.gaps)
                mid, sd = (c.lo + c.hi) / 2, (c.hi - c.lo) / math.sqrt(12 * len(c.gaps))
                if len(set(c.gaps)) < 3 or abs(m - mid) > 7 * sd + 1:
                    raise Violation("console [%s]: delays average %.1f ms over %d bursts, they should be spread over %d to %d ms" % (c.name, m, len(c.gaps), c.lo, c.hi))
                self.hit("spread_judged")


class Run(session.Run):
    def op_step(self, n):
        """The next n timers."""
        w = self.w
        for _ in range(n):
            d = w.rig.page["deadline"] - w.rig.now_us()
            w.advance(max(0, d) / 1e6 + 0.0002)

    def op_long(self, n):
        w = self.w
        t = [c for c in w.cons if c.kind == "test"]
        if max(c.b for c in t) > 3000:
            n = min(n, 20)
        w.advance(n * (t[0].lo + t[0].hi) / 2000.0)

    def end(self):
        session.Run.end(self)
        self.w.totals()

    def op_emit(self, ci, p, cuts):
        v = [c for c in self.w.cons if c.kind != "test"]
        if v:
            session.Run.op_emit(self, self.w.cons.index(v[ci % len(v)]), p, cuts)

    def op_flood(self, ci, n, seed):
        pass


def strategy(tier, **kw):
    p = {"ops": {"conn": 4, "step": 8, "long": 2, "type": 3, "esc": 3, "bye": 2, "emit": 2, "bconn": 1, "raw": 1}, "maxlen": 600, "escs": list("LQFJMBD"), "maxops": 20, "minops": 8, "faults": False}
    if tier == "thorough":
        p.update(maxops=45)
    p.update(kw)
    extra = {"step": st.tuples(st.just("step"), ints(1, 6)).map(list), "long": st.tuples(st.just("long"), st.sampled_from([5, 5, 20, 20, 80, 250])).map(list)}
    opt = st.one_of(st.tuples(st.sampled_from("bB"), st.one_of(st.sampled_from([0, 1, 93, 94, 95, 8190, 8191, 8192, 16382]), ints(1, 400))),
                    st.tuples(st.sampled_from("mM"), st.sampled_from([20, 50, 77, 100, 500, 1000, 60000])),
                    st.tuples(st.sampled_from("nN"), st.sampled_from([0, 19, 20, 50, 99, 100, 450, 30000, 60000])),
                    st.tuples(st.sampled_from("pP"), st.sampled_from([0, 1, 10, 50, 90, 99, 100, 100, 101, 5000]))).map(list)
    full = st.tuples(st.sampled_from([1, 95, 8191, 8192, 9000, 16382, 20000, 30000]), st.sampled_from([20, 100, 700]), st.sampled_from([0, 20, 99]), st.sampled_from([10, 50, 90, 100])).map(
        lambda t: [["b", t[0]], ["m", t[1]], ["n", t[2]], ["p", t[3]]])
    tcon = st.fixed_dictionaries({"kind": st.just("test"), "log": st.just(""), "topt": weighted([(2, st.lists(opt, max_size=5)), (1, full)])})
    ocon = session.con_spec(["unix", "telnet"], [None, "", "sanitize"])
    cons = st.tuples(st.lists(tcon, min_size=1, max_size=3), st.lists(ocon, max_size=1)).map(lambda t: t[0] + t[1])
    return st.tuples(session.strategy(p, extra), cons).map(lambda t: dict(t[0], cons=t[1]))


def run(case):
    s = session.execute(case, runner=Run, world=TWorld)
    return s.get("burst_seen", 0) >= 5, list(s)
