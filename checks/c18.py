import os, signal, time
from hypothesis import strategies as st
from vlib import session
from vlib.rig import Violation
from vlib.session import ints, K, C
from vlib.world import FAULTS, World
from .c01 import ASSUMPTIONS

ID = "C18"
N = {"quick": 420, "thorough": 12000}
RULE = ("Programs of sessions (interactive, joined, forced, broadcast, monitoring, quiet, suspended) whose clients request resets and breaks while reset commands finish at once, hang, hang with "
        "background children, or are absent, and the clock moves around the 60-second limit. The journal of executed commands (console name, process group), the survivors after the limit, "
        "notices to clients and logs, and the breaks seen by every device are compared with the model. Non-trivial: a reset or break of a client with write access.")
P = {"ops": {"conn": 3, "bconn": 2, "jconn": 2, "rset": 9, "esc": 6, "finish": 2, "again": 1, "limit": 2, "adv": 1, "emit": 1, "type": 1, "bye": 1, "drop": 1},
     "escs": list("BBBBMJFQZ"), "reset": ["hang", "quick", "mixed", "mixed", "none"], "logs": [None, "", ""], "maxcons": 3, "maxlen": 200, "hosts": True, "faults": False}
TECH = "property-based testing: stateful generated sessions with reset commands of generated behaviour against a reference model"
NOTE = "Exploration: random sessions on the real daemon running real reset commands in a scratch directory; the virtual clock drives the time limit."

# Appends "<name> <pid> <pgid>" to the journal, then behaves as the file MODE-<name> says.
SCRIPT = r'''
n="$1"; d="$2"
set -- $(cat /proc/self/stat | sed 's/.*) //')
m=quick; [ -f "$d/MODE-$n" ] && m=$(cat "$d/MODE-$n")
echo "$n $$ $PPID $3" >> "$d/journal"
case $m in
quick) exit 0 ;;
hang) while [ ! -f "$d/GO-$n" ]; do sleep 0.02; done ;;
tree) sleep 1000 & sleep 1000 & while [ ! -f "$d/GO-$n" ]; do sleep 0.02; done ;;
trap) trap '' TERM INT HUP; while [ ! -f "$d/GO-$n" ]; do sleep 0.02; done ;;
esac
'''


class RWorld(World):
    def conf_text(self):
        mode = self.spec["reset"]
        self.reset_cmd = None if mode == "none" else "exec /bin/sh %s/reset.sh '%%N' %s" % (self.rig.dir, self.rig.dir)
        with open(os.path.join(self.rig.dir, "reset.sh"), "w") as f:
            f.write(SCRIPT)
        return World.conf_text(self)

    def __exit__(self, *a):
        for r in getattr(self, "resets", {}).values():
            try:
                os.killpg(r["pid"], signal.SIGKILL)
            except OSError:
                pass
        World.__exit__(self, *a)


def group_alive(pgid):
    """Processes of the group that are not zombies."""
    n = 0
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open("/proc/%s/stat" % p) as f:
                    s = f.read()
            except OSError:
                continue
            f = s[s.rindex(")") + 2:].split()
            if int(f[2]) == pgid and f[0] != "Z":
                n += 1
    return n


class Run(session.Run):
    def __init__(self, w, case):
        session.Run.__init__(self, w, case)
        w.resets = {}       # console name -> {"pid", "at", "mode"} of the running command
        self.seen = 0

    def journal(self):
        try:
            with open(os.path.join(self.w.rig.dir, "journal")) as f:
                return [l.split() for l in f.read().splitlines() if l.count(" ") == 3]
        except OSError:
            return []

    def wait(self, cond, tmo=8.0):
        end = time.monotonic() + tmo
        while not cond() and time.monotonic() < end:
            time.sleep(0.003)
        return cond()

    def path(self, *a):
        return os.path.join(self.w.rig.dir, *a)

    def op_rset(self, k, mode):
        """A reset request of one client."""
        w, cl = self.w, self.live(k, lambda c: c.pend is None)
        if cl is None:
            return
        targets = list(cl.dst) if w.reset_cmd else []
        for c in w.cons:
            if c.name not in w.resets:
                with open(self.path("MODE-" + c.name), "w") as f:
                    f.write(mode)
                if os.path.exists(self.path("GO-" + c.name)):
                    os.unlink(self.path("GO-" + c.name))
        fresh = [c for c in targets if c.name not in w.resets]
        cl.last_read = w.rig.now()
        t = w.rig.now_us()
        cl.ep.send(b"\xffR")
        w.rig.settle()
        if not self.wait(lambda: len(self.journal()) >= self.seen + len(fresh)):
            raise Violation("reset of %s: %d commands run, %d expected" % ([c.name for c in targets], len(self.journal()) - self.seen, len(fresh)))
        j = self.journal()
        new = j[self.seen:]
        self.seen = len(j)
        if sorted(x[0] for x in new) != sorted(c.name for c in fresh):
            raise Violation("reset of %s ran the command for %s" % ([c.name for c in targets], [x[0] for x in new]))
        # notices come in the order in which the client was linked to the consoles
        for c in targets:
            if c in fresh:
                x = [x for x in new if x[0] == c.name][0]
                if x[3] != x[1]:
                    raise Violation("reset command of [%s] (pid %s) is not the leader of its process group (%s)" % (c.name, x[1], x[3]))
                w.resets[c.name] = {"pid": int(x[1]), "at": t, "mode": mode}
                w.notify(c, b"Console [" + c.label() + b"] reset by <" + cl.user + b"@" + cl.host + b"> (pid " + x[1].encode() + b")")
                w.hit("reset_" + mode)
            else:
                w.notify(c, "Ignoring reset of console [%s]: pid %d still active" % (c.name, w.resets[c.name]["pid"]))
                w.hit("reset_ignored")
        w.settle("reset")
        if not targets:
            w.hit("reset_nothing")
        if len(targets) > 1:
            w.hit("reset_many")
        for c in fresh:
            if mode == "quick":
                self.ended(c)

    def ended(self, con):
        """The command has finished: waits until the daemon has reaped it."""
        r = self.w.resets.pop(con.name)
        if not self.wait(lambda: not os.path.exists("/proc/%d" % r["pid"])):
            raise Violation("finished reset command of [%s] (pid %d) is not reaped" % (con.name, r["pid"]))
        try:
            os.killpg(r["pid"], signal.SIGKILL)     # left-over children
        except OSError:
            pass

    def running(self):
        return [c for c in self.w.cons if c.name in self.w.resets]

    def op_finish(self, k):
        v = self.running()
        if not v:
            return
        con = v[k % len(v)]
        open(self.path("GO-" + con.name), "w").close()
        self.ended(con)
        self.w.hit("finished")
        self.w.settle("reset command finished")

    def op_again(self, k, m1, d1, m2, d2):
        """A reset that has finished in time, and a second one; the clock moves to the limit of the first."""
        w, cl = self.w, self.live(k, lambda c: c.pend is None and c.dst)
        if cl is None or not w.reset_cmd or self.running():
            return
        at = w.rig.now_us()
        self.op_rset([c for c in w.clients if c.live and c.pend is None].index(cl), m1)
        for c in list(self.running()):
            if m1 != "quick":
                self.op_finish(0)
        self.go_to(w.rig.now_us() + d1 * 1000000)
        if not cl.live or not cl.dst:
            return
        self.op_rset([c for c in w.clients if c.live and c.pend is None].index(cl), m2)
        self.go_to(at + 60000000 + d2 * 1000000)
        w.hit("again")

    def op_limit(self, k, d):
        """The clock moves to just before or after the limit of a running command."""
        w = self.w
        v = self.running()
        if not v:
            return
        con = v[k % len(v)]
        self.go_to(w.resets[con.name]["at"] + 60000000 + d * 100000)

    def op_adv(self, s):
        self.go_to(self.w.rig.now_us() + s * 1000000)

    def op_tick(self, s):
        self.op_adv(s)

    def go_to(self, target):
        w = self.w
        lim = [(r["at"] + 60000000, n) for n, r in w.resets.items()]
        over = [n for t, n in lim if t <= target + 20000]
        if target <= w.rig.now_us():
            return
        note = {n: b"Console [%s] reset terminated after 60s (pid %d)" % (n.encode(), w.resets[n]["pid"]) for n in over}
        if any(abs(t - target) < 20000 for t, _ in lim):
            target += 40000
        w.advance((target - w.rig.now_us()) / 1e6)
        for n in over:
            r = w.resets[n]
            if not self.wait(lambda: group_alive(r["pid"]) == 0):
                raise Violation("reset command of [%s] (process group %d) still has %d processes after the limit" % (n, r["pid"], group_alive(r["pid"])))
            if not self.wait(lambda: not os.path.exists("/proc/%d" % r["pid"])):
                raise Violation("killed reset command of [%s] (pid %d) is not reaped" % (n, r["pid"]))
            if w.rig.stderr().count(note[n]) != 1:
                raise Violation("termination of the reset of [%s] is not logged once" % n)
            del w.resets[n]
            w.hit("killed_" + r["mode"])
        for n, r in w.resets.items():
            if group_alive(r["pid"]) == 0:
                raise Violation("reset command of [%s] (pid %d) was killed %.1f s before its limit" % (n, r["pid"], (r["at"] + 60000000 - w.rig.now_us()) / 1e6))
        w.settle("clock")

    def end(self):
        session.Run.end(self)
        j = self.journal()
        if len(j) != self.seen:
            raise Violation("reset commands run without a request: %r" % j[self.seen:])


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=45, maxcons=4)
    extra = {"rset": st.tuples(st.just("rset"), K, st.sampled_from(["quick", "hang", "tree", "trap", "quick"])).map(list),
             "again": st.tuples(st.just("again"), K, st.sampled_from(["quick", "hang"]), st.sampled_from([1, 10, 30, 59]), st.sampled_from(["hang", "tree", "trap"]), st.sampled_from([0.3, 1, 20])).map(list),
             "finish": st.tuples(st.just("finish"), K).map(list),
             "limit": st.tuples(st.just("limit"), K, st.sampled_from([-200, -5, -1, 1, 3, 100])).map(list)}
    return session.strategy(p, extra)


def run(case):
    s = session.execute(case, runner=Run, world=RWorld)
    return any(s.get(k) for k in ("reset_quick", "reset_hang", "reset_tree", "reset_trap", "reset_ignored", "esc_B")), list(s)
