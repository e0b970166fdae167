from hypothesis import strategies as st
from vlib import session
from vlib.session import ints, C, weighted
from vlib.world import DELAY
from .c01 import ASSUMPTIONS

ID = "C12"
N = {"quick": 400, "thorough": 12000}
RULE = ("Histories of losses (close, reset, exit of the program), unavailable devices and their return, clock movements (to just before and after each retry and reset point, seconds to hours), "
        "clients attaching to consoles that are up or down, names of hosts that cannot be resolved for a while, connection attempts that stay incomplete, serial lines locked by another process at the start, and unix sockets that appear (several at once), appear unready or are replaced by plain files. A model of each console's delay predicts the time of "
        "every connection attempt; attempts (connect() calls, program starts), notices to clients and logs, and data after each re-establishment are compared. "
        "Non-trivial: at least one loss or failed attempt followed by a retry.")
P = {"ops": {"conn": 4, "bconn": 1, "drop": 6, "down": 3, "up": 4, "adv": 4, "next": 6, "rst": 3, "emit": 2, "type": 1, "esc": 1, "bye": 1, "appear": 3, "flap": 2, "hup": 1, "dns": 3, "together": 2, "unlock": 3, "replace": 1, "hang": 3}, "vhost": ["", "", "y", "y", "y", "lost"],
     "kinds": ["telnet", "unix", "process"] * 2 + ["serial"], "escs": list("QLMJ"), "cmds": ["CONNECT", "MONITOR"], "maxcons": 3, "maxlen": 300, "faults": False}
TECH = "property-based testing: generated outage histories on a virtual clock against a reference timeline of connection attempts"
NOTE = "Exploration: random outage histories on the real daemon with a virtual clock; the time of every attempt is predicted."


class Run(session.Run):
    def op_next(self, ci, d):
        """To (about) the next retry of a console that is down."""
        w = self.w
        v = [c for c in w.cons if c.next_try is not None]
        if not v:
            return
        c = v[ci % len(v)]
        s = (c.next_try - w.rig.now_us()) / 1e6 + d / 10
        if s > 0 and (s < 500 or not any(x.kind == "unix" and not x.up for x in w.cons)):
            w.advance(s)
            w.hit("to_retry")

    def op_rst(self, ci, d):
        """To (about) the point at which a connection has been up long enough."""
        w = self.w
        v = [c for c in w.cons if c.reset_at is not None]
        if not v:
            return
        c = v[ci % len(v)]
        s = (c.reset_at - w.rig.now_us()) / 1e6 + d / 10
        if s > 0:
            w.advance(s)
            w.hit("to_reset")

    def op_flap(self, ci, n):
        """Lost again as soon as it is established, n times."""
        w = self.w
        con = self.lossy(ci, lambda c: c.up and c.avail)
        if con is None or any(c.kind == "unix" and not c.up for c in w.cons):
            return
        for _ in range(n):
            w.drop(con)
            if con.pending:
                return
            if not con.up:
                s = (con.next_try - w.rig.now_us()) / 1e6
                if s > 400 and any(c.kind == "unix" and not c.up for c in w.cons):
                    return
                w.advance(s + 0.1)
            w.hit("flap_" + con.kind)
            if not con.up:      # its name cannot be resolved
                return

    def op_dns(self, ci):
        """The name of a host can no longer be resolved, or can again."""
        v = [c for c in self.w.cons if c.kind == "telnet" and c.dev.host.startswith("vhost")]
        if v:
            c = v[ci % len(v)]
            self.w.lose_name(c, not c.nodns)
            self.w.hit("dns")

    def op_appear(self, ci, how, lag):
        """Something appears in place of a missing unix socket: a plain file, or a socket nobody listens on yet."""
        import os, socket
        w = self.w
        v = [c for c in w.cons if c.kind == "unix" and not c.avail and not c.up and not os.path.lexists(c.dev.path)]
        if not v:
            return
        con = v[ci % len(v)]
        if how == 0:
            open(con.dev.path, "w").close()
        else:
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            s.bind(con.dev.path)
            con.bound = True
            con.delay = 1
        con.next_try = None
        w.rig.settle()
        w.attempt(con)
        w.settle("something appears at [%s]" % con.name)
        w.verify_tries("something appears at [%s]" % con.name)
        w.advance(lag)
        os.unlink(con.dev.path)
        con.bound = False
        if how:
            s.close()
        w.hit("appear")

    def op_together(self, n):
        """Sockets appear while the daemon has no chance to look."""
        import os, signal
        w = self.w
        v = [c for c in w.cons if c.kind == "unix" and not c.avail and not c.up and not c.dpaused]
        for c in w.cons:        # ... after going away, if fewer are away
            if len(v) < n and c.kind == "unix" and c.avail and not c.dpaused:
                c.avail = False
                c.dev.down()
                if c.up:
                    w.drop(c)
                w.settle("device of [%s] gone" % c.name)
                v.append(c)
        if not v:
            return
        os.kill(w.rig.proc.pid, signal.SIGSTOP)
        for c in v:
            c.avail = True
            c.dev.up()
        os.kill(w.rig.proc.pid, signal.SIGCONT)
        w.rig.settle()
        for c in v:
            if not c.up:
                w.attempt(c)
        w.settle("devices of %s back together" % [c.name for c in v])
        w.verify_tries("devices back together")
        w.hit("together_%d" % min(len(v), 3))

    def op_replace(self, ci):
        """The socket of a connected console is replaced by another one."""
        w = self.w
        v = [c for c in w.cons if c.kind == "unix" and c.up and c.avail and not c.dpaused]
        if not v:
            return
        c = v[ci % len(v)]
        old, ls = c.dev.ep, c.dev.ls

        def act():
            c.dev.ls = None
            c.dev.up()
            ls.close()
        w.drop(c, act)
        old.close()
        w.settle("socket of [%s] replaced" % c.name)
        w.verify_tries("socket of [%s] replaced" % c.name)
        w.hit("replace")

    def op_unlock(self, ci):
        """The other process leaves the serial line; nobody tells the daemon."""
        v = [c for c in self.w.cons if c.kind == "serial" and not c.avail]
        if v:
            self.w.lock_line(v[ci % len(v)], False)
            self.w.settle("line free")
            self.w.hit("unlock")

    def op_hang(self, ci):
        """Peers stop answering connection requests, or answer again."""
        w = self.w
        w.hang_connects(not w.hang)
        w.hit("hang")
        v = [c for c in w.cons if c.kind == "telnet" and not c.dpaused and not c.nodns and (c.up or c.next_try)]
        if w.hang and v:
            c = v[ci % len(v)]
            if c.up:
                w.drop(c)
            s = (c.next_try - w.rig.now_us()) / 1e6 + .1 if c.next_try else 0
            if 0 < s and (s < 400 or not any(x.kind == "unix" and not x.up for x in w.cons)):
                w.advance(s)


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=50, maxcons=4)
    D = st.sampled_from([-5, -1, 1, 5])
    extra = {"replace": st.tuples(st.just("replace"), C).map(list), "hang": st.tuples(st.just("hang"), C).map(list), "unlock": st.tuples(st.just("unlock"), C).map(list), "together": st.tuples(st.just("together"), ints(1, 4)).map(list), "dns": st.tuples(st.just("dns"), C).map(list), "next": st.tuples(st.just("next"), C, D).map(list), "rst": st.tuples(st.just("rst"), C, D).map(list),
             "flap": st.tuples(st.just("flap"), C, ints(1, 9)).map(list),
             "appear": st.tuples(st.just("appear"), C, ints(0, 1), st.sampled_from([0.3, 1.5, 4, 9])).map(list)}
    return session.strategy(p, extra)


def run(case):
    s = session.execute(case, runner=Run)
    return any(s.get(k) for k in ("to_retry", "flap_unix", "flap_telnet", "flap_process", "up_unix", "attach_down")), list(s)
