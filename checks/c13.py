from hypothesis import strategies as st
from vlib import confgen as g
from vlib import confrun
from vlib.rig import Violation
from .c01 import ASSUMPTIONS

ID = "C13"
N = {"quick": 2500, "thorough": 40000}
RULE = ("Configuration files of 1-14 lines: console, global and server directives over a pool of real devices (unix sockets, telnet servers, terminals, programs, BMCs, test consoles) with valid and invalid values, permuted, repeated and oddly spelled keywords, continuations, comments and junk; "
        "a third of the lines are mutated (characters or tokens deleted, inserted, replaced, duplicated; control and eight-bit bytes; cut lines). A reference interpreter written from conman.conf(5) predicts the exact messages with file and line, the settings shown at start, the consoles served, every device connection and its options, "
        "the log files created, locked and written, limits, listening address, reset and keep-alive settings, pid file, and refusal to start. Non-trivial: the file had both a rejected and an accepted directive, or none accepted.")
TECH = "property-based testing: generated and mutated configuration files, the running daemon compared with a reference interpreter"
NOTE = "Exploration: random texts; the daemon runs as an unprivileged user where possible."


def line(r):
    s = g.pick(r, (8, lambda: g.con(r, bad=.07)), (2, lambda: g.glob(r, .15)), (3, lambda: g.server(r, .15)), (2, lambda: g.junk(r)))
    return g.mutate(r, s) if r.random() < .25 else s


def strategy(tier):
    return st.fixed_dictionaries({"text": g.lines(line, 1, 14 if tier == "quick" else 30), "tail": st.sampled_from([b"\n", b"\n", b"", b"\r\n", b" \\"])})


class Run(confrun.ConfRun):
    def nontrivial(self):
        return bool(self.m.rejected and (self.m.taken or not self.m.cons))

    def classes(self):
        return list(self.stats)


def run(case):
    return confrun.run(Run, case)
