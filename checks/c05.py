from vlib import session
from .c01 import ASSUMPTIONS

ID = "C05"
N = {"quick": 380, "thorough": 14000}
RULE = ("Programs on 1-4 consoles with unprocessed logs: device output of arbitrary bytes up to several ring sizes, clients attaching, detaching, typing, "
        "suspending, stalling, replaying, broadcasting, going quiet, daemon restarts with and without the truncate option (also the moment after output was read), SIGHUP; each log file is "
        "compared byte for byte with the model after every step. Non-trivial: at least one console with a log emitted and at least two client or daemon events happened.")
P = {"short_log": True, "ops": {"conn": 3, "emit": 9, "flood": 2, "type": 1, "esc": 3, "bye": 1, "burst": 2, "pause": 1, "unpause": 1, "restart": 2, "lastout": 1, "hup": 1, "bconn": 1, "suspend": 1, "tick": 1}, "maxlen": 12000,
     "escs": list("FJMQZLBD"), "logs": [None, "", "", "", "", "nosanitize", "notimestamp,lock", "nolock"], "mincons": 1, "maxcons": 4, "zero": True, "maxops": 20}
TECH = "property-based testing: stateful generated sessions against an exact model of each log file"
NOTE = "Exploration: random programs on the real daemon; the log files are predicted byte for byte under a virtual clock."


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=45, maxcons=5)
    return session.strategy(p)


def run(case):
    s = session.execute(case)
    lg = any(c.get("log") is not None for c in case["cons"])
    return lg and s.get("emit", 0) + s.get("flood", 0) > 0 and sum(s.get(k, 0) for k in ("conn_connect", "conn_monitor", "restart", "restart_zero", "hup", "bye")) >= 2, list(s)
