from vlib import session
from .c01 import ASSUMPTIONS

ID = "C03"
N = {"quick": 640, "thorough": 16000}
RULE = ("Programs dominated by connect requests (plain, join, force, broadcast, monitor, quiet) and mode switches F/J/M on few consoles, with disconnects, "
        "stalled victims with pending output, queries and typing/output in between; replies (including the busy list with holders and idle times), "
        "all messages, who still receives output and whose input arrives are predicted by the model. Non-trivial: a request was refused as busy, a "
        "writer was displaced, or a mode switch happened, and typed input or output was checked afterwards.")
P = {"ops": {"conn": 7, "bconn": 2, "jconn": 2, "emit": 2, "type": 4, "esc": 6, "bye": 2, "burst": 1, "query": 1, "tick": 1, "pause": 1, "unpause": 1}, "maxlen": 6000, "maxcons": 3,
     "escs": list("FFJJMMMQL"), "cmds": ["CONNECT", "CONNECT", "CONNECT", "MONITOR"], "opts": ["FORCE", "FORCE", "JOIN", "QUIET", "BROADCAST", "BROADCAST", "REGEX"], "hosts": True, "small": True, "bmul": 2, "maxops": 26}
TECH = "property-based testing: stateful generated sessions against an exact reference model of write access"
NOTE = "Exploration: random programs of competing sessions on the real daemon, compared with a reference model of who holds which console."


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=50, maxcons=5)
    return session.strategy(p)


def run(case):
    s = session.execute(case)
    return bool((s.get("refused") or s.get("stolen") or s.get("esc_M") or s.get("esc_takeover")) and
                (s.get("type_rw") or s.get("type_bcast") or s.get("emit_read") or s.get("type_ro"))), list(s)
