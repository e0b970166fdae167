from vlib import session
from .c01 import ASSUMPTIONS

ID = "C19"
N = {"quick": 560, "thorough": 16000}
RULE = ("Programs dominated by events that must be announced (connects, joins, steals, broadcasts, mode switches, departures of all kinds, time passing) among "
        "2-7 clients with unusual user and terminal names, in and out of quiet mode, on logged and unlogged consoles; every message at every client and log is predicted "
        "exactly (text, order, recipients, time). Non-trivial: at least three clients connected and a message was due to another client.")
P = {"ops": {"conn": 7, "bconn": 2, "jconn": 2, "emit": 2, "type": 1, "esc": 8, "bye": 4, "tick": 2, "restart": 1, "burst": 1}, "hosts": True, "maxlen": 800, "maxcons": 3, "bmul": 2, "maxops": 26,
     "escs": list("FJMMQQQLZ"), "opts": ["FORCE", "JOIN", "JOIN", "QUIET", "QUIET", "BROADCAST", "BROADCAST"], "logs": [None, "", "", "sanitize", "timestamp"]}
TECH = "property-based testing: stateful generated sessions against an exact model of every informational message"
NOTE = "Exploration: random programs of session events on the real daemon; messages to every client and log are predicted byte for byte."


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=50, maxcons=5)
    return session.strategy(p)


def run(case):
    s = session.execute(case)
    n = s.get("conn_connect", 0) + s.get("conn_monitor", 0)
    return n >= 3 and (s.get("bye", 0) + s.get("esc_M", 0) + s.get("esc_takeover", 0) + s.get("conn_connect", 0) >= 2), list(s)
