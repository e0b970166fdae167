from vlib import session
from .c01 import ASSUMPTIONS

ID = "C04"
N = {"quick": 640, "thorough": 12000}
RULE = ("Programs in which clients stop and resume reading, suspend and resume their output, and devices stop accepting input, while devices emit 1-70 kB "
        "(several times the ring size) and other clients work, join, steal and leave (also while suspended or stalled). The others are compared exactly; "
        "a resuming reader must get its output minus at most one contiguous gap with at least the last 16000 bytes kept. Non-trivial: "
        "a reader was suspended or stalled during output and then resumed, or overflowed, or left while suspended.")
P = {"ops": {"conn": 4, "emit": 3, "type": 2, "esc": 3, "suspend": 4, "bye": 1, "pause": 2, "unpause": 2, "dpause": 1, "dunpause": 1, "dstall": 2, "flood": 4, "bconn": 1, "jconn": 2, "gasp": 1, "hstall": 2}, "maxlen": 9000,
     "escs": list("ZZZQMJFL"), "kinds": ["unix", "unix", "telnet", "ipmi", "process", "serial"], "faults": False, "opts": ["FORCE", "JOIN", "JOIN", "QUIET", "BROADCAST"], "maxcons": 2,
     "floodmax": 12, "small": True}
TECH = "property-based testing: stateful generated sessions with stalled/suspended peers, model plus one-gap predicate"
NOTE = ("Exploration: which bytes a stalled reader loses depends on socket buffering, so its output is judged by a predicate (one contiguous gap, "
        "16000 most recent bytes kept); every other peer is compared exactly.")


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=40, maxcons=4)
    return session.strategy(p)


def run(case):
    s = session.execute(case)
    return bool((s.get("esc_Z") or s.get("suspended") or s.get("pause")) and (s.get("resumed") or s.get("overflow") or s.get("flood") or s.get("bye"))), list(s)
