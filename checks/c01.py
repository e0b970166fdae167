from vlib import session

ID = "C01"
N = {"quick": 480, "thorough": 16000}
RULE = ("Programs of 4-25 operations (connect/monitor/query, device output of arbitrary bytes and fragmentation, typing, escape commands, "
        "disconnects, a half-close racing with output, simultaneous bursts, floods beyond the ring size, SIGHUP) on 1-3 consoles of all device types, with short reads/writes, "
        "EINTR and EAGAIN injected; every byte each client, device and log receives is compared with an exact reference model after each step. "
        "Non-trivial: device output was delivered to at least one attached client and at least two clients connected.")
P = {"short_log": True, "ops": {"conn": 4, "emit": 9, "type": 2, "raw": 1, "esc": 3, "bye": 1, "burst": 3, "query": 1, "bconn": 1, "jconn": 1, "hup": 1, "flood": 1, "gasp": 2, "hstall": 1}, "maxlen": 12000, "small": True,
     "escs": list("FJMQL"), "opts": ["FORCE", "JOIN", "JOIN", "QUIET", "BROADCAST"]}
TECH = "property-based testing: stateful generated sessions against an exact reference model, with injected kernel faults"
NOTE = ("Exploration: random session programs on the real daemon under a virtual clock; every byte each peer receives is predicted. "
        "Trusts the reference model, the shim (clock, fault injection) and the stand-in for libipmiconsole.")
ASSUMPTIONS = ["virtual clock and kernel-level fault injection by a link-time shim", "loopback TCP, unix sockets, ptys and a stand-in for libipmiconsole act as devices"]


def strategy(tier):
    p = dict(P)
    if tier == "thorough":
        p.update(maxops=45, maxcons=5)
    return session.strategy(p)


def run(case):
    s = session.execute(case)
    return s.get("emit_read", 0) > 0 and s.get("conn_connect", 0) + s.get("conn_monitor", 0) >= 2, list(s)
