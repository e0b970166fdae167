import os, re, time
from hypothesis import strategies as st
from vlib.rig import Client, Violation, Inconclusive
from vlib.world import World, expand, FAULTS
from vlib.session import ints, weighted
from .c01 import ASSUMPTIONS

ID = "C32"
N = {"quick": 260, "thorough": 12000}
RULE = ("Batches of up to 9 simultaneous operations (plain, forced, joined, broadcast and monitoring requests, mode switches, disconnects, console output, input) on 1-2 logged consoles while the scheduling of "
        "the daemon's threads is disturbed (random delays at lock operations and before blocking). The order of admissions is read off the console log; every reply, holder list, session, "
        "closed connection, transcript and the set of writers (probed by typing) must agree with that order. Non-trivial: a batch with at least two simultaneous requests for one console.")
TECH = "property-based testing: generated simultaneous requests under perturbed schedules, checked for equivalence to a sequential order"
NOTE = "Exploration: generated batches and schedules on the real daemon; thread schedules are perturbed randomly, not enumerated."

REQ = st.tuples(st.just("conn"), st.sampled_from([[], [], [], [], ["FORCE"], ["JOIN"], ["FORCE", "JOIN"]]), st.sampled_from([[0], [0], [0], [1], [0, 1]]), st.booleans()).map(list)
MON = st.tuples(st.just("mon"), ints(0, 1)).map(list)
OP = weighted([(6, REQ), (1, MON), (2, st.tuples(st.just("esc"), ints(0, 9), st.sampled_from("FJ")).map(list)), (2, st.tuples(st.just("bye"), ints(0, 9), st.sampled_from(["close", "rst"])).map(list)),
               (2, st.tuples(st.just("emit"), ints(0, 1), ints(1, 300)).map(list))])
MSG = re.compile(rb"\r\n<ConMan> Console \[(\w+)\] ([^\r\n]*)\.\r\n")
EV = re.compile(rb"(joined|stolen|departed)( for B/C)? by <(\w+)@localhost> on t at \d\d-\d\d \d\d:\d\d$")
OWN = re.compile(rb"\r\n<ConMan> Console \[(\w+)\] (joined with|stolen from) <(\w+)@localhost> on t at \d\d-\d\d \d\d:\d\d\.\r\n")


def strategy(tier):
    return st.fixed_dictionaries({
        "cons": st.lists(st.fixed_dictionaries({"kind": st.sampled_from(["unix", "unix", "telnet", "serial", "process"]), "log": st.just("")}), min_size=1, max_size=2),
        "page": st.fixed_dictionaries({"lock_delay": st.sampled_from([0, 200, 2000, 8000]), "mlock_delay": st.sampled_from([0, 0, 200, 1000]), "poll_delay": st.sampled_from([0, 0, 300]),
                                       "p_eintr": st.sampled_from([0, 0, 50]), "rnd": ints(0, 1 << 30)}),
        "batches": st.lists(st.lists(OP, min_size=2, max_size=9), min_size=1, max_size=4 if tier == "quick" else 10)})


class C:
    def __init__(self, w, n, kind, cons, opts, send):
        self.user = b"u%d" % n
        self.kind, self.cons, self.opts = kind, cons, opts
        self.ep = Client(w.rig)
        self.buf = bytearray()
        self.state = "new"          # new, open, refused, gone
        self.reply = None
        self.eof = False
        self.left = False           # we disconnected
        d = b"HELLO USER='" + self.user + b"' TTY='t'\n" + (b"MONITOR" if kind == "mon" else b"CONNECT") + b"".join(b" OPTION=" + o.encode() for o in opts)
        d += (b" OPTION=BROADCAST" if len(cons) > 1 else b"") + b"".join(b" CONSOLE='" + c.name.encode() + b"'" for c in cons) + b"\n"
        if send:
            self.ep.send(d)
        else:
            self.later = d
        self.bcast = len(cons) > 1


def run(case):
    stats = set()
    with World(case) as w:
        page = dict(case["page"])
        w.start()
        clients = []
        start_len = {c.name: len(c.log.exp) for c in w.cons}
        emitted = {c.name: bytearray() for c in w.cons}
        writers_at = {}
        seq = [0]
        for b, batch in enumerate(case["batches"]):
            used, fresh = set(), []
            before = {c.name: os.path.getsize(c.log.path) for c in w.cons}
            go = []
            for op in batch:
                if op[0] in ("conn", "mon"):
                    if len(clients) >= 24:
                        continue
                    if op[0] == "conn":
                        cons = sorted({id(w.cons[i % len(w.cons)]): w.cons[i % len(w.cons)] for i in op[2]}.values(), key=lambda c: c.name)
                        cl = C(w, len(clients), "conn", cons, op[1], False)
                    else:
                        cl = C(w, len(clients), "mon", [w.cons[op[1] % len(w.cons)]], [], False)
                    clients.append(cl)
                    fresh.append(cl)
                    go.append(lambda cl=cl: cl.ep.send(cl.later))
                elif op[0] == "emit":
                    c = w.cons[op[1] % len(w.cons)]
                    d = b"".join(b"%x;" % (seq[0] + i) for i in range(op[2] // 4 + 1))
                    seq[0] += op[2] // 4 + 1
                    emitted[c.name] += d
                    go.append(lambda c=c, d=d: c.dev.ep.send(d))
                else:
                    v = [x for x in clients if x.state == "open" and x not in fresh and id(x) not in used]
                    if not v:
                        continue
                    cl = v[op[1] % len(v)]
                    if op[0] == "esc":
                        if cl.bcast:
                            continue
                        used.add(id(cl))
                        isw = cl.user in writers_at.get(cl.cons[0].name, [])
                        ch = b"M" if isw else op[2].encode()
                        stats.add("esc")
                        go.append(lambda cl=cl, ch=ch: cl.ep.send(b"\xff" + ch))
                    else:
                        used.add(id(cl))
                        cl.left = True
                        stats.add("bye")
                        go.append(lambda cl=cl, how=op[2]: cl.ep.close(rst=how == "rst"))
            # all at once
            w.rig.settle() if False else None
            for k, v in page.items():
                w.rig.page[k] = v
            for g in go:
                g()
            rq = [sum(1 for x in fresh if x.kind == "conn" and c in x.cons) for c in w.cons]
            if rq and max(rq) >= 2:
                stats.add("nt")
            deadline = time.monotonic() + 15
            quiet = 0
            while time.monotonic() < deadline and quiet < 2:
                w.rig.settle()
                for cl in clients:
                    cl.buf += cl.ep.take()
                quiet = quiet + 1 if all(complete(cl) for cl in fresh) else 0
                if not quiet:
                    time.sleep(0.002)
            for k in page:
                w.rig.page[k] = 0
            w.rig.settle()
            for cl in clients:
                cl.buf += cl.ep.take()
            judge(w, clients, fresh, before, emitted, start_len, writers_at, stats)
            probe(w, clients, writers_at)
        for cl in clients:
            if cl.state == "open" and not cl.left:
                cl.ep.close()
        w.rig.settle()
        # nothing holds the consoles any more
        ep = Client(w.rig)
        ep.send(b"HELLO USER='z' TTY='t'\nCONNECT CONSOLE='" + w.cons[0].name.encode() + b"'\n")
        end = time.monotonic() + 10
        while ep.rx.count(b"\n") < 2 and not ep.eof and time.monotonic() < end:
            w.rig.settle()
        if not ep.take().startswith(b"OK\nOK"):
            raise Violation("console is still held after every client disconnected")
        rc = w.rig.stop()
        if rc != 0:
            raise Violation("daemon exited with status %s: %s" % (rc, w.rig.crash_text()))
    return "nt" in stats, stats


def complete(cl):
    """The reply to the request has arrived (greeting answer and reply line; busy replies end with the connection)."""
    if cl.left:
        return True
    l = bytes(cl.buf).split(b"\n")
    if len(l) < 3 and not cl.ep.eof:
        return False
    return not (len(l) > 1 and l[1].startswith(b"ERROR")) or cl.ep.eof


def parse_log(w, c, start):
    with open(c.log.path, "rb") as f:
        b = f.read()
    return b


def judge(w, clients, fresh, before, emitted, start_len, writers_at, stats):
    logs, events, sets, data = {}, {}, {}, {}
    for c in w.cons:
        with open(c.log.path, "rb") as f:
            b = f.read()
        logs[c.name] = b
        ev, ws = [], []
        cur = []
        window = []
        seen_window = False
        pend = None             # a steal in progress: (thief, remaining)
        pos = start_len[c.name]
        rest = bytearray()
        for m in MSG.finditer(b, start_len[c.name]):
            rest += b[pos:m.start()]
            pos = m.end()
            if m.group(1).decode() != c.name:
                raise Violation("log of [%s] contains a message about [%s]" % (c.name, m.group(1)))
            if m.start() >= before[c.name] and not seen_window:
                window.append(list(cur))
                seen_window = True
            e = EV.match(m.group(2))
            if not e:
                raise Violation("unexpected message in the log of [%s]: %r" % (c.name, m.group(0)))
            what, user = e.group(1).decode(), e.group(3)
            if pend and not (what == "departed" and user in pend[1]):
                raise Violation("log of [%s]: the displacement of %r by %r is interleaved with %r" % (c.name, pend[1], pend[0], m.group(2)))
            if what == "departed":
                if user not in cur:
                    raise Violation("log of [%s]: %r departed without having write access" % (c.name, user))
                cur.remove(user)
                ev.append((m.end(), "departed", user, []))
                if pend:
                    pend[1].remove(user)
                    if not pend[1]:
                        ev.append((m.end(), "linked", pend[0], pend[2]))
                        cur.append(pend[0])
                        pend = None
            else:
                cl = next((x for x in clients if x.user == user), None)
                if cl is None or user in cur:
                    raise Violation("log of [%s]: %r gained write access it already had" % (c.name, user))
                if what == "stolen":
                    if not cur:
                        raise Violation("log of [%s]: stolen by %r although nobody had write access" % (c.name, user))
                    pend = (user, list(cur), [("stolen from", x) for x in cur], None)
                    ev.append((m.end(), "steal", user, []))
                else:
                    ev.append((m.end(), "linked", user, [("joined with", x) for x in cur]))
                    first = not any(e2[1] in ("linked", "steal") and e2[2] == user for e2 in ev[:-1])
                    if cur and first and cl.kind == "conn" and not cl.opts:
                        raise Violation("console [%s]: %r was admitted without force or join while %r had write access" % (c.name, user, cur))
                    cur.append(user)
            if seen_window:
                window.append(list(cur))
        rest += b[pos:]
        if pend:
            raise Violation("log of [%s]: displaced writers %r never departed" % (c.name, pend[1]))
        if bytes(rest) != bytes(emitted[c.name]):
            w.diff("console data in the log of [%s]" % c.name, bytes(emitted[c.name]), bytes(rest))
        if not seen_window:
            window.append(list(cur))
        events[c.name], sets[c.name] = ev, window
        writers_at[c.name] = list(cur)
    for cl in clients:
        if cl.left:
            for c in w.cons:
                if cl.user in writers_at[c.name]:
                    raise Violation("%r disconnected but still has write access to [%s]" % (cl.user, c.name))
            cl.state = "gone"
            continue
        b = bytes(cl.buf)
        if cl.state == "new":
            l = b.split(b"\n", 2)
            if len(l) < 3 or l[0] != b"OK":
                raise Violation("request of %r was not answered: %r" % (cl.user, b))
            if l[1].startswith(b"ERROR"):
                m = re.match(rb"ERROR CODE=7 MESSAGE='Found (console|\d consoles) already in use'$", l[1])
                if not m or cl.kind == "mon" or cl.opts:
                    raise Violation("request of %r (%s %s) refused with %r" % (cl.user, cl.kind, cl.opts, l[1]))
                hold = {c.name: [] for c in cl.cons}
                for h in l[2].split(b"\n"):
                    if not h:
                        continue
                    m = re.match(rb"Console \[(\w+)\] open (R/W|B/C) by <(\w+)@localhost> on t \(idle (\d+)s\)\.$", h)
                    if not m or m.group(1).decode() not in hold:
                        raise Violation("unexpected holder line for %r: %r" % (cl.user, h))
                    hold[m.group(1).decode()].append(m.group(3))
                if not any(hold.values()):
                    raise Violation("%r was refused without naming a holder" % cl.user)
                for n, h in hold.items():
                    if not any(sorted(s) == sorted(h) for s in sets[n]):
                        raise Violation("%r was refused because [%s] was held by %r, which was never so: %r" % (cl.user, n, h, sets[n]))
                if not cl.ep.eof:
                    raise Violation("refused connection of %r stays open" % cl.user)
                cl.state = "refused"
                for c in w.cons:
                    if any(e[2] == cl.user for e in events[c.name]):
                        raise Violation("%r was refused but appears in the log of [%s]" % (cl.user, c.name))
                stats.add("refused")
                continue
            exp = b"OK" + b"".join(b" CONSOLE='" + c.name.encode() + b"'" for c in cl.cons)
            if l[1] != exp:
                raise Violation("request of %r answered with %r" % (cl.user, l[1]))
            if cl.kind == "conn":
                for c in cl.cons:
                    if not any(e[1] == "linked" and e[2] == cl.user for e in events[c.name]):
                        raise Violation("%r was admitted but never got write access to [%s]" % (cl.user, c.name))
            cl.state = "open"
            cl.head = len(l[0]) + len(l[1]) + 2
            if len(cl.cons) > 1:
                stats.add("broadcast")
        if cl.state != "open" or cl.eof:
            continue
        body = b[cl.head:]
        # messages only for itself: one per writer present at each of its links
        own = [(m.group(1).decode(), m.group(2).decode(), m.group(3)) for m in OWN.finditer(body)]
        want = [(c.name, k, x) for c in cl.cons for e in events[c.name] if e[1] == "linked" and e[2] == cl.user for k, x in e[3]]
        if sorted(own) != sorted(want):
            raise Violation("%r was told %r instead of %r" % (cl.user, own, want))
        body = OWN.sub(b"", body)
        ended = False
        if cl.bcast:
            msgs = {c.name: b"" for c in cl.cons}
            if MSG.sub(b"", body) != b"":
                raise Violation("broadcast client %r received %r" % (cl.user, body))
            for m in MSG.finditer(body):
                msgs[m.group(1).decode()] += m.group(0)
            lost = []
            for c in cl.cons:
                p = [e[0] for e in events[c.name] if e[1] == "linked" and e[2] == cl.user][0]
                # it is told of everything up to its own displacement
                q = [i for i, e in enumerate(events[c.name]) if e[1] == "departed" and e[2] == cl.user]
                L = logs[c.name][p:]
                if q:
                    lost.append(c)
                    e = events[c.name][q[0]]
                    tail = b"".join(m.group(0) for m in MSG.finditer(logs[c.name], p) if m.end() < e[0])
                    alt = [tail]
                else:
                    alt = [b"".join(m.group(0) for m in MSG.finditer(L))]
                if msgs[c.name] not in alt:
                    got, e2 = msgs[c.name], alt[0]
                    # departures of other writers displaced together with it may follow in either order
                    if not (q and e2.startswith(got) or q and got.startswith(e2)):
                        w.diff("messages of [%s] at broadcast client %r" % (c.name, cl.user), e2, got)
            if lost and len(lost) != len(cl.cons):
                raise Violation("%r lost write access to some of its consoles only" % cl.user)
            ended = bool(lost)
        else:
            c = cl.cons[0]
            L = logs[c.name]
            if cl.kind == "mon":
                p = None
            else:
                p = [e[0] for e in events[c.name] if e[1] == "linked" and e[2] == cl.user][0]
            # a displacement ends the session: nothing after "stolen by" of the thief
            stolen = None
            ev = events[c.name]
            for i, e in enumerate(ev):
                if e[1] == "steal" and any(x[1] == "departed" and x[2] == cl.user for x in steal_group(ev, i)) and (p is None or e[0] > p):
                    stolen = e[0]
                    break
            if stolen is not None:
                ended = True
                if p is not None:
                    # it may also be told of writers displaced before itself
                    full = L[p:]
                    if not full.startswith(body) or len(body) < stolen - p:
                        w.diff("transcript of displaced client %r" % cl.user, L[p:stolen], body)
                elif body not in L[:stolen + 400]:
                    raise Violation("transcript of displaced client %r is not part of the log: %r" % (cl.user, body))
            elif p is not None:
                if body != L[p:]:
                    w.diff("transcript of client %r (log of [%s] from its admission on)" % (cl.user, c.name), L[p:], body)
            elif not L.endswith(body):
                raise Violation("transcript of monitoring client %r is not the end of the log of [%s]: %r" % (cl.user, c.name, body))
        if ended:
            if not cl.ep.eof:
                raise Violation("%r was displaced but its connection stays open" % cl.user)
            cl.state = "gone"
            stats.add("displaced")
        elif cl.ep.eof:
            raise Violation("connection of %r was closed by the daemon" % cl.user)


def steal_group(ev, i):
    out = []
    for e in ev[i + 1:]:
        if e[1] != "departed":
            break
        out.append(e)
    return out


def probe(w, clients, writers_at):
    """Every open client types its own byte: exactly the writers' bytes must arrive."""
    live = [cl for cl in clients if cl.state == "open" and not cl.left]
    w.rig.settle()
    for c in w.cons:
        c.dev.ep.take()
    for cl in live:
        cl.ep.send(bytes([65 + int(cl.user[1:])]))
    end = time.monotonic() + 3
    while True:
        w.rig.settle()
        ok = True
        for c in w.cons:
            exp = sorted(65 + int(u[1:]) for u in writers_at[c.name])
            if sorted(c.dev.ep.rx) != exp:
                ok = False
        if ok or time.monotonic() > end:
            break
        time.sleep(0.002)
    for c in w.cons:
        exp = sorted(65 + int(u[1:]) for u in writers_at[c.name])
        got = sorted(c.dev.ep.take())
        if got != exp:
            raise Violation("console [%s] received input of %r; the writers are %r" % (c.name, [bytes([x]) for x in got], writers_at[c.name]))
    for cl in live:
        cl.buf += cl.ep.take()
