"""Generated session programs: strategies and their execution against World."""
import os, random, signal
from hypothesis import strategies as st

from .rig import Violation, Inconclusive
from .world import World, expand

USERS = [b"al", b"bo", b"x y'z", b"cy", b"d\"q", b"eve"]
TTYS = [b"tty1", None, b"pts/2", b"a'b"]
DATA_LIMIT = 7600       # bytes per console between two barriers (half a ring, so that nobody overflows while the daemon keeps up)


@st.composite
def weighted(draw, pairs):
    """One of the strategies, with the given weights (one_of merges repeated alternatives)."""
    n = draw(st.integers(0, sum(w for w, _ in pairs) - 1))
    for w, s in pairs:
        if n < w:
            return draw(s)
        n -= w


def ints(a, b):
    return st.integers(a, b)


def payload(maxlen=3000, kinds=(0, 1, 2, 3, 4, 5)):
    return st.one_of(st.binary(min_size=1, max_size=24),
                     st.tuples(st.sampled_from(list(kinds)), st.one_of(ints(1, 60), ints(1, maxlen), ints(maxlen // 2, maxlen)), ints(0, 999)).map(list))


def frag():
    """Sizes of the fragments of a transfer; a negative one ends just behind the next 0xFF."""
    return st.one_of(st.lists(ints(1, 60), max_size=3), st.lists(st.one_of(ints(1, 60), ints(1, 2500), ints(-40, -1), ints(-2000, -1)), max_size=3))


def con_spec(kinds, logs, vhost=None):
    if vhost:
        return st.fixed_dictionaries({"kind": st.sampled_from(kinds), "log": st.sampled_from(logs), "vhost": st.sampled_from(vhost)})
    return st.fixed_dictionaries({"kind": st.sampled_from(kinds), "log": st.sampled_from(logs)})


def page_spec(faults, short_log=False, small=False):
    z = st.just({})
    if small:       # little room in the kernel: a peer that does not read fills the daemon's buffer soon
        z = st.one_of(z, st.just({"sndbuf": 4608}), st.just({"sndbuf": 1}))
    if not faults:
        return z
    return st.one_of(z, st.fixed_dictionaries({
        "max_read": st.sampled_from([0, 1, 2, 7, 64, 1000]), "max_write": st.sampled_from([0, 1, 3, 50, 1000]),
        "p_eintr": st.sampled_from([0, 0, 60]), "p_eagain": st.sampled_from([0, 0, 100]), "p_chld": st.sampled_from([0, 0, 200]), "short_log": st.sampled_from([0, 1]) if short_log else st.just(0), "rnd": ints(0, 1 << 30)}))


K = ints(0, 11)         # index of a client (taken modulo the live ones)
C = ints(0, 5)          # index of a console


def op_strategy(name, P):
    ml = P.get("maxlen", 3000)
    pk = P.get("pkinds", (0, 1, 2, 3, 4, 5))
    if name == "conn":
        return st.tuples(st.just("conn"), ints(0, len(USERS) - 1), ints(0, len(TTYS) - 1), st.sampled_from(P.get("cmds", ["CONNECT", "CONNECT", "MONITOR"])),
                         weighted([(3, st.lists(C, min_size=1, max_size=1)), (P.get("bmul", 1), st.lists(C, min_size=2, max_size=4))]) if P.get("multi", True) else st.lists(C, min_size=1, max_size=1),
                         st.lists(st.sampled_from(P.get("opts", ["FORCE", "JOIN", "QUIET", "BROADCAST", "BROADCAST"])), max_size=3, unique=True), st.booleans()).map(list)
    if name == "bconn":     # broadcast to several consoles
        return st.tuples(st.just("conn"), ints(0, len(USERS) - 1), ints(0, len(TTYS) - 1), st.just("CONNECT"), st.lists(C, min_size=2, max_size=4, unique_by=lambda c: c % 2),
                         st.sampled_from([["BROADCAST"], ["BROADCAST", "JOIN"], ["BROADCAST", "JOIN"], ["BROADCAST", "FORCE"], ["BROADCAST", "JOIN", "QUIET"]]), st.booleans()).map(list)
    if name == "jconn":     # one more writer
        return st.tuples(st.just("conn"), ints(0, len(USERS) - 1), ints(0, len(TTYS) - 1), st.just("CONNECT"), st.lists(C, min_size=1, max_size=1),
                         st.just(["JOIN"]), st.booleans()).map(list)
    if name == "emit":
        return st.tuples(st.just("emit"), C, payload(ml, pk), frag()).map(list)
    if name == "type":
        return st.tuples(st.just("type"), K, payload(min(ml, 7000)), frag()).map(list)
    if name == "raw":
        return st.tuples(st.just("raw"), K, st.lists(st.one_of(st.binary(min_size=1, max_size=12), st.sampled_from(["Q", "L", "?", "FF"])), min_size=1, max_size=6), frag()).map(list)
    if name == "esc":
        return st.tuples(st.just("esc"), K, st.sampled_from(P.get("escs", list("FJMQLZBD")))).map(list)
    if name == "bye":
        return st.tuples(st.just("bye"), K, st.sampled_from(["close", "rst", "half"])).map(list)
    if name == "burst":
        sub = st.one_of(st.tuples(st.just("emit"), C, payload(600)).map(list), st.tuples(st.just("type"), K, ints(1, 300)).map(list))
        return st.tuples(st.just("burst"), st.lists(sub, min_size=2, max_size=7), st.booleans()).map(list)
    if name == "gasp":
        return st.tuples(st.just("gasp"), K, st.one_of(ints(1, 12000), ints(8192, 12000)), ints(0, 99)).map(list)
    if name == "pause":
        return st.tuples(st.just("pause"), K).map(list)
    if name == "dstall":
        return st.tuples(st.just("dstall"), K, ints(1, 4), ints(0, 99)).map(list)
    if name == "hstall":
        return st.tuples(st.just("hstall"), K, ints(1, 3), ints(0, 99)).map(list)
    if name == "unpause":
        return st.tuples(st.just("unpause"), K).map(list)
    if name == "dpause":
        return st.tuples(st.just("dpause"), C).map(list)
    if name == "dunpause":
        return st.tuples(st.just("dunpause"), C).map(list)
    if name == "flood":
        return st.tuples(st.just("flood"), C, ints(1, P.get("floodmax", 8)), ints(0, 99)).map(list)
    if name == "tick":
        return st.tuples(st.just("tick"), st.one_of(ints(1, 100), ints(1, 100000))).map(list)
    if name == "hup":
        return st.tuples(st.just("hup"), st.booleans()).map(list)
    if name == "query":
        return st.tuples(st.just("query"), st.lists(C, max_size=4)).map(list)
    if name == "suspend":
        return st.tuples(st.just("suspend"), K, C, st.one_of(ints(0, 6), st.sampled_from([16382, 16383, 16384, 16384, 16385, 16386]), ints(100, 24000)), st.sampled_from(["resume", "resume", "keep", "bye", "rst", "half"])).map(list)
    if name == "drop":
        return st.tuples(st.just("drop"), C, st.sampled_from(["close", "close", "rst"])).map(list)
    if name == "down":
        return st.tuples(st.just("down"), C, ints(0, 2)).map(list)
    if name == "up":
        return st.tuples(st.just("up"), C).map(list)
    if name == "adv":
        return st.tuples(st.just("adv"), st.one_of(st.sampled_from([1, 2, 14, 15, 16, 29, 31, 59, 60, 61, 62, 120, 1799, 1801]), ints(1, 100), ints(1, 4000))).map(list)
    if name == "lastout":
        return st.tuples(st.just("lastout"), C, payload(200), st.just(False)).map(list)
    if name == "restart":
        return st.tuples(st.just("restart"), st.booleans()).map(list)
    raise KeyError(name)


def strategy(P, extra={}):
    ops = weighted([(wt, extra[n] if n in extra else op_strategy(n, P)) for n, wt in P["ops"].items()])
    first = op_strategy("conn", P)
    return st.fixed_dictionaries({
        "cons": st.lists(con_spec(P.get("kinds", ["unix", "unix", "telnet", "serial", "process", "ipmi"]), P.get("logs", [None, "", ""]), P.get("vhost")),
                         min_size=P.get("mincons", 1), max_size=P.get("maxcons", 3)),
        "page": page_spec(P.get("faults", True), P.get("short_log"), P.get("small")),
        "reset": st.sampled_from(P.get("reset", [None])),
        "srcs": st.lists(ints(1, 30 if P["hosts"] is True else P["hosts"]), min_size=1, max_size=5) if P.get("hosts") else st.just([1]),
        "zero": st.booleans() if P.get("zero") else st.just(False),
        "ops": st.tuples(st.lists(first, min_size=1, max_size=3), st.lists(ops, min_size=P.get("minops", 9), max_size=P.get("maxops", 24))).map(lambda t: t[0] + t[1]),
    })


def pieces(data, cuts):
    out, i = [], 0
    for c in cuts:
        if c < 0:
            j = data.find(b"\xff", i - c - 1)
            c = j + 1 - i if j >= 0 else -c
        if i + c >= len(data):
            break
        out.append(data[i:i + c])
        i += c
    out.append(data[i:])
    return [p for p in out if p]


STALLS = ("unix", "telnet", "ipmi", "serial")


class Run:
    def __init__(self, w, case):
        self.w, self.case = w, case
        self.small = bool((case.get("page") or {}).get("sndbuf"))
        self.faults = any((case.get("page") or {}).get(k) for k in ("p_eintr", "p_eagain", "max_read", "max_write"))

    def live(self, k, pred=lambda c: True):
        v = [c for c in self.w.clients if c.live and pred(c)]
        return v[k % len(v)] if v else None

    def con(self, ci):
        return self.w.cons[ci % len(self.w.cons)]

    def go(self):
        for op in self.case["ops"]:
            getattr(self, "op_" + op[0])(*op[1:])
        self.end()

    def end(self):
        w = self.w
        for c in w.clients:
            if c.paused and not c.gone:
                self.unpause(c)
        for c in w.cons:
            if c.dpaused:
                self.dunpause(c)
        w.settle("end of program")

    def op_conn(self, u, t, cmd, cons, opts, pipe):
        w = self.w
        names = [self.con(c).name for c in cons]
        if len([c for c in w.clients if c.live]) >= 7:
            return
        if w.connect(USERS[u], TTYS[t], cmd, names, opts, pipe, rcvbuf=4096 if self.small else None, src=self.src(u)):
            w.hit("conn_" + cmd.lower())

    def src(self, u):
        v = self.case.get("srcs") or [1]
        return v[u % len(v)]

    def op_query(self, cons):
        self.w.connect(b"q", None, "QUERY", [self.con(c).name for c in cons])

    def tel(self, con, data):
        return data.replace(b"\xff", b"\xff\xff") if con.kind == "telnet" else data

    def op_emit(self, ci, p, cuts):
        w, con = self.w, self.con(ci)
        data = expand(p)
        if not con.up:
            return
        if self.faults:
            data = data[:1500]
        raw = self.tel(con, data)
        if cuts:
            parts = pieces(raw, cuts)
            for x in parts[:-1]:
                con.dev.ep.send(x)
                w.rig.settle()
            con.dev.ep.send(parts[-1])
            w.emitted(con, data)
            w.hit("emit_frag")
        else:
            # keep below what a reader's buffer absorbs between two barriers
            for i in range(0, max(1, len(data)), DATA_LIMIT):
                w.emit(con, self.tel(con, data[i:i + DATA_LIMIT]), data[i:i + DATA_LIMIT])
                w.settle("emit")
        w.settle("emit")
        w.hit("emit")
        if con.readers:
            w.hit("emit_read")
        if len([r for r in con.readers if r is not con.log]) > 1:
            w.hit("emit_many")

    def op_flood(self, ci, n, seed):
        """n * 7000 position-coded bytes, barrier after each part."""
        w, con = self.w, self.con(ci)
        if not con.up:
            return
        for i in range(n):
            d = expand([2, 7000, seed * 20 + i])
            w.emit(con, self.tel(con, d), d)
            w.settle("flood")
        w.hit("flood")

    def op_type(self, k, p, cuts):
        w, cl = self.w, self.live(k)
        if cl is None or any(not c.up for c in cl.dst):
            return      # what is typed at a console that is down is not specified
        data = expand(p)
        data = data[:1500] if self.faults else data
        enc = data.replace(b"\xff", b"\xff\xff")
        parts = pieces(enc, cuts)
        for x in parts[:-1]:
            cl.ep.send(x)
            w.rig.settle()
        cl.ep.send(parts[-1])
        w.feed(cl, data)
        w.settle("type")
        w.hit("type_rw" if cl.dst and cl.src else "type_bcast" if cl.dst else "type_ro")
        if cuts and b"\xff" in data:
            w.hit("type_frag_ff")

    def op_raw(self, k, items, cuts):
        w, cl = self.w, self.live(k)
        if cl is None or any(not c.up for c in cl.dst):
            return
        enc, data = bytearray(), bytearray()
        left = 3            # more replays at once may exceed the client's buffer
        for it in items:
            if it == "L":
                left -= 1
                if left < 0:
                    continue
            if isinstance(it, bytes):
                enc += it.replace(b"\xff", b"\xff\xff")
                data += it
            elif it == "FF":
                enc += b"\xff\xff"
                data += b"\xff"
            elif it == "?":
                enc += b"\xff?"
            else:
                enc += b"\xff" + it.encode()
                w.esc(cl, it, send=False)
                w.hit("raw_" + it)
        if not enc:
            return
        parts = pieces(bytes(enc), cuts)
        for x in parts[:-1]:
            cl.ep.send(x)
            w.rig.settle()
        cl.ep.send(parts[-1])
        w.feed(cl, bytes(data))
        w.settle("raw")

    def op_esc(self, k, ch):
        w = self.w
        pred = {"M": lambda c: c.dst and c.src, "F": lambda c: c.src and not c.dst, "J": lambda c: c.src and not c.dst}.get(ch, lambda c: True)
        cl = self.live(k, pred)
        if cl is None or (ch == "Z" and cl.paused) or (ch in "DB" and any(not c.up and (ch == "D" or c.kind != "telnet") for c in cl.dst)):
            return
        nw = len(cl.src[0].writers) if cl.src else 0
        w.esc(cl, ch)
        w.settle("escape " + ch)
        w.hit("esc_" + ch)
        if ch in "FJ" and nw:
            w.hit("esc_takeover")

    def op_bye(self, k, how):
        w, cl = self.w, self.live(k)
        if cl is None:
            return
        if cl.paused and how == "half":     # what is pending must still be delivered
            cl.ep.shut_wr()
            w.rig.settle()
            w.unlink(cl)
            cl.paused = cl.ep.paused = False
            cl.allow_gap = True
            w.settle("half-closed while stalled")
            w.hit("bye_stalled")
            return
        if cl.pend is not None and how == "half":
            # a half-closed suspended client gets its pending output and is closed
            cl.resumed, cl.pend = bytes(cl.pend), None
        w.bye(cl, how)
        w.settle("bye " + how)
        w.hit("bye")

    def freeze(self, on=True):
        os.kill(self.w.rig.proc.pid, signal.SIGSTOP if on else signal.SIGCONT)

    def op_gasp(self, k, n, seed):
        """A client ends its input and its console emits, before the daemon gets to see either."""
        w = self.w
        cl = self.live(k, lambda c: c.src and not c.paused and c.pend is None and c.src[0].up and c.src[0].kind in ("unix", "telnet")
                       and not c.dst)
        if cl is None or w.rig.proc.poll() is not None:
            return
        con = cl.src[0]
        if con.dpaused:
            return
        w.settle("before the gasp")
        data = expand([2, min(n, 1500) if self.faults else n, seed])
        self.freeze()
        try:
            cl.ep.shut_wr()
            con.dev.ep.send(self.tel(con, data))
        finally:
            self.freeze(False)
        w.unlink(cl)
        cl.gone = True
        w.emitted(con, data)
        w.settle("gasp")
        import time
        end = time.monotonic() + 5
        while not cl.ep.eof and time.monotonic() < end:
            time.sleep(0.002)
            w.rig.settle()
        got = cl.ep.take()
        if not data.startswith(got):
            w.diff("last output of a client that ended its input", data, got)
        if not cl.ep.eof:
            raise Violation("the session of a client that ended its input stays open")
        cl.ep.close()
        w.hit("gasp")
        if len([r for r in con.readers if r is not con.log]):
            w.hit("gasp_others")

    def op_burst(self, subs, frz=False):
        """Several sources at once: device bytes keep their order at every reader; each writer's bytes keep theirs."""
        w = self.w
        if any(c.dpaused for c in w.cons):
            return
        budget = {c.name: 0 for c in w.cons}
        typed = {}
        n = 0
        dev_before = {c.name: bytes(c.din) for c in w.cons}
        per = {c.name: {} for c in w.cons}
        if frz:
            self.freeze()
        for s in subs:
            if s[0] == "emit":
                con = self.con(s[1])
                d = expand(s[2])[:600]
                if not con.up:
                    continue
                w.emit(con, self.tel(con, d), d)
                n += 1
            else:
                cl = self.live(s[1])
                if cl is None or any(not c.up for c in cl.dst):
                    continue
                ix = w.clients.index(cl) % 12
                seq = typed.get(id(cl), 0)
                # an alphabet of its own per client: value = client index * 16 + running counter
                d = bytes((ix << 4) | ((seq + i) % 15) for i in range(s[2]))
                typed[id(cl)] = seq + len(d)
                cl.ep.send(d.replace(b"\xff", b"\xff\xff"))
                cl.last_read = w.rig.now()
                for c in cl.dst:
                    per[c.name].setdefault(ix, bytearray()).extend(d)
                n += 1
        if frz:
            self.freeze(False)
        w.rig.settle()
        import time
        end = time.monotonic() + w.PATIENCE
        total = {c.name: sum(len(v) for v in per[c.name].values()) for c in w.cons}
        while time.monotonic() < end and (any(c.up and len(c.dev.ep.rx) < total[c.name] for c in w.cons) or w.short()):
            time.sleep(0.002)
            w.rig.settle()
        for c in w.cons:
            if not c.up:
                continue
            got = c.dev.ep.take()
            exp = per[c.name]
            if c.kind == "telnet":
                got = got.replace(b"\xff\xff", b"\xff")
            if len(exp) == 1:
                (only,) = exp.values()
                if got != only:
                    w.diff("burst: input of console [%s]" % c.name, bytes(only), got)
                continue
            if len(got) != total[c.name]:
                raise Violation("burst: console [%s] received %d bytes of %d typed" % (c.name, len(got), total[c.name]))
            for ix, d in exp.items():
                g = bytes(b for b in got if (b >> 4) == ix)
                if g != d:
                    w.diff("burst: bytes of writer %d at console [%s]" % (ix, c.name), bytes(d), g)
            if len(exp) > 1:
                w.hit("burst_multi_writer")
        w.settle("burst")
        w.hit("burst")

    # -- stalled readers
    def op_pause(self, k):
        w, cl = self.w, self.live(k, lambda c: not c.paused and c.pend is None)
        if cl is None:
            return
        cl.paused = cl.ep.paused = True
        w.hit("pause")

    def unpause(self, cl):
        w = self.w
        cl.paused = cl.ep.paused = False
        cl.allow_gap = True
        w.settle("unpause")

    def op_dstall(self, k, n, seed):
        """A device stops reading while a lot is typed at it, and then goes on; its output is not held up."""
        w = self.w
        cl = self.live(k, lambda c: not c.paused and c.pend is None and c.dst and all(d.up and not d.dpaused for d in c.dst) and any(d.kind in STALLS for d in c.dst))
        if cl is None:
            return
        con = [d for d in cl.dst if d.kind in STALLS][0]
        con.dpaused = con.dev.ep.paused = True
        for i in range(n):
            d = expand([2, 7000, seed * 20 + i])
            cl.ep.send(d.replace(b"\xff", b"\xff\xff"))
            w.feed(cl, d)
            w.settle("typing at a stalled console")
            self.op_emit(w.cons.index(con), [1, 3, seed], [])
        self.dunpause(con)
        w.hit("dstall_" + con.kind)

    def op_hstall(self, k, n, seed):
        """A reader stalls while its console emits, ends its input, and then reads what is left."""
        w = self.w
        cl = self.live(k, lambda c: not c.paused and c.pend is None and c.src and c.src[0].up and not c.src[0].dpaused)
        if cl is None:
            return
        cl.paused = cl.ep.paused = True
        self.op_flood(w.cons.index(cl.src[0]), n, seed)
        if cl.live and cl.paused:
            self.op_bye([c for c in w.clients if c.live].index(cl), "half")

    def op_unpause(self, k):
        v = [c for c in self.w.clients if c.paused and not c.gone]
        if v:
            self.unpause(v[k % len(v)])

    def op_suspend(self, k, ci, n, how):
        """A client suspends, output follows, and it resumes or goes away."""
        w, cl = self.w, self.live(k, lambda c: not c.paused and c.pend is None)
        if cl is None:
            return
        w.esc(cl, "Z")
        w.settle("suspend")
        w.hit("suspended")
        con = cl.src[0] if cl.src else self.con(ci)
        if n >= 100 and con.up:
            # this many bytes exactly (a full buffer holds 16383)
            for i in range(0, n, 7000):
                d = expand([2, min(7000, n - i), n + i])
                w.emit(con, self.tel(con, d), d)
                w.settle("suspended output")
            w.hit("flood")
        elif n and con.up:
            self.op_flood(w.cons.index(con), n, 7 * n)
        if not cl.live and cl.gone:
            return
        if how == "resume":
            w.esc(cl, "Z")
            w.settle("resume")
        elif how != "keep" and cl.live:
            ix = [c for c in w.clients if c.live].index(cl)
            self.op_bye(ix, {"bye": "close"}.get(how, how))
            w.hit("bye_suspended")

    def op_dpause(self, ci):
        con = self.con(ci)
        if con.kind in ("unix", "telnet", "ipmi") and not con.dpaused and con.up:
            con.dpaused = con.dev.ep.paused = True
            self.w.hit("dpause")

    def dunpause(self, con):
        con.dpaused = con.dev.ep.paused = False
        con.dgap = True
        self.w.settle("device resumes")

    def op_dunpause(self, ci):
        v = [c for c in self.w.cons if c.dpaused]
        if v:
            self.dunpause(v[ci % len(v)])

    def op_restart(self, zero):
        w = self.w
        if any(c.dpaused for c in w.cons):
            return
        w.restart(zero)
        w.hit("restart_zero" if zero else "restart")

    def op_lastout(self, ci, p, zero):
        """A console emits, the daemon reads that and is told to terminate."""
        w, con = self.w, self.con(ci)
        if any(c.dpaused for c in w.cons) or not con.up:
            return
        data = expand(p)[:200] + b"!!"
        w.restart(zero, (con, self.tel(con, data), data))
        w.hit("restart_lastout")

    # -- lost connections
    LOSSY = ("unix", "telnet", "process")

    def lossy(self, ci, pred):
        v = [c for c in self.w.cons if c.kind in self.LOSSY and not c.dpaused and pred(c)]
        return v[ci % len(v)] if v else None

    def op_drop(self, ci, how):
        con = self.lossy(ci, lambda c: c.up)
        if con is None:
            return
        if how == "rst" and con.kind == "telnet":
            self.w.drop(con, lambda: con.dev.hangup(rst=True))
        else:
            self.w.drop(con)
        self.w.settle("loss of [%s]" % con.name)
        self.w.hit("drop_" + con.kind)

    def op_down(self, ci, why):
        """The device goes away for good (until "up")."""
        w = self.w
        con = self.lossy(ci, lambda c: c.avail)
        if con is None:
            return
        con.avail = False
        if con.kind == "process":
            con.why = con.dev.disable(why)
        else:
            con.dev.down()
        if con.up:
            w.drop(con)
        w.settle("device of [%s] gone" % con.name)
        w.hit("down_" + con.kind)

    def op_up(self, ci):
        w = self.w
        con = self.lossy(ci, lambda c: not c.avail)
        if con is None:
            return
        con.avail = True
        if con.kind == "process":
            con.dev.enable()
        else:
            con.dev.up()
        if con.kind == "unix" and not con.up:
            w.rig.settle()
            w.attempt(con)          # told by inotify
        w.settle("device of [%s] back" % con.name)
        w.hit("up_" + con.kind)

    def op_adv(self, s):
        w = self.w
        if any(c.kind == "unix" and not c.up for c in w.cons):
            s = min(s, 400)
        w.advance(s)

    # -- time, signals
    def op_tick(self, s):
        if any(c.kind == "unix" and not c.up for c in self.w.cons):
            s = min(s, 400)
        self.w.advance(s)

    def op_hup(self, rotate):
        w = self.w
        for c in w.cons:
            if c.log and c.log.open and rotate:
                n = c.log.path + ".%d" % len(c.log.old)
                os.rename(c.log.path, n)
                c.log.old.append((n, bytes(c.log.exp)))
                c.log.exp = bytearray()
        w.rig.signal(signal.SIGHUP, b"Performing reconfig")
        for c in w.cons:
            if c.log:
                c.log.opened()
        w.settle("hup")
        w.hit("hup")


def execute(case, after=None, runner=Run, world=World):
    with world(case) as w:
        if case.get("zero"):
            w.daemon_args = ["-z"]
        w.start()
        r = runner(w, case)
        r.go()
        if after:
            after(w, r)
        w.finish()
        return w.stats
