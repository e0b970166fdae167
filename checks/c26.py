import random
from hypothesis import strategies as st
from vlib import confgen as g
from vlib import conf, confrun, opts
from .c01 import ASSUMPTIONS

ID = "C26"
N = {"quick": 2500, "thorough": 40000}
RULE = ("Configuration files with 8-50 option strings of the four kinds, as own options of up to eighteen consoles (six serial lines, six BMCs, three sockets with logs, test consoles with logs) and as global options in between: valid strings in every documented form, values at and beyond every bound (16-byte user names, 20-byte passwords and K_g keys in ASCII and hexadecimal, int and 64-bit limits, speeds between the supported ones, lengths around 1023), "
        "unknown keys, trailing garbage, wrong separators and byte-level mutations of all of these. An independent parser of the four syntaxes predicts every message and the settings of every console; judged are the messages, the terminal settings requested, the settings handed to the IPMI library, the rendering and locking of the logs, and the pace of the test consoles. "
        "Non-trivial: consoles of at least two kinds got other than the default settings and at least one line was rejected.")
TECH = "property-based testing: generated option strings, the running daemon compared with an independent parser of each syntax"
NOTE = "Exploration: random option strings; validity of IPMI names, suites and flags is taken from libipmiconsole's own predicates."


def clean(b):
    return b.replace(b'"', b"").replace(b"\n", b"").replace(b"\r", b"").replace(b"\\", b"").replace(b"\0", b"").replace(b"@", b"")


def key(r, n, kind):
    """A secret of about n bytes."""
    n += r.choice([-1, 0, 0, 0, 1, 2, -5])
    return g.pick(r, (2, lambda: bytes(r.choice(b"abcXYZ019-_./:=+!~") for _ in range(n))), (2, lambda: r.choice([b"0x", b"0X"]) + bytes(r.choice(b"0123456789abcdefABCDEF") for _ in range(2 * n + r.choice([0, 0, 1, -1])))), (.5, lambda: b"0x" + bytes(r.choice(b"0123456789abcdefg") for _ in range(12))), (.4, lambda: b"0x0041" + b"42" * r.randint(0, 18)), (.3, b"0x"))


def num(r):
    return g.pick(r, (4, lambda: b"%d" % r.randint(0, 20)), (2, lambda: b"0x%x" % r.getrandbits(r.choice([4, 8, 16, 32]))), (1, lambda: b"0%o" % r.getrandbits(r.choice([4, 8]))), (1, lambda: b"%d" % r.choice([-1, -2, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807, 9223372036854775808, 18446744073709551615, 18446744073709551616, -2147483649])), (.5, lambda: r.choice([b"+3", b" 3", b"3 ", b"0x", b"08", b"3x", b"--1"])))


def ipmi(r):
    def one():
        k = r.choice("UPKLCWUPK")
        v = g.pick(r, (1.5, b""), (5, lambda: {"U": lambda: bytes(r.choice(b"abcXYZ019-_.") for _ in range(16 + r.choice([-15, -1, 0, 0, 1, 2]))), "P": lambda: key(r, 20, 0), "K": lambda: key(r, 20, 1), "L": lambda: g.pick(r, (3, lambda: r.choice([b"user", b"op", b"OPERATOR", b"Admin", b"administrator", b"adm", b"operat", b"users"])), (1, lambda: num(r))), "C": lambda: num(r),
                                       "W": lambda: g.pick(r, (4, lambda: g.case(r, r.choice([x.encode() for x in opts.WF if x]))), (1, lambda: num(r)), (.5, lambda: r.choice([x.encode() for x in opts.WF if x])[:-1]))}[k]()))
        return (k if r.random() < .7 else k.lower()).encode() + b":" + v
    if r.random() < .25:
        return b",".join(g.pick(r, (2, lambda: one()[2:]), (.5, b"-"), (1, b"")) for _ in range(r.choice([1, 2, 3, 4, 4, 5])))
    return b",".join(one() for _ in range(r.choice([1, 2, 3, 5, 8])))


def ser(r):
    s = g.seropts(r, .2)
    if r.random() < .15:
        s = r.choice([b"%d", b" %d", b"%d ", b"+%d", b"0%d", b"%d,8 n 1", b"%d, 8n 2", b"%d,8n1 \t", b"%d,+7e1"]) % r.choice([9600, 50, 49, 460800, 460801, 2147483647])
    return s


def test(r):
    def one():
        k = r.choice("BMNP")
        v = {"B": lambda: r.choice([1, 16, 300, 1024, 4000, 0]), "M": lambda: r.choice([50, 60, 100, 250, 400, 1000]), "N": lambda: r.choice([50, 55, 100, 200, 399, 400, 1000]), "P": lambda: r.choice([0, 100, 100, 101, 1000, 99, 50])}[k]()
        return (k if r.random() < .6 else k.lower()).encode() + b":" + r.choice([b"%d", b"%d", b"0x%x", b"0%o", b"+%d", b" %d"]) % v
    w = [one() for _ in range(r.choice([1, 2, 3, 4, 7]))]
    if r.random() < .25:
        w.insert(r.randrange(len(w) + 1), r.choice([b"B:-1", b"M:-1", b"N:x", b"Q:1", b"B", b"B=5", b"P:", b":", b"M:99999999999", b"B:2147483648", b"M:9223372036854775808", b"B:18446744073709551617", b"B:1x", b"N:", b"B:0x", b"P:1,", b"BB:1", b" B:1", b"P:1 "]))
    return b",".join(w)


def logo(r):
    w = [r.choice([b"lock", b"nolock", b"sanitize", b"nosanitize", b"timestamp", b"notimestamp", b"LOCK", b"NoLock", b"Sanitize", b"TimeStamp", b"NOSANITIZE"]) for _ in range(r.randint(1, 5))]
    if r.random() < .25:
        w.insert(r.randrange(len(w) + 1), r.choice([b"bogus", b"no", b"nono", b"lo", b"sanitized", b"nolockx", b"x" * r.choice([50, 900, 990]), b"no lock", b"loc", b"-lock", b"nonolock", b"caf\xe9"]))
    return r.choice([b",", b",", b" ", b";", b".", b", ", b",,"]).join(w)


KINDS = {b"seropts": ser, b"testopts": test, b"logopts": logo, b"ipmiopts": ipmi}


def string(r, k):
    s = KINDS[k](r)
    x = r.random()
    if x < .2:
        s = clean(g.mutate(r, s))
    elif x < .23:
        s += b"," * (r.choice([1000, 1022, 1023, 1024, 1030]) - len(s)) if k != b"seropts" else b" " * (1020 - len(s))
    elif x < .25:
        s = bytes(r.choice(b"abnopxBMNPUKLCW:,;0189-+ \t\x80") for _ in range(r.randint(1, 12)))
    return k + b'="%s"' % clean(s)


def con(r, i, free):
    k = g.pick(r, (4, b"S"), (4, b"I"), (2, b"U"), (2, b"t"))
    if k != b"t":
        if not free[k]:
            return None
        d = b"@%s%d" % (k, free[k].pop(0))
    else:
        d = b"test:"
    parts = [b'name="c%d"' % i, b'dev="%s"' % d]
    if k in b"Ut" or r.random() < .2:
        parts.append(b'log="l%d"' % i)
    own = {b"S": b"seropts", b"I": b"ipmiopts", b"U": b"logopts", b"t": b"testopts"}[k]
    if r.random() < .7:
        parts.append(string(r, own))
    if r.random() < .1:
        parts.append(string(r, r.choice(sorted(KINDS))))
    r.shuffle(parts)
    return b"console " + b" ".join(parts)


def lines(r):
    out, free, i = [], {b"S": list(range(6)), b"I": list(range(6)), b"U": list(range(3))}, 0
    for _ in range(r.choice([8, 12, 20, 30])):
        if r.random() < .4:
            out.append(b"global " + b" ".join(string(r, r.choice(sorted(KINDS))) for _ in range(r.choice([1, 1, 2]))))
        else:
            c = con(r, i, free)
            i += 1
            if c:
                out.append(c)
    return out


def strategy(tier):
    # whole lines so that a failing file shrinks
    return st.fixed_dictionaries({"text": st.integers(0, 1 << 48).map(lambda n: lines(random.Random(n)))})


def gen(r):
    return {"text": lines(r)}


class Run(confrun.ConfRun):
    counts = {"U": 3, "S": 6, "I": 6}
    rates = True

    def nontrivial(self):
        m = self.m
        self.hit("serial changed", sum(c.opts != opts.SER0 for c in m.cons if c.kind == "serial"))
        self.hit("ipmi changed", sum(c.opts != opts.IPMI0 for c in m.cons if c.kind == "ipmi"))
        self.hit("test changed", sum(c.opts != opts.TEST0 for c in m.cons if c.kind == "test"))
        n = sum(k in w for k in ("serial changed", "ipmi changed", "test changed") for w in [self.stats])
        return n >= 2 and m.rejected > 0

    def classes(self):
        return list(self.stats)


def run(case):
    return confrun.run(Run, case)
