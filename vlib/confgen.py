"""Generators of configuration lines.  Each takes a random.Random and returns bytes."""
import random
from hypothesis import strategies as st

NAMES = [b"c0", b"c1", b"c2", b"c3", b"c4", b"node-7", b"A_b", b"x y", b"it's", b'q"q', b"n#1", b"a/b", b"..", b"%N", b"caf\xe9", b"w{1}", b"Z9", b"c00", b"C0"]
PLAIN = [b"c0", b"c1", b"c2", b"c3", b"c4", b"node7", b"A_b", b"Z9", b"C0"]


def pick(r, *alts):
    """alts: (weight, value)"""
    x = r.uniform(0, sum(w for w, _ in alts))
    for w, v in alts:
        x -= w
        if x <= 0:
            break
    return v() if callable(v) else v


def case(r, b):
    return pick(r, (6, b), (2, b.upper()), (1, bytes(c ^ 32 if 97 <= c <= 122 and r.random() < .5 else c for c in b)))


def quote(r, v):
    """A spelling of the string."""
    if v and v[:1].isalpha() and v.isalnum() and v.lower() not in (b"on", b"off") and r.random() < .3:
        return v
    if b'"' in v:
        return b"'" + v + b"'"
    if b"'" in v:
        return b'"' + v + b'"'
    return pick(r, (3, b'"' + v + b'"'), (1, b"'" + v + b"'"))


def eq(r):
    return pick(r, (8, b"="), (1, b" = "), (1, b"= "), (1, b"\t="), (.5, b" \\\n = "))


def sp(r):
    return pick(r, (8, b" "), (1, b"  "), (1, b"\t"), (.7, b" \\\n "), (.2, b"\v"), (.2, b" \\\r\n"))


def kv(r, k, v, q=True):
    return case(r, k) + eq(r) + (quote(r, v) if q else v)


def device(r, bad=.1):
    if r.random() < bad:
        return pick(r, (1, b"unix:"), (1, b"unix:@D/" + b"x" * r.choice([60, 91, 92, 107, 120, 300])), (1, b"127.0.0.1:0"), (1, b"127.0.0.1:70000"), (1, b"127.0.0.1:"), (1, b":9"), (1, b"@T0x"), (1, b"nosuch"), (1, b"@D"), (1, b"logs"),
                    (1, b"@U0 extra"), (1, b"@S0 a b"), (1, b"test: x"), (1, b"@I0 x"), (1, b"ipmi:"), (1, b""), (1, b"  "), (1, b"'@U0"), (1, b'"'), (1, b"x 'y"), (1, b"test"), (1, b"p_none a"), (1, b"127.0.0.1:9:9"),
                    (1, b"-1:5"), (1, b"127.0.0.1:00009"), (1, b"127.0.0.1:65536"), (1, b"127.0.0.1:4294967305"), (.5, b"conf"), (.5, b"%N%N%N"), (.5, b"127.0.0.1: 9"))
    return pick(r, (5, lambda: b"@U%d" % r.randrange(3)), (1.5, lambda: r.choice([b"unix:u%d", b"UNIX:@D/u%d", b"Unix:u%d", b"unix:@D/./u%d"]) % r.randrange(3)), (.5, b"unix:u9"), (2, lambda: b"@T%d" % r.randrange(2)), (.5, b"127.0.0.1:9"),
                (2, lambda: b"@S%d" % r.randrange(2)), (1, lambda: b"s%d" % r.randrange(2)), (2, lambda: b"@P%d" % r.randrange(2)), (1, lambda: b"p_p%d @C%d" % ((r.randrange(2),) * 2)),
                (2, lambda: b"@I%d" % r.randrange(2)), (.5, b"IPMI:bmc-i1"), (.5, b"ipmi:bmc-none"), (2, b"test:"), (.5, b"Test:"))


def seropts(r, bad=.25):
    if r.random() < bad:
        return pick(r, (1, b"9600,9n1"), (1, b"0"), (1, b"-9600"), (1, b"49"), (1, b"9600,8x1"), (1, b"9600,8n3"), (1, b"9600,8n0"), (1, b"abc"), (1, b","), (1, b"9600,8n1x"), (1, b"9600 8n1"), (1, b"9600;"), (1, b"9600,,8"), (1, b"9600,4"), (1, b"9600,8N1,"), (1, b"+9600"), (1, b"9600, 7e2"), (1, b"9600,8n1 "))
    b = pick(r, (6, lambda: r.choice([50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 9600, 19200, 38400, 57600, 115200, 230400, 460800])), (3, lambda: int(50 * 10 ** r.uniform(0, 4.2))), (1, lambda: r.choice([460801, 500000, 2000000, 74, 109, 38399, 115199, 2147483647])))
    s = b"%d" % b
    if r.random() < .75:
        s += b",%d" % r.choice([5, 6, 7, 8, 8, 7])
        if r.random() < .8:
            s += r.choice([b"n", b"e", b"o", b"N", b"E", b"O"])
            if r.random() < .8:
                s += b"%d" % r.choice([1, 2])
    return s


def logopts(r, bad=.15):
    w = [r.choice([b"lock", b"nolock", b"sanitize", b"nosanitize", b"timestamp", b"notimestamp", b"LOCK", b"NoLock", b"Sanitize", b"TimeStamp"]) for _ in range(r.randint(1, 4))]
    if r.random() < bad:
        w.insert(r.randrange(len(w) + 1), r.choice([b"bogus", b"no", b"nono", b"lo", b"sanitized", b"nolockx", b"x" * 50, b"no lock"]))
    return r.choice([b",", b",", b" ", b";", b".", b", ", b",,"]).join(w)


def testopts(r, bad=.2):
    def one():
        k = r.choice(b"BMNP")
        v = r.randint(1, 4000) if k == 66 else r.choice([50, 100, 250, 400, 1000]) if k in b"MN" else r.choice([100, 100, 0, 50, 150])
        t = r.choice([b"%d", b"%d", b"0x%x", b"0%o", b"+%d"]) % v
        return bytes([k | r.choice([0, 32])]) + b":" + t
    w = [one() for _ in range(r.randint(1, 4))]
    if r.random() < bad:
        w.insert(r.randrange(len(w) + 1), r.choice([b"B:-1", b"M:-1", b"N:x", b"Q:1", b"B", b"B=5", b"P:", b":", b"M:99999999999", b"M:9223372036854775808", b"B:1x", b"M: ", b"B:2147483648"]))
    return r.choice([b",", b",", b",,"]).join(w)


def ipmiopts(r, bad=.25):
    if r.random() < .25:        # older format
        w = [r.choice([b"user", b"", b"-", b"root", b"x" * 16, b"x" * 17]), r.choice([b"secret", b"-", b"0x414243", b"p" * 20, b"p" * 21]), r.choice([b"kg", b"0x00112233", b"-", b"k" * 20]), r.choice([b"none", b"default", b"solport", b"bogus", b"1", b"0x4"])]
        return b",".join(w[:r.randint(1, 4)])

    def one():
        k = r.choice("UPKLCW")
        good = {"U": [b"admin", b"u", b"x" * 16, b""], "P": [b"pw", b"0x4142", b"0X4a4B4c", b"p" * 20, b"", b"0x" + b"41" * 20, b"0x414"], "K": [b"key", b"0x0102ff", b"k" * 20, b"", b"0x" + b"ab" * 20],
                "L": [b"user", b"OP", b"operator", b"admin", b"Administrator", b"", b"0", b"1", b"2"], "C": [b"", b"0", b"1", b"2", b"3", b"8", b"17", b"0x3", b"6"],
                "W": [b"", b"none", b"default", b"authcap", b"intel20", b"supermicro20", b"sun20", b"opensesspriv", b"solpayloadsize", b"SolPort", b"solstatus", b"serialalertsdeferred", b"1", b"0x5"]}[k]
        ill = {"U": [b"x" * 17], "P": [b"p" * 21, b"0x" + b"41" * 21], "K": [b"k" * 21, b"0x" + b"00" * 21], "L": [b"root", b"9", b"-5", b"1x"], "C": [b"4", b"x", b"99", b"3x"], "W": [b"bogus", b"0x80000000", b"1x"]}[k]
        return (k if r.random() < .7 else k.lower()).encode() + b":" + r.choice(ill if r.random() < bad * .4 else good)
    w = [one() for _ in range(r.randint(1, 5))]
    if r.random() < bad * .3:
        w.insert(r.randrange(len(w) + 1), r.choice([b"X:1", b"U", b"U=a", b":"]))
    return b",".join(w)


def fmt(r):
    """Name of a log file."""
    return pick(r, (5, lambda: b"l%d" % r.randrange(6)), (3, b"%N"), (2, b"%N.log"), (1, b"%D"), (1, b"logs/%N"), (1, b"%Y/%m/%N"), (1, b"new/dir/l1"), (1, b"%N-%D"), (.7, b"x%%%N"), (.7, b"%q%N"), (.7, b"%N%"), (.7, b"@D/abs%N"), (.5, b"%P-%N"), (.3, b"%s.%j.%H%M%S-%N"), (.3, b"logs"))


def con(r, names=NAMES, bad=.1, logp=.5):
    parts = [kv(r, b"name", r.choice(names)), kv(r, b"dev", device(r, bad))]
    if r.random() < logp:
        parts.append(kv(r, b"log", pick(r, (6, lambda: fmt(r)), (1, b""), (.4, b" "), (.3, b"a&b"))))
    if r.random() < .25:
        parts.append(kv(r, b"logopts", logopts(r)))
    if r.random() < .2:
        parts.append(kv(r, b"seropts", seropts(r)))
    if r.random() < .2:
        parts.append(kv(r, b"testopts", testopts(r)))
    if r.random() < .2:
        parts.append(kv(r, b"ipmiopts", ipmiopts(r)))
    if r.random() < bad:
        parts.append(pick(r, (1, b"bogus"), (1, b"name"), (1, b"dev="), (1, b"name=5"), (1, b"global"), (1, b"= x"), (1, b'"str"'), (1, b"log=on"), (1, b"name=\"\""), (1, b"log=\"open"), (1, b"17"), (1, lambda: kv(r, b"name", b"dup")), (1, b"logopts=\" \"")))
    if r.random() < bad * .5:
        parts.pop(0)
    if r.random() < .5:
        r.shuffle(parts)
    return case(r, b"console") + sp(r) + sp(r).join(parts)


def glob(r, bad=.1):
    parts = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        parts.append(pick(r, (5, lambda: kv(r, b"log", pick(r, (4, lambda: fmt(r)), (2, b"%N"), (2, b"g-%N"), (1, b""), (.3, b"noname"), (.3, b"a&%N")))), (3, lambda: kv(r, b"logopts", logopts(r))), (2, lambda: kv(r, b"seropts", seropts(r))),
                          (2, lambda: kv(r, b"testopts", testopts(r))), (2, lambda: kv(r, b"ipmiopts", ipmiopts(r)))))
    if r.random() < bad:
        parts.insert(r.randrange(len(parts) + 1), pick(r, (1, b"bogus"), (1, b"name=x"), (1, b"log"), (1, b"log=7"), (1, b"seropts=\"\""), (1, b"logopts=\"x"), (1, b"port=1")))
    return case(r, b"global") + sp(r) + sp(r).join(parts)


def onoff(r):
    return pick(r, (4, lambda: case(r, r.choice([b"on", b"off"]))), (.4, b'"on"'), (.2, b"yes"), (.2, b"1"))


SERVER = [(2, b"coredump"), (1, b"coredumpdir"), (1.5, b"execpath"), (2, b"keepalive"), (2, b"logdir"), (2, b"logfile"), (2, b"loopback"), (1.5, b"nofile"), (1.5, b"pidfile"), (1.5, b"port"), (1.5, b"resetcmd"), (1, b"syslog"), (1, b"tcpwrappers"), (2, b"timestamp")]


def server(r, bad=.1, skip=()):
    parts = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = pick(r, *[x for x in SERVER if x[1] not in skip])
        if k in (b"coredump", b"keepalive", b"loopback", b"tcpwrappers"):
            v, q = onoff(r), False
        elif k in (b"nofile", b"port", b"timestamp"):
            v, q = pick(r, (6, lambda: {b"nofile": lambda: r.choice([b"0", b"-1", b"300", b"512", b"1024", b"+400"]), b"port": lambda: b"%d" % r.choice([0, 1, 7890, 65535, 65536, 70000]), b"timestamp":
                               lambda: b"%d%s" % (r.choice([0, 1, 5, 60, 90, 1440]), r.choice([b"", b"m", b"h", b"d", b" h", b"M", b" D"]))}[k]()), (.3, b"x"), (.3, b"-5"), (.2, b"10x"), (.2, b'"7"'), (.3, b"99999999d"), (.3, b"5 h h"), (.2, b"5hh")), False
        else:
            q = True
            v = pick(r, (6, lambda: {b"coredumpdir": lambda: r.choice([b"logs", b"@D", b"logs/", b"/", b"", b"nosuch", b"u0"]), b"execpath": lambda: r.choice([b"bin:bin2", b"@D/bin", b"nosuch:bin", b"", b".", b"@D"]), b"logdir": lambda: r.choice([b"logs", b"@D/logs", b"", b"newdir", b"a/b", b"logs/../logs2", b"l1", b"@D/"]),
                                     b"logfile": lambda: r.choice([b"d.log", b"d.log,info", b"d.log,bogus", b"@D/d,debug", b"d.log, ERR", b"d,x,notice", b"d.log,"]), b"pidfile": lambda: r.choice([b"pid", b"run/pid", b"@D/pid2", b"logs/p"]), b"resetcmd": lambda: r.choice([b"true", b"echo %N", b"a&b", b"x y z"]),
                                     b"syslog": lambda: r.choice([b"daemon", b"LOCAL0", b"local7", b"kern", b"bogus", b"local8", b" user", b"user "])}[k]()), (.4, b""), (.3, b"  "))
        parts.append(kv(r, k, v, q))
    if r.random() < bad:
        parts.insert(r.randrange(len(parts) + 1), pick(r, (1, b"bogus"), (1, b"name=x"), (1, b"port"), (1, b"port="), (1, b"logfile=\"x"), (1, b"17"), (1, b"keepalive on"), (1, b"=")))
    return case(r, b"server") + sp(r) + sp(r).join(parts)


def junk(r):
    return pick(r, (2, b""), (2, b"# comment console name=\"c0\" dev=\"test:\""), (1, b"   "), (1, b"\t# 'x"), (1, b"bogus line here"), (1, b'"unterminated'), (1, b"'"), (1, b"17 + 4"), (1, b"console"), (1, b"global"), (1, b"server"), (1, b"name=\"c0\""), (1, b"\\"), (1, b"\\\\"), (1, b"on off"), (1, b"\r"),
                (1, lambda: bytes(r.choice(b"abc=\"'#\\ \t09+-_%&\x80\xff\x01\x7f.,;:{}") for _ in range(r.randint(1, 40)))), (.5, lambda: bytes([r.randrange(1, 256)])), (.5, b"x" * 1200), (.5, b'"' + b"y" * 1500 + b'"'))


def mutate(r, s):
    for _ in range(r.choice([1, 1, 2, 4])):
        k, i = r.randrange(8), r.randrange(len(s) + 1)
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i] + bytes([r.choice(b"\"'=\\#\n\r\t abX09_-+,;.%&\x80\xff\x7f\x01")]) + s[i:]
        elif k == 2:
            s = s[:i] + bytes([r.choice(b"\"'=\\# abX09_-+,;.%&\xfe\xff\x7f")]) + s[i + 1:]
        elif k == 3:
            s = s[:i]
        elif k == 4:
            w = s.split(b" ")
            r.shuffle(w)
            s = b" ".join(w)
        elif k == 5:
            w = s.split(b" ")
            j = r.randrange(len(w))
            s = b" ".join(w[:j] + w[j:j + 1] * 2 + w[j + 1:])
        elif k == 6:
            j = min(len(s), i + r.randint(1, 12))
            s = s[:i] + s[j:]
        else:
            j = s.find(b"=", i)
            s = s[:j] + s[j + 1:] if j >= 0 else s
    return s


def lines(gen, lo, hi):
    """A strategy of lists of lines, each made by gen(random.Random)."""
    return st.lists(st.integers(0, (1 << 48) - 1).map(lambda n: gen(random.Random(n))), min_size=lo, max_size=hi)
