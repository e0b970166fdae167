import random, re, time
from hypothesis import strategies as st
from vlib.rig import Rig, Client, Violation, lex_encode
from vlib.session import ints, weighted
from .c01 import ASSUMPTIONS

ID = "C09"
N = {"quick": 900, "thorough": 30000}
RULE = ("2-40 consoles with generated names (stems with trailing numbers, mixed case, quotes, blanks, shell and regular expression metacharacters), then 3-14 requests (query, monitor, connect, broadcast connect, glob or regular expression) "
        "whose 0-4 patterns are built from syntax trees derived from the names (literals, ?, *, bracket expressions, classes, escapes; groups, alternation, repetition, anchors) or are invalid. Each tree is matched by an independent matcher; "
        "the reply (success list, error code, count, candidate list, order) is predicted from it. Non-trivial: at least one request with a wildcard selected some but not all consoles.")
TECH = "property-based testing: patterns generated as syntax trees, evaluated by an independent matcher and compared with the daemon's replies"
NOTE = "Exploration: random name sets and patterns on the real daemon."
STEMS = ["a", "b", "node", "Node", "NODE", "rack-", "n0", "x.y", "c_", "", "s p", "it's", "q\"q", "[a]", "st*r", "a\\b", "a?c", "p|q", "(g)", "^$", "a+b", "{1}", "~", "ab", "abc", "b-", "]", "-", "!x", ".h"]
CLASSES = {"alpha": lambda c: c.isalpha(), "digit": lambda c: c.isdigit(), "alnum": lambda c: c.isalnum(), "upper": lambda c: c.isupper(), "lower": lambda c: c.islower(),
           "punct": lambda c: "!" <= c <= "~" and not c.isalnum(), "space": lambda c: c in " \t", "xdigit": lambda c: c in "0123456789abcdefABCDEF"}


# -- syntax trees: ("lit", c) ("any",) ("star",) ("set", neg, items) ; expressions add ("rep", node, m, n) ("grp", [alternatives])
def gen_set(r, c, regex):
    items = []
    for _ in range(r.randint(1, 3)):
        k = r.randrange(4)
        if k == 0:
            a = r.choice("acf09AMx")
            items.append((a, chr(min(ord(a) + r.randint(0, 8), ord("z") if a.islower() else ord("Z") if a.isupper() else ord("9")))))
        elif k == 1 and (not regex or r.random() < .7):
            n = r.choice(sorted(CLASSES))
            if not (regex and n in ("upper", "lower")):
                items.append(n)
        else:
            items.append((c, c) if r.random() < .7 else (r.choice("abn-]^!0_.1"),) * 2)
    items = [i for i in items if not (regex and i[0] in "[\\")]
    if not any(isinstance(i, str) or i[0] not in "^!-" for i in items):
        items.append(("a", "a"))
    return ("set", r.random() < .25, items)


def gen_glob(r, name):
    out, i = [], 0
    while i < len(name):
        x = r.random()
        if x < .62:
            out.append(("lit", name[i]))
        elif x < .72:
            out.append(("any",))
        elif x < .80:
            out.append(("star",))
            i += r.randint(-1, max(0, len(name) - i))
        elif x < .90:
            out.append(gen_set(r, name[i], False))
        elif x < .94:
            out.append(("lit", r.choice("abn019-x")))
        elif x < .97:
            out += [("lit", name[i]), ("star",)]
        i += 1
    if r.random() < .15:
        out.append(("star",))
    return out


def text_set(s, regex, r):
    first, body, last = "", "", ""
    for it in s[2]:
        if isinstance(it, str):
            body += "[:%s:]" % it
        elif it[0] != it[1]:
            body += "%s-%s" % it
        elif it[0] == "]":
            first = "]"
        elif it[0] == "-":
            last = "-"
        elif it[0] in "[\\":
            body += "\\" + it[0]        # shell patterns only
        elif it[0] in "^!":
            last = it[0] + last         # another item is in front
        else:
            body += it[0]
    return "[" + ("" if not s[1] else "^" if regex or r.random() < .5 else "!") + first + body + last + "]"


def text_glob(p, r):
    t = ""
    for n in p:
        if n[0] == "lit":
            t += "\\" + n[1] if n[1] in "*?[\\" or r.random() < .03 else n[1]
        elif n[0] == "any":
            t += "?"
        elif n[0] == "star":
            t += "*"
        else:
            t += text_set(n, False, r)
    return t


def set_has(s, c, fold):
    def one(c):
        return any(CLASSES[i](c) if isinstance(i, str) else i[0] <= c <= i[1] for i in s[2])
    hit = one(c) or (fold and (one(c.lower()) or one(c.upper())))
    return hit != s[1]


def eq(a, b, fold):
    return a == b or fold and a.lower() == b.lower()


def match(p, s, fold=False):
    """The set of end positions when the sequence p is matched at 0."""
    pos = {0}
    for n in p:
        pos = step(n, s, pos, fold)
        if not pos:
            break
    return len(s) in pos


def seq(p, s, pos, fold):
    for n in p:
        pos = step(n, s, pos, fold)
    return pos


def step(n, s, pos, fold):
    k = n[0]
    if k == "lit":
        return {i + 1 for i in pos if i < len(s) and eq(s[i], n[1], fold)}
    if k == "any":
        return {i + 1 for i in pos if i < len(s)}
    if k == "star":
        return set(range(min(pos), len(s) + 1)) if pos else set()
    if k == "set":
        return {i + 1 for i in pos if i < len(s) and set_has(n, s[i], fold)}
    if k == "grp":
        return set().union(*[seq(a, s, pos, fold) for a in n[1]])
    if k == "beg":
        return pos & {0}
    if k == "end":
        return pos & {len(s)}
    out, cur, i = set(), pos, 0
    if n[2] == 0:
        out |= pos
    while cur and (n[3] is None or i < n[3]) and i <= len(s) + 2:
        cur = step(n[1], s, cur, fold)
        i += 1
        if i >= n[2]:
            if cur <= out:
                break
            out |= cur
    return out


def gen_regex(r, name, depth=2):
    out, i = [], 0
    if r.random() < .1:
        out.append(("beg",))
    while i < len(name):
        x = r.random()
        c = name[i] if r.random() < .8 else name[i].swapcase()
        if x < .55:
            n = ("lit", c)
        elif x < .65:
            n = ("any",)
        elif x < .77:
            n = gen_set(r, name[i], True)
        elif x < .87 and depth:
            k = r.randint(1, 3)
            alts = [[("lit", r.choice("abn01xN."))] for _ in range(r.randint(0, 2))] + [gen_regex(r, name[i:i + k], 0)]
            alts = [[m for m in a if m[0] not in ("beg", "end")] or [("lit", "q")] for a in alts]
            r.shuffle(alts)
            n = ("grp", alts)
            i += k - 1
        else:
            n = ("lit", c)
        y = r.random()
        if y < .08:
            n = ("rep", n, 0, None)
        elif y < .14:
            n = ("rep", n, 1, None)
        elif y < .20:
            n = ("rep", n, 0, 1)
        elif y < .24:
            m = r.randint(0, 2)
            n = ("rep", n, m, r.choice([m, m + r.randint(0, 2), None]) if m else r.choice([1, 2, None]))
        elif y < .27:
            n = ("rep", ("any",), 0, None)
            i += r.randint(0, max(0, len(name) - i))
        out.append(n)
        i += 1
    if r.random() < .1:
        out.append(("end",))
    return out


def text_regex(p, r):
    t = ""
    for n in p:
        k = n[0]
        if k == "lit":
            t += "\\" + n[1] if n[1] in "\\^$.[|()*+?{}" else n[1]
        elif k == "any":
            t += "."
        elif k == "set":
            t += text_set(n, True, r)
        elif k == "beg":
            t += "^"
        elif k == "end":
            t += "$"
        elif k == "grp":
            t += "(" + "|".join(text_regex(a, r) for a in n[1]) + ")"
        else:
            m = text_regex([n[1]], r)
            q = {(0, None): "*", (1, None): "+", (0, 1): "?"}.get((n[2], n[3]))
            t += m + (q or ("{%d}" % n[2] if n[2] == n[3] else "{%d,%s}" % (n[2], "" if n[3] is None else n[3])))
    return t


BAD = ["(", "a(b", "[", "[a", "x{2,1}", "[[:foo:]]", "[z-a]", "a{1", "(((", "ab[^"]


def key_cmp(a, b):
    """The documented order; None if neither rule decides."""
    ma, mb = re.match(r"(.*?)(\d+)$", a, re.S), re.match(r"(.*?)(\d+)$", b, re.S)
    if ma and mb and ma.group(1) == mb.group(1):
        return int(ma.group(2)) - int(mb.group(2))
    return -1 if a < b else 1 if a > b else 0


def order_ok(names):
    """Listed in name order, where that is an order (x2 < x10 < x1b < x2 is not)."""
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            if key_cmp(a, b) > 0:
                return False
    return True


def consistent(names):
    return not any(key_cmp(a, b) <= 0 and key_cmp(b, c) <= 0 and key_cmp(a, c) > 0 for a in names for b in names for c in names)


def make_names(spec):
    seen = []
    for stem, num, tail in spec:
        n = STEMS[stem % len(STEMS)] + (str(num) if num is not None else "") + tail
        if n.strip() and n not in seen and not ("'" in n and '"' in n):
            seen.append(n)
    return seen or ["a"]


def decode(line):
    return "".join(chr(b & 127) for b in line)


def parse_list(line):
    """Console names of an OK line."""
    return [decode(m) for m in re.findall(rb" CONSOLE='([^']*)'", line)]


class Req:
    def __init__(self, rig, names, spec, hit):
        self.rig, self.names, self.hit = rig, names, hit
        self.cmd, self.regex, self.bcast, pats = spec
        self.pats, self.sel, self.bad = [], set(), False
        wild = False
        for kind, ix, seed in pats:
            r = random.Random(seed)
            nm = names[ix % len(names)]
            if kind == "bad" and self.regex:
                self.pats = [BAD[seed % len(BAD)]]
                self.bad = True
                break
            if kind == "exact":
                t = [("lit", c) for c in nm]
            elif kind == "none":
                t = [("lit", c) for c in nm + "zz"]
            else:
                t = gen_regex(r, nm) if self.regex else gen_glob(r, nm)
            x = (text_regex if self.regex else text_glob)(t, r)
            if not x:
                continue
            wild |= any(n[0] != "lit" for n in t)
            self.pats.append(x)
            self.sel |= {n for n in names if match(t, n, self.regex)}
        if not self.pats and self.cmd == "QUERY":
            self.sel = set(names)
        if wild and 0 < len(self.sel) < len(names):
            hit("partial")
        if self.sel and not wild:
            hit("exact")

    def read(self, ep):
        end = time.monotonic() + 10
        while True:
            ep.pump()
            if ep.eof or (self.cmd != "QUERY" and b"\n" in ep.rx and ep.rx.startswith(b"OK")) or time.monotonic() > end:
                return bytes(ep.rx)
            self.rig.check_alive()
            time.sleep(0.0003)

    def go(self):
        rig = self.rig
        ep = Client(rig)
        ep.hello(b"u")
        end = time.monotonic() + 10
        while not ep.rx.endswith(b"\n") and not ep.eof and time.monotonic() < end:
            ep.pump()
        if ep.take() != b"OK\n":
            raise Violation("greeting refused")
        opts = ([b"REGEX"] if self.regex else []) + ([b"BROADCAST"] if self.bcast else []) + [b"JOIN"]
        ep.request(self.cmd.encode(), [p.encode("latin-1") for p in self.pats], opts)
        got = self.read(ep)
        what = "%s%s %r" % (self.cmd, " (regex)" if self.regex else "", self.pats)
        sel = sorted(self.sel)
        strict = consistent(self.names)
        self.hit("ordered" if strict else "unordered")

        def listed(l, verb):
            if sorted(l) != sel:
                raise Violation("%s %s %r, should be %r (consoles %r)" % (what, verb, l, sel, self.names))
            if strict and not order_ok(l):
                raise Violation("%s %s %r, not in order" % (what, verb, l))
        if self.bad:
            m = re.fullmatch(rb"ERROR CODE=3 MESSAGE='[^']+'\n", got)
            if not m:
                raise Violation("%s: expected an invalid expression error, got %r" % (what, got))
            self.hit("badregex")
        elif not sel:
            if got != b"ERROR CODE=5 MESSAGE='Found no matching consoles'\n":
                raise Violation("%s: expected no matching consoles, got %r" % (what, got))
            self.hit("none")
        elif self.cmd != "QUERY" and len(sel) > 1 and not (self.cmd == "CONNECT" and self.bcast):
            head, _, rest = got.partition(b"\n")
            if head != b"ERROR CODE=6 MESSAGE='Found %d matching consoles'" % len(sel):
                raise Violation("%s: expected an error naming %d candidates, got %r" % (what, len(sel), got))
            listed(rest.decode("latin-1").split("\n")[:-1], "offers")
            self.hit("toomany")
        else:
            head, nl, rest = got.partition(b"\n")
            if not head.startswith(b"OK ") or not nl or (self.cmd == "QUERY" and rest):
                raise Violation("%s: expected success, got %r" % (what, got))
            if head != b"OK" + b"".join(b" CONSOLE='" + lex_encode(n.encode()) + b"'" for n in parse_list(head)):
                raise Violation("%s: malformed reply %r" % (what, got))
            listed(parse_list(head), "selected")
            self.hit("selected")
        ep.close()
        if self.cmd != "QUERY":
            rig.settle()


def run(case):
    stats = {}

    def hit(k):
        stats[k] = stats.get(k, 0) + 1
    names = make_names(case["names"])
    conf = "server port=0\nserver loopback=on\n"
    for i, n in enumerate(names):
        q = "'" if '"' in n else '"'
        conf += 'console name=%s%s%s dev="unix:nothing%d"\n' % (q, n, q, i)
    with Rig() as rig:
        rig.start(conf)
        for spec in case["reqs"]:
            Req(rig, names, spec, hit).go()
        rig.check_alive()
        if rig.stop() != 0:
            raise Violation("daemon exited with status %s" % rig.exited)
    return stats.get("partial", 0) > 0, list(stats)


def strategy(tier):
    name = st.tuples(ints(0, len(STEMS) - 1), st.one_of(st.none(), ints(0, 12), ints(0, 120), st.sampled_from([99, 100, 999, 1000, 12345678])), st.sampled_from(["", "", "", "", "b", "-x", " ", "'"])).map(list)
    dense = st.tuples(ints(0, 9), ints(0, 12), st.just("")).map(list)
    pat = st.tuples(st.sampled_from(["tree"] * 7 + ["exact", "none", "bad"]), ints(0, 40), ints(0, 1 << 20)).map(list)
    req = st.tuples(st.sampled_from(["QUERY"] * 4 + ["MONITOR", "CONNECT", "CONNECT"]), st.booleans(), st.booleans(), st.lists(pat, max_size=4)).map(list)
    big = 40 if tier == "quick" else 120
    return st.fixed_dictionaries({"names": st.lists(st.one_of(name, dense), min_size=2, max_size=big), "reqs": st.lists(req, min_size=3, max_size=14)})
