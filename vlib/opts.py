"""Reference models of the option strings (from conman.conf(5)).  Each takes the string (bytes) and the previous settings and returns (settings, None) or (None, error message)."""
import ctypes, re

SP = b" \t\n\v\f\r"
BPS = [50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 9600, 19200, 38400, 57600, 115200, 230400, 460800]
SER0 = (9600, 8, "n", 1)
LOG0 = {"lock": True, "sanitize": False, "timestamp": False}
TEST0 = {"B": 1024, "M": -1, "N": -1, "P": 100}
IPMI0 = {"U": None, "P": None, "K": None, "L": -1, "C": -1, "W": 0xffffffff}
INTMAX = 2147483647


def atoi(t):
    """(int) strtol(t, NULL, 10)"""
    m = re.match(rb"[ \t\n\v\f\r]*([-+]?[0-9]+)", t)
    v = int(m.group(1)) if m else 0
    v = max(-(1 << 63), min((1 << 63) - 1, v)) & 0xffffffff
    return v - (1 << 32) if v & 0x80000000 else v


def serial(t, prev):
    bps, db, par, sb = prev
    if t == b"":
        return None, b"encountered empty options string"
    m = re.match(rb"[ \t\n\v\f\r]*([-+]?[0-9]+)(?:,[ \t\n\v\f\r]*([-+]?[0-9]+)(?:([\0-\xff])(?:[ \t\n\v\f\r]*([-+]?[0-9]+))?)?)?", t, re.S)
    if not m:
        return None, b"expected INTEGER >0 for bps setting"
    v = atoi(m.group(1))
    if v < 50:
        return None, b"expected INTEGER >0 for bps setting"
    bps = max(b for b in BPS if b <= v)
    if m.group(2) is not None:
        db = atoi(m.group(2))
        if not 5 <= db <= 8:
            return None, b"expected INTEGER 5-8 for databits setting"
    if m.group(3) is not None:
        par = m.group(3).decode("latin-1").lower()
        if par not in "noe":
            return None, b"expected (N|O|E) for parity setting"
    if m.group(4) is not None:
        sb = atoi(m.group(4))
        if not 1 <= sb <= 2:
            return None, b"expected INTEGER 1-2 for stopbits setting"
    if t[m.end():].strip(SP):
        return None, b'invalid seropts value "' + t + b'"'
    return (bps, db, par, sb), None


def log(t, prev):
    """Returns (settings, None, warnings)"""
    n, warn = dict(prev), []
    for w in re.split(rb"[ \t\n.,;]+", t):
        l = w.lower().decode("latin-1")
        if l == "":
            continue
        if l in n:
            n[l] = True
        elif l[:2] == "no" and l[2:] in n:
            n[l[2:]] = False
        else:
            warn.append(b"ignoring unrecognized token '" + w + b"'")
    return n, None, warn


def strtol(t):
    """Base 0.  Value of the complete string (the empty one is zero), or None."""
    m = re.fullmatch(rb"[ \t\n\v\f\r]*([-+]?)(?:0[xX]([0-9a-fA-F]+)|0([0-7]*)|([1-9][0-9]*))", t)
    if t == b"":
        return 0
    if not m:
        return None
    v = int(m.group(2), 16) if m.group(2) else int(m.group(4)) if m.group(4) else int(m.group(3) or b"0", 8)
    return -v if m.group(1) == b"-" else v


def test(t, prev):
    if len(t) >= 1024:
        return None, b"testopts string exceeds 1023-byte maximum"
    n = dict(prev)
    for w in t.split(b","):
        if w == b"":
            continue
        e = b'invalid testopts value "' + w + b'"'
        if len(w) < 2 or w[0] not in b"BbMmNnPp" or w[1:2] != b":":
            return None, e
        v = strtol(w[2:])
        if v is None or not 0 <= v <= INTMAX:
            return None, e
        k = chr(w[0]).upper()
        n[k] = min(v, 100) if k == "P" else v
    return n, None


def test_effective(o):
    """(bytes, maximum, minimum, probability) after defaults."""
    mx = 100 if o["M"] < 0 else o["M"]
    mn = mx if o["N"] < 0 or o["N"] >= mx else o["N"]
    return o["B"], mx, mn, o["P"]


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL("libipmiconsole.so.2")
        for n in ("username", "password", "k_g", "privilege_level", "cipher_suite_id", "workaround_flags"):
            getattr(_lib, "ipmiconsole_%s_is_valid" % n).restype = ctypes.c_int
    return _lib


WF = {"authcap": 1, "intel20": 2, "supermicro20": 4, "sun20": 8, "opensesspriv": 16, "integritycheckvalue": 32, "nochecksumcheck": 64, "serialalertsdeferred": 128, "solpacketseq": 256,
      "solpayloadsize": 1 << 24, "solport": 1 << 25, "solstatus": 1 << 26, "solchannelsupport": 1 << 27, "none": 0, "default": 0xffffffff, "": 0xffffffff}


def key(t, limit):
    """A secret in ASCII or hexadecimal; None if too long."""
    if t[:2] in (b"0x", b"0X") and re.fullmatch(rb"[0-9a-fA-F]*", t[2:]):
        h = t[2:]
        if len(h) > 2 * limit:
            return None
        return bytes(int(h[i:i + 2].ljust(2, b"0"), 16) for i in range(0, len(h), 2))
    return t if len(t) <= limit else None


def _ipmi_one(n, k, v):
    L = lib()
    s = v.decode("latin-1").lower()
    if k == "U":
        if len(v) > 16:
            return b"IPMI username exceeds 16-byte maximum"
        if v and not L.ipmiconsole_username_is_valid(v):
            return b"invalid IPMI username"
        n["U"] = v
    elif k == "P":
        x = key(v, 20)
        if x is None:
            return b"IPMI password exceeds 20-byte maximum"
        x = x.split(b"\0")[0]
        if v and not L.ipmiconsole_password_is_valid(x):
            return b"invalid IPMI password"
        n["P"] = x
    elif k == "K":
        x = key(v, 20)
        if x is None:
            return b"IPMI K_g exceeds 20-byte maximum"
        if v and not L.ipmiconsole_k_g_is_valid(x, len(x)):
            return b"invalid IPMI K_g"
        n["K"] = x
    elif k == "L":
        names = {"": -1, "user": 0, "op": 1, "operator": 1, "admin": 2, "administrator": 2}
        if s in names:
            n["L"] = names[s]
        else:
            x = strtol(v)
            if x is None or abs(x) >> 63:
                return b'invalid IPMI privilege level "' + v + b'"'
            if not L.ipmiconsole_privilege_level_is_valid(ctypes.c_int(x & 0xffffffff)):
                return b"invalid IPMI privilege level %d" % x
            n["L"] = ctypes.c_int(x & 0xffffffff).value
    elif k == "C":
        if v == b"":
            n["C"] = -1
        else:
            x = strtol(v)
            if x is None or abs(x) >> 63:
                return b'invalid IPMI cipher suite "' + v + b'"'
            if not L.ipmiconsole_cipher_suite_id_is_valid(ctypes.c_int(x & 0xffffffff)):
                return b"invalid IPMI cipher suite %d" % x
            n["C"] = ctypes.c_int(x & 0xffffffff).value
    else:
        if s in WF:
            f = WF[s]
        else:
            x = strtol(v)
            if x is None or abs(x) >> 64:
                return b'invalid IPMI workaround flag "' + v + b'"'
            f = x & 0xffffffff
            if not L.ipmiconsole_workaround_flags_is_valid(ctypes.c_uint(f)):
                return b"invalid IPMI workaround flag 0x%X" % f
        n["W"] = f if f in (0, 0xffffffff) or n["W"] == 0xffffffff else n["W"] | f
    return None


def ipmi(t, prev):
    if len(t) >= 1024:
        return None, b"ipmiopts string exceeds 1023-byte maximum"
    n = dict(prev)
    words = [w for w in t.split(b",") if w]
    if t != b"" and t[1:2] != b":":     # the older format
        for i, w in enumerate(words):
            e = _ipmi_one(n, "UPKW"[min(i, 3)], b"" if w == b"-" else w)
            if e:
                return None, e
    else:
        for w in words:
            if w[:1].upper() not in (b"U", b"P", b"K", b"L", b"C", b"W") or w[1:2] != b":":
                return None, b'invalid ipmiopts string "' + w + b'"'
            e = _ipmi_one(n, chr(w[0]).upper(), w[2:])
            if e:
                return None, e
    return n, None


def ipmi_line(o):
    """What the stand-in of libipmiconsole reports for these settings."""
    h = lambda v: "-" if v is None else "x" + v.hex()
    return [h(o["U"]), h(o["P"]), h(o["K"]), str(o["L"]), str(o["C"]), str(o["W"])]
