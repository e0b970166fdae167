"""Reference tokeniser of the configuration language and the client protocol (written from the documentation in lex.h and the manual pages)."""
ERR, EOF, EOL, INT, STR, WORD, KEY, CHR = "ERR", "EOF", "EOL", "INT", "STR", "WORD", "KEY", "CHR"
MAXSTR = 1024
ALPHA = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
DIGIT = frozenset(b"0123456789")


class Tok:
    __slots__ = ("k", "t", "line")

    def __init__(self, k, t, line):
        self.k, self.t, self.line = k, t, line

    def key(self, name):
        return self.k == KEY and self.t.lower() == name

    def isstr(self):
        """A quoted string or a word that is no keyword."""
        return self.k in (STR, WORD)

    def __repr__(self):
        return "%s(%r)@%d" % (self.k, self.t, self.line)


def tokens(b, keys=()):
    """All tokens of the bytes b up to the first NUL, ending with EOF.  keys: lower-case bytes."""
    i = b.find(b"\0")
    if i >= 0:
        b = b[:i]
    n = len(b)
    i, line, out = 0, 1, []
    while True:
        while i < n:
            c = b[i]
            if c in b" \t\v\f":
                i += 1
            elif c == 35:
                while i < n and b[i] not in b"\r\n":
                    i += 1
            elif c == 92 and b[i + 1:i + 2] == b"\n":
                i += 2
                line += 1
            elif c == 92 and b[i + 1:i + 3] == b"\r\n":
                i += 3
                line += 1
            else:
                break
        if i >= n:
            out.append(Tok(EOF, b"", line))
            return out
        c = b[i]
        if c in b"\r\n":
            out.append(Tok(EOL, b"", line))
            i += 2 if b[i:i + 2] == b"\r\n" else 1
            line += 1
        elif c in b"'\"":
            j = i + 1
            while j < n and b[j] != c and b[j] not in b"\r\n":
                j += 1
            if j < n and b[j] == c:
                out.append(Tok(STR, b[i + 1:j][:MAXSTR - 1], line))
                i = j + 1
            else:
                out.append(Tok(ERR, b"", line))
                i = j
        elif c in ALPHA:
            j = i
            while j < n and (b[j] in ALPHA or b[j] in DIGIT):
                j += 1
            t = b[i:j][:MAXSTR - 1]
            out.append(Tok(KEY if t.lower() in keys else WORD, t, line))
            i = j
        elif c in DIGIT or (c in b"+-" and i + 1 < n and b[i + 1] in DIGIT):
            j = i + 1
            while j < n and b[j] in DIGIT:
                j += 1
            out.append(Tok(INT, b[i:j][:MAXSTR - 1], line))
            i = j
        else:
            out.append(Tok(CHR, bytes([c]), line))
            i += 1
