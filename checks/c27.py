"""C27: the tokeniser and the string encoding, fuzzed against an independent tokeniser."""
import sys
from vlib import fuzzrun

ID = "C27"
TECH = "coverage-guided fuzzing (libFuzzer, ASan/UBSan) of lex.c with a semantic oracle: an independent tokeniser written from the rules in lex.h, and the encode/transmit/decode round trip"
RULE = "more than two tokens, or a non-empty string encoded"
NOTE = "token, text, line number, previous token and token name after every call; the text itself unmodified; exactly sized buffers"
ASSUMPTIONS = ["the C locale, as both programs run in", "keyword tables are sorted as the interface requires"]
TARGETS = ["lex"]
_m = sys.modules[__name__]
custom = fuzzrun.custom(_m, TARGETS)
replay = fuzzrun.replayer(_m)


def prepare():
    for t in TARGETS:
        fuzzrun.target(t)
