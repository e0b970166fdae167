"""C30: string, file and net helpers, including partial transfers, interruptions and locks of another process."""
import sys

from vlib import fuzzrun

ID = "C30"
TARGETS = ["util"]
TECH = "coverage-guided fuzzing (libFuzzer, ASan) of the helper modules: generated arguments, exactly sized buffers, injected partial transfers, interruptions and errors, and a second process holding locks, against independent definitions"
RULE = "a case counts when it makes at least two helper calls (with their checks); distinct inputs are counted"
NOTE = "glibc's own strlcpy and strcasecmp are used on this platform; an append of an empty text to a full buffer may report truncation or not"
ASSUMPTIONS = ["the system's file locks and directories behave as documented", "strings are NUL-terminated unless the helper documents otherwise"]

custom = fuzzrun.custom(sys.modules[__name__], TARGETS)
replay = fuzzrun.replayer(sys.modules[__name__])


def prepare():
    for t in TARGETS:
        fuzzrun.target(t)
