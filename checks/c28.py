"""C28: lists and iterators, fuzzed against an ideal sequence; concurrent histories under a race detector."""
import sys
from vlib import fuzzrun

ID = "C28"
TECH = "coverage-guided fuzzing (libFuzzer, ASan/UBSan) of list.c against an ideal sequence with iterators as cursors; generated histories of several threads under ThreadSanitizer"
RULE = "more than eight operations, among them a mutation while an iterator is live"
NOTE = "every return value, the destructor calls in order, the whole sequence at the end"
ASSUMPTIONS = ["comparison functions are consistent", "items are not NULL"]
TARGETS = ["list"]
THREADS = ["list"]
_m = sys.modules[__name__]
custom = fuzzrun.custom(_m, TARGETS)
replay = fuzzrun.replayer(_m)


def prepare():
    for t in TARGETS:
        fuzzrun.target(t)
    fuzzrun.threads()
