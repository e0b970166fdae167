"""C29: timers and descriptor readiness of the multiplexor, fuzzed on virtual time against a model; other threads act while it waits."""
import sys
from vlib import fuzzrun

ID = "C29"
TECH = "coverage-guided fuzzing (libFuzzer, ASan/UBSan) of tpoll.c on a simulated clock, kernel and concurrent callers, against a model of timers and event sets; generated histories of several threads under ThreadSanitizer"
RULE = "a wait, a fired timer and more than four operations"
NOTE = "what poll() is asked for and how long, order and time of every callback, every return value; the kernel writes results into the array it was given"
ASSUMPTIONS = ["the clock is not set back while timers run", "readiness of a descriptor changed by another thread during a wait is unspecified until the next wait"]
TARGETS = ["tpoll"]
THREADS = ["tpoll"]
_m = sys.modules[__name__]
custom = fuzzrun.custom(_m, TARGETS)
replay = fuzzrun.replayer(_m)


def prepare():
    for t in TARGETS:
        fuzzrun.target(t)
    fuzzrun.threads()
