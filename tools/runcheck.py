import os, signal, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
for n in range(1, 32):                                  # nothing inherited (nohup, say) may decide how the processes under test react
    if n not in (signal.SIGKILL, signal.SIGSTOP, signal.SIGINT):
        try:
            signal.signal(n, signal.SIG_DFL)
        except (OSError, ValueError):
            pass
signal.pthread_sigmask(signal.SIG_SETMASK, [])
signal.signal(signal.SIGPIPE, signal.SIG_IGN)           # as Python has it
signal.signal(signal.SIGINT, signal.default_int_handler)
from vlib import engine, build
if sys.argv[1] == "setup":
    build.daemon(); build.helpers()
    try:
        from vlib import fuzzrun
        fuzzrun.build_all()
    except ImportError:
        pass
    sys.exit(0)
sys.exit(engine.main(sys.argv[1], sys.argv[2:]))
