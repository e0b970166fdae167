"""Coverage-guided fuzz targets (clang, libFuzzer, ASan and part of UBSan) of single modules.

A target fuzz/NAME.cc decodes the input into a sequence of calls, runs it against the real module and an independent model in C++, and
fails on the first difference. Eight processes search with different seeds; a failing input is minimised and becomes the replay file.
"""
import glob, json, os, re, shutil, subprocess, tempfile, time

from . import build, engine

FUZZ = os.path.join(build.VERIF, "fuzz")
SAN = ["-fsanitize=address", "-fsanitize=bounds,null,object-size,return,vla-bound", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g", "-O1"]
# name -> wrapped calls, longest input
TARGETS = {
    "lex": ([], 600),
    "list": ([], 400),
    "util": ("read write gethostbyname gethostbyaddr".split(), 500),
    "log": ("exit openlog closelog syslog vsyslog".split(), 400),
    "tpoll": ("poll gettimeofday pipe fcntl read write close".split(), 500),
}
SECONDS = {"quick": 30, "thorough": 600}


def _module_sources():
    """The modules of the repository that no program's main() belongs to."""
    return [s for s in build.sources() if not re.match(r"(server|client)", os.path.basename(s))]


def target(name):
    src = os.path.join(FUZZ, name + ".cc")
    common = [os.path.join(FUZZ, "common.cc"), os.path.join(FUZZ, "common.h")]

    def make(d):
        cmds, objs = [], []
        for s in _module_sources():
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            cmds.append(["clang"] + SAN + ["-fsanitize=fuzzer-no-link"] + build.cflags(d) + ["-c", s, "-o", o])
        ho = []
        for s in (src, common[0]):
            o = os.path.join(d, "h-" + os.path.basename(s)[:-3] + ".o")
            ho.append(o)
            cmds.append(["clang++", "-std=c++17"] + SAN + ["-fsanitize=fuzzer-no-link"] + build.cflags(d) + ["-I" + FUZZ, "-c", s, "-o", o])
        build._par(cmds)
        build.run(["ar", "rcs", os.path.join(d, "librepo.a")] + objs)
        wraps = ["-Wl," + ",".join("--wrap=" + w for w in TARGETS[name][0])] if TARGETS[name][0] else []
        build.run(["clang++"] + SAN + ["-fsanitize=fuzzer"] + ho + [os.path.join(d, "librepo.a")] + wraps + ["-o", os.path.join(d, "fuzz"), "-lpthread"])
        for f in glob.glob(os.path.join(d, "*.o")):
            os.unlink(f)
    return os.path.join(build.locked_build("fuzz-" + name, [src] + common, repr(TARGETS[name]), make), "fuzz")


def build_all():
    for n in TARGETS:
        target(n)
    threads()


# -- histories of several threads (fuzz/threads.cc, ThreadSanitizer): the seed of a round takes the place of the input
TSECONDS = {"quick": 12, "thorough": 150}
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer", "-g", "-O1"]


def threads():
    src = os.path.join(FUZZ, "threads.cc")

    def make(d):
        cmds, objs = [], []
        for s in _module_sources():
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            cmds.append(["clang"] + TSAN + build.cflags(d) + ["-c", s, "-o", o])
        h = os.path.join(d, "h-threads.o")
        cmds.append(["clang++", "-std=c++17"] + TSAN + build.cflags(d) + ["-c", src, "-o", h])
        build._par(cmds)
        build.run(["ar", "rcs", os.path.join(d, "librepo.a")] + objs)
        build.run(["clang++"] + TSAN + [h, os.path.join(d, "librepo.a"), "-Wl,--wrap=poll", "-o", os.path.join(d, "threads"), "-lpthread"])
        for f in glob.glob(os.path.join(d, "*.o")):
            os.unlink(f)
    return os.path.join(build.locked_build("fuzz-threads", [src], "", make), "threads")


def _tenv():
    return dict(build.ENV, TSAN_OPTIONS="halt_on_error=1:exitcode=66:history_size=4", TZ="UTC")


def _tmessage(rc, out):
    """The report of a run of the threads program, or None if it says nothing against the program."""
    m = re.search(r"^ORACLE: .*$", out, re.M)
    if m:
        return m.group(0)
    if "WARNING: ThreadSanitizer" in out:
        r = [x for x in out.splitlines() if re.search(r"WARNING: Thread|^ +(Write|Read|Previous|Atomic)|SUMMARY|^ +#[0-3] .*/src/", x)]
        return "\n".join(x.strip() for x in r)[:1500]
    if rc == -14 or rc == 128 + 14:
        return "a round of several threads does not end"
    if rc < 0 or "ERROR: ThreadSanitizer: SEGV" in out:
        return "a round of several threads crashed: %d %s" % (rc, out[-800:])
    return None


def _trun(cmds, secs):
    """Runs thread programs side by side; returns [(rc, output)]."""
    fs, ps = [], []
    for c in cmds:
        f = tempfile.TemporaryFile()
        fs.append(f)
        ps.append(subprocess.Popen(c, env=_tenv(), stdout=f, stderr=subprocess.STDOUT, start_new_session=True))
    end = time.monotonic() + secs + 100
    while any(p.poll() is None for p in ps) and time.monotonic() < end:
        time.sleep(.05)
        if any(p.poll() not in (None, 0) for p in ps):
            break
    r = []
    for p, f in zip(ps, fs):
        stopped = p.poll() is None
        if stopped:
            p.kill()
            p.wait()
        f.seek(0)
        r.append((0 if stopped else p.returncode, f.read().decode("latin-1")))
        f.close()
    return r


def tonce(name, data):
    seed = int.from_bytes(data, "big")
    for rc, out in _trun([[threads(), name.split(":")[1], str(seed), "20", "400"]] * engine.WORKERS, 20):
        m = _tmessage(rc, out)
        if m:
            return m
    return None


def tsearch(name, tier, seed):
    """Returns (coverage, failures) of several threads over generated rounds."""
    secs = float(os.environ.get("VERIF_BUDGET") or TSECONDS[tier])
    cov = {"rounds": 0, "nontrivial": 0, "classes": {}}
    fails = []
    for rc, out in _trun([[threads(), name, str((seed * 1000 + w) * 10000000), str(secs)] for w in range(engine.WORKERS)], secs):
        cov["rounds"] += len(re.findall(r"^SEED ", out, re.M))
        d = re.search(r"^DONE (\d+) (\d+)(.*)$", out, re.M)
        if d:
            cov["nontrivial"] += int(d.group(2))
            for k, v in re.findall(r";([^=]+)=(\d+)", d.group(3)):
                cov["classes"][k] = cov["classes"].get(k, 0) + int(v)
        m = _tmessage(rc, out)
        if m:
            s = re.findall(r"^SEED (\d+)", out, re.M)
            fails.append(("threads:" + name, int(s[-1]).to_bytes(8, "big") if s else bytes(8), m))
        elif rc != 0:
            print("a thread program gave no result: %d %s" % (rc, out[-600:]))
    return cov, fails


def _env(**kw):
    e = dict(build.ENV, ASAN_OPTIONS="abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:handle_abort=1", TZ="UTC")
    e.update(kw)
    return e


def once(name, data, seconds=60):
    """Runs one input. Returns None if it held, else the report."""
    if name.startswith("threads:"):
        return tonce(name, data)
    d = tempfile.mkdtemp(prefix="cmf-")
    try:
        p = os.path.join(d, "in")
        with open(p, "wb") as f:
            f.write(data)
        try:
            q = subprocess.run([target(name), "-timeout=%d" % seconds, p], cwd=d, env=_env(FUZZ_TRACE="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=seconds + 60)
        except subprocess.TimeoutExpired:
            return "the target hangs"
        if q.returncode == 0:
            return None
        return message(q.stdout.decode("latin-1"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def message(out):
    o = re.search(r"^ORACLE: .*$", out, re.M)
    t = re.search(r"^TRACE (.*)$", out, re.M)
    if o:
        m = o.group(0)
    else:
        m = "\n".join(x for x in out.splitlines() if re.search(r"ERROR: |runtime error|SUMMARY|^ +#[0-9] ", x))[:1500] or out[-1500:]
    return m + ("\n  after: " + t.group(1)[:1500] if t else "")


def minimise(name, data, seconds=20):
    if name.startswith("threads:"):
        return data
    d = tempfile.mkdtemp(prefix="cmf-")
    try:
        p = os.path.join(d, "in")
        o = os.path.join(d, "out")
        with open(p, "wb") as f:
            f.write(data)
        try:
            subprocess.run([target(name), "-minimize_crash=1", "-max_total_time=%d" % seconds, "-exact_artifact_path=" + o, p], cwd=d, env=_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=seconds + 60)
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(o):
            with open(o, "rb") as f:
                m = f.read()
            if len(m) <= len(data) and once(name, m) is not None:
                return m
        return data
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirm(mod, name, data):
    """Path of the replay file of a failure that was seen twice more, minimised; else None."""
    if once(name, data) is None or once(name, data) is None:
        return None
    return engine.write_replay(mod.ID, json.dumps({"target": name, "input": minimise(name, data).hex()}))


def search(names, tier, seed, secs=None):
    """Returns (coverage, failures); failure = (target, input, message)."""
    if secs is None:
        secs = float(os.environ.get("VERIF_BUDGET") or SECONDS[tier])
    d = tempfile.mkdtemp(prefix="cmf-")
    procs = []
    try:
        for w in range(engine.WORKERS):
            name = names[w % len(names)]
            wd = os.path.join(d, "w%d" % w)
            cp = os.path.join(wd, "corpus")
            os.makedirs(cp)
            seeds = sorted(glob.glob(os.path.join(FUZZ, "seeds", name, "*")))
            for s in seeds if w >= len(names) else []:      # some start from nothing
                shutil.copy(s, cp)
            lf = open(os.path.join(wd, "log"), "wb")
            p = subprocess.Popen([target(name), "-seed=%d" % (seed * 1000 + w + 1), "-max_total_time=%d" % secs, "-max_len=%d" % TARGETS[name][1], "-len_control=%d" % (0 if w % 2 else 20),
                                  "-artifact_prefix=%s/" % wd, "-timeout=25", "-rss_limit_mb=3000", "-print_final_stats=1", "-reload=0", cp],
                                 cwd=wd, env=_env(FUZZ_STATS=os.path.join(wd, "stats")), stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            procs.append((w, name, wd, p))
        end = time.monotonic() + secs + 90
        while any(p.poll() is None for _, _, _, p in procs):
            if time.monotonic() > end or any(p.poll() not in (None, 0) for _, _, _, p in procs):
                break
            time.sleep(.1)
        for _, _, _, p in procs:
            if p.poll() is None:
                p.terminate()
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "classes": {}, "samples": [], "per_target": {}, "branches": {}}
        fails = []
        for w, name, wd, p in procs:
            try:
                p.wait(20)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            try:
                with open(os.path.join(wd, "stats")) as f:
                    s = json.load(f)
                cov["evaluations"] += s["evaluations"]
                cov["distinct_nontrivial"] += s["distinct_nontrivial"]
                cov["per_target"][name] = cov["per_target"].get(name, 0) + s["evaluations"]
                for k, v in s["classes"].items():
                    k = "%s: %s" % (name, k)
                    cov["classes"][k] = cov["classes"].get(k, 0) + v
                cov["samples"] += ["%s: %s" % (name, x) for x in s["samples"][:1]]
            except (OSError, ValueError):
                pass
            with open(os.path.join(wd, "log"), "rb") as f:
                log = f.read().decode("latin-1")
            m = re.findall(r"cov: (\d+)", log)
            if m:
                cov["branches"][name] = max(cov["branches"].get(name, 0), int(m[-1]))
            for a in glob.glob(os.path.join(wd, "crash-*")) + glob.glob(os.path.join(wd, "timeout-*")) + glob.glob(os.path.join(wd, "oom-*")):
                with open(a, "rb") as f:
                    fails.append((name, f.read(), message(log)))
        fails.sort(key=lambda x: len(x[1]))
        return cov, fails
    finally:
        shutil.rmtree(d, ignore_errors=True)


def custom(mod, names):
    """Entry points for a check module: names = its targets."""
    def run(tier, seed, kpaths):
        n = 0
        cov = None
        for p in engine.corpus(mod.ID):
            n += 1
            c = load(p)
            m = once(*c)
            if m is not None and once(*c) is not None:
                engine.report(mod.ID, p, m)
                return 1, {"evaluations": n, "distinct_nontrivial": n, "rule": mod.RULE, "samples": [p], "saved_cases_replayed": n}, 1
        cov, fails = search(names, tier, seed)
        cov["rule"] = mod.RULE
        cov["saved_cases_replayed"] = n
        cov["samples"] = cov["samples"][:6] or ["none"]
        for t in getattr(mod, "THREADS", []) if not fails else []:
            c, f = tsearch(t, tier, seed)
            cov["threads:" + t] = c
            cov["evaluations"] += c["rounds"]
            cov["distinct_nontrivial"] += c["nontrivial"]
            for k, v in c["classes"].items():
                k = "threads: %s" % k
                cov["classes"][k] = cov["classes"].get(k, 0) + v
            fails += f
        for name, data, msg in fails:
            p = confirm(mod, name, data)
            if p is None:
                print("unreproduced failure of target %s (not reported): %s" % (name, msg[:500]))
                continue
            engine.report(mod.ID, p, "target %s: %s" % (name, once(*load(p)) or msg))
            return 1, cov, 1
        if cov["evaluations"] < 1000:
            print("check inconclusive: %r" % cov)
            return 2, cov, 0
        print("%s: held on %d cases (%d distinct non-trivial)" % (mod.ID, cov["evaluations"], cov["distinct_nontrivial"]))
        return 0, cov, 0
    return run


def load(path):
    with open(path) as f:
        c = json.load(f)["case"]
    return c["target"], bytes.fromhex(c["input"])


def replayer(mod):
    def replay(path):
        m = once(*load(path))
        if m is None:
            print("replay of %s: property held" % path)
            return 0
        engine.report(mod.ID, path, m)
        return 1
    return replay
