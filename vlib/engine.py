"""Runner of a property's check: generated cases on 8 workers, shrinking, replay, evidence.

A check module (checks/<id>.py) provides
    ID, RULE, LEVEL_NOTE...
    N = {"quick": n, "thorough": n}       number of generated cases (upper bound; wall-clock budget is the backstop)
    strategy(tier)                        hypothesis strategy; a case is made of dict/list/str/int/bytes/bool/None
    run(case)                             executes the case against the real code and the oracle.
                                          returns (nontrivial: bool, classes: iterable of labels)
                                          raises Violation (property broken) or Inconclusive (environment)
or, for fuzz harnesses, a function `custom(ctx)`; see vlib/fuzzrun.py.
"""
import errno, hashlib, importlib, json, os, random, signal, sys, time, traceback, multiprocessing as mp

from .rig import Violation, Inconclusive
from . import rig as rigm
from . import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")
BUDGET = {"quick": 45.0, "thorough": 780.0}     # wall-clock backstop of the generated part, seconds
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {"$b": bytes(x).hex()}
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return x


def dec(x):
    if isinstance(x, dict):
        if set(x) == {"$b"}:
            return bytes.fromhex(x["$b"])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def dumps(case):
    return json.dumps(enc(case), sort_keys=True)


def size_of(case):
    return len(dumps(case))


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.inconclusive = 0
        self.errors = 0
        self.digests = set()
        self.classes = {}
        self.samples = []
        self.notes = []
        self.failing = []       # cases on which the check itself failed

    def add(self, case, nontrivial, classes):
        self.evaluations += 1
        for c in set(classes or ()):
            self.classes[c] = self.classes.get(c, 0) + 1
        if nontrivial:
            d = hashlib.sha1(dumps(case).encode()).digest()[:8]
            if d not in self.digests:
                self.digests.add(d)
                if len(self.samples) < 3:
                    s = dumps(case)
                    self.samples.append(json.loads(s) if len(s) < 1500 else s[:1500] + "...")


class Enough(BaseException):
    """Ends the shrinking of a failure; the best case so far is kept."""


def worker(mod, tier, seed, w, nworkers, total, deadline, q, stop):
    """Runs chunks of generated cases until its share or the budget is used up."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, strategies as st
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    stats = Stats()
    fail = None
    t_shrink_end = [None]
    best = [None]
    last_msg = [""]
    share = (total - w + nworkers - 1) // nworkers
    chunk = max(1, min(getattr(mod, "CHUNK", 40), share))
    done = 0
    i = 0
    shrink_cap = getattr(mod, "SHRINK_S", 25.0)
    strat = mod.strategy(tier)

    def body(case):
        if t_shrink_end[0] is not None:
            # shrinking: after the cap only the best case keeps failing
            if time.monotonic() > t_shrink_end[0]:
                raise Enough()
        elif stop.value or time.monotonic() > deadline:
            return
        try:
            r = mod.run(case)
        except Violation as e:
            s = dumps(case)
            if best[0] is None or len(s) <= len(best[0]):
                best[0], last_msg[0] = s, str(e)
            sweep()
            if t_shrink_end[0] is None:
                t_shrink_end[0] = time.monotonic() + shrink_cap
            raise
        except Inconclusive as e:
            stats.inconclusive += 1
            if len(stats.notes) < 3:
                stats.notes.append(str(e)[:200])
            return
        except Exception:       # the check itself failed on this case: not a verdict on the code
            stats.errors += 1
            stats.notes.append("check error: " + traceback.format_exc()[-600:])
            if len(stats.failing) < 4:
                stats.failing.append(dumps(case))
                print(traceback.format_exc()[-1500:])
            if stats.errors > 3 and t_shrink_end[0] is None:
                stop.value = 1
            return
        stats.add(case, *(r if r is not None else (True, ())))

    try:
        while done < share and not stop.value and time.monotonic() < deadline:
            n = min(chunk, share - done)
            f = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                         suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])(
                hypothesis.seed(seed * 1000003 + w * 1009 + i)(given(strat)(body)))
            try:
                f()
            except (Violation, Enough):
                pass
            except Exception as e:      # hypothesis: Flaky etc. - the saved case decides
                if best[0] is None:
                    raise
                last_msg[0] += " [%s]" % type(e).__name__
            if best[0] is not None:
                fail = (best[0], last_msg[0])
                stop.value = 1
                break
            done += n
            i += 1
        q.put((w, stats, fail, None))
    except BaseException:
        q.put((w, stats, None, traceback.format_exc()))


def load_known():
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            return json.load(f)
    return {"findings": []}


def write_replay(ident, case_json, name=None):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (ident, name or hashlib.sha1(case_json.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        json.dump({"property": ident, "case": json.loads(case_json)}, f, indent=1)
        f.write("\n")
    return p


def run_replay(mod, path):
    """One execution of a saved case; returns None or the violation message."""
    with open(path) as f:
        case = dec(json.load(f)["case"])
    if "target" in case:
        from . import fuzzrun
        return fuzzrun.once(*fuzzrun.load(path))
    try:
        mod.run(case)
    except Violation as e:
        return str(e)
    return None


def corpus(ident):
    d = os.path.join(VERIF, "corpus", ident)
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".json")) if os.path.isdir(d) else []


def confirm(mod, path, msg, tries=5, need=2):
    """The replay file must fail again before anything is reported."""
    hits = 0
    for k in range(tries):
        try:
            m = run_replay(mod, path)
        except Inconclusive:
            m = None
        if m is not None:
            hits += 1
            msg = m
        if hits >= need:
            return msg
    return None


def erratic(mod, cases):
    """A case on which the check fails, not by a verdict, at every replay: the program does what no interpretation allows for."""
    for s in sorted(cases, key=len)[:6]:
        p = write_replay(mod.ID, s)
        n = 0
        for _ in range(5):
            try:
                m = run_replay(mod, p)
                if m is None:
                    break
            except Inconclusive:
                break
            except (MemoryError, BlockingIOError):
                break
            except Exception as e:
                if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EDQUOT, errno.EROFS):
                    break
                m = "the program's behaviour cannot be interpreted: " + traceback.format_exc()[-800:]
            n += 1
        if n == 5:
            return p, m
        os.unlink(p)
    return None


def sweep():
    """Ends what processes are left below this one: daemons that outlive a failed case."""
    me = os.getpid()
    for _ in range(20):
        kids = {}
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    with open("/proc/%s/stat" % d) as f:
                        t = f.read()
                except OSError:
                    continue
                w = t[t.rindex(")") + 2:].split()
                kids.setdefault(int(w[1]), []).append((int(d), w[0], t[t.index("(") + 1:t.rindex(")")]))
        todo, left = [me], []
        while todo:
            for pid, state, name in kids.get(todo.pop(), ()):
                todo.append(pid)
                if state != "Z" and name == "conmand":
                    left.append(pid)
        if not left:
            break
        for pid in left:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        time.sleep(0.02)


def evidence(ident, d):
    p = os.path.join(VERIF, "evidence")
    os.makedirs(p, exist_ok=True)
    tmp = os.path.join(p, ".%s.tmp" % ident)
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write("\n")
    os.rename(tmp, os.path.join(p, ident + ".json"))


def report(ident, path, msg):
    print("--- %s" % msg[:3000])
    print("VIOLATION property=%s replay=%s" % (ident, path))
    sys.stdout.flush()


def _corpus_one(a):
    mod_name, path = a
    mod = importlib.import_module(mod_name)
    try:
        return path, run_replay(mod, path), None
    except Inconclusive as e:
        return path, None, str(e)


def main(ident, argv):
    rigm.subreaper()
    try:
        return main_(ident, argv)
    finally:
        sweep()


def main_(ident, argv):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    modname = "checks." + ident.lower()
    mod = importlib.import_module(modname)
    if getattr(mod, "prepare", None):
        mod.prepare()
    if argv[:1] == ["--replay"]:
        if hasattr(mod, "replay"):
            return mod.replay(argv[1])
        m = run_replay(mod, argv[1])
        if m is None:
            print("replay of %s: property held" % argv[1])
            return 0
        report(ident, argv[1], m)
        return 1
    known = load_known()
    kpaths = {}
    for e in known["findings"]:
        if e.get("property") == ident and e.get("status") == "known":
            kpaths[os.path.join(VERIF, e["case"])] = e
    if hasattr(mod, "custom"):
        rc, cov, viol = mod.custom(tier, seed, kpaths)
        ev(ident, mod, tier, seed, cov, viol, t0)
        return rc
    violations = []
    stats = Stats()
    notes = []
    # known findings: reported while they still fail, never a violation
    for p, e in sorted(kpaths.items()):
        try:
            if run_replay(mod, p) is not None:
                print("KNOWN-FINDING: property=%s %s" % (ident, e["what"]))
        except Inconclusive:
            pass
    ctx = mp.get_context("fork")
    # replay tier
    paths = [p for p in corpus(ident) if p not in kpaths]
    if paths:
        with ctx.Pool(min(WORKERS, len(paths))) as pool:
            for p, m, inc in pool.imap_unordered(_corpus_one, [(modname, p) for p in paths]):
                stats.evaluations += 1
                if inc:
                    stats.inconclusive += 1
                if m is not None and not violations:
                    m2 = confirm(mod, p, m)
                    if m2 is not None:
                        violations.append((p, m2))
                    else:
                        notes.append("saved case %s failed once and did not again" % os.path.basename(p))
    flaky = 0
    fuzzed = None
    if not violations and getattr(mod, "FUZZ", None):
        from . import fuzzrun
        secs = float(os.environ["VERIF_BUDGET"]) / 4 if os.environ.get("VERIF_BUDGET") else {"quick": 12, "thorough": 200}[tier]
        fuzzed, found = fuzzrun.search(mod.FUZZ, tier, seed, secs)
        for name, data, msg in found:
            p = fuzzrun.confirm(mod, name, data)
            if p:
                violations.append((p, "target %s: %s" % (name, fuzzrun.once(name, data) or msg)))
                break
            notes.append("unreproduced failure of target %s: %s" % (name, msg[:300]))
        stats.evaluations += fuzzed["evaluations"]
        for k, v in fuzzed["classes"].items():
            stats.classes[k] = v
    if not violations:
        total = mod.N[tier]
        if os.environ.get("VERIF_N"):
            total = int(os.environ["VERIF_N"])
        budget = getattr(mod, "BUDGET", {}).get(tier, BUDGET[tier])
        if os.environ.get("VERIF_BUDGET"):
            budget = float(os.environ["VERIF_BUDGET"])
        end = time.monotonic() + budget
        attempt = 0
        while attempt < 3:
            q = ctx.Queue()
            stop = ctx.Value("i", 0)
            ps = [ctx.Process(target=worker, args=(mod, tier, seed + 7919 * attempt, w, WORKERS, total, end, q, stop))
                  for w in range(WORKERS)]
            for p in ps:
                p.start()
            fails = []
            for _ in ps:
                w, s, f, exc = q.get()
                if exc:
                    for p in ps:
                        p.terminate()
                    print(exc)
                    print("check error in worker %d" % w)
                    return 2
                stats.evaluations += s.evaluations
                stats.inconclusive += s.inconclusive
                stats.errors += s.errors
                stats.failing += s.failing
                stats.digests |= s.digests
                for k, v in s.classes.items():
                    stats.classes[k] = stats.classes.get(k, 0) + v
                stats.samples += s.samples[:2]
                notes += s.notes[:2]
                if f:
                    fails.append(f)
            for p in ps:
                p.join()
            fails.sort(key=lambda f: len(f[0]))
            for s, msg in fails:
                p = write_replay(ident, s)
                m = confirm(mod, p, msg)
                if m is not None:
                    violations.append((p, m))
                    break
                flaky += 1
                notes.append("a case failed once and could not be reproduced: %s" % msg[:300])
                print("unreproduced failure (not reported): %s" % msg[:600])
            if violations or not fails or time.monotonic() > end:
                break
            attempt += 1
        if not violations and stats.errors > 3:
            e = erratic(mod, stats.failing)
            if e:
                violations.append(e)
    cov = {"evaluations": stats.evaluations, "distinct_nontrivial": len(stats.digests), "rule": mod.RULE,
           "samples": stats.samples[:6] or ["none"], "classes": stats.classes, "inconclusive": stats.inconclusive,
           "check_errors": stats.errors, "unreproduced_failures": flaky, "notes": notes[:10], "saved_cases_replayed": len(paths)}
    if fuzzed:
        cov["distinct_nontrivial"] += fuzzed["distinct_nontrivial"]
        cov["fuzzed"] = {k: fuzzed[k] for k in ("evaluations", "per_target", "branches", "distinct_nontrivial")}
        cov["samples"] += fuzzed["samples"][:2]
    ev(ident, mod, tier, seed, cov, len(violations), t0)
    for p, m in violations[:1]:
        report(ident, p, m)
    if violations:
        return 1
    if stats.inconclusive > max(20, stats.evaluations // 5):
        print("check inconclusive: %d of %d cases; %s" % (stats.inconclusive, stats.evaluations, notes[:3]))
        return 2
    if stats.errors > 5:
        print("check inconclusive: the check itself failed on %d cases; %s" % (stats.errors, notes[:2]))
        return 2
    print("%s: held on %d cases (%d distinct non-trivial) in %.1fs" % (ident, stats.evaluations, cov["distinct_nontrivial"], time.monotonic() - t0))
    return 0


def ev(ident, mod, tier, seed, cov, nviol, t0):
    evidence(ident, {"property": ident, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
                     "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
                     "violations": nviol, "wall_s": round(time.monotonic() - t0, 2)})
