"""Builds conmand, conman and module harnesses from /repo's current working tree.

Results live in /verif/build/<digest of the inputs>; a lock makes concurrent checks share one build.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
WRAPS = ("gettimeofday time clock_gettime poll pthread_create pthread_mutex_lock accept accept4 socket connect "
         "read write recv send writev tcsetattr gethostbyname getaddrinfo gethostbyaddr getnameinfo hosts_ctl openlog closelog syslog __syslog_chk close getsockopt").split()
WRAPS += ["ipmiconsole_" + x for x in ("engine_init engine_teardown engine_submit ctx_create ctx_destroy ctx_status "
                                       "ctx_fd ctx_errnum ctx_generate_break").split()]
SAN = ["-fsanitize=address", "-fsanitize=bounds,null,object-size,return,vla-bound",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "HOME": "/root",
       "TMPDIR": os.environ.get("TMPDIR", "/tmp")}


class BuildError(Exception):
    pass


def config_h():
    p = os.path.join(REPO, "_build", "config.h")
    if not os.path.exists(p):
        p = os.path.join(VERIF, "shim", "config.h.fallback")
    return p


def sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.c")))


def server_sources():
    return [s for s in sources() if not os.path.basename(s).startswith("client")]


def client_sources():
    return [s for s in sources() if not os.path.basename(s).startswith("server")
            and os.path.basename(s) not in ("inevent.c", "tpoll.c")]


def _digest(extra_files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(glob.glob(os.path.join(REPO, "src", "*.[ch]"))) + [config_h()] + sorted(extra_files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:20]


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def _par(cmds):
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, cmds))


def locked_build(name, inputs, extra, build):
    """Runs build(dir) unless it already succeeded for these inputs. Returns the directory."""
    dg = _digest(inputs + [os.path.abspath(__file__)], name + extra)
    d = os.path.join(OUT, "%s-%s" % (name, dg))
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock-" + name), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, ".ok")):
            # keep the cache small: drop older builds of the same name that nobody used for an hour
            for old in glob.glob(os.path.join(OUT, name + "-*")):
                try:
                    if os.path.isdir(old) and os.stat(old).st_mtime < __import__("time").time() - 3600:
                        shutil.rmtree(old, ignore_errors=True)
                except OSError:
                    pass
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            shutil.copy(config_h(), os.path.join(d, "config.h"))
            build(d)
            open(os.path.join(d, ".ok"), "w").close()
    return d


def cflags(d, server=True):
    f = ["-DHAVE_CONFIG_H", "-I" + d, "-I" + os.path.join(REPO, "src"), "-w"]
    f += ["-DWITH_OOMF", "-DWITH_PTHREADS", "-DSYSCONFDIR='/etc'"]
    return f


def daemon():
    """Directory with `conmand` (sanitized, shimmed, fake IPMI library) and `conman` (sanitized)."""
    shim = [os.path.join(VERIF, "shim", "shim.c"), os.path.join(VERIF, "shim", "fake_ipmi.c"), os.path.join(VERIF, "shim", "shim_client.c")]

    def build(d):
        cmds, so, co = [], [], []
        for s in server_sources():
            o = os.path.join(d, "s-" + os.path.basename(s)[:-2] + ".o")
            so.append(o)
            cmds.append(["gcc", "-g", "-O1"] + SAN + cflags(d, True) + ["-c", s, "-o", o])
        for s in client_sources():
            o = os.path.join(d, "c-" + os.path.basename(s)[:-2] + ".o")
            co.append(o)
            cmds.append(["gcc", "-g", "-O1"] + SAN + cflags(d, False) + ["-c", s, "-o", o])
        for s in shim:
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            cmds.append(["gcc", "-g", "-O1", "-w", "-I" + d, "-c", s, "-o", o])
        _par(cmds)
        run(["gcc"] + SAN + so + [os.path.join(d, "shim.o"), os.path.join(d, "fake_ipmi.o")]
            + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
            + ["-o", os.path.join(d, "conmand"), "-lipmiconsole", "-lwrap", "-lpthread"])
        run(["gcc"] + SAN + co + [os.path.join(d, "shim.o"), os.path.join(d, "shim_client.o")]
            + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS if not w.startswith("ipmi")) + ",--wrap=select,--wrap=pselect"]
            + ["-o", os.path.join(d, "conman"), "-lpthread"])
        for f in glob.glob(os.path.join(d, "*.o")):
            os.unlink(f)
    return locked_build("daemon", shim, "", build)


def helpers():
    """Directory with the helper programs of the rig (they do not depend on /repo)."""
    src = [os.path.join(VERIF, "shim", x) for x in ("shim.c", "vproc.c")]
    h = hashlib.sha256()
    for f in src:
        h.update(open(f, "rb").read())
    d = os.path.join(OUT, "helpers-" + h.hexdigest()[:16])
    if not os.path.exists(os.path.join(d, ".ok")):
        os.makedirs(OUT, exist_ok=True)
        with open(os.path.join(OUT, ".lock-helpers"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(os.path.join(d, ".ok")):
                os.makedirs(d, exist_ok=True)
                wr = [w for w in WRAPS if not w.startswith("ipmi")]
                run(["gcc", "-O1", "-w"] + src + ["-Wl," + ",".join("--wrap=" + w for w in wr), "-o", os.path.join(d, "vproc"), "-lpthread"])
                open(os.path.join(d, ".ok"), "w").close()
    return d


if __name__ == "__main__":
    print(daemon())
