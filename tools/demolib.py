"""Helper for the demonstrations: runs the built conmand in a scratch directory and talks to it."""
import atexit, os, re, select, shutil, signal, socket, subprocess, sys, tempfile, time

REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo.")
procs = []


def cleanup():
    for p in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    shutil.rmtree(TMP, ignore_errors=True)


atexit.register(cleanup)
signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))


def path(*a):
    return os.path.join(TMP, *a)


def put(name, text):
    if isinstance(text, str):
        text = text.encode()
    with open(path(name), "wb") as f:
        f.write(text)


def get(name):
    try:
        with open(path(name), "rb") as f:
            return f.read()
    except OSError:
        return b""


def check(ok, what):
    if not ok:
        print("BROKEN: %s" % what)
        sys.stdout.flush()
        cleanup()
        os._exit(1)


def wait(f, tmo=10):
    end = time.time() + tmo
    while time.time() < end:
        r = f()
        if r:
            return r
        time.sleep(0.01)
    return f()


class Daemon:
    def __init__(self, conf, args=(), env=None, port=None, name="conmand"):
        self.log = name + ".err"
        put("conman.conf", ("" if port else "server port=0\nserver loopback=on\n") + conf)
        cmd = [REPO + "/_build/conmand", "-F", "-c", path("conman.conf")] + list(args)
        self.p = subprocess.Popen(cmd, cwd=TMP, stdin=subprocess.DEVNULL, stdout=open(path(self.log), "ab"), stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})))
        procs.append(self.p)
        m = wait(lambda: re.search(rb"Listening on (?:TCP )?port (\d+)", get(self.log)) or self.p.poll() is not None)
        check(m and m is not True, "daemon did not start: %r" % get(self.log))
        self.port = int(m.group(1))

    def stderr(self):
        return get(self.log)

    def sig(self, s):
        self.p.send_signal(s)

    def stop(self, s=signal.SIGTERM, tmo=10):
        self.p.send_signal(s)
        try:
            return self.p.wait(tmo)
        except subprocess.TimeoutExpired:
            return None


class Peer:
    """A socket with a receive buffer."""
    def __init__(self, s):
        self.s = s
        self.buf = b""
        self.eof = False

    def send(self, data):
        self.s.sendall(data.encode("latin-1") if isinstance(data, str) else data)

    def pump(self, t):
        if self.eof:
            time.sleep(t)
            return False
        r, _, _ = select.select([self.s], [], [], t)
        if not r:
            return False
        try:
            d = self.s.recv(65536)
        except OSError:
            d = b""
        if not d:
            self.eof = True
        self.buf += d
        return bool(d)

    def until(self, what, tmo=10):
        """Waits for the bytes what; returns whether they came."""
        what = what.encode() if isinstance(what, str) else what
        end = time.time() + tmo
        while what not in self.buf and time.time() < end and not self.eof:
            self.pump(0.05)
        return what in self.buf

    def quiet(self, t=0.4):
        """Collects until nothing has come for t seconds."""
        while self.pump(t):
            pass
        return self.buf

    def take(self):
        b, self.buf = self.buf, b""
        return b

    def closed(self, tmo=5):
        end = time.time() + tmo
        while not self.eof and time.time() < end:
            self.pump(0.05)
        return self.eof

    def close(self):
        self.s.close()


def connect(port):
    s = socket.create_connection(("127.0.0.1", port))
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return Peer(s)


def line(p, tmo=10):
    end = time.time() + tmo
    while b"\n" not in p.buf and not p.eof and time.time() < end:
        p.pump(0.05)
    l, _, p.buf = p.buf.partition(b"\n")
    return l.decode("latin-1")


def request(port, cmd, names, opts=(), user="demo"):
    """Returns (peer, reply line)."""
    p = connect(port)
    p.send("HELLO USER='%s' TTY='tty'\n" % user)
    r = line(p)
    if not r.startswith("OK"):
        return p, r
    p.send(cmd + "".join(" OPTION=" + o for o in opts) + "".join(" CONSOLE='%s'" % n for n in names) + "\n")
    return p, line(p)


def client(d, cmd, names, opts=(), user="demo"):
    p, r = request(d.port, cmd, names if isinstance(names, (list, tuple)) else [names], opts, user)
    check(r.startswith("OK"), "%s %s refused: %s" % (cmd, names, r))
    return p


class Listener:
    """A device the daemon connects to: a unix socket (name) or a TCP port."""
    def __init__(self, name=None):
        if name:
            self.path = path(name)
            self.s = socket.socket(socket.AF_UNIX)
            self.s.bind(self.path)
        else:
            self.s = socket.socket()
            self.s.bind(("127.0.0.1", 0))
            self.port = self.s.getsockname()[1]
        self.s.listen(5)

    def accept(self, tmo=10):
        self.s.settimeout(tmo)
        try:
            c, _ = self.s.accept()
        except OSError:
            return None
        c.settimeout(None)
        return Peer(c)
