"""Client side of the fork server, scratch directories, and the recorder for executed commands."""
import os, sys, json, random, socket, subprocess, tempfile, shutil, threading, time, atexit, concurrent.futures

PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


class MachineryError(Exception):
    """The check itself could not do its work (never a verdict)."""


class Scratch:
    """A private scratch directory that is removed at exit."""

    made = 0

    def __init__(self, base=None):
        # The name is part of what is searched: it depends only on the check and the seed (if it is free).
        Scratch.made += 1
        r = random.Random("/".join(sys.argv[1:] + [os.environ.get("VERIF_SEED") or "1", str(Scratch.made)]))
        self.dir = os.path.join(base or "/tmp", "ffv." + "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8)))
        try:
            os.mkdir(self.dir, 0o700)
        except FileExistsError:
            self.dir = tempfile.mkdtemp(prefix="ffv.", dir=base or "/tmp")
        atexit.register(self.cleanup)
        self.n = 0
        self.lock = threading.Lock()

    def new(self, prefix="d"):
        with self.lock:
            self.n += 1
            p = os.path.join(self.dir, f"{prefix}{self.n}")
        os.mkdir(p)
        return p

    def cleanup(self):
        if self.dir and os.path.isdir(self.dir):
            shutil.rmtree(self.dir, ignore_errors=True)
            if os.path.isdir(self.dir):
                subprocess.run(["chmod", "-R", "u+rwx", self.dir], check=False, stderr=subprocess.DEVNULL)
                shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None


class Zygote:
    def __init__(self, scratch, optimized=False, extra_env=None):
        self.scratch = scratch
        self.optimized = optimized
        home = os.path.join(scratch.dir, "home")
        os.makedirs(os.path.join(home, ".cache"), exist_ok=True)
        self.home = home
        self.sock = os.path.join(scratch.dir, "zyg%d%s.sock" % (id(self) % 100000, "O" if optimized else ""))
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": home, "LC_ALL": "C.UTF-8",
               "TZ": "UTC", "PYTHONPYCACHEPREFIX": os.path.join(scratch.dir, "pyc"), "PYTHONHASHSEED": "random",
               "VERIF_REPO": REPO, "PYTHONWARNINGS": "ignore",
               "GIT_CONFIG_NOSYSTEM": "1", "COLUMNS": "400"}
        env.update(extra_env or {})
        self.log = open(os.path.join(scratch.dir, "zygote%s.log" % ("O" if optimized else "")), "wb")
        cmd = [PY] + (["-O"] if optimized else []) + [os.path.join(HERE, "zygote.py"), self.sock]
        self.proc = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=self.log, cwd="/")
        line = self.proc.stdout.readline()
        if line != b"ready\n":
            self.log.flush()
            raise MachineryError("fork server did not start: " + open(self.log.name).read()[-2000:])
        atexit.register(self.stop)

    def stop(self):
        if self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()

    def request(self, req):
        out = tempfile.mktemp(prefix="o", dir=self.scratch.dir)
        req = dict(req)
        keep = "stdout" in req
        req.setdefault("stdout", out + ".out")
        req.setdefault("stderr", out + ".err")
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        for attempt in range(100):
            try:
                s.connect(self.sock)
                break
            except (BlockingIOError, ConnectionRefusedError):
                time.sleep(0.02)
        s.sendall(json.dumps(req).encode() + b"\n")
        buf = b""
        while True:
            part = s.recv(1 << 16)
            if not part:
                break
            buf += part
        s.close()
        if not buf:
            raise MachineryError("fork server handler died")
        res = json.loads(buf)
        res["out"] = b""
        if os.path.isfile(req["stdout"]):
            with open(req["stdout"], "rb") as f:
                res["out"] = f.read()
        res["err"] = b""
        # (there are none if the process was killed at once)
        if os.path.exists(req["stderr"]):
            with open(req["stderr"], "rb") as f:
                res["err"] = f.read()
            os.unlink(req["stderr"])
        if not keep and os.path.lexists(req["stdout"]):
            os.unlink(req["stdout"])
        return res


def surr(s):
    """Text as passed through JSON: surrogate escapes are kept by json (\\udcXX)."""
    return s


class Runner:
    def __init__(self, scratch=None, plugin_dirs=(), env=None):
        self.scratch = scratch or Scratch()
        self.zyg = {}
        self.lock = threading.Lock()
        self.plugin_dirs = list(plugin_dirs)
        self.env = env or {}

    def zygote(self, optimized):
        with self.lock:
            if optimized not in self.zyg:
                self.zyg[optimized] = Zygote(self.scratch, optimized, self.env)
            return self.zyg[optimized]

    def envfor(self, optimized, env):
        e = {}
        dirs = list(self.plugin_dirs)
        if optimized:
            dirs.append(os.path.join(REPO, "plugins"))
        if dirs:
            e["FF_PLUGIN_DIRS"] = ":".join(dirs)
        e.update(env or {})
        return e

    def cli(self, argv, cwd, env=None, optimized=False, timeout=60, **kw):
        return self.zygote(optimized).request(dict(kind="cli", argv=argv, cwd=cwd, timeout=timeout,
                                                   env=self.envfor(optimized, env), **kw))

    def api(self, script, cwd, env=None, optimized=False, timeout=60, **kw):
        return self.zygote(optimized).request(dict(kind="api", script=script, cwd=cwd, timeout=timeout,
                                                   env=self.envfor(optimized, env), **kw))

    def pmap(self, fn, items, workers=None):
        workers = workers or 8
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            return list(ex.map(fn, items))


def cps(s):
    """str or bytes -> list of code points (surrogateescape for undecodable bytes)."""
    if isinstance(s, bytes):
        s = s.decode("utf-8", "surrogateescape")
    return [ord(c) for c in s]


def uncps(l):
    return "".join(map(chr, l))
