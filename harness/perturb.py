"""Perturbations, faults and observations inside of the ff process.  Only entry points of the standard library (and of the
operating system) are wrapped, never code of ff, so the checks do not depend on how ff is written.

cfg keys:
  scanlog: path            log every directory whose entries are listed (os.scandir, os.listdir)
  delays: {site: [probability, longest in ms]}, seed: n      random delays
  times: {"process:site:k": ms}      the k-th event of that kind in that process happens not before that time
  faults: [{proc, site, k, do: kill|raise|exit}]             at the k-th event of that kind in that process (t: at the first one after t seconds)
  io: [{call, path, errno, after}]   file system operations on that path (absolute) fail
  act: [{call, path, do: [[op, ...]]}]                       file system changes at the time of the k-th call on a path
  clock: f                 time.time() runs f times as fast (periodic checks take place sooner)
  sql: {"on": "executemany"|"commit", "k": n, "do": "busy"|"raise"|"kill", "times": m, "mark": path}   the n-th (to n+m-1-th) of these calls in a process fails
  stdout: {"size": n, "pause": ms}   the standard output takes n bytes at a time

Processes are numbered in the order in which they are started (0 is the main process).  Sites: get (a message is taken from
a queue), feed (the background thread of a queue passes on a message), mid (in the middle of that), fed (after that), scan (a directory is read), barrier (a process waits at a barrier or
sleeps), lock, unlock,
start (a process starts), popen (a command is started), put.
"""
import os, sys, json, time, random, signal, threading

T0 = time.monotonic()
_sleep = time.sleep
proc = 0
started = 0
CFG = {}
_local = threading.Lock()
_count = {}
_rng = None


def _append(path, obj):
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666)
    try:
        os.write(fd, (json.dumps(obj) + "\n").encode())
    finally:
        os.close(fd)


def install(cfg):
    global CFG, T0
    CFG = cfg
    T0 = time.monotonic()
    if cfg.get("io") or cfg.get("act"):
        import fsfault
        fsfault.install(cfg)
    if cfg.get("scanlog"):
        scanlog(cfg["scanlog"])
    if cfg.get("delays") or cfg.get("times") or cfg.get("faults"):
        sites()
    if cfg.get("clock"):
        now, t0 = time.time, time.time()
        time.time = lambda: t0 + (now() - t0) * cfg["clock"]
    if cfg.get("sql"):
        sql(**cfg["sql"])
    if cfg.get("stdout"):
        slow_stdout(**cfg["stdout"])


def scanlog(path):
    def wrap(orig):
        def f(p=".", *a, **k):
            if isinstance(p, (str, bytes)):
                _append(path, [ord(c) for c in os.path.abspath(os.fsdecode(p))])
            return orig(p, *a, **k)
        return f
    os.scandir = wrap(os.scandir)
    os.listdir = wrap(os.listdir)


# ---- sites
def rng():
    global _rng
    if _rng is None or _rng[0] != os.getpid():
        _rng = (os.getpid(), random.Random(f"{CFG.get('seed')}/{proc}"))
    return _rng[1]


_struck = set()


def hold(site, only_times=False):
    """Before an event of this kind: wait if that is wanted."""
    with _local:
        k = _count.get((proc, site), 0)
        d = CFG.get("delays", {}).get(site)
        wait = 0
        if d and not only_times:
            r = rng()
            if r.random() < d[0]:
                wait = r.random() ** 2 * d[1] / 1000
        t = CFG.get("times", {}).get(f"{proc}:{site}:{k + 1}")
    if t is not None:
        wait = max(wait, T0 + t / 1000 - time.monotonic())
    if wait > 0:
        _sleep(wait)


def _now(f, site, k):
    """Does this fault strike at this event?"""
    if f["proc"] != proc or f["site"] != site:
        return False
    if "t" in f:            # (the first event of its kind after that time)
        return time.monotonic() - T0 >= f["t"] and f["mark"] not in _struck
    return f["k"] == k


def _due(site):
    k = _count.get((proc, site), 0) + 1
    return any(_now(f, site, k) for f in CFG.get("faults") or ())


def event(site):
    """The event takes place: count it, and fail if that is wanted."""
    with _local:
        k = _count[(proc, site)] = _count.get((proc, site), 0) + 1
    for f in CFG.get("faults") or ():
        if _now(f, site, k):
            if "t" in f:
                _struck.add(f["mark"])
            if f.get("mark"):
                _append(f["mark"], [proc, site, k])
            if f["do"] == "kill":
                os.kill(os.getpid(), f.get("sig", signal.SIGKILL))
                _sleep(5)
            elif f["do"] == "exit":
                os._exit(f.get("status", 3))
            elif f["do"] == "raise":
                raise {"RuntimeError": RuntimeError, "MemoryError": MemoryError, "ValueError": ValueError, "KeyError": KeyError,
                       "AssertionError": AssertionError, "RecursionError": RecursionError}[f.get("exc", "RuntimeError")]("planned failure")


def sites():
    import subprocess, multiprocessing, multiprocessing.queues as mq, multiprocessing.connection as mc
    import multiprocessing.synchronize as ms, multiprocessing.process as mp

    get = mq.Queue.get

    def qget(self, *a, **k):
        hold("get")
        r = get(self, *a, **k)
        event("get")
        return r
    mq.Queue.get = qget

    put = mq.Queue.put

    def qput(self, *a, **k):
        hold("put")
        event("put")
        return put(self, *a, **k)
    mq.Queue.put = qput

    send = mc.Connection.send_bytes

    def csend(self, *a, **k):
        feeder = threading.current_thread().name == "QueueFeederThread"
        if feeder:
            hold("feed")
            event("feed")
            if _due("mid"):
                b = bytes(a[0])
                b = len(b).to_bytes(4, "big") + b
                os.write(self.fileno(), b[:max(1, len(b) // 2)])
            event("mid")
        r = send(self, *a, **k)
        if feeder:
            event("fed")
        return r
    mc.Connection.send_bytes = csend

    def plain(cls, name, site):
        orig = getattr(cls, name)

        def f(self, *a, **k):
            hold(site)
            event(site)
            return orig(self, *a, **k)
        setattr(cls, name, f)
    plain(ms.Barrier, "wait", "barrier")

    def sleep(t):
        hold("barrier")
        event("barrier")
        _sleep(t)
    time.sleep = sleep
    plain(ms.SemLock, "__enter__", "lock")
    plain(ms.SemLock, "__exit__", "unlock")
    plain(mp.BaseProcess, "run", "start")
    plain(subprocess.Popen, "__init__", "popen")

    start = mp.BaseProcess.start

    def pstart(self, *a, **k):
        global started
        started += 1
        return start(self, *a, **k)
    mp.BaseProcess.start = pstart

    def child():
        global proc, _local
        proc = started
        _local = threading.Lock()
    os.register_at_fork(after_in_child=child)

    scandir = os.scandir

    def scan(*a, **k):
        hold("scan")
        event("scan")
        return scandir(*a, **k)
    os.scandir = scan


# ---- database
def sql(on, k, do, times=1, mark=None):
    import sqlite3
    count = {}

    def hit(site):
        if site != on:
            return
        c = count[os.getpid()] = count.get(os.getpid(), 0) + 1
        if k <= c < k + times:
            if mark:
                _append(mark, [os.getpid(), site, c])
            if do == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
                _sleep(5)
            raise sqlite3.OperationalError("database is locked" if do == "busy" else "disk I/O error")

    class Conn(sqlite3.Connection):
        def executemany(self, *a):
            hit("executemany")
            return super().executemany(*a)

        def commit(self):
            # creating a table is not the kind of commit that is meant
            if self.in_transaction:
                hit("commit")
            return super().commit()
    connect = sqlite3.connect
    sqlite3.connect = lambda *a, **kw: connect(*a, **dict(dict(factory=Conn), **kw))


# ---- output
def slow_stdout(size, pause):
    """The standard output accepts only a part of what is written at a time, like a pipe with a slow reader."""
    import io

    class Slow(io.RawIOBase):
        name = "<stdout>"

        def writable(self):
            return True

        def fileno(self):
            return 1

        def isatty(self):
            return False

        def write(self, b):
            n = os.write(1, bytes(b[:size]))
            if pause:
                _sleep(pause / 1000)
            return n
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(Slow()), encoding=sys.stdout.encoding, errors=sys.stdout.errors, newline="\n")
