"""Fork server for the ff program.

Imports the code under test from /repo once (fresh for every check, so from the current working tree)
and forks one handler per request; the handler forks the actual ff process in a session of its own,
watches it, and reports status, output and left-over processes.  Nothing of ff is replaced here; optional
`patches` (see perturb.py) wrap *standard library* entry points only.
"""
import os, sys, json, socket, struct, signal, time, ctypes, traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(1, HERE)

# A fixed number of CPUs makes -j values independent of the machine the check runs on.
import multiprocessing
multiprocessing.cpu_count = lambda: 16
os.cpu_count = lambda: 16

import runpy, atexit, threading, subprocess, sqlite3, pickle, importlib.util  # noqa: warm up
import pstats, cProfile, textwrap, shlex, datetime, binascii, enum, collections, queue
import multiprocessing.connection, multiprocessing.queues, multiprocessing.synchronize
import multiprocessing.sharedctypes, multiprocessing.popen_fork
try:
    import magic  # noqa
except Exception:
    pass
import mimetypes, urllib.parse
import tarfile, ast, hashlib, lzma, zlib, bz2  # noqa
import _strptime  # noqa
import libff.main, libff.find  # noqa
import perturb

libc = ctypes.CDLL(None, use_errno=True)
PR_SET_CHILD_SUBREAPER = 36


def run_child(req):
    """In the forked child: become ff."""
    os.setsid()
    fd = os.open(req.get("stdin") or "/dev/null", os.O_RDONLY); os.dup2(fd, 0); os.close(fd)
    for n, key in ((1, "stdout"), (2, "stderr")):
        fl = os.O_WRONLY | os.O_CREAT | (os.O_APPEND if req.get("append") else os.O_TRUNC)
        fd = os.open(req[key], fl, 0o644); os.dup2(fd, n); os.close(fd)
    if req.get("uid"):
        os.setgroups([]); os.setgid(req["uid"]); os.setuid(req["uid"])
    os.chdir(os.fsencode(req["cwd"]) if isinstance(req["cwd"], str) else req["cwd"])
    for k, v in (req.get("env") or {}).items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    enc = (req.get("env") or {}).get("PYTHONIOENCODING")
    if enc:
        for f in (sys.stdout, sys.stderr):
            f.reconfigure(encoding=enc.split(":")[0], errors=enc.split(":")[1] if f is sys.stdout else "backslashreplace")
    if "TZ" in (req.get("env") or {}):
        time.tzset()
    if req.get("stack"):
        import resource
        # the operating system derives the limit for argument lists from it
        resource.setrlimit(resource.RLIMIT_STACK, (req["stack"], resource.getrlimit(resource.RLIMIT_STACK)[1]))
    if req.get("umask") is not None:
        os.umask(req["umask"])
    signal.signal(signal.SIGINT, signal.default_int_handler)
    code = 0
    try:
        if req.get("perturb"):
            perturb.install(req["perturb"])
        if req["kind"] == "cli":
            sys.argv = ["ff"] + req["argv"]
            runpy.run_module("ff", run_name="__main__", alter_sys=False)
        elif req["kind"] == "api":
            import apidrv
            apidrv.main(req)
        elif req["kind"] == "py":
            exec(compile(req["code"], "<req>", "exec"), {"req": req, "__name__": "req"})
    except SystemExit as exc:
        c = exc.code
        if c is None:
            code = 0
        elif isinstance(c, int):
            code = c & 0xff
        else:
            print(c, file=sys.stderr); code = 1
    except BaseException:
        traceback.print_exc()
        code = 1
    try:
        threading._shutdown()
        atexit._run_exitfuncs()
        sys.stdout.flush(); sys.stderr.flush()
    except BaseException:
        traceback.print_exc()
        code = code or 120
    os._exit(code)


def childless():
    """Reap; True if nothing is left of the session (orphans become children of this process)."""
    try:
        while os.waitpid(-1, os.WNOHANG)[0]:
            pass
    except ChildProcessError:
        return True
    return False


def session_procs(sid, gone=False):
    if gone and childless():
        return []
    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat", "rb") as f:
                    s = f.read()
            except OSError:
                continue
            rest = s[s.rindex(b")") + 2:].split()
            if int(rest[3]) == sid and rest[0] not in (b"Z", b"X"):
                out.append(int(d))
    return out


def handle(conn):
    libc.prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0)
    buf = b""
    while True:
        part = conn.recv(1 << 16)
        if not part:
            break
        buf += part
        if buf.endswith(b"\n"):
            break
    req = json.loads(buf)
    t0 = time.monotonic()
    pid = os.fork()
    if pid == 0:
        try:
            conn.close()
            run_child(req)
        finally:
            os._exit(99)
    limit = req.get("timeout", 60)
    status = None
    actions = sorted(req.get("signals") or [])       # [(delay, signal)] sent to the main process
    timed_out = False
    pause = 0.001
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = os.waitstatus_to_exitcode(st)
            if req.get("exitlog"):
                # right when the main process is gone
                fd = os.open(req["exitlog"], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666)
                os.write(fd, b"X %d\n" % status)
                os.close(fd)
            break
        el = time.monotonic() - t0
        if actions and el >= actions[0][0]:
            os.kill(pid, actions.pop(0)[1])
        if el > limit:
            timed_out = True
            break
        time.sleep(pause)
        pause = min(pause * 1.3, 0.01)
    wall = time.monotonic() - t0
    left = []
    if not timed_out:
        # orphans (e.g. commands that were told to terminate) get a moment to go away
        grace = req.get("grace", 0.0)
        while True:
            left = session_procs(pid, True)
            if not left or time.monotonic() - t0 - wall > grace:
                break
            time.sleep(0.02)
    for _ in range(50):
        procs = session_procs(pid, status is not None)
        if not procs:
            break
        for q in procs:
            try:
                os.kill(q, signal.SIGKILL)
            except OSError:
                pass
        time.sleep(0.005)
    while True:
        try:
            if os.waitpid(-1, os.WNOHANG)[0] == 0:
                break
        except ChildProcessError:
            break
    conn.sendall(json.dumps({"status": status, "timeout": timed_out, "left": len(left), "wall": wall}).encode() + b"\n")


def main():
    path = sys.argv[1]
    srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    srv.bind(path)
    srv.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    sys.stdout.write("ready\n"); sys.stdout.flush()
    ppid = os.getppid()
    srv.settimeout(1.0)
    import gc
    gc.collect()
    gc.freeze()
    while True:
        try:
            conn, _ = srv.accept()
        except TimeoutError:
            conn = None
        except OSError:
            break
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        if os.getppid() != ppid:
            break
        if conn is None:
            continue
        conn.setblocking(True)
        if os.fork() == 0:
            srv.close()
            try:
                handle(conn)
            except BaseException:
                traceback.print_exc()
            os._exit(0)
        conn.close()


if __name__ == "__main__":
    main()
