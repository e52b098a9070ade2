"""C02: searches always end, and a failed worker is never reported as success."""
import os, time, threading
import protocol, searches
from scen import Scen
from checks.c01 import scenario, shape, delays

LEVEL = "model_checking"
RULE = ("Par.tla with faults model checked (the search ends, a failure is reported, a successful end is complete), its wrong variants rejected; "
        "worker processes of the real program killed, ended or made to fail at chosen events of random searches in every output mode, API "
        "searches abandoned after n results or failing, interrupted and killed searches, output that cannot be written; judged by Search.tla/Judge.tla: complete and successful, or "
        "status 4 with nothing invented or doubled; non-trivial: a planned fault took place or a search was abandoned")
ASSUMPTIONS = ["time.time() runs faster in runs with killed workers, so that the "
               "periodic look for dead workers does not take 10 s"]
# where a fault certainly hits unfinished work
STRICT = {"scan", "mid"}
EXC = ["RuntimeError", "MemoryError", "ValueError", "KeyError", "AssertionError", "RecursionError"]


def late(chk):
    """A search that takes a while, so that workers can die at a late time."""
    w = chk.lab.world()
    n = chk.g.pick(60, 90)
    for i in range(n):
        w.file(f"s{i}/f")
        w.set_values(f"s{i}", "vslow", {"xstr": str(i), "delay": 0.02})
    chk.lab.seal(w)
    w.entries = 2 * n
    return w


def too_late(chk, w, mode, jobs):
    """The periodic look for dead workers has happened some times when one of them dies; the next one must not take too long
    (10 s are 0.2 s here; the time limit are ten minutes)."""
    g = chk.g
    mark = chk.lab.scratch.new("mk") + "/m"
    f = {"proc": g.r.randrange(1, jobs + 1), "site": g.pick("scan", "mid"), "k": 1, "t": 0.45 + 0.3 * g.r.random(), "do": "kill", "sig": g.pick(9, 11), "mark": mark}

    def after(s):
        s.hit = os.path.exists(mark)
        s.fault = "worker!" if s.hit else ""
    return scenario(chk, w, mode, jobs, ["vslow.xstr~[0-8]"], perturb={"faults": [f], "clock": 50}, after=after, tag="late", timeout=16, grace=3.0)


def idle(chk):
    """A search in which most of the workers have nothing to do for a while."""
    w = chk.lab.world()
    w.file("a/b/c")
    w.file("e")
    for i in range(chk.g.pick(5, 8)):
        w.file(f"d/s{i}")
        w.set_values(f"d/s{i}", "vslow", {"xstr": str(i), "delay": 0.1})
    chk.lab.seal(w)
    w.entries = 14
    return w


def locked(chk, w, mode, jobs):
    """A worker is killed while it has a lock."""
    g = chk.g
    mark = chk.lab.scratch.new("mk") + "/m"
    f = {"proc": g.r.randrange(1, jobs + 1), "site": "unlock", "k": g.r.randrange(1, 12), "do": "kill", "sig": 9, "mark": mark}

    def after(s):
        s.hit = os.path.exists(mark)
        s.fault = "worker" if s.hit else ""
    return scenario(chk, w, mode, jobs, ["vslow.xstr~[0-8]"], perturb={"faults": [f], "clock": 12}, after=after, opt=g.chance(0.25), tag="locked", timeout=16, grace=3.0)


def faulty(chk, w, mode, jobs, tests=(), n=None):
    g = chk.g
    faults = []
    mark = chk.lab.scratch.new("mk") + "/m"
    strict = True
    for _ in range(n or g.pick(1, 1, 1, 1, 2)):
        site = g.pick("scan", "scan", "scan", "get", "get", "fed", "feed", "mid", "mid", "put", "barrier", "start", "lock", "unlock", "unlock")
        do = g.pick("kill", "kill", "exit", "raise", "raise")
        if do == "raise" and site in ("feed", "fed", "mid", "start", "barrier", "get", "lock", "unlock"):
            site = g.pick("scan", "put")
        f = {"proc": g.r.randrange(1, jobs + 1), "site": site, "k": g.pick(1, 1, 2, 3, 5), "do": do, "mark": mark}
        if site == "unlock":
            f["k"] = g.pick(1, 2, 3, 4, 6, 9, 15)
        if do == "kill":
            f["sig"] = g.pick(9, 9, 11, 15, 6)
        elif do == "exit":
            # (a process that ends successfully while it delivers results does not look dead)
            f["status"] = g.pick(0, 1, 3, 42) if site == "scan" else g.pick(1, 3, 42)
        else:
            f["exc"] = g.pick(*[x for x in EXC if x != "KeyError" or site != "put"])
        strict &= site in STRICT
        faults.append(f)
    p = {"faults": faults, "clock": 12}
    d = delays(g, w.entries) if g.chance(0.4) else None
    if d:
        p["delays"] = {k: v for k, v in d["delays"].items() if k not in ("unlock",)}
        p["seed"] = d["seed"]

    def after(s):
        hit = os.path.exists(mark)
        s.hit = hit
        s.fault = "" if not hit else "worker!" if strict else "worker"
    return scenario(chk, w, mode, jobs, tests, perturb=p, after=after, opt=g.chance(0.25), tag="fault", timeout=40, grace=3.0)


def abandoned(chk, w, n):
    g = chk.g
    q = dict(tests=g.pick([], ["type=f"], ["vslow.xstr~[0-9]"]), output=g.pick(["path"], ["name", "path"]), jobs=g.pick(1, 2, 4, 8), stop=n)
    d = delays(g, w.entries)
    kw = {"perturb": d} if d else {}
    return Scen(w.num, [], kind="api", q=q, opt=g.chance(0.25), tag="abandoned", timeout=40, **kw)


def nontrivial(s, r):
    return getattr(s, "hit", False) or s.tag == "abandoned" or "interrupt" in s.tag


def run(chk):
    g = chk.g
    quick = chk.quick
    P = lambda *a, **k: protocol.check(chk, *a, **k)
    jobs = [lambda: P("3", "collect", 1, "count", 1, 2, par=2), lambda: P("3", "exec", 1, "count", 1, 2, par=2), lambda: P("3", "immediate", 1, "count", 1, 2, par=2),
            lambda: P("3", "collect", 1, "nocheck", 1, 2, expect=protocol.LIVE, par=1), lambda: P("3", g.pick("collect", "immediate"), 1, "orphan", 1, 2, expect=protocol.LIVE, par=1), lambda: P("3", g.pick("collect", "immediate"), 1, "lock", 1, 2, expect=protocol.LIVE, par=1), lambda: P("3", g.pick("collect", "exec"), 1, "nocode", 1, 2, expect=protocol.SAFE, par=1)]
    if not quick:
        jobs += [lambda: P("1", "exec", 1, "count", 1, 2), lambda: P("2", "collect", 2, "count", 1, 2), lambda: P("3", "collect", 1, "count", 2, 2),
                 lambda: P("1", "collect", 1, "count", 2, 2, live=False, timeout=800), lambda: P("2", "immediate", 1, "count", 2, 3, live=False, timeout=800)]
    chk.lab.runner.pmap(lambda j: j(), jobs, 5 if quick else 3)

    first = True
    while first or chk.more(9):
        t = time.monotonic()
        S = []
        for kind in ("dirs", "deep", "bushy", "slow", "slowdirs", "wide"):
            w = shape(chk, kind)
            for _ in range((9 if kind != "wide" else 3) if quick else 30):
                S.append(faulty(chk, w, g.pick("console", "sorted", "json", "jsonl", "count", "exec", "sorted exec", "batch", "api"), g.pick(1, 2, 2, 3, 4, 8),
                                g.pick([], [], ["type=d"], ["vslow.xstr~[0-8]"]) if "slow" in kind else []))
            for _ in range(4 if quick else 12):
                S.append(abandoned(chk, w, g.pick(1, 1, 2, 5, 50)))
        w = late(chk)
        for _ in range(5 if quick else 20):
            S.append(too_late(chk, w, g.pick("console", "sorted", "json", "jsonl", "count", "exec", "batch"), g.pick(2, 2, 3)))
        w = idle(chk)
        for _ in range(8 if quick else 30):
            S.append(locked(chk, w, g.pick("console", "sorted", "json", "jsonl", "count", "exec", "batch", "api"), g.pick(2, 2, 3, 4)))
        chk.judge(S, workers=16, nontrivial=nontrivial)
        chk.notes["workers that died late"] = chk.notes.get("workers that died late", 0) + sum(getattr(s, "hit", False) for s in S if s.tag == "late")
        chk.notes["workers killed with a lock"] = chk.notes.get("workers killed with a lock", 0) + sum(getattr(s, "hit", False) for s in S if s.tag == "locked")
        chk.notes["faults that took place"] = chk.notes.get("faults that took place", 0) + sum(getattr(s, "hit", False) for s in S)
        interrupted(chk, 14 if quick else 40)
        gone(chk, 16 if quick else 60)
        chk.reset()
        first = False
        if chk.left() < (time.monotonic() - t) * 1.05:
            break


def gone(chk, n):
    """Output that cannot be written (any more): the search ends, and a lack of space is not reported as success."""
    g = chk.g
    def one(x):
        mode, jobs, w, d, opt, how, k = x
        words = {"console": [], "sorted": ["-S"], "json": ["--json"], "jsonl": ["--jsonl"], "count": ["--count"], "long": ["-v", "-S"], "count json": ["--count", "--json"]}[mode]
        out = "/dev/full"
        if how == "pipe":
            out = chk.lab.scratch.new("pp") + "/p"
            os.mkfifo(out)

            def reader():
                fd = os.open(out, os.O_RDONLY)
                if k:
                    os.read(fd, k)
                os.close(fd)
            threading.Thread(target=reader, daemon=True).start()
        return chk.lab.runner.cli(["-j", str(jobs)] + words, w.cwd, env={"VERIF_PLUGDATA": w.plugdata, "VERIF_EXECLOG": "/dev/null"}, optimized=opt, timeout=40, grace=3.0,
                                  stdout=out, append=True, perturb=d or {})
    W = [shape(chk, "wide"), shape(chk, "dirs")]
    items = []
    for _ in range(n):
        w = g.pick(*W)
        items.append((g.pick("console", "console", "sorted", "json", "jsonl", "count", "long", "count json"), g.pick(1, 2, 4), w, delays(g, w.entries) if g.chance(0.3) else None, g.chance(0.3),
                      g.pick("full", "pipe"), g.pick(0, 1, 100, 5000)))
    for x, r in zip(items, chk.lab.runner.pmap(one, items, 8)):
        chk.count(("gone", x[0], x[1], x[5], x[6]))
        info = {"mode": x[0], "jobs": x[1], "output": x[5], "bytes read": x[6], "perturb": x[3], "result": {k: v for k, v in r.items() if k != "out"}}
        chk.expect(not r["timeout"] and not r["left"], "a search whose output cannot be written does not end", info)
        chk.expect(x[5] != "full" or r["timeout"] or r["status"] != 0, "a search whose output cannot be written ends successfully", info)


def interrupted(chk, n):
    """Ctrl-C or a signal that ends the main process at any moment: the search ends and leaves nothing behind."""
    g = chk.g
    w = shape(chk, "slow")
    def one(x):
        mode, jobs, d, opt, delay, sig = x
        words = {"console": [], "sorted": ["-S"], "json": ["--json"], "count": ["--count"], "exec": ["-x", chk.lab.rec, "{}"]}[mode]
        env = {"VERIF_PLUGDATA": w.plugdata, "VERIF_EXECLOG": "/dev/null"}
        return chk.lab.runner.cli(["-j", str(jobs), "vslow.xstr~[0-9]"] + words, w.cwd, env=env, optimized=opt, timeout=40, grace=3.0,
                                  signals=[[delay, sig]], perturb=d or {})
    items = [(g.pick("console", "sorted", "json", "count", "exec"), g.pick(1, 2, 4), delays(g, w.entries), g.chance(0.3), g.r.random() * 0.25 + 0.06, g.pick(2, 2, 9, 15)) for _ in range(n)]
    for x, r in zip(items, chk.lab.runner.pmap(one, items, 8)):
        chk.count(("interrupt", x[0], x[1], round(x[4], 3), x[5]) if r["status"] != 0 else None)
        chk.expect(not r["timeout"] and not r["left"], "a search that was interrupted does not end" if x[5] == 2 else "processes of a search that was killed stay behind",
                   {"signal": x[5], "mode": x[0], "jobs": x[1], "perturb": x[2], "delay": x[4], "result": {k: v for k, v in r.items() if k != "out"}})
