"""C01: every matching entry is reported exactly once, under every schedule."""
import os, time
import protocol, searches
from scen import Scen

LEVEL = "model_checking"
RULE = ("Par.tla model checked (safety and liveness, every interleaving), its wrong variants rejected; behaviours of Par.tla replayed in the real "
        "program as schedules of its processes; trees that make work be split in all ways (large directories, many directories, slow "
        "attributes), with every output mode, number of workers and delays in the transport of messages; every record judged by Search.tla; "
        "non-trivial: something was found")
ASSUMPTIONS = ["schedules are imposed by delaying events of the standard library (queues, barriers, locks, directory reads)"]
MODES = ["console", "sorted", "json", "jsonl", "count", "exec", "sorted exec", "batch", "api", "console", "sorted"]


def scenario(chk, w, mode, jobs, tests=(), kind=None, **kw):
    g = chk.g
    if mode == "api":
        q = dict(tests=list(tests), output=["path"], jobs=jobs)
        if g.chance(0.3):
            q["sort"] = ["path"]
        return Scen(w.num, [], kind="api", q=q, **kw)
    words = ["-j", str(jobs)]
    m = "console"
    if mode == "sorted":
        words += g.pick(["-S"], ["-S", "name"], ["-S", "-R"])
    elif mode in ("json", "jsonl"):
        words += ["--" + mode]
        m = mode
    elif mode == "count":
        words += g.pick(["--count"], ["--count", "type"])
        m = "count"
    elif mode in ("exec", "sorted exec"):
        words += (["-S"] if mode != "exec" else []) + ["-x", chk.lab.rec, "{path}"]
        m = "exec"
    elif mode == "batch":
        words += ["-X", chk.lab.rec]
        m = "batch"
    i = len(words)
    if "-x" in words or "-X" in words:
        i = words.index("-x" if "-x" in words else "-X")
    words[i:i] = list(tests)
    return Scen(w.num, words, mode=m, **kw)


def replays(chk, trees, num, step, workers=(2, 3)):
    """Behaviours of the specification, replayed."""
    g = chk.g
    S = []
    jobs = []
    for size in trees:
        w = chk.lab.world()
        tree = protocol.random_tree(g, size)
        protocol.build(w, tree)
        chk.lab.seal(w)
        for mode in ("collect", "immediate", "exec"):
            jobs.append((w, tree, mode, g.pick(*workers), g.r.randrange(10 ** 6)))
    B = chk.lab.runner.pmap(lambda j: protocol.behaviours(chk, j[1], j[2], j[3], num, j[4]), jobs, 4)
    for (w, tree, mode, n, _), bs in zip(jobs, B):
        chk.notes["behaviours replayed"] = chk.notes.get("behaviours replayed", 0) + len(bs)
        for b in bs:
            m = {"collect": g.pick("sorted", "json", "count", "sorted exec", "api", "batch"), "immediate": g.pick("console", "jsonl"), "exec": "exec"}[mode]
            S.append(scenario(chk, w, m, n, perturb={"times": protocol.times(b, step)}, opt=g.chance(0.2), tag="behaviour replayed"))
    return S


def shape(chk, kind):
    """A tree that makes work be split in some way."""
    g = chk.g
    w = chk.lab.world()
    if kind == "wide":          # one large directory
        n = g.pick(99, 100, 101, 199, 200, 201, 301, 1000, 1001, 1001, 2500)
        some = g.pick(0, 0, 0.5, 0.99)          # how many of them are directories
        for i in range(n):
            (w.mkdir if i < n * some and i < 1100 else w.file)(f"f{i}")
    elif kind == "dirs":        # many directories
        n = g.pick(9, 10, 11, 20, 21, 99, 100, 101, 110, 201, 400)
        for i in range(n):
            w.mkdir(f"d{i}")
            if g.chance(0.5):
                w.file(f"d{i}/f")
    elif kind == "deep":
        p = ""
        for i in range(g.pick(20, 60)):
            p += f"d{i}/"
            w.file(p + "f")
            if g.chance(0.2):
                w.file(p + "x/y")
    elif kind == "bushy":
        for i in range(g.pick(3, 11, 30)):
            for j in range(g.pick(1, 11, 12)):
                w.mkdir(f"a{i}/b{j}/c")
                w.file(f"a{i}/b{j}/f")
    elif kind == "slow":        # slow attributes: entries are shared with idle workers
        n = g.pick(12, 23, 60, 150, 230)
        for i in range(n):
            p = f"s{i % 3}/f{i}" if g.chance(0.5) else f"f{i}"
            w.file(p)
            w.set_values(p, "vslow", {"xstr": str(i), "delay": g.pick(0, 0.0005, 0.002)})
    elif kind == "empty":
        pass
    elif kind == "slowdirs":
        for i in range(g.pick(13, 40)):
            w.mkdir(f"d{i}/e")
            w.set_values(f"d{i}", "vslow", {"xstr": str(i), "delay": g.pick(0, 0.001)})
            for j in range(g.pick(0, 1, 14)):
                w.file(f"d{i}/f{j}")
                w.set_values(f"d{i}/f{j}", "vslow", {"xstr": str(j)})
    chk.lab.seal(w)
    w.entries = sum(len(d) + len(f) for _, d, f in os.walk(w.root))
    return w


SITES = {"feed": 60, "get": 40, "scan": 30, "barrier": 25, "lock": 8, "unlock": 8, "start": 150, "put": 20, "popen": 10}


def delays(g, entries=100):
    """A random profile of delays, which take a few seconds at most."""
    k = g.r.randrange(5)
    if k == 0:
        return None
    p = {"delays": {}, "seed": g.r.randrange(10 ** 6)}
    for s in g.r.sample(sorted(SITES), g.pick(1, 1, 2, 3)):
        longest = SITES[s] * g.pick(0.3, 1.0)
        p["delays"][s] = [min(g.pick(0.02, 0.1, 0.3, 1.0), 2000 / (max(entries, 20) * longest)), longest]
    return p


def run(chk):
    g = chk.g
    # ---- the protocol
    quick = chk.quick
    P = lambda *a, **k: protocol.check(chk, *a, **k)
    jobs = [lambda: P("3", "collect", 1, "count", 0, 2, par=1), lambda: P("1", "immediate", 2, "count", 0, 2, par=1), lambda: P("3", "exec", 1, "count", 0, 2, par=1),
            lambda: P("3", "collect", 1, "barrier", 0, 2, expect=protocol.SAFE, par=1), lambda: P("3", "collect", 1, "noundel", 0, 2, expect=protocol.SAFE, par=1),
            lambda: P("3", g.pick("collect", "immediate", "exec"), 1, "late", 0, 2, expect=protocol.SAFE, par=1),
            lambda: P("3", g.pick("collect", "immediate", "exec"), 1, "early", 0, 2, expect=protocol.SAFE, par=1)]
    if not quick:
        jobs += [lambda: P("1", "collect", 2, "count", 0, 2), lambda: P("1", "exec", 1, "count", 0, 2), lambda: P("2", "collect", 1, "count", 0, 2),
                 lambda: P("2", "collect", 1, "count", 0, 3, live=False), lambda: P("4", "collect", 2, "count", 0, 3, live=False, timeout=800),
                 lambda: P("4", "immediate", 1, "count", 0, 3, live=False, timeout=800), lambda: P("0", "collect", 1, "count", 0, 3),
                 lambda: P("2", "exec", 2, "count", 0, 3, live=False, timeout=800)]
    chk.lab.runner.pmap(lambda j: j(), jobs, 6 if quick else 3)

    # ---- behaviours replayed
    S = replays(chk, (3, 6) if quick else (2, 3, 5, 7, 9, 12), 14 if quick else 60, 13)
    chk.judge(S, workers=40)
    chk.reset()

    # ---- work that is split, under random delays
    first = True
    while first or chk.more(8):
        t = time.monotonic()
        S = []
        for kind in ("wide", "dirs", "deep", "bushy", "slow", "slowdirs", "empty"):
            w = shape(chk, kind)
            big = kind == "wide"
            for _ in range((6 if kind not in ("slow", "dirs") else 10) if quick else 24):
                mode = g.pick(*MODES)
                jobs = g.pick(1, 2, 3, 4, 5, 8, 16)
                tests = []
                if kind in ("slow", "slowdirs"):
                    tests = g.pick(["vslow.xstr~[0-8]"], ["type=f", "vslow.xstr~[0-8]"], ["-e", "vslow.xstr=7"], ["vslow.xstr=7", "or", "type=d", "or", "name:f"], ["not", "vslow.xstr:3"])
                    if mode == "api" and "-e" in tests:
                        mode = "jsonl"
                elif g.chance(0.3):
                    tests = g.pick(["type=d"], ["type=f"], ["name~[05]$"], ["depth>0"], ["name:1", "or", "type=d"])
                d = delays(g, w.entries)
                S.append(scenario(chk, w, mode, jobs, tests, perturb=d, opt=g.chance(0.25), tag=kind) if d else
                         scenario(chk, w, mode, jobs, tests, opt=g.chance(0.25), tag=kind))
        if not quick:
            ctxs = chk.worlds(3, sizes=(10, 30, 60), values=0.6)
            for _ in range(60):
                s = searches.search(g, g.pick(ctxs), dict(exec_words=searches.exec_words, mode={"console": 4, "json": 2, "jsonl": 2, "count": 2, "exec": 2, "batch": 1}))
                if s is not None:
                    d = delays(g, 200)
                    if d:
                        s.kw["perturb"] = d
                    S.append(s)
            S += replays(chk, (g.pick(4, 8, 14),), 20, 13, (2, 3, 4))
        chk.judge(S, workers=24)
        chk.reset()
        first = False
        if chk.left() < (time.monotonic() - t) * 1.05:
            break
