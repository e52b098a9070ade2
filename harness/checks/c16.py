"""C16: records are whole and parse back to the results."""
import os, time, threading
import searches
from scen import Scen
from checks.c01 import delays

LEVEL = "model_checking"
RULE = ("Out.tla (records printed under a lock into an output that takes them in pieces) model checked, four wrong variants rejected; random "
        "searches of the real program in every output mode with several workers, an output that takes a few bytes at a time or a pipe with a "
        "slow reader, delays at locks, records of up to 200,000 characters, all fields and options that concern the output, colours and "
        "characters that cannot be encoded; judged record by record by Search.tla/Fields.tla; non-trivial: at least one record")
ASSUMPTIONS = ["a reader of the output that goes away before the end is not covered"]


def fifo_run(chk, sc):
    """The output is a pipe whose reader takes its time."""
    f = chk.lab.scratch.new("p") + "/fifo"
    os.mkfifo(f)
    got = []
    g = chk.g
    size, pause = g.pick(100, 4096, 65536), g.pick(0, 0, 0.0005, 0.002)

    def read():
        t0 = time.monotonic()
        with open(f, "rb", buffering=0) as h:
            while True:
                b = h.read(size)
                if not b:
                    break
                got.append(b)
                if pause and time.monotonic() - t0 < 2.5:
                    time.sleep(pause)
    th = threading.Thread(target=read, daemon=True)
    th.start()

    def after(s):
        th.join(20)
        s.res["out"] = b"".join(got)
    sc.kw["stdout"] = f
    sc.after = after
    return sc


def nontrivial(s, r):
    o = r["obs"]
    return bool(o.get("pieces") or o.get("json") or o.get("recs"))


def run(chk):
    g = chk.g
    quick = chk.quick
    C = lambda v, n=2, r=2, l=3, expect="ok", prop=("Ends",): chk.config("Out", {"Workers": "{%s}" % ", ".join(str(i + 1) for i in range(n)), "Recs": r, "Len0": l, "Variant": f'"{v}"'},
                                        inv=["RecordsWhole", "NothingLost", "Once"], prop=prop, expect=expect, workers=2)
    jobs = [lambda: C("lock"), lambda: C("lock", 3, 1, 2), lambda: C("nolock", expect="RecordsWhole is violated"), lambda: C("outside", expect="RecordsWhole is violated"),
            lambda: C("noflush", expect="NothingLost is violated"), lambda: C("twice", expect="RecordsWhole is violated")]
    if not quick:
        jobs += [lambda: C("lock", 3, 2, 3), lambda: C("lock", 2, 4, 5), lambda: C("lock", 4, 2, 2)]
    chk.lab.runner.pmap(lambda j: j(), jobs, 4)

    def prepare(w):
        w.long = g.chance(0.4)
        files = [os.path.relpath(os.path.join(d, f), os.fsencode(w.root)) for d, _, fs in os.walk(os.fsencode(w.root)) for f in fs]
        for rel in g.r.sample(files, min(len(files), g.pick(1, 4, 12))) if w.long else []:
            n = g.pick(10, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 20000)
            w.set_values(rel, g.pick("vfast", "vnorm"), {"xstr": g.pick("x", "ab ", "\u00fc", "1,2;", "\u65e5\u672c") * (n // 3), "xlist": ["e%d" % i for i in range(n // 40)]})
        if g.chance(0.4):
            for i in range(g.pick(99, 100, 101, 250)):
                w.file(f"many{i % g.pick(1, 3)}/f{i}")

    def slow(n):
        size = g.pick(1, 7, 100, 512, 4096, 8192)
        return {"stdout": {"size": size, "pause": g.pick(0, 0, 0.2, 1, 3) if size > 1 else g.pick(0, 0.05)}}

    def one(ctx):
        E = dict(expr=0.3, nexpr=[1, 1, 2], output=0.75, mode={"console": 6, "jsonl": 3, "json": 2}, all=0.35, print0=0.25, sep=0.25, sort=0.15, limit=0.1,
                 dirs=0.15, jobs=[1, 2, 3, 4, 8], color=0.35, plugfield=0.5, opt=0.25, ffopts=0.05)
        if g.chance(0.1) and not ctx.w.long:
            return searches.api(g, ctx, E)
        s = searches.search(g, ctx, E)
        if s is None:
            return None
        long = ctx.w.long
        if long:
            s.argv = [g.pick("-j2", "-j4", "-j8"), g.pick("--all", "-a"), "-o", g.pick("path,vfast.xstr", "vfast.xstr:n,vnorm.xstr:n,path", "vnorm.xlist:n,path", "path,path,vnorm.xstr", "vfast.xstr")]
            s.argv += {"jsonl": ["--jsonl"], "json": ["--json"]}.get(s.mode, []) + (["-0"] if s.nl == b"\0" else [])
            s.ffopts = []
            s.env.pop("LS_COLORS", None)
        x = g.r.random()
        p = {}
        if x < 0.45:
            p = slow(ctx)
            if len(ctx.snap["nodes"]) * (4000 if long else 100) / p["stdout"]["size"] * p["stdout"]["pause"] > 2500:
                p["stdout"]["pause"] = 0
            if len(ctx.snap["nodes"]) * (4000 if long else 100) / p["stdout"]["size"] > 20000:
                p["stdout"]["size"] = 100
        elif x < 0.65:
            fifo_run(chk, s)
        if g.chance(0.4):
            p.update(delays(g, len(ctx.snap["nodes"])) or {})
        if p:
            s.kw["perturb"] = p
        if s.mode == "console" and g.chance(0.12):
            s.enc = "strict"
        return s

    def worlds():
        return chk.worlds(5, sizes=(3, 12, 30), values=0.6, odd=0.4, hidden=0.15, links=0.2, special=0.06, prepare=prepare)
    chk.explore(one, worlds, n=160 if quick else 500, nontrivial=nontrivial, workers=16)
