"""C09: --limit."""
import searches
from scen import Scen

RULE = ("every slice start:stop over small bounds on result sets of several sizes, in every output mode, pages, malformed slices, and "
        "random limited searches; non-trivial: something was reported, run or rejected")
BAD = ["", "x", "a:b", "1:b", "1:2:3", "1", "5", "-1", "1,", ",1", "-1,2", "1,-2", "1,2,3", "1.5:2", ":x", "1:2,3", "1;2", "--1:2", "0x1:2", "1,x"]


def world(chk, n):
    g = chk.g
    w = chk.lab.world()
    for i in range(n):
        name = f"n{i:03d}"
        w.file(name, b"", g.pick(0, 1, 5, 1000))
        if g.chance(0.5):
            w.set_values(name, "vfast", {"xnum": g.r.randrange(50)})
    chk.lab.seal(w)
    return w


def run(chk):
    chk.laws("slice", "pages", "groups")
    g = chk.g
    sizes = {n: world(chk, n) for n in (0, 1, 3, 7, 130)}
    bounds = [None, -9, -8, -7, -6, -4, -3, -2, -1, 0, 1, 2, 3, 4, 6, 7, 8, 9]

    def form(a, b):
        return f"{'' if a is None else a}:{'' if b is None else b}"
    items = [(n, form(a, b)) for n in (0, 1, 3, 7) for a in bounds for b in bounds]
    items += [(130, form(a, b)) for a in (None, -131, -130, -101, -100, -31, -1, 0, 1, 99, 100, 101, 129, 130, 131)
              for b in (None, -131, -130, -101, -100, -31, -1, 0, 1, 99, 100, 101, 129, 130, 131)]
    items += [(n, f"{s},{p}") for n in (0, 1, 3, 7, 130) for s in (0, 1, 2, 3, 4, 7, 8, 10, 100) for p in (0, 1, 2, 3, 7, 13, 50)]
    items += [(n, x) for n in (3,) for x in BAD] + [(n, "-1") for n in sizes]

    def make(x):
        n, t = x
        w = sizes[n]
        words = ["-1"] if t == "-1" and g.chance(0.7) else g.pick(["-l", t], ["--limit", t], ["--limit=" + t])
        mode = g.pick("console", "console", "json", "jsonl", "exec", "batch")
        opts = [["-j", g.pick("1", "3", "8")], g.pick(["-S"], ["-S", "path"], ["-S", "name:v"], ["-S", "vfast.xnum,path"])] if g.chance(0.9) else [["-j2"]]
        if g.chance(0.3):
            opts.append(["-R"])
        if mode in ("json", "jsonl"):
            opts.append(["--" + mode])
        opts.append(words)
        g.r.shuffle(opts)
        argv = [y for o in opts for y in o]
        if g.chance(0.2):
            argv = [f"name~n0.[02468]"] + argv
        if mode in ("exec", "batch"):
            argv += ["-x" if mode == "exec" else "-X", chk.lab.rec, "{path}"]
        return Scen(w.num, argv, mode=mode, opt=g.chance(0.2), tag="slice")
    chk.family("slices", items, make, 1100, share=0.6)
    # consecutive pages partition the results
    for n in (7, 130):
        for size in ((3,) if chk.quick else (1, 2, 3, 4, 7, 9)):
            w = sizes[n]
            full = chk.lab.runner.cli(["-S", "-j3"], w.cwd)["out"].split(b"\n")[:-1]
            pages = chk.lab.runner.pmap(lambda p: chk.lab.runner.cli(["-S", "-j3", "-l", f"{size},{p}"], w.cwd)["out"].split(b"\n")[:-1],
                                        range(n // size + 2))
            chk.count(("pages", n, size), len(pages))
            chk.expect(sum(pages, []) == full and len(full) == n, "the pages do not partition the results",
                       {"size": size, "n": n, "pages": pages, "full": full})

    def worlds():
        return chk.worlds(6, sizes=(8, 20, 40), values=0.6)

    def one(ctx):
        E = dict(expr=0.4, sort=0.95, limit=1, reverse=0.4, output=0.3, all=0.5, print0=0.5, bad=0.005, exclude=0.05, dirs=0.15,
                 mode={"console": 6, "json": 2, "jsonl": 2, "exec": 2, "batch": 2}, exec_words=lambda g, c: [c.lab.rec, "{}"],
                 ffopts=0.1)
        return searches.search(g, ctx, E)
    chk.explore(one, worlds)
