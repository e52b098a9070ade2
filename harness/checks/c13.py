"""C13: -X."""
import os
import searches
from scen import Scen

RULE = ("random -X commands, and result sets beyond the limit of the operating system for argument lists; the arguments of every command "
        "are recorded; non-trivial: a command was run")


def long_world(chk, n, size):
    """n files whose names are about size bytes long."""
    g = chk.g
    w = chk.lab.world()
    for i in range(n):
        w.file(f"d{i % 4}/" + f"{i:04d}" + "n" * max(0, size - 6 + g.r.randrange(0, 5)), b"")
    chk.lab.seal(w)
    return w


def run(chk):
    g = chk.g
    # a stack limit of 512 KiB means an argument list of 128 KiB
    shapes = [(700, 150), (1000, 150), (900, 230), (1500, 250), (650, 240), (1200, 60)] if chk.quick else \
             [(n, s) for n in (400, 700, 1000, 1500, 2200) for s in (40, 100, 150, 200, 245)]
    g.r.shuffle(shapes)
    # always one that has to be split several times in a row
    shapes.insert(0, (1400, 245) if chk.quick else (2600, 245))

    def many(shape):
        w = long_world(chk, *shape)
        out = []
        for opts in ([], ["-S"]):
            total = shape[0] * (shape[1] + 8 + 4)
            words = g.pick([chk.lab.rec], [chk.lab.rec, "{}"], [chk.lab.rec, "-a", "{}", "-z"], [chk.lab.rec, "b", "{path}"])
            argv = ["-j", g.pick("1", "4"), "type=f"] + opts
            if g.chance(0.3):
                argv += ["-l", g.pick("0:500", "-400:", "10:-10")]
            out.append(Scen(w.num, argv + ["-X"] + words, mode="batch", big=total > 90000, stack=512 * 1024, tag="long argument lists"))
        return out
    todo = []
    for sh in shapes[:3 if chk.quick else 25]:
        todo += many(sh)
    recs = chk.judge(todo)
    split = sum(1 for r in recs if len(r["obs"]["cmds"]) > 1)
    chk.notes["searches with a split argument list"] = split
    chk.expect(split > 0, "no argument list was split although they exceed the limit", {})
    chk.reset()
    # a single result that does not fit
    w = chk.lab.world()
    for i in range(6):
        w.file(f"f{i}", b"")
    w.set_values("f3", "vfast", {"xstr": "y" * 140000})
    w.set_values("f4", "vfast", {"xstr": "z"})
    chk.lab.seal(w)
    for opts in ([], ["-S"], ["-S", "-R"], ["name=f3"]):
        res = chk.lab.runner.cli(["-j2"] + opts + ["-X", chk.lab.rec, "{vfast.xstr}"], w.cwd, env={"VERIF_PLUGDATA": w.plugdata})
        chk.count(("too long", tuple(opts)))
        chk.expect(res["status"] == 3 and res["err"] and not res["timeout"], "a result that does not fit was not reported as an error",
                   {"argv": opts, "status": res["status"], "stderr": res["err"]})
    # a command that does not exist
    for mode, cmd in (("-X", "/nosuch/command"), ("-X", w.cwd), ("-X", w.cwd + "/f1")):
        res = chk.lab.runner.cli(["-j2", "type=f", mode, cmd, "{}"], w.cwd, env={"VERIF_PLUGDATA": w.plugdata})
        chk.count(("no command", cmd.rsplit("/", 1)[-1]))
        chk.expect(res["status"] == 3 and not res["timeout"], "a command that cannot be run gives no exit status 3",
                   {"command": cmd, "status": res["status"], "stderr": res["err"]})
    res = chk.lab.runner.cli(["-j2", "name=none", "-X", "/nosuch/command", "{}"], w.cwd, env={"VERIF_PLUGDATA": w.plugdata})
    chk.count(("no result",))
    chk.expect(res["status"] == 0, "a command was run without results", {"status": res["status"], "stderr": res["err"]})

    def prepare(w):
        if g.chance(0.3):
            w.file("fail", b"x")
        if g.chance(0.2):
            for i in range(g.pick(101, 120, 205)):
                w.file(f"lots/f{i}", b"")

    def worlds():
        return chk.worlds(6, sizes=(5, 15, 30), values=0.6, odd=0.4, prepare=prepare)

    def one(ctx):
        E = dict(searches.BATCH, expr=0.55, bad=0.015, jobs=[1, 2, 4, 8], ffopts=0.1, all=0.2, opt=0.25, si=0.1, fail=0.1, sort=0.5, dirs=0.2)
        return searches.search(g, ctx, E)
    chk.explore(one, worlds, n=350 if chk.quick else 800)
