"""C11: -x."""
import searches
from scen import Scen

RULE = ("random -x commands (placeholders, modifiers, escapes, missing attributes, failing and sleeping commands, several job limits); the "
        "arguments, start and end of every command are recorded; non-trivial: a command was run")
MARK = ["fail", "x-fail", "fail2", "sleep2", "sleep5", "a_sleep3", "sleepfail"]


def run(chk):
    g = chk.g

    def prepare(w):
        import os
        dirs = [os.path.relpath(d, w.root) for d, _, _ in os.walk(w.root)]
        for n in MARK:
            if g.chance(0.35):
                d = g.pick(dirs)
                p = os.path.join(d, n.encode())
                if not os.path.lexists(w.p(p)):
                    w.file(p, b"x")
                    os.utime(w.p(p), (1900000000, 1600000000))
        if g.chance(0.15):
            for i in range(g.pick(101, 120, 205)):
                w.file(f"lots/f{i}", b"")

    # values that cannot be passed to a command
    z = chk.lab.world()
    for i in range(12):
        z.file(f"z{i % 3}/f{i}", b"x" * i)
        z.set_values(f"z{i % 3}/f{i}", "vfast", {"xstr": g.pick("a\0b", "\0", "plain", "x y") if i else "n\0", "xlist": ["a"]})
    chk.lab.seal(z)
    R = chk.lab.rec
    S = []
    for words in (["{vfast.xstr}"], ["{}", "{vfast.xstr}"], ["x{vfast.xstr}x", "{name}"], ["{name}"], ["{vfast.xstr:5}"]):
        for opts in (["-j1"], ["-j3", "--halt", "never"], ["-S", "-j2"], ["-j2", "-S", "vfast.xstr", "-R"], ["-j2", "type=f"], ["-j2", "size=0"], ["-j1", "size=1", "--fail"]):
            S.append(Scen(z.num, ["--no-cache"] + opts + ["-x", R] + words, mode="exec", opt=g.chance(0.3), tag="NUL characters"))
    for words in (["{vfast.xstr}"], ["x", "-{vfast.xstr}-"], ["{name}"]):
        for opts in (["-j1"], ["-S", "-j2"], ["-j2", "size=0"]):
            S.append(Scen(z.num, ["--no-cache"] + opts + ["-X", R] + words, mode="batch", opt=g.chance(0.3), tag="NUL characters"))
    chk.judge(S)

    def worlds():
        return chk.worlds(6, sizes=(5, 15, 25), values=0.6, odd=0.4, prepare=prepare)

    def one(ctx):
        E = dict(searches.EXEC, expr=0.55, bad=0.015, jobs=[1, 2, 3, 4, 8], ffopts=0.1, all=0.2, halt=0.0, opt=0.25, si=0.1, exclude=0.1,
                 fail=0.1, dirs=0.2)
        if g.chance(0.2):
            E["halt"] = 1
        s = searches.search(g, ctx, E)
        for words in (s.ffopts, s.argv):
            if "--halt" in words:
                words[words.index("--halt") + 1] = "never"
        return s
    chk.explore(one, worlds, n=350 if chk.quick else 800)
