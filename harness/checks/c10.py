"""C10: --count."""
import searches

RULE = ("random --count searches (plain and JSON) over attributes of every type, result sets down to the empty one, several numbers of "
        "workers; non-trivial: a total above zero or a rejected attribute")


def nontrivial(s, r):
    o = r["obs"]
    return bool(len(o["pieces"]) > 1 or len(o["cnt"]) > 1 or o["st"] not in (0, 1))


def run(chk):
    chk.laws("num", "base", "filemode", "join", "ext", "civil")
    g = chk.g

    def prepare(w):
        if g.chance(0.25):
            # more than one chunk
            for i in range(g.pick(99, 101, 130, 230)):
                w.file(f"many{i % 3}/f{i}", b"", g.pick(0, 7, 1023, 1025))

    def worlds():
        return chk.worlds(6, sizes=(1, 3, 15, 30), values=0.6, odd=0.2, big=True, prepare=prepare)

    def one(ctx):
        E = dict(expr=0.6, nexpr=[1, 1, 2], bad=0.04, exclude=0.1, si=0.15, sort=0.05, limit=0.02, fail=0.1, dirs=0.2, plugfield=0.45,
                 jobs=[1, 2, 4, 8, 16], mode={"count": 3, "countjson": 2}, ffopts=0.1, opt=0.3)
        s = searches.search(g, ctx, E)
        if g.chance(0.1):
            # nothing matches
            s.argv = ["name=nosuchname"] + s.argv if s.argv and s.argv[0].startswith("-") and not any(
                not a.startswith("-") and "=" in a for a in s.argv) else s.argv
        if g.chance(0.05):
            a = g.pick("--limit=0:1", "-1", "ulist")
            if a == "ulist":
                s.argv = s.argv + ["--count", g.pick("ulist", "vfast.xlist", "name,vslow.xlist")]
            else:
                s.argv = s.argv + [a]
        return s
    chk.explore(one, worlds, nontrivial=nontrivial)
