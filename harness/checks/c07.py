"""C07: ignore files."""
import searches
from scen import Scen

RULE = "random trees with ignore files in several directories; non-trivial: something was reported"


def run(chk):
    chk.laws("ignore", "globlaws", "below")
    g = chk.g

    def worlds():
        return chk.worlds(8, sizes=(10, 25, 40), values=0, prepare=lambda w: g.ignore_files(w, g.pick(1, 2, 4, 6)), odd=0.25, links=0.05)

    def one(ctx):
        names = None
        E = dict(ignore=0.92, noparent=0.2, expr=0.25, exclude=0.05, dirs=0.5, follow=0.03, abs=0.1, sort=0.15, limit=0, case=0.05,
                 output=0.1, print0=0.3, mode={"console": 6, "jsonl": 2, "json": 1, "count": 1}, plugfield=0,
                 kinds=["str", "type"], opt=0.2)
        s = searches.search(g, ctx, E)
        if g.chance(0.25):
            n = g.pick(".gitignore", ".ignore", ".fdignore", ".ffignore", ".gitignore,.ffignore", ".ignore,.fdignore,.nosuch", "nosuch")
            s.argv = g.pick(["--ignore-files", n], ["--ignore-files=" + n]) + s.argv
        # the attributes behind --ignore
        x = g.r.random()
        if x < 0.15:
            for k in ("-I", "--ignore"):
                if k in s.argv:
                    s.argv = ["-e" + g.pick("ignored=yes", "ignore.ignored=t")] + [a for a in s.argv if a != k]
        elif x < 0.3:
            s.argv = ["-o", g.pick("path,ignored,ignore.path:x", "ignore.path,path", "ignored")] + [a for a in s.argv if a not in ("-I", "--ignore")]
        elif x < 0.36:
            s.argv = [a for a in s.argv if a not in ("-I", "--ignore")] + [g.pick("ignored=yes", "ignored=no", "ignore.path:ignore", "ignore.path~[.]gitignore$")]
        return s
    chk.explore(one, worlds)
