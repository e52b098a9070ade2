"""C08: sorting."""
import os
import searches

RULE = ("random sorted searches over names with digits, extensions, dots, upper and lower case and plugin values of all types; "
        "non-trivial: at least two results")
WORDS = ["a", "A", "b", "file", "File", "x", ".h", "..x", "v", "10", "9", "2", "007", "a.b", "é", "Z", "_", "-", "~", "²", "file10.c", "file9.c",
         "file9.h", "file10", "1.10", "1.9", "foo.tar.gz", "foo.tar.10", "foo.tar.9", "a b", "a-1", "a-10", "a-2", "a_1", "abc", "ABC", ".a.b",
         "a.", "...", "½", "1a", "01", "001", "a01b", "a1b", "a1c", "2024-01-01"]


def nontrivial(s, r):
    o = r["obs"]
    return len(o.get("pieces") or o.get("json") or o.get("cmds") or o.get("recs") or []) > 1


def run(chk):
    chk.laws("version", "case", *(() if chk.quick else ("order", "orderpath", "orderv", "orderpathv", "cmptext")))
    g = chk.g

    def prepare(w):
        names = set()
        for _ in range(g.pick(10, 20, 40)):
            n = g.pick(WORDS) + (g.pick(WORDS) if g.chance(0.4) else "")
            if n in (".", "..") or len(n.encode()) > 100:
                continue
            d = g.pick("", "", "a_/", "a_/b_/", "A_/", ".h_/", "a1/", "a10/", "a2/")
            names.add(d + n)
        for n in sorted(names):
            p = w.p(n)
            if not os.path.lexists(p) and not any(os.path.lexists(w.p(n[:i])) and not os.path.isdir(w.p(n[:i])) for i in range(len(n)) if n[i] == "/"):
                w.file(n, b"", g.pick(0, 1, 10, 100))
                if g.chance(0.3):
                    pl = g.pick("vfast", "vslow")
                    w.set_values(n, pl, g.values(pl))
                if g.chance(0.5):
                    os.utime(p, (1900000000, g.pick(1, 2, 1600000000)))

    def worlds():
        return chk.worlds(6, sizes=(4, 10), values=0.5, odd=0.3, prepare=prepare)

    def one(ctx):
        E = dict(expr=0.15, sort=1, reverse=0.4, limit=0.1, print0=0.7, exclude=0.03, output=0.3, all=0.3, dirs=0.2, abs=0.1, follow=0.05,
                 sortmods=("", ":v", ":v", ""), plugfield=0.25, count=0, ffopts=0.1, jobs=[1, 2, 4, 8],
                 mode={"console": 8, "json": 1, "jsonl": 2, "batch": 1}, exec_words=searches.batch_words,
                 sortattrs=None if g.chance(0.5) else ["name", "path", "ext", "dir", "namex", "pathx", "relpath", "size", "type", "hide", "mtime", "perm",
                                                       "vfast.xstr", "vfast.xpath", "vfast.xlist", "vslow.xlist", "vfast.xnum", "link", "target"])
        if g.chance(0.12):
            return searches.api(g, ctx, dict(E, sortmods=("", ":v")))
        return searches.search(g, ctx, E)
    chk.explore(one, worlds, nontrivial=nontrivial)
