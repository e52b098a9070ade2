"""C06: glob patterns."""
import itertools
import searches
from scen import Scen

RULE = ("all short patterns over a small alphabet against names, paths and plugin strings chosen to tell them apart, and random patterns "
        "derived from the values that occur; non-trivial: something was reported or the pattern was rejected")
NAMES = ["a", "b", "ab", "aa", "ba", "A", "a*b", "[a]", "!a", "a?b", "a\nb", ".a", "a.b", "^a", "-", "\\a", "a]", "#a", "\u00e4", "**"]
ALPHA = ["a", "b", "*", "?", "/", "[", "]", "!", "**", "-", "\\", ".", "^"]


def glob_world(chk):
    w = chk.lab.world()
    for n in NAMES:
        w.file(n, b"x")
    for d in ("d", "a_", "b_"):
        w.mkdir(d)
    for n in ("d/a", "d/b", "d/a.b", "a_/a/a", "a_/a/b", "a_/b/a/b", "b_/a/b/a", "b_/ab/a", "d/e/a"):
        w.file(n, b"x")
    k = 0
    for n in NAMES[:14]:
        w.set_values(n, "vfast", {"xstr": ["a/b", "a", "ab", "b/a/b", "/a", "a/", "", "a//b", "a/a/a/b", "A/B", "b", "[a]", "a\nb", "!a"][k],
                                  "xpath": ["a/b", "a", "/a/b", "b/a/b", "/a", "a/", "", "a//b", "a/a/a/b", "A/B", "b/ab", "[a]", "x/a\nb", "!a"][k]})
        k += 1
    chk.lab.seal(w)
    return w


def run(chk):
    chk.laws("glob", "globlaws", "globplain", "globregex")
    g = chk.g
    w = glob_world(chk)
    pats = sorted({"".join(x) for n in (1, 2, 3) for x in itertools.product(ALPHA, repeat=n)})

    def make(p):
        a = g.pick("name", "path", "relpath", "vfast.xstr", "vfast.xpath", "dir", "pathx")
        return Scen(w.num, ["-j1", "--no-cache", "-0", "-c", g.pick("sensitive", "smart", "ignore"), f"{a}%{p}"], nl=b"\0", tag="small pattern")
    chk.family("patterns of up to three symbols", pats, make, 600, share=0.3)
    syms = ["a", "b", "?", "*", "**/", "/**", "/**/", "/", "[ab]", "[!a]", "[!b-z]", "ab", "!", "a/"]
    longer = sorted({"".join(x) for n in (2, 3, 4) for x in itertools.product(syms, repeat=n)})
    chk.family("patterns of up to four elements", longer, make, 450, share=0.4)

    def worlds():
        return chk.worlds(6, sizes=(20, 40), values=0.5, odd=0.35)

    def one(ctx):
        P = ctx.P
        a, src, path = g.pick(("name", "name", False), ("path", "rel", True), ("relpath", "rel", True), ("dir", "dir", True),
                              ("ext", "ext", False), ("vfast.xstr", "xstr", False), ("vnorm.xpath", "xpath", True), ("namex", "name", True),
                              ("link", "link", True), ("target", "abs", True), ("vslow.xlist", "xlist", False), ("pathx", "rel", True))
        s = g.pick(P.get(src) or ["x"])
        p = g.glob(s, path)
        for _ in range(10):
            if not p.strip() or p != p.lstrip():
                p = g.glob(s, path)
        t = f"{a}%{p}"
        opts = g.pick([], [], ["-a"], ["-L"], ["-c", "ignore"], ["-c", "sensitive"])
        if g.chance(0.15):
            return Scen(ctx.w.num, ["-j2", "-0", "-e", t] + opts, nl=b"\0", tag="glob")
        words = g.pick([t], [t], ["not", t], [t, "or", f"name%{g.glob(g.pick(P['name']), False).strip() or '*'}"])
        return Scen(ctx.w.num, ["-j2", "-0"] + opts + words, nl=b"\0", opt=g.chance(0.2), tag="glob")
    chk.explore(one, worlds)
