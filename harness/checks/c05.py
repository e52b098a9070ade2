"""C05: single tests of every type, operator and case mode, and references."""
import itertools
import searches
from scen import Scen, dec

RULE = ("every attribute type with every operator and a set of values, and random single tests with and without references in all case "
        "modes; non-trivial: something was reported or the test was rejected")
OPS = ["=", ":", "~", "%", ">", ">=", "<", "<=", "+", "+=", "-", "-=", "!=", "=="]
VALUES = {
    "vfast.xstr": ["hello", "Hello", "H.l*", "a/b", "x"], "vfast.xpath": ["dir", "dir/", "/abs/p", "*/b", "a/b"],
    "vnorm.xnum": ["10", "0", "99", "x", "-1"], "vslow.xsize": ["1K", "1000", "1.5K", "10M", "k"], "vfast.xdur": ["60s", "1m", "1h", "1", "x"],
    "vnorm.xtime": ["1700000000", "1970-01-02", "1d", "x"], "vslow.xmode": ["644", "u=rw,go=r", "u+x", "+x", "8"],
    "vfast.xbool": ["true", "no", "maybe"], "vnorm.xftype": ["f", "file", "dir", "q"], "vslow.xlist": ["x", "hello", "A/b", "[xa]*"],
    "size": ["1K", "0", "1024"], "perm": ["755", "a+x", "u+s"], "type": ["d", "file"], "name": ["foo", "F*", "a"], "mtime": ["10d", "0"],
    "hidden": ["yes", "f"], "depth": ["0", "1"], "ext": ["txt", "TXT", "t.t"]}


def run(chk):
    chk.laws("globplain", "regex", "regexrep", "num", "cmptext")
    g = chk.g

    def worlds():
        return chk.worlds(6, sizes=(25, 40), values=0.75, odd=0.3)
    ctxs = worlds()
    items = [(a, o, v) for a, vs in VALUES.items() for o in OPS for v in vs]

    def make(x):
        a, o, v = x
        return Scen(g.pick(ctxs).w.num, ["-j2", "--no-cache", "-0", "-c", g.pick("smart", "ignore", "sensitive"), a + o + v], nl=b"\0",
                    opt=g.chance(0.3), tag="operator table")
    chk.family("attribute types x operators x values", items, make, 450, share=0.35)

    # references to files in, next to and far from the start directories: which of them they are attributed to
    w = chk.lab.world()
    for p in ("d/a/b/f", "d/f", "d2/f", "d2/g/h", "d2/g/b/f", "dd/f", "x/d/f", "f", "d/F", "D2/f", "d/A/B/F"):
        w.file(p, b"12345")
    chk.lab.seal(w)
    refs = ["d", "d2", "d2/f", "d2/g/h", "d/a/b", "d/f", "dd/f", "f", "x/d/f", "./d2/g", "d/../d2/g", "x", "."]
    dirs = [["d"], ["d2"], ["./d/"], ["d", "d2"], ["d2", "d"], ["d/a", "d"], ["d", "d/a"], ["."], ["x", "."], [".", "d2"], ["ABS/d"], ["ABS/d", "d2"]]
    tests = ["depth={}", "depth+={}", "depth-{depth}"] + [a + o + "{" + b + "}" for a, b in (("relpath", ""), ("dir", ""), ("root", ""), ("path", ""), ("pathx", ""), ("path", "dir"),
                                                                                           ("relpath", "pathx"), ("dir", "root")) for o in "=:~"]

    cases = [None, "ignore", "sensitive", "smart"]
    names = ["name" + o + "{" + b + "}" for o in "=:~%" for b in ("", "relpath")] + ["relpath={}", "relpath:{name}", "dir%{dir}", "path~{name}"]

    def refer(x):
        r, d, t, a = x
        a, c = (False, a[0]) if isinstance(a, tuple) else (a, None)
        words = [y for z in d for y in ("-D", z.replace("ABS", dec(w.root)))] + (["-a"] if a else []) + (["-c", c] if c else [])
        return Scen(w.num, ["-j1", "--no-cache", "-0", t + r] + words, nl=b"\0", opt=g.chance(0.3), tag="reference table")
    chk.family("references x start directories x attributes", itertools.product(refs, dirs, tests, (False, True)), refer, 200, share=0.3)
    chk.family("references x case modes", itertools.product(["d/F", "D2/f", "d/f", "d/A", "d/A/B/F"], [["."], ["d", "d2"]], names, [(c,) for c in cases]), refer, 100, share=0.3)

    attrs = ["type={}", "hide={}", "hidden={}", "mtime+={}", "perm={}", "name={}", "name:{}", "size-={}", "root={}", "dir={}", "path:{name}", "empty={}", "links-{}", "uid={}", "ext={}", "pathx={}"]
    chk.family("references to special places", itertools.product(["/", "d/", "./", "../", "/tmp", "d2/g/", "d/..", "d/.", "d//f"], [["."], ["d", "d2"], ["ABS/d"]], attrs, (False, True)), refer, 90, share=0.3)

    # values and file names with white space at their ends and within
    v = chk.lab.world()
    odd = ["a\nb", "a", "a\n", "a ", " a", "a b", "\na", "a\tb", "ab", "b", "\n", " ", "a\n\nb", "a\u00a0", "a\u2028b"]
    for n in odd:
        v.file("d/" + n, b"x")
    chk.lab.seal(v)
    ends = [x + y + z for x in ("", " ", "\n") for y in ("a", "a\nb", "a b", "a\n\nb", "a\tb", "a\u2028b") for z in ("", " ", "\n", "\u00a0", " \n")]

    def white(x):
        a, o, t, e = x
        if o == "%" and a == "path":
            t = "**" + t
        return Scen(v.num, ["-j1", "--no-cache", "-0"] + (["-e", a + o + t] if e else [a + o + t]), nl=b"\0", opt=g.chance(0.3), tag="white space")
    chk.family("white space in values", itertools.product(("name", "path", "file.relpath"), ("=", ":", "~", "%", " = ", "\t: "), ends, (False, False, True)), white, 120, share=0.3)

    def one(ctx):
        E = dict(expr=1, nexpr=[1, 1, 1, 2], bad=0.04, refs=0.3, case=0.65, exclude=0.05, output=0, all=0, sort=0.05, limit=0, dirs=0.15,
                 print0=0.7, sep=0, abs=0.15, follow=0.12, opt=0.3, si=0.03, mode={"console": 8, "count": 1, "jsonl": 1},
                 kinds=["str", "str", "str", "num", "num", "type", "bool", "mode", "plug", "plug", "plug", "plug"])
        if g.chance(0.12):
            return searches.api(g, ctx, E)
        s = searches.search(g, ctx, E)
        return s
    chk.explore(one, worlds)
