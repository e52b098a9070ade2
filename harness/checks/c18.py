"""C18: equivalent command lines."""
import os, itertools
import searches
from scen import Scen, quote
from gen import Ctx

RULE = ("every option in every spelling (separate, attached, =, bundled, from FF_OPTIONS, without or with a superfluous, empty or invalid "
        "argument, abbreviated), pairs of options in both orders and from both sources, directory arguments in every position, words behind "
        "-x and -X; and random command lines in random spellings; non-trivial: something was reported or the usage was rejected")

FLAGS = [["-H", "--hide"], ["-I", "--ignore"], ["--no-parent-ignore"], ["-L", "--follow"], ["--one-file-system", "--mount", "--xdev"], ["--fail"],
         ["-a", "--absolute-path"], ["-0", "--print0"], ["-v", "--verbose"], ["-R", "--reverse"], ["-1"], ["--all"], ["--json"],
         ["--jsonl", "--ndjson"], ["--si"], ["--no-cache"]]
ARGS = [(["-j", "--jobs"], ["1", "3", "0", "99", "x", "-1", "1.5", "", "01"]),
        (["-D", "--directory"], ["d", "./d/", "nosuch", "", ".", "e e"]),
        (["-e", "--exclude"], ["type=d", "name=a", "nosuch=1", "(", "", "size>x", "name~("]),
        (["--ignore-files"], [".ffignore", "a,b", ".gitignore , .x", ""]),
        (["-d", "--depth"], ["0", "1-2", "-1", "1-", "x", "", "0,2-", "2-0", "2,0-1", "3-,1", "3,1", "-2,0", "--", "1:2"]),
        (["-c", "--case"], ["smart", "ignore", "sensitive", "Smart", "", "x", "sens"]),
        (["--halt", "--halt-on-error"], ["never", "soon", "now", "", "later", "Now"]),
        (["-C", "--color"], ["auto", "never", "", "yes", "Never"]),
        (["-l", "--limit"], ["0:1", ":2", "-2:", "2,1", "x", "", "1", "1:2:3", "1,", ",1", "-1,2", "0,0", "1:-1"]),
        (["-o", "--output"], ["name", "name,size", "", "nosuch", "name:n", ",", "path:q"]),
        (["--sep"], [",", "\\t", "", "ab"])]
OPTIONAL = [(["-S", "--sort"], ["name", "size,name", "nosuch", "", "name:v"]), (["--count"], ["size", "type,depth", "nosuch", "", "size:h"])]
WORDS = ["-x", "--exec", "-X", "--hide", "--json", "(", ")", "AND", "or", "name=a", "./d", "--no-such", "-j", "--", "-", "--count", "-o=1", "{}", "--version", "-h"]


def mode_of(words):
    """How the output has to be read (the options are judged by the specification)."""
    j = None
    count = False
    skip = False
    for w in words:
        if skip:
            skip = False
        elif w in ("--json",):
            j = "json"
        elif w in ("--jsonl", "--ndjson"):
            j = "jsonl"
        elif w.startswith("--count"):
            count = True
        elif w in ("-D", "-e", "-o", "-l", "-c", "-C", "-d", "-j", "--sep", "--output", "--exclude", "--directory"):
            skip = True
    return ("countjson" if j else "count") if count else (j or "console")


def run(chk):
    chk.laws("bundle", "commute", "attached", "rest", "range")
    g = chk.g
    w = chk.lab.world()
    for p in ("a", "B", "d/a", "d/x.txt", "d/sub/deep/q", "d/.hid", ".hidden/z", "e e/y", "e e/a10", "e e/a9", "-x/in", "k=v/f"):
        w.file(p, b"12345"[:len(p) % 5])
    w.file(".gitignore", b"q\n")
    w.file("d/.ffignore", b"x.txt\n")
    w.link("l", b"d/a")
    chk.lab.seal(w)

    def scen(words, ff=(), raw=None, tag=""):
        m = mode_of(list(ff) + list(words))
        nl = b"\n"
        both = list(ff) + list(words)
        if "-0" in both or "--print0" in both or any(x.startswith("-") and not x.startswith("--") and "0" in x and x[1] in "HILaRv10" and x.strip("-HILaRv01") == ""
                                                     for x in both):
            nl = b"\0" if m == "console" else b"\n"
        env = {}
        if raw is not None:
            env["FF_OPTIONS"] = raw
        return Scen(w.num, list(words), mode=m, nl=nl, ffopts=list(ff), env=env, opt=g.chance(0.25), tag=tag)

    # ---- every option in every spelling
    cases = []
    for names in FLAGS:
        for n in names:
            cases.append(([n], "flag"))
            if n.startswith("--"):
                cases += [([n + "=x"], "flag with argument"), ([n + "="], "flag with argument"), ([n[:-1]], "abbreviated"), ([n + "x"], "unknown option"),
                          (["-" + n], "unknown option"), ([n[1:]], "one dash")]
            else:
                cases += [([n + "H"], "bundle"), (["-H" + n[1]], "bundle"), ([n + "Z"], "bundle with an unknown option"), ([n, "x"], "flag and test"),
                          ([n + "=1"], "bundle with an unknown option")]
    for names, vals in ARGS:
        for n in names:
            cases += [([n], "missing argument"), (["a/", n], "missing argument")]
            for v in vals:
                cases.append(([n, v], "separate argument"))
                if n.startswith("--"):
                    cases += [([n + "=" + v], "= argument"), ([n[:-1], v], "abbreviated"), ([n + v], "unknown option")]
                else:
                    cases += [([n + v] if v else [n, v], "attached argument"), (["-H" + n[1], v], "bundle"), (["-RH" + n[1] + v] + ([] if v else [v]), "bundle"),
                              ([n + "=" + v], "attached argument with =")]
    for names, vals in OPTIONAL:
        for n in names:
            cases += [([n], "optional argument"), ([n, "-H"], "optional argument"), (["-H", n], "optional argument"), (["name%*", n], "optional argument")]
            for v in vals:
                cases.append(([n, v], "optional argument"))
                if n.startswith("--"):
                    cases.append(([n + "=" + v], "optional argument"))
                else:
                    cases += [([n + v] if v else [n], "optional argument"), (["-H" + n[1], v], "optional argument"), (["-R" + n[1] + v], "optional argument")]
    for a, b in itertools.product(("H", "R", "a", "L", "0", "I", "1"), repeat=2):
        cases.append((["-" + a + b], "bundle"))
    cases += [([x], "odd word") for x in ("-", "--", "---", "--=", "-=", "--=x", "-?", "-é", "---json", "--no_cache", "-é1", "-11", "-1H", "-00")]

    def place(x):
        """The option at a random place: in front of or behind a test, alone, or in FF_OPTIONS."""
        words, tag = x
        k = g.r.randrange(5)
        t = g.pick(["name%*a*"], ["type=f", "or", "name=d"], ["size<4"])
        if k == 0:
            return scen(words, tag=tag)
        if k == 1:
            return scen(t + words, tag=tag)
        if k == 2 and not (words[-1] in ("-S", "--sort", "--count") or words[-1].endswith("S")):
            return scen(words + t, tag=tag)
        if k == 3:
            return scen(t, words, tag=tag + " in FF_OPTIONS")
        return scen(["-H"] + t, words, tag=tag + " in FF_OPTIONS")
    chk.family("options in every spelling", cases, place, 420, share=0.4)

    # ---- pairs of options, in both orders and from both sources
    ok = [([n], n) for names in FLAGS for n in names] + [([g.pick(names), v], names[0]) for names, vals in ARGS for v in vals[:3]] + \
         [([n, v], names[0]) for names, vals in OPTIONAL for n in names for v in vals[:2]]
    pairs = list(itertools.product(ok, ok))

    def pair(x):
        a, b = x[0][0], x[1][0]
        k = g.r.randrange(4)
        t = g.pick([], ["type=f"], ["d/"], ["e e/", "size<3"])
        if k == 0:
            return scen(a + b + ["-H"] + t, tag="two options")
        if k == 1:
            return scen(t + b + a, tag="two options")
        if k == 2:
            return scen(b + ["-H"] + t, a, tag="an option in FF_OPTIONS and one on the command line")
        # quoting in FF_OPTIONS
        style = g.r.randrange(3)
        def q(s):
            if style == 0:
                return quote(s)
            if style == 1:
                return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
            return "".join("\\" + c if not c.isalnum() else c for c in s) or "''"
        raw = g.pick(" ", "", "\t ") + g.pick(" ", "  ", "\n").join(q(s) for s in a + b) + g.pick("", " ")
        return scen(t, a + b, raw=raw, tag="FF_OPTIONS")
    chk.family("pairs of options", pairs, pair, 260, share=0.4)

    # ---- directories in front of and behind tests
    D = ["d/", "./d", "d/sub/", "e e/", "./e e", "./-x", "./k=v", "k=v/", ".", "./", "nosuch/", "d", "./a", "a/", "l/", "../" + os.path.basename(w.cwd) + "/d",
         w.cwd + "/d", "d//", "d/../e e/", "./d/./", "/nosuch"]
    T = ["name=a", "type=f", "or", "(", ")", "not", "path=./d"]
    lines = [list(x) for n in (1, 2, 3) for x in itertools.product(D + T[:2], repeat=n)] if not chk.quick else []
    lines += [[g.pick(D) for _ in range(g.r.randrange(0, 3))] + [g.pick(T) for _ in range(g.r.randrange(0, 4))] + [g.pick(D) for _ in range(g.r.randrange(0, 3))]
              for _ in range(300 if chk.quick else 3000)]
    chk.family("directory arguments", lines, lambda x: scen(x + g.pick([], ["-H"], ["-D", "d"], ["-a"]), tag="directories"), 250, share=0.4)

    # ---- equivalent searches: depth ranges as tests, -1
    eq = [(["-d", "1-2"], ["depth>=1", "depth<=2"]), (["-d", "0"], ["depth=0"]), (["-d", "1-"], ["depth>=1"]), (["-d", "0,2"], ["depth=0", "or", "depth=2"]),
          (["-d", "-1"], ["depth+=0", "depth-=1"]), (["-S", "-1"], ["-S", "-l", "0:1"]), (["-D", "d"], ["d/"]), (["size+3"], ["size>3"]), (["size+=3"], ["size>=3"]),
          (["size-3"], ["size<3"]), (["size-=3"], ["size<=3"]), (["-H"], ["-e", "hide=yes"]), (["--ndjson"], ["--jsonl"]), (["--xdev"], ["--mount"]),
          (["{{", "name=a", "}}"], ["(", "name=a", ")"]), (["type=f", "name=a"], ["type=f", "AND", "name=a"]), (["--halt", "now"], ["--halt-on-error=now"])]
    chk.judge([scen(x, tag="equivalent") for p in eq for x in p])
    for a, b in eq:
        ra, rb = (chk.lab.runner.cli(x + ["-j2"] if x[0] != "{{" or True else x, w.cwd) for x in (a, b))
        chk.count(("equivalent", tuple(a)))
        chk.expect(sorted(ra["out"].split(b"\n")) == sorted(rb["out"].split(b"\n")) and ra["status"] == rb["status"],
                   "equivalent command lines behave differently", {"first": a, "second": b, "out": [ra["out"], rb["out"]], "status": [ra["status"], rb["status"]]})

    # ---- words behind -x and -X
    rest = []
    for o in ("-x", "--exec", "-X", "--exec-batch"):
        for n in (0, 1, 2, 3):
            for _ in range(30 if n else 2):
                rest.append((o, [g.pick(WORDS) for _ in range(n)]))

    def behind(x):
        o, words = x
        pre = g.pick([], ["type=f"], ["-H", "name=a"], ["-S"], ["d/"])
        ff = g.pick([], [], ["-H"], [o]) if not words else g.pick([], ["-S", "name"], ["-j", "2"])
        m = "exec" if o in ("-x", "--exec") else "batch"
        words = [y for i, y in enumerate(words) if m == "exec" or y != "{}" or "{}" not in words[:i]]
        cmd = [chk.lab.rec] + words if words or g.chance(0.5) else []
        if ff == [o]:
            cmd = []        # the rest of FF_OPTIONS is the command: everything else of it too
            return None
        return Scen(w.num, pre + [o] + cmd, mode=m, ffopts=ff, tag="words of the command")
    chk.judge([s for s in map(behind, rest if not chk.quick else g.r.sample(rest, 90)) if s is not None])

    # ---- random searches in random spellings
    def worlds():
        return chk.worlds(5, sizes=(10, 25), values=0.4, odd=0.3, hidden=0.15)

    def one(ctx):
        E = dict(expr=0.6, exclude=0.3, hide=0.2, ignore=0.1, depth=0.3, case=0.2, follow=0.15, abs=0.2, sort=0.3, reverse=0.4, limit=0.25, print0=0.2,
                 sep=0.2, all=0.2, output=0.5, dirs=0.5, ffopts=0.5, si=0.1, onefs=0.1, fail=0.1, bad=0.01, nexpr=[1, 2, 3],
                 mode={"console": 8, "json": 2, "jsonl": 2, "count": 2, "countjson": 1})
        return searches.search(g, ctx, E)
    if chk.more(9):
        chk.reset()
        chk.explore(one, worlds, n=300 if chk.quick else 900)
