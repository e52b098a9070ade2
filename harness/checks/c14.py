"""C14: the exit status."""
import os
import searches
from scen import Scen
from checks.c18 import mode_of

RULE = ("random searches with and without mistakes (in tests, exclusions, attributes, values, options), each one in every output mode and with "
        "several numbers of workers; every mistake of a catalogue at every place where it can be made; plugins broken in every way at every place "
        "where they are used; actions; non-trivial: an error was reported, or the status is not 0, or something was found")

E1 = dict(expr=0.85, exclude=0.25, hide=0.1, ignore=0.1, depth=0.1, case=0.15, follow=0.1, abs=0.1, sort=0.3, limit=0.2, all=0.1, output=0.4, dirs=0.3,
          fail=0.45, si=0.05, opt=0.3, bad=0.12, refs=0.08, nexpr=[1, 1, 2, 3, 4], jobs=[1, 2, 4],
          mode={"console": 6, "json": 2, "jsonl": 2, "count": 2, "countjson": 2, "exec": 2, "batch": 2}, exec_words=searches.exec_words)

# plugins: (name, source, fault, usable under -O)
HEAD = "from libff.plugin import *\nimport os\n"
BODY = "class Brk(Plugin):\n    attributes = [('bval', String, 'x')]\n    def can_handle(self, entry):\n        return True\n    def process(self, entry, cached):\n        yield 'bval', 'x'\n"
LOAD = [("syntax error", "def f(:\n"), ("exception", HEAD + "raise RuntimeError('x')\n"), ("missing module", "import no_such_module_at_all\n"),
        ("missing name", "from libff.plugin import NoSuchThing\n"), ("invalid type", HEAD + BODY.replace("String, 'x'", "int, 'x'")),
        ("bad attribute list", HEAD + BODY.replace("[('bval', String, 'x')]", "[('bval',)]")), ("zero division", HEAD + "x = 1 // 0\n" + BODY),
        ("own type that fails", HEAD + "class Mine(String):\n    raise ValueError\n")]
SETUP = [("exception in setup", HEAD + BODY + "    def setup(self):\n        raise RuntimeError('x')\n"),
         ("missing import", HEAD + BODY + "    def setup(self):\n        raise MissingImport('some_module')\n"),
         ("missing file", HEAD + BODY + "    def setup(self):\n        open('/no/such/file')\n"),
         ("key error", HEAD + BODY + "    def setup(self):\n        {}['x']\n")]
RUN = [("exception", HEAD + BODY.replace("yield 'bval', 'x'", "raise RuntimeError('x')")), ("os error", HEAD + BODY.replace("yield 'bval', 'x'", "return open('/no/such/file')")),
       ("key error", HEAD + BODY.replace("yield 'bval', 'x'", "return {}['x']")), ("not implemented", HEAD + BODY.replace("return True", "raise NotImplementedError")),
       ("failing can_handle", HEAD + BODY.replace("return True", "return 1 // 0")), ("no pairs", HEAD + BODY.replace("yield 'bval', 'x'", "return [1, 2, 3]")),
       ("failing cache", HEAD + BODY.replace("    def can", "    use_cache = True\n    def cache(self, entry):\n        raise ValueError('x')\n    def can")),
       ("failing tag", HEAD + BODY.replace("    def can", "    use_cache = True\n    def get_entry_cache_tag(self, entry):\n        raise ValueError('x')\n    def can")),
       ("late exception", HEAD + BODY.replace("yield 'bval', 'x'", "yield 'bval', 'x'\n        raise RuntimeError('x')"))]
USES = [["brk.bval=x"], ["type=f", "bval=x"], ["not", "bval:x"], ["name%zz", "or", "bval=x"], ["-e", "bval=zzz"], ["-o", "bval"], ["-o", "name,bval:n", "--json"],
        ["-o", "bval", "--jsonl"], ["-S", "bval"], ["-S", "bval", "-R", "--json"], ["--count", "bval"], ["-S", "name,bval", "-l", "0:2"]]
EXECS = [["-x", "REC", "{bval}"], ["-X", "REC", "{bval}"], ["-S", "bval", "-x", "REC", "{}"], ["-S", "-x", "REC", "{bval}"]]
# mistakes, to be combined with other options
MISTAKES = [["nosuch=1"], ["file.nosuch=1"], ["nosuch.name=1"], ["xnum=3"], ["xstr=a"], ["name=a", "or"], ["("], [")"], ["name=a", ")"], ["(", ")"], ["not"], ["not", "not", "name=a"],
            ["size:3"], ["type%f"], ["perm>3"], ["hide~1"], ["size=x"], ["size=1.5"], ["mtime=x"], ["perm=9"], ["hide=2"], ["depth=x"], ["depth=-1"], ["type=x"], ["name~("], ["name~*"],
            ["name%[z-a]"], ["name"], ["=a"], ["name=", ], ["name!a"], ["name==a"], [""], ["size>{}nosuch"], ["size>{nosuch}."], ["size>{name}."], ["name={}/nosuch/x"],
            ["-e", "nosuch=1"], ["-e", "size=x"], ["-e", "("], ["-e", "or"], ["-e", "name~("], ["-e", "name"], ["-o", "nosuch"], ["-o", "name:q"], ["-o", "name size"], ["-o", ""],
            ["-S", "nosuch"], ["-S", "name:"], ["-S", ""], ["--count", "nosuch"], ["--count", "vfast.xlist"], ["--count", "size", "-l", "3:"], ["-l", "x"], ["-l", "1"], ["-j", "x"], ["-j", "-1"],
            ["-d", "x"], ["-d", ""], ["-c", "x"], ["--halt", "x"], ["-C", "x"], ["-D", "nosuch"], ["-D", "d", "-D", "d/sub"], ["d/", "./d/sub"], ["-D", ".", "-D", "d"], ["-D", "d", "-D", "d"],
            ["--nosuch"], ["-Z"], ["--json=1"], ["-j"], ["-e"], ["--sep"], ["vslow.nosuch=1"], ["-D", ""], ["name=a", "-H", "name=b"], ["--count", "size", "-x", "REC"], ["--count", "-X", "REC"]]
CONTEXTS = [[], ["--json"], ["--jsonl"], ["-S"], ["--fail"], ["-j", "4"], ["-l", ":2"], ["-H", "-R"], ["--no-cache"], ["-0"], ["-v"], ["--one-file-system"], ["-I"], ["-a"]]


def modeof(words):
    if "-x" in words:
        return "exec"
    if "-X" in words:
        return "batch"
    return mode_of(words)


def run(chk):
    g = chk.g
    w = chk.lab.world()
    for p in ("a", "B", "d/a", "d/x.txt", "d/sub/deep/q", "d/.hid", "e e/y"):
        w.file(p, b"12345"[:len(p) % 5])
    w.set_values("a", "vfast", {"xstr": "x", "xlist": ["a"]})
    chk.lab.seal(w)

    def scen(words, ff=(), env=None, opt=None, **kw):
        words = [chk.lab.rec if x == "REC" else x for x in words]
        both = list(ff) + words
        nl = b"\0" if "-0" in both and modeof(both) == "console" else b"\n"
        return Scen(w.num, words, mode=modeof(both), nl=nl, ffopts=list(ff), env=env, opt=g.chance(0.3) if opt is None else opt, **kw)

    # ---- mistakes at every place
    def mistake(x):
        m, c = x
        k = g.r.randrange(4)
        tests = m and not m[0].startswith("-")
        tail = g.pick([], [], ["-x", "REC"], ["-X", "REC"]) if not ({"-x", "-X", "--count"} & set(m)) else []
        c = c if not (set(c) & {"-S"} and tests) else ["-S", "name"]
        if k == 0 or "-x" in m or "-X" in m:
            return scen(c + m + tail, tag="mistake")
        if k == 1:
            return scen(m + c + tail, tag="mistake") if m[-1] not in ("-j", "-e", "--sep") else scen(m, tag="mistake")
        if k == 2 and m[-1] not in ("-j", "-e", "--sep", "-Z"):
            return scen(c + tail, ff=m, tag="mistake in FF_OPTIONS")
        return scen((["type=f"] if not tests else []) + c + m + (tail if m[-1] not in ("-j", "-e", "--sep") else []), tag="mistake")
    chk.judge([scen([o] + m, tag="mistake") for m in MISTAKES + [["./nosuch/", "./d"], ["-D", "d", "-D", "a/b"], ["-D", "."] + ["-D", "nosuch", "name=a"]]
               for o in (["--json"] if chk.quick else ["--json", "--jsonl", "-0"]) if not {"-x", "-X", "--count"} & set(m)])
    chk.family("mistakes in contexts", [(m, c) for m in MISTAKES for c in CONTEXTS], mistake, 240, share=0.3)

    # ---- malformed FF_OPTIONS, actions, caches
    env = {"PATH": manstub(chk) + ":" + os.environ.get("PATH", "/usr/bin:/bin")}
    S = []
    for raw in ("'", '"', "-H 'x", "\\", "-H \\", "a'b"):
        for c in ([], ["--json"], ["--version"], ["-x", "REC"]):
            S.append(Scen(w.num, [chk.lab.rec if x == "REC" else x for x in c], mode=modeof(c), ffopts=["--nosuch"], env={"FF_OPTIONS": raw}, tag="malformed FF_OPTIONS"))
    acts = [["--version"], ["--help"], ["-h"], ["-hfile"], ["-h", "git"], ["--help=grep"], ["--help-full"], ["--help-attributes"], ["--help-plugins"], ["--help-types"],
            ["--help", "nosuch"], ["-h", "all"], ["--clean-cache"], ["-h", ""], ["--help-nosuch"], ["--version=1"], ["--clean-cache", "x"]]
    if chk.quick:
        acts = acts[:1] + g.r.sample(acts[1:], 9)
    for a in acts:
        for c in [[], g.pick(["-o", "nosuch"], ["--count", "nosuch"], ["-S", "nosuch:"], ["--nosuch"]), g.pick(["-e", "x"], ["-D", "nosuch"], ["-j", "0"], ["-l", "x"]),
                  g.pick(["--json"], ["--fail"], ["-H"], ["-c", "x"], ["--count"])]:
            S.append(scen(c + a if c and c[-1] != "--count" or a[0][0] == "-" else a, env=env, tag="action"))
    for a in (["-h", "git"], ["--help-full"], ["-hfile"], ["--help-attributes"], ["--help=nosuch"]):
        for stub in (chk.lab.scratch.new("bin"), manstub(chk, "exit 3")):
            S.append(scen(g.pick([], ["-S"], ["--fail"], ["--json"]) + a, env={"PATH": stub}, fault="man", tag="man(1) fails"))
    bad = chk.lab.scratch.new("c")
    for c in ("/nosuch/dir/cache.db", bad, w.cwd + "/a/cache.db"):
        for m in ([], ["--json"], ["type=f", "--jsonl"], ["--count"], ["-x", "REC"], ["-S"], ["vcache.cval=x"], ["--version"], ["--clean-cache"], ["-X", "REC"], ["--fail", "name=nosuch"]):
            if m and m[0].startswith("--") and m[0] in ("--version", "--clean-cache"):
                continue
            S.append(scen(["--cache", c] + m, fault="cache", tag="cache that cannot be opened"))
            S.append(scen(m, ff=["--cache=" + c], fault="cache", tag="cache that cannot be opened"))
    chk.judge(S if not chk.quick else [s for s in S if "cache" not in s.tag or g.chance(0.4)])

    # ---- plugins that are broken
    S = []
    for kind, plugs in (("load", LOAD), ("setup", SETUP), ("run", RUN)):
        for n, (name, src) in enumerate(plugs):
            d = chk.lab.scratch.new("pl")
            with open(d + "/brk.py", "w") as f:
                f.write(src)
            for use in [u for u in USES + EXECS] + ([[], ["--json"], ["name=a", "-x", "REC"], ["--fail"]] if kind == "load" else []):
                for opt in (False, True):
                    if kind == "load" and any("bval" in x for x in use):
                        continue
                    S.append((use, d, kind, name, opt))
    g.r.shuffle(S)
    if chk.quick:
        # every way of being broken at least twice
        keep, seen = [], {}
        for x in S:
            if seen.setdefault((x[2], x[3]), 0) < 6:
                seen[(x[2], x[3])] += 1
                keep.append(x)
        S = keep

    def broken(x):
        use, d, kind, name, opt = x
        from scen import PLUGINS
        dirs = ":".join([PLUGINS, d] + (["/repo/plugins"] if opt else []))
        dirs = dirs.replace("/repo/plugins", os.path.join(__import__("runner").REPO, "plugins"))
        return scen(["-j", str(g.pick(1, 2, 5))] + use, env={"FF_PLUGIN_DIRS": dirs}, opt=opt, fault=kind, tag="plugin: " + name)
    chk.judge([broken(x) for x in S])
    chk.reset()

    # ---- the same search in every mode
    def worlds():
        return chk.worlds(5, sizes=(6, 15, 30), values=0.5, odd=0.2)

    def modes(ctx):
        base = searches.search(g, ctx, dict(E1, mode={"console": 1}, output=0.0, print0=0.0, sep=0.0, fail=0.6))
        out = []
        for m in ([], ["--json"], ["--jsonl"], ["--count"], ["--count", "type"], ["-x", chk.lab.rec], ["-X", chk.lab.rec, "{}"], ["-S", "name"], ["-S", "name", "-x", chk.lab.rec, "fail"],
                  ["-X", chk.lab.rec, "fail"], ["-x", chk.lab.rec, "{name}fail"]):
            if g.chance(0.6):
                words = base.argv + ["-j", str(g.pick(1, 2, 3, 6))] + m
                s = Scen(base.w, words, mode="countjson" if "--json" in m and "--count" in words else modeof(m), ffopts=base.ffopts, opt=g.chance(0.3), tag="every mode")
                out.append(s)
        return out

    def one(ctx):
        return searches.search(g, ctx, E1)
    first = True
    while first or chk.more(9):
        import time
        t = time.monotonic()
        ctxs = worlds()
        S = []
        for _ in range(22 if chk.quick else 80):
            S += modes(g.pick(ctxs))
        for _ in range(220 if chk.quick else 500):
            S.append(one(g.pick(ctxs)))
        chk.judge([s for s in S if s is not None])
        chk.reset()
        first = False
        if chk.left() < (time.monotonic() - t) * 0.9:
            break


def manstub(chk, does="cat"):
    d = chk.lab.scratch.new("bin")
    with open(d + "/man", "w") as f:
        f.write("#!/bin/sh\n" + does + "\n")
    os.chmod(d + "/man", 0o755)
    return d
