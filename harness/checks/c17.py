"""C17: path and stat attributes."""
import os
import searches
from scen import Scen
from gen import Gen
from checks.c03 import other_fs

RULE = ("all attributes of the entries of random trees (links of all kinds, special files, odd names, other file systems), for start "
        "directories written in many ways and several current directories, with and without -L and -a, on the console, as JSON and with the "
        "API; non-trivial: something was reported")

PATHS = ["path", "root", "relpath", "dir", "name", "ext", "pathx", "namex", "depth", "hide", "hidden"]


def run(chk):
    chk.laws("join", "ext", "norm", "below", "split")
    g = chk.g

    def prepare(w):
        # more links: to absolute targets, through other links, broken in the middle, to themselves
        dirs = [d for d, _, _ in os.walk(w.root)]
        for _ in range(g.pick(0, 2, 4)):
            d = g.pick(dirs)
            p = os.path.join(d, g.pick(b"ln", b"l.txt", b".lnk", b"l n", "l\u00e4".encode()))
            if os.path.lexists(p):
                continue
            files = [os.path.join(a, f) for a, _, fs in os.walk(w.root) for f in fs]
            x = g.r.random()
            t = g.pick(files) if files else b"x"
            if x < 0.3:
                t = os.path.relpath(t, d)
            elif x < 0.5:
                t = os.path.join(os.path.relpath(os.path.dirname(t), d), b".", b"..", os.path.basename(os.path.dirname(t)), os.path.basename(t))
            elif x < 0.65:
                t = b"/nosuch/dir/file"
            elif x < 0.75:
                t = os.path.basename(p)                 # to itself
            elif x < 0.85:
                t = g.pick(files) + b"/below" if files else b"x"
            os.symlink(t, p)
        for _ in range(g.pick(0, 1)):
            w.file(g.pick("deep/" * 12 + "f", "a/.b/c/..d/e/f.tar.gz", ".x/.y/.z", "x.y.z/.w.v", "...a/....b"), b"data")
        other_fs(chk, w)

    def worlds():
        return chk.worlds(6, sizes=(8, 20, 35), prepare=prepare, odd=0.45, hidden=0.2, links=0.25, special=0.08, values=0, big=True)

    def start(ctx):
        """The current directory and a start directory."""
        root = ctx.w.cwd
        dirs = [d for d in ctx.dirs if not os.path.islink(os.path.join(root, d))]
        cwd = root
        if dirs and g.chance(0.4):
            cwd = os.path.join(root, g.pick(dirs))
        x = g.r.random()
        if x < 0.25:
            d = "."
        elif x < 0.4:
            d = g.pick("./", "./.", "..", "../", root, root + "/", "//" + root.lstrip("/") if False else root + "//", os.path.dirname(root))
        else:
            t = os.path.join(root, g.pick(ctx.dirs)) if ctx.dirs else root
            rel = os.path.relpath(t, cwd)
            d = g.pick(rel, rel, "./" + rel, t, rel + "/", t + "/.", "./" + rel.replace("/", "//"))
            if os.path.islink(t) and d.endswith("/."):
                d = t
        return cwd, d

    def attrs():
        x = g.r.random()
        if x < 0.4:
            return g.r.sample(PATHS, g.r.randrange(2, 6))
        if x < 0.6:
            return g.r.sample(["type", "link", "target", "broken", "mode", "perm", "exec", "empty", "size", "links", "samedev", "mount"], g.r.randrange(2, 6))
        return g.r.sample(Gen.ATTRS, g.r.randrange(2, 8))

    def one(ctx):
        cwd, d = start(ctx)
        num = chk.lab.snap_for(ctx.w.num, cwd)
        follow, absp, si = g.chance(0.35), g.chance(0.3), g.chance(0.05)
        out = [("file." if g.chance(0.1) else "") + a for a in attrs()]
        top = os.path.dirname(ctx.w.cwd) == d or d in ("..", "../") and cwd == ctx.w.cwd
        tests, ex = [], []
        if top:
            # only the tree itself is known
            ex = [e for n in os.listdir(os.path.dirname(ctx.w.cwd)) if n != os.path.basename(ctx.w.cwd) for e in ("-e", "path=" + os.path.normpath(os.path.join(d, n)))]
            return None
        if g.chance(0.25):
            tests = [g.test(ctx, ["str", "str", "num", "type", "bool", "mode"], 0)]
        if g.chance(0.12):
            q = dict(dirs=[os.path.normpath(d) if g.chance(0.5) else d], tests=tests, output=[g.pick(out, out, ["file"])][0], jobs=g.pick(1, 2, 4))
            for k, v in (("follow", follow), ("abs", absp)):
                if v:
                    q[k] = True
            return Scen(num, [], kind="api", mode="api", q=q, cwd=cwd, opt=g.chance(0.25), tag="API")
        mode = g.pick("console", "console", "console", "jsonl", "json")
        if mode == "console" and g.chance(0.5):
            out = [a + g.pick("", "", "", ":h", ":x", ":o", ":n", ":6", ":-20") for a in out]
        elif mode != "console" and g.chance(0.2):
            out = ["file"]
        words = ["-o", ",".join(out), "-j", g.pick("1", "2", "5"), "--no-cache"]
        nl = b"\n"
        if mode == "console":
            words += ["--all"] if g.chance(0.5) else []
            if g.chance(0.4):
                words += ["-0"]
                nl = b"\0"
            words += ["--sep", g.pick("|", "\\t", "::")] if g.chance(0.5) else []
        else:
            words.append("--" + mode)
        words += (["-L"] if follow else []) + (["-a"] if absp else []) + (["--si"] if si else [])
        if g.chance(0.7):
            words += ["-D", d]
            words += tests
        else:
            e = d if "/" in d else "./" + d
            if e.startswith("-"):
                e = "./" + e
            words += [e] + tests
        return Scen(num, words, mode=mode, nl=nl, cwd=cwd, opt=g.chance(0.25), tag="attributes")

    # the root directory and /dev/shm as start directories
    w = chk.lab.world()
    w.file("f", b"x")
    other_fs(chk, w)
    chk.lab.seal(w)
    top = "/" + w.cwd.split("/")[1]
    S = []
    for d, words in ((("/", ["-d", "0", "name=" + top[1:]])), ("/", ["-d", "0-1", "path=/dev/shm"]), ("/dev/", ["-d", "0", "name=shm"]), ("/tmp/..", ["-d", "0", "name=tmp"]),
                     (top, ["-d", "0", "name=" + w.cwd.split("/")[2]])):
        if ("shm" in words[-1]) and not (os.path.isdir("/dev/shm") and hasattr(chk, "shm")):
            continue
        for a in ("path,root,relpath,dir,name,depth,type,mode", "path,name,samedev,device,perm,inode", "pathx,namex,ext,hidden,hide,mount,mpath"):
            for o in ([], ["-a"], ["-L"], ["--jsonl"]):
                S.append(Scen(w.num, ["-D", d, "--no-cache", "-j1", "-o", a] + o + words, mode="jsonl" if o == ["--jsonl"] else "console", tag="root directory"))
    # every permission bit by itself, and some of them together, on files and directories
    w = chk.lab.world()
    modes = sorted({1 << i for i in range(12)} | {0, 0o7777, 0o6666, 0o111, 0o010, 0o011, 0o7776} | {g.r.randrange(4096) for _ in range(16 if chk.quick else 300)})
    for m in modes:
        w.file("f%04o" % m, b"x")
        w.mkdir("d%04o" % m)
        for k in "fd":
            os.chmod(os.path.join(w.root, b"%c%04o" % (ord(k), m)), m)
    chk.lab.seal(w)
    for o in (["-o", "name,exec,perm,mode,perm:n"], ["--jsonl", "-o", "name,exec,perm,mode"], ["exec=1"], ["exec=no", "type=f"], ["exec=yes", "--count", "exec,type"], ["-S", "exec,name"],
              ["perm:1"], ["perm:u+x"], ["perm~o+x"], ["perm:a+x"], ["perm~7000"], ["perm=1"]):
        S.append(Scen(w.num, ["--no-cache", "-j1"] + o, mode="jsonl" if "--jsonl" in o else "count" if "--count" in o else "console", tag="permission bits"))
    chk.judge(S)
    chk.explore(one, worlds, n=350 if chk.quick else 900)
