"""C21: a failing file system operation affects only its own entry."""
import os, copy, errno, shutil, time
import searches
from scen import Scen, dec
from runner import cps
from world import digits

RULE = ("random searches in which opening or listing a directory, examining an entry, reading a link or opening an ignore file fails with random "
        "errors (injected exactly, judged by the specification in which the same operations fail, with the warnings that are due); searches by "
        "an unprivileged user in trees with all kinds of permissions (the permissions are part of the specification); searches in trees that "
        "change at chosen operations (judged by the worlds with and without what changed); trees deeper than the longest path; "
        "non-trivial: a failing operation was met")
ASSUMPTIONS = ["operations are made to fail by wrapping os.scandir, DirEntry.stat, os.readlink, open and read, whatever ff uses them for"]

SILENT = [errno.ENOENT, errno.EACCES, errno.EPERM]
LOUD = [errno.EIO, errno.ELOOP, errno.ENAMETOOLONG, errno.ENOTDIR, errno.ESTALE, errno.ENOMEM, errno.EINVAL, errno.ETIMEDOUT, errno.EMFILE,
        errno.EOVERFLOW, errno.ENXIO, errno.ENODEV, errno.EBUSY]
OUT = ["path", "name", "size", "type", "mtime", "depth", "perm", "dir", "empty", "links", "user", "hide", "ext", "vfast.xstr", "vnorm.xnum", "vslow.xsize", "exec", "samedev",
       "mount", "link", "ignored"]
SAFE = ["str", "num", "type", "mode", "plug", "plug"]
E = dict(expr=0.6, exclude=0.2, hide=0.1, ignore=0.25, depth=0.1, follow=0.0, abs=0.15, sort=0.25, limit=0.0, all=0.0, output=1, outattrs=OUT, sortattrs=OUT[:8],
         kinds=SAFE, refs=0.0, dirs=0.3, onefs=0.05, jobs=[1, 2, 2, 4, 8], opt=0.3, noparent=0.3,
         mode={"console": 8, "json": 2, "jsonl": 2, "count": 1, "exec": 1, "batch": 1}, exec_words=lambda g, ctx: [ctx.lab.rec, g.pick("{}", "{name}", "{/}")])
BAD_TESTS = ("broken", "target")


def paths_of(w):
    """Every entry: (path, kind), and the paths that the resolution of the links touches."""
    out, touched = [], set()
    top = dec(w.root)
    for d, ds, fs in os.walk(top):
        for n in ds + fs:
            p = os.path.join(d, n)
            out.append((p, "l" if os.path.islink(p) else "d" if os.path.isdir(p) else "f"))
            if os.path.islink(p):
                q = p
                for _ in range(20):
                    t = os.path.normpath(os.path.join(os.path.dirname(q), os.readlink(q)))
                    touched.update({t, os.path.realpath(q)})
                    if not os.path.islink(t):
                        break
                    q = t
                for q in list(touched):
                    while len(q) > len(top):
                        touched.add(q)
                        q = os.path.dirname(q)
    return out, touched


def uses(sc, words):
    return any(x in a for a in sc.argv for x in words)


# ---- single operations that fail
def injected(chk, ctx):
    g = chk.g
    w = ctx.w
    sc = searches.search(g, ctx, E)
    if uses(sc, BAD_TESTS):
        return None
    if not hasattr(w, "paths"):
        w.paths, w.touched = paths_of(w)
    free = [(p, k) for p, k in w.paths if p not in w.touched]
    if not free:
        return None
    # (the start directories themselves can be examined)
    given = {os.path.normpath(os.path.join(w.cwd, x[k:])) for x in sc.argv for k in (0, 2, x.find("=") + 1)}
    flt, io = [], []
    taken = set()
    for _ in range(g.pick(1, 1, 2, 3, 5)):
        p, k = g.pick(*free) if not g.chance(0.12) else (dec(w.root), "d")
        if p in taken:
            continue
        taken.add(p)
        e = g.pick(*SILENT) if g.chance(0.4) else g.pick(*LOUD)
        loud = "no" if e in SILENT else "yes"
        name = os.path.basename(p)
        if p == dec(w.root) or k == "d" and g.chance(0.5):
            io.append({"call": "scandir", "path": p, "errno": e})
            flt.append({"c": "scan", "p": cps(p), "w": loud})
        elif name in (".gitignore", ".ignore", ".fdignore", ".ffignore") and k == "f" and g.chance(0.6):
            io.append({"call": g.pick("open", "read"), "path": p, "errno": e})
            flt.append({"c": "open", "p": cps(p), "w": "any"})
        elif p not in given:
            io.append({"call": "readlink" if k == "l" and g.chance(0.5) else "stat", "path": p, "errno": e})
            flt.append({"c": "stat", "p": cps(p), "w": loud})
    if not flt:
        return None
    sc.w = chk.lab.variant(w.num, flt=flt)
    sc.kw["perturb"] = {"io": io}
    sc.fault = "io"
    sc.tag = "injected"
    return sc


# ---- permissions
def permissions(chk, w):
    """Random owners and permissions; the root itself stays accessible."""
    g = chk.g
    for d, ds, fs in os.walk(w.root, topdown=False):
        for n in ds + fs:
            p = os.path.join(d, n)
            if os.path.islink(p):
                continue
            if g.chance(0.6):
                os.chown(p, g.pick(0, 1000, 1000, 54321), g.pick(0, 5, 1000, 54321))
            x = g.r.random()
            if os.path.isdir(p):
                os.chmod(p, g.pick(0o755, 0o700, 0o755, 0o000, 0o444, 0o111, 0o711, 0o744, 0o070, 0o007, 0o550, 0o500, 0o400, 0o100, 0o005, 0o4755, 0o1777)
                         if x < 0.6 else 0o755)
            elif x < 0.5:
                os.chmod(p, g.pick(0o644, 0o600, 0o000, 0o444, 0o200, 0o040, 0o004, 0o060, 0o400))
    os.chmod(w.root, 0o755)


def unprivileged(chk, ctx):
    g = chk.g
    sc = searches.search(g, ctx, E, follow=0.15)
    if uses(sc, BAD_TESTS):
        return None
    if any(x.endswith("/.") or "/../" in x for x in sc.argv):
        return None         # (-a takes such parts away before the permissions count)
    uid = g.pick(1000, 1000, 54321)
    sc.w = chk.lab.variant(ctx.w.num, uid=digits(uid), gid=digits(uid))
    sc.kw["uid"] = uid
    ig = any(x in ("-I", "--ignore") for x in sc.argv) or uses(sc, ["ignored"])
    sc.fault = "" if ig else "io"
    sc.tag = f"user {uid}"
    return sc


# ---- trees that change during the search
def without(snap, paths):
    """The snapshot without these entries and everything below."""
    nodes = snap["nodes"]
    keep = {}
    out = []
    where = {}

    for i, n in enumerate(nodes):
        p = "" if n["u"] == 0 else where[n["u"]] + "/" + bytes_of(n["n"])
        where[i + 1] = p
        if n["u"] and n["u"] not in keep or p in paths:
            continue
        out.append(dict(n, k=[], u=keep[n["u"]] if n["u"] else 0))
        keep[i + 1] = len(out)
        if n["u"]:
            out[keep[n["u"]] - 1]["k"].append(len(out))
    return dict(snap, nodes=out)


def bytes_of(c):
    return "".join(map(chr, c))


def moving(chk, kind):
    """A world of its own that changes while it is searched; returns a scenario judged between two worlds."""
    g = chk.g
    w = chk.lab.world()
    g.tree(w, g.pick(12, 25, 40), odd=0, links=0, special=0, values=0)
    chk.lab.seal(w)
    paths, _ = paths_of(w)
    top = dec(w.root)
    if not paths:
        return None
    perturb = {}
    vanish, appear, warn = set(), [], "no"
    dirs = [p for p, k in paths if k == "d"] + [top]
    trigger = lambda: g.pick([g.pick("scandir", "scandir"), g.pick(*dirs)], ["stat", g.pick(*paths)[0]], ["next", g.pick(*paths)[0]])
    if kind == "act":
        acts = []
        for _ in range(g.pick(1, 1, 2, 3)):
            c, at = trigger()
            p, k = g.pick(*paths)
            op = g.pick("rm", "rm", "mv", "chmod", "new", "swap")
            if op == "rm":
                do = [["rmtree", p]] if k == "d" else [["rm", p]]
                vanish.add(p)
            elif op == "mv":
                to = os.path.join(g.pick(*dirs), "moved%d" % g.r.randrange(100))
                if to.startswith(p + "/") or os.path.lexists(to):
                    continue
                do = [["mv", p, to]]
                vanish.add(p)
                appear.append(("copy", p, to))
            elif op == "new":
                to = os.path.join(g.pick(*dirs), "new%d" % g.r.randrange(1000))
                do = [[g.pick("file", "mkdir"), to]]
                appear.append((do[0][0], None, to))
            elif op == "swap":      # a directory that turns into a file: listing it fails in an unusual way
                if k != "d":
                    continue
                do = [["rmtree", p], ["file", p]]
                vanish.add(p)
                appear.append(("file", None, p))
                warn = "any"
            else:
                if k != "d":
                    continue
                do = [["chmod", p, 0]]
                vanish |= {q for q, _ in paths if q.startswith(p + "/")}
            acts.append({"call": c, "path": at, "do": do})
        if not acts:
            return None
        perturb["act"] = acts
    else:
        d = g.pick(*dirs)
        e = g.pick(*SILENT) if g.chance(0.3) else g.pick(*LOUD)
        below = [p for p, _ in paths if p.startswith(d + "/")]
        direct = [p for p in below if os.path.dirname(p) == d]
        after = g.r.randrange(0, len(direct) + 2)
        vanish |= set(below)
        warn = "no" if e in SILENT else "any" if after >= len(direct) else "yes"
        perturb["io"] = [{"call": "next", "path": d, "errno": e, "after": after}]
        flt = [{"c": "next", "p": cps(d), "w": warn}]
    if kind == "act":
        flt = [{"c": "act", "p": [], "w": warn}]
    lo = dict(without(chk.lab.snaps[w.num], vanish), flt=flt)
    # everything that may be found: also what appears, with everything that may be in it by then
    hi = w.num
    if appear:
        shadow = chk.lab.scratch.new("hi")
        shutil.copytree(top, shadow, symlinks=True, dirs_exist_ok=True)
        inner = lambda p: shadow + p[len(top):]
        for _ in range(3):
            for op, src, to in appear:
                to = inner(to)
                if op == "mkdir":
                    os.makedirs(to, exist_ok=True)
                elif op == "file":
                    # (may take the place of a directory: both are possible)
                    if not os.path.lexists(to):
                        os.makedirs(os.path.dirname(to), exist_ok=True)
                        open(to, "w").close()
                else:
                    merge(inner(src), to)
        hi = relocate(chk, w, shadow)
        shutil.rmtree(shadow)
    chk.lab.snaps.append(lo)
    chk.lab.worlds.append(w)
    words = ["-j", str(g.pick(1, 2, 4, 8)), "--no-cache"] + g.pick([], [], ["-S"], ["--json"], ["--jsonl"], ["-S", "-R"]) + g.pick([], [], ["-I"], ["-H"])
    words += ["-o", "path"] if "--json" in words or "--jsonl" in words else []
    words += g.pick([], [], ["name~[a-m]"], ["-e", "name~[x-z]"], ["path:a"])
    mode = "json" if "--json" in words else "jsonl" if "--jsonl" in words else "console"
    p = dict(perturb)
    if g.chance(0.3):
        p.update(delays={"scan": [0.5, 10]}, seed=g.r.randrange(1000))

    def before_run():
        pass
    sc = Scen(len(chk.lab.snaps) - 1, words, mode=mode, fault="bounds", hi=hi, perturb=p, cwd=top, opt=g.chance(0.3), tag=kind)
    return sc


def merge(src, to):
    """Add what is in src to the tree `to`."""
    if os.path.isdir(src):
        names = os.listdir(src)
        if os.path.lexists(to) and not os.path.isdir(to):
            os.unlink(to)
        os.makedirs(to, exist_ok=True)
        for n in names:
            merge(os.path.join(src, n), os.path.join(to, n))
    elif os.path.exists(src) and not os.path.lexists(to):
        os.makedirs(os.path.dirname(to), exist_ok=True)
        shutil.copyfile(src, to)


def relocate(chk, w, shadow):
    """The snapshot of the shadow tree, as if it were the world."""
    from world import World
    v = World(shadow, w.tz)
    snap = v.snapshot(w.cwd)
    nodes = snap["nodes"]
    # rename the node of the shadow's root, and move it to the place of the world's root
    real = chk.lab.snaps[w.num]
    comps = dec(w.root).strip("/").split("/")
    scomps = shadow.strip("/").split("/")
    assert comps[:-1] == scomps[:-1], (comps, scomps)
    i = 0
    for c in scomps:
        i = next(j - 1 for j in nodes[i]["k"] if bytes_of(nodes[j - 1]["n"]) == c)
    nodes[i]["n"] = cps(comps[-1])
    chk.lab.snaps.append(snap)
    chk.lab.worlds.append(w)
    return len(chk.lab.snaps) - 1


# ---- paths that are too long
def toolong(chk):
    """A tree that is deeper than the longest path the system takes; built with relative paths."""
    g = chk.g
    w = chk.lab.world()
    fd = os.open(w.root, os.O_RDONLY)
    names = []
    name = "n" * g.pick(200, 250)
    depth = 4400 // len(name)
    try:
        for i in range(depth):
            os.mkdir(name, dir_fd=fd)
            if g.chance(0.5):
                os.close(os.open("f%d" % i, os.O_CREAT | os.O_WRONLY, 0o644, dir_fd=fd))
                names.append(("f%d" % i, i))
            nfd = os.open(name, os.O_RDONLY, dir_fd=fd)
            os.close(fd)
            fd = nfd
    finally:
        os.close(fd)
    return w, name, depth, names


def long_paths(chk):
    g = chk.g
    w, name, depth, files = toolong(chk)
    bad = []
    try:
        for words in ([], ["-j", "4"], ["-S"], ["-a"], ["--jsonl", "-o", "path"], ["type=d"], ["-L"]):
            r = chk.lab.runner.cli(words, dec(w.root), optimized=g.chance(0.3), timeout=60)
            root = dec(w.root) + "/" if "-a" in words or "--jsonl" in words else ""
            want = []
            for i in range(depth):
                p = root + "/".join([name] * (i + 1))
                if len(p) <= 4095:
                    want.append(p)
                if "type=d" not in words:
                    want += [root + "/".join([name] * i + [f]) for f, k in files if k == i and len(root + "/".join([name] * i + [f])) <= 4095]
            out = dec(r["out"])
            import json
            got = [json.loads(x)["path"] for x in out.splitlines()] if "--jsonl" in words else out.splitlines()
            chk.count(("long", tuple(words), len(name)))
            # (the last paths may be too long only by the "./" in front)
            near = [p for p in want if len(p) > 4093]
            chk.expect(sorted(set(got) | set(near)) == sorted(want) and len(set(got)) == len(got) and r["status"] == 0 and not r["timeout"] and r["err"],
                       "a tree that is too deep is not reported as far as it can be examined",
                       {"argv": words, "status": r["status"], "stderr": dec(r["err"][:2000]), "missing": sorted(set(want) - set(got))[:3], "unexpected": sorted(set(got) - set(want))[:3],
                        "tree": f"{depth} nested directories named {name!r}, files {files}"})
    finally:
        # shutil.rmtree cannot reach that far
        fd = os.open(w.root, os.O_RDONLY)
        fds = [fd]
        for i in range(depth):
            fds.append(os.open(name, os.O_RDONLY, dir_fd=fds[-1]))
        for i in range(depth, -1, -1):
            for f in os.listdir(fds[i]):
                try:
                    os.unlink(f, dir_fd=fds[i])
                except IsADirectoryError:
                    os.rmdir(f, dir_fd=fds[i])
            os.close(fds[i])


def met(s, r):
    return s.fault != "bounds" and bool(r["obs"].get("errn")) or bool(s.tag)


def run(chk):
    g = chk.g
    quick = chk.quick
    long_paths(chk)
    first = True
    while first or chk.more(8):
        t = time.monotonic()
        ctxs = chk.worlds(4 if quick else 6, sizes=(15, 30, 50), odd=0.2, prepare=lambda w: g.ignore_files(w, 3))
        perm = chk.worlds(4 if quick else 6, sizes=(20, 40, 60), odd=0.15, links=0, prepare=lambda w: (g.ignore_files(w, 3), permissions(chk, w)))
        S = [injected(chk, g.pick(*ctxs)) for _ in range(150 if quick else 400)] + [unprivileged(chk, g.pick(*perm)) for _ in range(110 if quick else 300)]
        chk.judge([s for s in S if s], nontrivial=met)
        M = [moving(chk, g.pick("act", "act", "next")) for _ in range(60 if quick else 200)]
        chk.judge([s for s in M if s], nontrivial=met)
        chk.reset()
        first = False
        if chk.left() < (time.monotonic() - t) * 1.05:
            break
