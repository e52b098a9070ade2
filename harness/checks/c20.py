"""C20: the Python API."""
import os, json, time, threading, copy
import searches
from scen import Scen, dec
from gen import Ctx, Gen
from runner import MachineryError

RULE = ("single API calls with random arguments (also invalid ones), and histories of up to eight searches in one process, one after another and "
        "nested, stopped early, with lists modified by the caller and with changes of the tree in between, each search judged against the tree "
        "as it was; equivalent command lines side by side; non-trivial: an entry was yielded or the arguments were rejected")

E1 = dict(expr=0.75, exclude=0.2, hide=0.15, ignore=0.15, follow=0.15, abs=0.2, sort=0.4, reverse=0.4, dirs=0.3, onefs=0.05, si=0.05, case=0.25,
          refs=0.1, bad=0.02, nexpr=[1, 1, 2, 3], jobs=[0, 1, 1, 2, 3, 4])


def one(chk, ctx, bad=None):
    g = chk.g
    s = searches.api(g, ctx, dict(E1, bad=E1["bad"] if bad is None else bad))
    q = s.q
    if q.get("ignore") and g.chance(0.5):
        q["igfiles"] = g.pick([".ffignore"], [".gitignore", ".ignore"], ["nosuch"])
    if g.chance(0.2) and all("\0" not in t for t in q.get("tests", [])):
        q["qs"] = True
    if g.chance(0.1) and not q.get("qs"):
        d = [x if "/" in x else "./" + x for x in q["dirs"]]
        q["tests"] = [x for x in d if not x.startswith("./.") or x == "./."][:1] + q.get("tests", [])
        q["dirs"] = []
    if g.chance(0.03 if bad is None else bad):
        q["output"] = q["output"] + [g.pick("size:h", "mode:x", "nosuch", "perm:o", "name:v", "name:5h")]
    if g.chance(0.01 if bad is None else bad):
        q["jobs"] = -1
    return s


def history(chk, ctx):
    """A list of steps: ("find", scen, nested scens [(at, scen)]) or ("change",)."""
    g = chk.g
    n = g.pick(2, 3, 3, 4, 6, 8)
    steps = []
    pool = [one(chk, ctx) for _ in range(g.pick(1, 2, 3))]
    for k in range(n):
        x = g.r.random()
        if x < 0.22 and k:
            steps.append(("change",))
            continue
        s = copy.deepcopy(g.pick(pool)) if g.chance(0.6) else one(chk, ctx)
        if g.chance(0.15):
            s.q["stop"] = g.pick(1, 2, 5)
        nest = []
        for _ in range(g.pick(0, 0, 0, 1, 2)):
            t = copy.deepcopy(g.pick(pool)) if g.chance(0.5) else one(chk, ctx)
            t.q.pop("stop", None)
            nest.append([g.pick(1, 1, 2, 4), t])
        steps.append(("find", s, nest, g.chance(0.2)))
    return steps


def change(g, w):
    """Change the tree."""
    files = []
    dirs = [w.root]
    for d, ds, fs in os.walk(w.root):
        files += [os.path.join(d, f) for f in fs if not os.path.islink(os.path.join(d, f))]
        dirs += [os.path.join(d, x) for x in ds if not os.path.islink(os.path.join(d, x))]
    for _ in range(g.pick(1, 2, 3)):
        x = g.r.random()
        try:
            if x < 0.3:
                p = os.path.join(g.pick(dirs), os.fsencode(g.name()))
                if not os.path.lexists(p):
                    with open(p, "wb") as f:
                        f.truncate(g.pick(0, 1, 1000, 5000))
            elif x < 0.5 and files:
                os.unlink(files.pop(g.r.randrange(len(files))))
            elif x < 0.65 and files:
                p = g.pick(files)
                st = os.lstat(p)
                if (st.st_mode & 0o170000) == 0o100000:
                    with open(p, "ab") as f:
                        f.write(b"more")
            elif x < 0.75 and files:
                os.chmod(g.pick(files), g.pick(0o600, 0o755, 0o644))
            elif x < 0.85 and files:
                p = g.pick(files)
                q = os.path.join(os.path.dirname(p), os.fsencode(g.name()))
                if not os.path.lexists(q):
                    os.rename(p, q)
                    files.remove(p)
            else:
                g.ignore_files(w, 1)
        except OSError:
            pass
    from scen import settle
    settle(w.root)


def run_history(chk, ctx, steps):
    """Returns [(scenario, record)] with the tree of the respective moment."""
    lab, w = chk.lab, ctx.w
    g = Gen(chk.g.r.random())
    d = lab.scratch.new("h")
    todo, found = [], []
    snap = w.num
    num = 0
    for st in steps:
        if st[0] == "change":
            num += 1
            a, b = f"{d}/r{num}", f"{d}/g{num}"
            os.mkfifo(a), os.mkfifo(b)
            todo.append({"op": "sync", "ready": a, "go": b})
            found.append(None)
        else:
            f = st[1].step()
            f["mutate"] = st[3]
            f["nest"] = [[at, dict(t.step(), mutate=False)] for at, t in st[2]]
            todo.append(f)
            found.append(st)
    rp = os.path.join(d, "result")
    opt = g.chance(0.2)
    box = {}

    def go():
        env = {"VERIF_PLUGDATA": w.plugdata, "TZ": __import__("scen").tzname(w.tz)}
        try:
            box["res"] = lab.runner.zygote(opt).request(dict(kind="api", cwd=w.cwd, timeout=90, steps=todo, result=rp, argv=[],
                                                             env=lab.runner.envfor(opt, env)))
        except Exception as exc:
            box["exc"] = exc
    th = threading.Thread(target=go)
    th.start()
    snaps = []
    for st in todo:
        if st["op"] == "sync":
            # wait for the program (or its end)
            fd = os.open(st["ready"], os.O_RDONLY | os.O_NONBLOCK)
            ok = False
            while th.is_alive():
                try:
                    if os.read(fd, 1):
                        ok = True
                        break
                except BlockingIOError:
                    pass
                time.sleep(0.005)
            os.close(fd)
            if not ok:
                break
            change(g, w)
            with chk.lock:
                chk.lab.snaps.append(w.snapshot(w.cwd))
                chk.lab.worlds.append(w)
                snap = len(chk.lab.snaps) - 1
            with open(st["go"], "w") as f:
                f.write("go")
        snaps.append(snap)
    th.join()
    if "exc" in box:
        raise box["exc"]
    try:
        with open(rp) as f:
            results = json.load(f)
    except OSError:
        results = [{"exc": "died", "recs": [], "attr": True, "sub": []} for _ in todo]
        snaps = [w.num] * len(todo)
    out = []
    hist = [x.get("q") or x["op"] for x in todo]

    def add(s, r, num):
        s.w = num
        s.kw = {}
        s.tag = "history: " + json.dumps(hist)[:3000]
        s.res = box["res"]
        out.append((s, lab.api_record(s, r, box["res"])))
    for st, r, num in zip(found, results, snaps):
        if st is None:
            continue
        _, s, nest, _ = st
        add(s, r, num)
        done = sorted(((at, k) for k, (at, t) in enumerate(nest) if at <= len(r["recs"])), key=lambda x: x[0])
        for (at, k), sub in zip(done, r["sub"]):
            add(nest[k][1], sub, num)
        chk.expect(len(done) == len(r["sub"]) or r["exc"], "a nested search is missing", {"history": hist})
    return out


def run(chk):
    g = chk.g

    def prepare(w):
        if g.chance(0.5):
            g.ignore_files(w, g.pick(1, 2))

    def worlds():
        return chk.worlds(6, sizes=(8, 15, 30), values=0.5, odd=0.25, prepare=prepare)
    first = True
    while first or chk.more(9):
        first = False
        t = time.monotonic()
        ctxs = worlds()
        # single calls, and command lines with the same meaning
        n = 130 if chk.quick else 400
        S = []
        for _ in range(n):
            s = one(chk, g.pick(ctxs))
            S.append(s)
            if g.chance(0.25):
                c = cmdline(g, s)
                if c:
                    S.append(c)
        chk.judge(S)
        # histories
        hs = []
        for k in range(30 if chk.quick else 100):
            w = chk.lab.world(tz=g.pick(0, 19800))
            g.tree(w, g.pick(6, 12, 20), values=0.4)
            prepare(w)
            chk.lab.seal(w)
            ctx = Ctx(g, chk.lab, w)
            hs.append((ctx, history(chk, ctx)))
        pairs = [p for l in chk.lab.runner.pmap(lambda x: run_history(chk, *x), hs) for p in l]
        chk.notes["histories"] = chk.notes.get("histories", 0) + len(hs)
        judge_pairs(chk, pairs)
        chk.reset()
        if chk.left() < (time.monotonic() - t) * 0.9:
            break


def judge_pairs(chk, pairs):
    scens = [s for s, r in pairs]
    recs = [r for s, r in pairs]
    bad = chk.lab.judge(scens, recs)
    chk.traces += len(recs)
    chk.evaluations += len(recs)
    for i, (s, r) in enumerate(pairs):
        if r["obs"]["recs"] or r["obs"]["exc"]:
            chk.keys.add((chk.evaluations, i))
    for s, r, c in bad:
        chk.scen_violation(s, r, c)


def cmdline(g, s):
    """The command line with the same meaning."""
    q = s.q
    if not q["dirs"] or q.get("si"):
        return None
    out = q.get("output", ["file"])
    words = []
    for d in q["dirs"]:
        words += ["-D", d]
    for e in q.get("exclude", []):
        words += ["-e", e]
    for k, o in (("hide", "-H"), ("ignore", "-I"), ("follow", "-L"), ("onefs", "--xdev"), ("reverse", "-R")):
        if q.get(k):
            words.append(o)
    if q.get("igfiles"):
        words += ["--ignore-files", ",".join(q["igfiles"])]
    if q.get("case"):
        words += ["-c", q["case"]]
    if q.get("sort"):
        words += ["-S", ",".join(q["sort"])]
    words += ["-o", ",".join(out), "--jsonl", "-j", str(q.get("jobs") or 1), "--no-cache"]
    if any(t.startswith("-") for t in q.get("tests", [])):
        return None
    return Scen(s.w, words + q.get("tests", []), mode="jsonl", opt=s.opt, tag="command line of an API call")
