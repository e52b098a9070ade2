"""C15: the metadata cache."""
import os, re, json, time, threading
import tlc
from scen import loads, pairs, dec, Obj
from runner import MachineryError, cps, uncps

LEVEL = "model_checking"
RULE = ("histories of the specification Cache (random walks of its state machine, made by TLC): changes of files, searches one after another and at the "
        "same time, in one process or several, with several plugins, versions, caches, workers and output modes, searches that are killed, --clean-cache; what every search showed and "
        "computed is judged by the specification; non-trivial: something could be taken from the cache; plus trees of more than a thousand files")
ASSUMPTIONS = ["what a plugin computes is observed by a log that the test plugins write", "a killed search may have stored any part of what it computed"]

PLUGS = {"vc": dict(tag="mtime", kinds=["f"]), "vc2": dict(tag="size", kinds=["f"]), "vc_2": dict(tag="mtime", kinds=["f", "d", "l"]),
         "vca": dict(tag="mtime", kinds=["f"])}
SIZES = {"a": 10, "b": 10, "NONE": 12, "long": 300, "nil": 12, "zero": 12, "empty": 0}

SOURCE = '''"""A plugin."""
import os, json, time
from libff.plugin import *


class {cls}(Plugin):
    """A plugin that uses the cache."""
    speed = Speed.{speed}
    use_cache = True
    {tag}
    attributes = [("val", String, "v")]

    def can_handle(self, entry):
        return entry.is_file(){dirs}

    {entrytag}

    def cache(self, entry):
        path = os.environ.get("VERIF_PLUGLOG")
        if path:
            line = json.dumps(["{name}", [ord(c) for c in entry.abspath]]) + "\\n"
            fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666)
            os.write(fd, line.encode())
            os.close(fd)
        time.sleep(float(os.environ.get("VERIF_PLUGDELAY") or 0))
        if entry.is_dir():
            return "{name}:{ver}:dir"
        if entry.is_symlink():
            return "{name}:{ver}:" + os.readlink(entry.path)[-1]
        with open(entry.path, "rb") as f:
            text = f.read().rstrip(b"#").decode() or "empty"
        if text == "NONE":
            raise NoData
        if text == "nil":
            return None
        if text == "zero":
            return 0
        return "{name}:{ver}:" + text

    def process(self, entry, cached):
        if cached is None:
            cached = "{name}:{ver}:nil"
        elif cached == 0:
            cached = "{name}:{ver}:zero"
        yield "val", cached
'''
#: file names
NAMES = {"f1": b"plain", "f2": b"sp ace\tand 'quote\"", "f3": b"\xff\xfe odd", "f4": "ümläut-日本".encode(), "f5": b"new\nline", "f6": b"in/one.txt", "f7": b"in/.two",
         "f8": b"% ? _ *[x]", "d1": b"in", "d2": b"d.2", "l1": b"a link", "l2": b"in/link"}


def plugin_dirs(chk):
    top = chk.lab.scratch.new("plug")
    for p, k in PLUGS.items():
        for v in (1, 2, 3):
            d = f"{top}/{p}/{v}"
            os.makedirs(d)
            with open(f"{d}/{p}.py", "w") as f:
                f.write(SOURCE.format(cls=p, name=p, ver=v, speed={"vc": "SLOW", "vc2": "NORMAL"}.get(p, "FAST"),
                                      tag=f"cache_tag = {v * 7}" if p == "vca" else f"rev = {v}", dirs=" or entry.is_dir() or entry.is_symlink()" if "d" in k["kinds"] else "",
                                      entrytag="def get_entry_cache_tag(self, entry):\n        return (\"s\", entry.size)" if k["tag"] == "size" else ""))
    return top


class History:
    def __init__(self, chk, plug, ops, rng, names=NAMES):
        self.chk = chk
        self.g = chk.g
        self.r = rng
        self.plug = plug
        self.dir = chk.lab.scratch.new("c")
        self.root = os.fsencode(self.dir) + b"/t"
        os.mkdir(self.root)
        os.makedirs(self.dir + "/home/.cache")
        self.names = names
        self.back = {}
        for f, n in names.items():
            self.back[tuple(cps(self.root + b"/" + n))] = f
        self.ops = ops
        self.now = {}            # name -> file
        self.out = []
        self.text = []
        self.interesting = False
        self.servers, self.inside, self.lock = [], False, threading.Lock()

    # -- files
    def path(self, f):
        return os.path.join(self.root, self.names[f])

    def put(self, e):
        p = self.path(e["f"])
        if e["k"] == "d":
            os.makedirs(p, exist_ok=True)
        elif e["k"] == "l":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.lexists(p):
                os.unlink(p)
            os.symlink(b"nowhere--" + e["c"].encode(), p)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            size = SIZES[e["c"]]
            text = (b"" if e["c"] == "empty" else e["c"].encode()).ljust(size, b"#")
            if self.r.random() < 0.3 and os.path.lexists(p):
                os.unlink(p)
            with open(p, "wb") as f:
                f.write(text)
        self.now[e["f"]] = dict(e)

    def times(self, only=None):
        """Set the modification times as the history wants them, with arbitrary fractions of a second."""
        for f, e in self.now.items():
            if only is None or f == only or e["k"] == "d":
                ns = (1500000000 + e["m"] * 1000) * 10 ** 9 + self.r.randrange(10 ** 9)
                os.utime(self.path(f), ns=(1900000000 * 10 ** 9, ns), follow_symlinks=False)

    def change(self, op):
        k = op["op"]
        only = None
        if k == "write":
            self.put(op["e"])
            only = op["e"]["f"]
        elif k == "touch":
            self.now[op["f"]]["m"] = op["m"]
            only = op["f"]
        elif k == "rm":
            os.unlink(self.path(op["f"]))
            del self.now[op["f"]]
            only = ""
        elif k == "mv":
            os.rename(self.path(op["f"]), self.path(op["g"]))
            self.now[op["g"]] = dict(self.now.pop(op["f"]), f=op["g"])
            only = ""
        self.times(only)
        self.out.append(op)
        self.text.append(dict(op, at=len(self.out)))

    # -- searches
    def cache(self, x):
        if x == "":
            return ["--no-cache"]
        if x == "home":
            return []            # see env
        return ["--cache", f"{self.dir}/{x}.db"]

    def env(self, vers, log, x):
        e = {"FF_PLUGIN_DIRS": ":".join(f"{self.plug}/{p}/{v}" for p, v in vers.items())}
        if log:
            e["VERIF_PLUGLOG"] = log
        if x == "home":
            e["FF_OPTIONS"] = f"--cache {self.dir}/home/.cache/ff.db"
        return e

    def serve(self, r):
        """A process for searches that use the same versions of the plugins."""
        with self.lock:
            for s in self.servers:
                if all(s["vers"][p] == r["vers"][p] for p in list(r["use"]) + list(r["sel"][:1])):
                    return s
            if len(self.servers) == 3:
                return None
            s = self.start(r["vers"])
            self.servers.append(s)
            return s

    def start(self, vers):
        opt = self.r.random() < 0.2
        env = self.env(vers, None, "")
        if opt:
            env["FF_PLUGIN_DIRS"] += ":" + os.path.join(os.environ.get("VERIF_REPO", "/repo"), "plugins")
        d = self.chk.lab.scratch.new("v")
        box = {}

        def go():
            try:
                box["res"] = self.chk.lab.runner.zygote(opt).request(dict(kind="api", cwd=self.dir, timeout=200, steps=[{"op": "serve", "dir": d}], result=d + "/end", argv=[], env=env))
            except Exception as exc:
                box["exc"] = exc
        th = threading.Thread(target=go)
        th.start()
        return dict(vers=vers, opt=opt, dir=d, th=th, box=box, n=0, lock=threading.Lock())

    def ask(self, s, r):
        with s["lock"]:
            n = s["n"]
            s["n"] += 1
            with open(s["dir"] + "/tmpreq", "w") as f:
                json.dump(r, f)
            os.rename(s["dir"] + "/tmpreq", f"{s['dir']}/req{n}")
            rp = f"{s['dir']}/res{n}"
            if "q" not in r:
                return None, None
            end = time.monotonic() + 60
            while s["th"].is_alive() and not os.path.exists(rp) and time.monotonic() < end:
                time.sleep(0.003)
        ok = os.path.exists(rp)
        return dict(status=0 if ok else -1, timeout=not ok and s["th"].is_alive(), err=b"", out=b""), rp

    def run(self, r, num):
        """Execute one search; returns it as the specification sees it."""
        rng = self.r.__class__(self.r.random())
        lab = self.chk.lab
        log = f"{self.dir}/log{num}"
        use = list(r["use"])
        rng.shuffle(use)
        sel = r["sel"]
        tests = []
        if sel:
            tests = [f"{sel[0]}.val={sel[0]}:{r['vers'][sel[0]]}:{sel[1]}"]
        mode = rng.choice(["jsonl", "jsonl", "json", "json", "sorted", "console", "exec", "batch", "api", "apisort"])
        jobs = rng.choice([1, 1, 2, 3, 4])
        opt = rng.random() < 0.2
        start, cwd = rng.choice([(None, self.root), (b".", self.root), (b"t", os.path.dirname(self.root)), (self.root, b"/"), (b"../t", self.root)])
        env = self.env(r["vers"], log, r["x"])
        if opt:
            env["FF_PLUGIN_DIRS"] += ":" + os.path.join(os.environ.get("VERIF_REPO", "/repo"), "plugins")
        kw = {}
        killed = r["killed"]
        mark = f"{self.dir}/mark{num}"
        if killed:
            env["VERIF_PLUGDELAY"] = "0.003"
            if r["how"] == "main":
                kw["signals"] = [(rng.uniform(0.05, 0.3), 9)]
            elif r["how"] == "int":
                kw["signals"] = [(rng.uniform(0.05, 0.3), 2)]
            else:
                kw["perturb"] = {"sql": dict(on=rng.choice(["executemany", "commit"]), k=1, do="raise", mark=mark)}
                if rng.random() < 0.3:
                    kw["perturb"] = {"sql": dict(on=rng.choice(["executemany", "commit"]), k=1, do="kill", mark=mark), "clock": 40}
        elif rng.random() < 0.1:
            kw["perturb"] = {"sql": dict(on=rng.choice(["executemany", "commit"]), k=rng.choice([1, 1, 2]), do="busy", times=rng.choice([1, 2]))}
        elif rng.random() < 0.15:
            kw["perturb"] = {"clock": 5000}
        fields = ["path"] + [p + ".val" for p in use]
        rec, execlog = lab.rec, f"{self.dir}/x{num}"
        # searches one after another in one process
        server = self.serve(r) if self.inside and not killed and not kw and rng.random() < 0.85 else None
        if server:
            mode, opt = rng.choice(["api", "api", "apisort"]), server["opt"]
        base = self.cache(r["x"]) + ["-j", str(jobs)]
        show, n, ok = [], 0, True
        if mode in ("api", "apisort"):
            q = {"query": tests, "output": fields, "directories": [dec(start or b".")], "jobs": jobs, "absolute_path": True,
                 "cache": None if r["x"] == "" else self.dir + ("/home/.cache/ff.db" if r["x"] == "home" else f"/{r['x']}.db")}
            if mode == "apisort":
                q["sort"] = [rng.choice(fields)]
            rp = f"{self.dir}/api{num}"
            argv = ["api" + (" in one process" if server else ""), q]
            if server:
                res, rp = self.ask(server, dict(q=q, cwd=dec(cwd), env={"VERIF_PLUGLOG": log}))
            else:
                res = lab.runner.zygote(opt).request(dict(kind="api", cwd=dec(cwd), timeout=60, steps=[{"op": "find", "q": q}], result=rp, argv=[], env=env, **kw))
        else:
            argv = base + (["-D", dec(start)] if start else [])
            if mode in ("jsonl", "json", "sorted"):
                argv += ["--json" if mode == "json" else "--jsonl", "-o", ",".join(fields)]
                if mode == "sorted":
                    argv += ["-S", rng.choice(fields)]
            elif mode == "console":
                argv += ["-0", "-a", "--sep", "\x1f", "-o", ",".join(f + ":n" for f in fields)]
                if rng.random() < 0.4:
                    argv += ["-S", rng.choice(fields)]
            else:
                env["VERIF_EXECLOG"] = execlog
                # entries that lack an attribute are skipped: one attribute at a time
                fields = fields[:2]
                if rng.random() < 0.3:
                    argv += ["-S", rng.choice(fields)]
            argv += tests
            if mode == "exec":
                argv += ["-a", "-x", rec, "{path}", "{%s}" % fields[1]]
            elif mode == "batch":
                argv += ["-a", "-X", rec, "{path}\x1f{%s}" % fields[1]]
            res = lab.runner.zygote(opt).request(dict(kind="cli", argv=argv, cwd=dec(cwd), timeout=60, env=lab.runner.envfor(opt, env), **kw))
        # what was shown
        rows = []
        try:
            if mode in ("api", "apisort"):
                with open(rp) as f:
                    a = json.load(f)[0]
                if a["exc"]:
                    ok = False
                    res["err"] += a["exc"].encode()
                for rr in a["recs"]:
                    d = {uncps(k): None if v["k"] == "null" else uncps(v["v"]) for k, v in rr}
                    rows.append([d[x] for x in fields])
            elif mode in ("json", "jsonl", "sorted"):
                data = loads(res["out"]) if mode == "json" else [loads(l) for l in res["out"].split(b"\n")[:-1]]
                for o in data:
                    d = dict(pairs(o))
                    rows.append([d[x] for x in fields])
            elif mode == "console":
                parts = res["out"].split(b"\0")
                ok = parts[-1] == b""
                for x in parts[:-1]:
                    d = dec(x).split("\x1f")
                    rows.append([d[0]] + [y or None for y in d[1:]])
            else:
                from scen import read_log
                for c in read_log(execlog):
                    a = [uncps(x) for x in c["a"]]
                    if mode == "exec":
                        rows.append(a[-2:])
                    else:
                        rows += [x.split("\x1f") for x in a if "\x1f" in x]
        except (OSError, ValueError, KeyError, TypeError, IndexError):
            ok = False
        skip = set()
        for row in rows:
            f = self.back.get(tuple(cps(row[0])))
            n += 1
            if f is None:
                if row[0] != dec(self.root):
                    ok = False
                n -= 1
                continue
            vals = {}
            for p, v in zip([x[:-4] for x in fields[1:]], row[1:]):
                if v is None:
                    vals[p] = []
                else:
                    part = v.split(":")
                    vals[p] = [dict(p=part[0], v=int(part[1]), c=part[2])] if len(part) == 3 and part[1].isdigit() else [dict(p=v, v=0, c="?")]
            show.append(dict(f=f, vals=vals))
        if mode in ("exec", "batch") and ok:
            # the entries without the attribute are shown nowhere: that is what has to be right
            have = {s["f"] for s in show}
            p = fields[1][:-4]
            for f in self.now:
                if f not in have and not (sel and sel[0] != p):
                    if not sel:
                        show.append(dict(f=f, vals={p: []}))
                        n += 1
            if sel and sel[0] != p:
                ok, show, n = True, None, 0
        done = set()
        try:
            with open(log) as f:
                for l in f:
                    try:
                        p, path = json.loads(l)
                    except ValueError:
                        continue
                    x = self.back.get(tuple(path))
                    if x is not None:
                        done.add((p, x))
            os.unlink(log)
        except FileNotFoundError:
            pass
        if killed and r["how"] == "sql" and not os.path.exists(mark):
            killed = False           # there was nothing to store
        self.text.append({"at": len(self.out) + 1, "search": argv, "jobs": jobs, "optimized": opt, "cwd": dec(cwd), "start": dec(start or b""), "run": kw, "versions": r["vers"], "status": res["status"],
                          "computed": sorted(done), "shown": show, "stderr": dec(res["err"][-1500:])})
        vers = {p: r["vers"][p] for p in r["vers"]}
        unknown = show is None
        return dict(x=r["x"], vers=vers, done=[list(x) for x in sorted(done)], killed=killed, st=res["status"] if not res["timeout"] else -98, ok=ok,
                    show=show or [], n=n, sel=sel, use=use, unknown=unknown)

    def group(self, op):
        rs = op["runs"]
        outs = [None] * len(rs)
        cst = []

        def one(i):
            try:
                outs[i] = self.run(rs[i], f"{len(self.out)}.{i}")
            except Exception as exc:
                outs[i] = exc
        th = [threading.Thread(target=one, args=(i,)) for i in range(len(rs))]
        th += [threading.Thread(target=lambda x=x: cst.append(self.clean(x))) for x in op["cleans"]]
        if len(th) == 1:
            one(0)
        else:
            for t in th:
                t.start()
            for t in th:
                t.join()
        for o in outs:
            if isinstance(o, Exception):
                raise o
        # a search with unclear results only counts for what it computed
        for o in outs:
            if o.pop("unknown"):
                o["lax"] = True
        self.out.append(dict(op="runs", runs=outs, cleans=op["cleans"], cst=max(cst) if cst else 0))

    def clean(self, x):
        res = self.chk.lab.runner.cli(self.cache(x) + ["--clean-cache"], self.dir, env=self.env({p: 1 for p in PLUGS}, None, x), timeout=60)
        self.text.append({"at": len(self.out) + 1, "clean": x, "status": res["status"], "stderr": dec(res["err"][-500:])})
        return res["status"] if not res["timeout"] else -98

    def go(self):
        init = self.ops[0]["files"]
        for e in sorted(init, key=lambda e: e["k"]):
            self.put(e)
        self.times()
        self.inside = self.r.random() < 0.35      # searches in one process
        for op in self.ops[1:]:
            if op["op"] == "runs":
                self.group(op)
            elif op["op"] == "clean":
                self.out.append(dict(op="clean", x=op["x"], st=self.clean(op["x"])))
            else:
                self.change(op)
        for x in self.servers:
            self.ask(x, {})
            x["th"].join()
            if "exc" in x["box"]:
                raise x["box"]["exc"]
        searches = [r for o in self.out if o["op"] == "runs" for r in o["runs"]]
        self.interesting = len(searches) > 1 and any(len(r["done"]) < len(r["show"]) for r in searches[1:])
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)
        return dict(K=PLUGS, files=init, ops=self.out)


def histories(chk, num, seed, depth):
    """Histories made by the specification."""
    d = chk.lab.scratch.new("s")
    cfg = d + "/S.cfg"
    with open(cfg, "w") as f:
        f.write('SPECIFICATION SimSpec\nCONSTANT Plugins = {"vc", "vc2", "vc_2", "vca"}\nCONSTANT Kinds <- SimKinds\nCONSTANT Versions = {1, 2, 3}\n'
                'CONSTANT Names = {"f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "l1", "l2"}\nCONSTANT Contents = {"a", "b", "NONE", "long", "nil", "zero", "empty"}\n'
                'CONSTANT Times = {1, 2, 3, 4}\nCONSTANT Caches = {"x1", "x2", "home", ""}\nCONSTANT Variant = "ok"\n' + f"CONSTANT MaxOps = {depth}\n")
    code, out = tlc.tlc("CacheSim.tla", cfg, d + "/m", args=("-simulate", f"num={num}", "-depth", str(depth + 3), "-seed", str(seed)))
    H = [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'<<"HISTORY", "(.*)">>', out)]
    if len(H) < num * 0.9:
        raise MachineryError("no histories: " + out[-2000:])
    return H


def big(chk, n):
    """A history with many files (more than are stored at a time)."""
    g = chk.g
    names = {f"f{i}": b"%s/file %d" % (g.pick(b"p", b"q", b"r/s", b"r"), i) for i in range(n)}
    dirs = {"d1": b"p", "d2": b"q", "d3": b"r", "d4": b"r/s"}
    names.update(dirs)
    F = lambda f, m=1: dict(f=f, c=g.pick("a", "b", "long", "NONE", "nil"), m=m, s=0, k="f")
    init = [dict(F(f), s=0) for f in names if f[0] == "f"] + [dict(f=d, c="dir", m=1, s=0, k="d") for d in dirs]
    for e in init:
        if e["k"] == "f":
            e["s"] = SIZES[e["c"]]
    R = lambda *use, killed=False, how="sql", x="x1", sel=(): dict(x=x, vers={p: 1 for p in PLUGS}, use=list(use), killed=killed, how=how, sel=list(sel))
    fs = [f for f in names if f[0] == "f"]
    g.r.shuffle(fs)
    ops = [dict(op="init", files=init)]
    first = [R("vc", killed=g.chance(0.3), how=g.pick("main", "sql")), R("vc2", "vca"), R("vc", "vc_2")]
    ops.append(dict(op="runs", runs=first[:g.pick(1, 2, 3)], cleans=[]))
    ops.append(dict(op="runs", runs=[R("vc", "vca")], cleans=[]))
    for f in fs[:5]:
        ops.append(dict(op="touch", f=f, m=2))
    for f in fs[5:8]:
        ops.append(dict(op="rm", f=f))
    ops.append(dict(op="runs", runs=[R("vc", "vc2", "vca")], cleans=[]))
    ops.append(dict(op="clean", x="x1"))
    byname = {e["f"]: e for e in init}
    for f in fs[5:8]:
        ops.append(dict(op="write", e=byname[f]))
    ops.append(dict(op="runs", runs=[R("vc", "vca", sel=("vc", "a"))], cleans=[]))
    return ops, names


def run(chk):
    g = chk.g
    quick = chk.quick
    plug = plugin_dirs(chk)
    MC = dict(Plugins='{"pa", "pb"}', Versions="{1, 2}", Names='{"f", "g"}', Contents='{"a", "b"}', Times="{1, 2}", Caches='{"x"}', Variant='"ok"', MaxOps="4" if quick else "6")

    def mc(expect="ok", **kw):
        c = dict(MC, **kw)
        path = os.path.join(chk.lab.scratch.new("cfg"), "M.cfg")
        with open(path, "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANT Kinds <- MCKinds\n" + "".join(f"CONSTANT {k} = {v}\n" for k, v in c.items()))
            f.write("INVARIANT Transparent\nINVARIANT OneRow\nPROPERTY Reused\nPROPERTY Apart\nPROPERTY Cleaned\n")
        chk.model("CacheMC.tla", path, expect=expect, label=", ".join(f"{k} = {v}" for k, v in c.items()), heap="3g")
    wrong = [("notag", "Transparent"), ("noversion", "Transparent"), ("noplugin", "Transparent"), ("keep", "Transparent|OneRow"), ("forget", "Reused"),
             ("cleanall", "Cleaned"), ("cleannone", "Cleaned")]
    todo = [lambda: mc()] + [lambda v=v, e=e: mc(e, Variant=f'"{v}"') for v, e in (g.r.sample(wrong, 2) if quick else wrong)]
    if not quick:
        todo += [lambda: mc(Caches='{"x", "y"}', MaxOps="5"), lambda: mc(Names='{"f"}', Times="{1, 2, 3}", MaxOps="7")]
    chk.lab.runner.pmap(lambda j: j(), todo, 3)

    first = True
    while first or chk.more(9):
        t = time.monotonic()
        num = 8 if quick else 24
        parts = chk.lab.runner.pmap(lambda s: histories(chk, num, s, g.pick(10, 14, 20)), [g.r.randrange(10 ** 9) for _ in range(4)], 4)
        hs = [History(chk, plug, ops, g.r.__class__(g.r.random())) for p in parts for ops in p]
        if first or not quick:
            for _ in range(1 if quick else 3):
                ops, names = big(chk, 600 if quick else g.pick(1100, 1600))
                hs.insert(0, History(chk, plug, ops, g.r.__class__(g.r.random()), names))
        first = False
        judge(chk, hs)
        if chk.left() < (time.monotonic() - t) * 0.9:
            break


def judge(chk, hs):
    recs = chk.lab.runner.pmap(lambda h: h.go(), hs, 8)
    bad = tlc.judge(chk.lab.scratch, [], recs, module="CacheJudge.tla", cfg="CacheJudge.cfg")
    chk.traces += len(recs)
    for h, r in zip(hs, recs):
        chk.evaluations += sum(len(o["runs"]) for o in r["ops"] if o["op"] == "runs")
        if h.interesting:
            chk.keys.add(json.dumps(r["ops"][:6], sort_keys=True))
    chk.notes["histories"] = chk.notes.get("histories", 0) + len(hs)
    if len(chk.samples) < 3:
        chk.samples.append({"history": [{k: v for k, v in x.items() if k not in ("shown", "computed")} for x in hs[-1].text[:6]]})
    for h, r in zip(hs, recs):
        if r["id"] in bad:
            chk.violation("; ".join(bad[r["id"]]), {"files": r["files"][:40], "names": {k: v for k, v in list(h.names.items())[:40]}, "history": h.text if len(h.names) < 50 else str(h.text)[:20000]})
