"""Scenarios: command lines (or API calls) on worlds, executed by the real program and turned into records
for the specification."""
import os, json, shlex, subprocess, hashlib, time
from runner import Scratch, Runner, MachineryError, cps, uncps, HERE
from world import World, digits
import tlc

PLUGINS = os.path.join(HERE, "plugins")


def dec(b):
    return b.decode("utf-8", "surrogateescape")


def quote(s):
    """Quoting for FF_OPTIONS (a line that is split like a shell does)."""
    return "'" + s.replace("'", "'\"'\"'") + "'"


class Lab:
    """A session of runs: a scratch directory, the fork servers, and the worlds."""

    def __init__(self, plugin_dirs=None):
        self.scratch = Scratch()
        os.chmod(self.scratch.dir, 0o755)
        self.runner = Runner(self.scratch, plugin_dirs=[PLUGINS] if plugin_dirs is None else plugin_dirs)
        self.worlds = []            # World objects
        self.snaps = []
        self.rec = os.path.join(self.scratch.dir, "rec")
        r = subprocess.run(["gcc", "-O1", "-w", "-o", self.rec, os.path.join(HERE, "c", "rec.c")], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("cannot build the recorder: " + r.stderr)
        self.runs = 0
        self.seen = set()
        self.tlc_states = 0

    def world(self, name="w", tz=0, root=None):
        w = World(root or self.scratch.new(name), tz)
        w.lab = self
        return w

    def seal(self, w, cwd=None, readable=None):
        """Take the snapshot of a finished world; returns its number."""
        w.write_plugdata(os.path.join(self.scratch.dir, f"pd{len(self.worlds)}.json"))
        w.now = int(time.time())
        for top in [w.root] + w.extra:
            settle(top)
        self.worlds.append(w)
        w.cwd = dec(cwd or w.root)
        self.snaps.append(w.snapshot(w.cwd, readable))
        w.num = len(self.worlds) - 1
        return w.num

    def snap_for(self, num, cwd):
        """The number of the snapshot of world `num` with another current directory."""
        return num if cwd == self.worlds[num].cwd else self.variant(num, cwd=cps(cwd))

    def variant(self, num, **change):
        """The number of the snapshot of world `num` with some parts replaced (cwd, uid, gid, flt, nodes)."""
        key = (num, json.dumps(change, sort_keys=True))
        if not hasattr(self, "alt"):
            self.alt = {}
        if key not in self.alt:
            self.snaps.append(dict(self.snaps[num], **change))
            self.worlds.append(self.worlds[num])
            self.alt[key] = len(self.snaps) - 1
        return self.alt[key]

    # -- execution
    def execute(self, sc):
        """Run one scenario; returns the record for the specification."""
        self.runs += 1
        self.seen.add(sc.key())
        w = self.worlds[sc.w]
        env = {"VERIF_PLUGDATA": w.plugdata, "TZ": tzname(w.tz)}
        if sc.ffopts:
            env["FF_OPTIONS"] = " ".join(quote(x) for x in sc.ffopts)
        env.update(sc.env)
        kw = dict(sc.kw)
        log = None
        if sc.mode in ("exec", "batch"):
            log = self.scratch.new("x") + "/log"
            if kw.get("uid"):
                os.chmod(os.path.dirname(log), 0o777)
            env["VERIF_EXECLOG"] = log
        if sc.enc:
            env["PYTHONIOENCODING"] = "utf-8:" + sc.enc
        cwd = sc.cwd if sc.cwd is not None else w.cwd
        if sc.kind == "api":
            return self.execute_api(sc, cwd, env, kw)
        scanlog = None
        if sc.scan:
            scanlog = self.scratch.new("s") + "/log"
            kw["perturb"] = dict(kw.get("perturb") or {}, scanlog=scanlog)
        res = self.runner.cli(sc.argv, cwd, env=env, optimized=sc.opt, timeout=sc.timeout, **kw)
        sc.res = res
        if sc.after:
            sc.after(sc)
        cmds = read_log(log) if log else []
        if log:
            try:
                os.unlink(log)
            except OSError:
                pass
            os.rmdir(os.path.dirname(log))
        sc.cmds = cmds
        out = res["out"]
        scans = []
        if scanlog:
            try:
                with open(scanlog) as f:
                    scans = sorted({tuple(json.loads(l)) for l in f})
                tops = [tuple(cps(os.path.realpath(x))) for x in [w.root] + w.extra]
                scans = [x for x in scans if any(x[:len(t)] == t for t in tops)]
                os.unlink(scanlog)
            except FileNotFoundError:
                pass
            os.rmdir(os.path.dirname(scanlog))
        obs = {"st": res["status"] if res["status"] is not None else -99, "to": res["timeout"], "left": res["left"],
               "errn": len(res["err"]), "pieces": [], "tail": [], "jok": True, "json": [], "cnt": [], "cmds": cmds,
               "succ": -1, "failed": -1, "scan": sc.scan, "scans": scans}
        if sc.mode == "console" or (sc.mode in ("json", "jsonl", "countjson") and res["status"] not in (0, 1)):
            parts = out.split(sc.nl)
            obs["pieces"] = [cps(p) for p in parts[:-1]]
            obs["tail"] = cps(parts[-1])
        elif sc.mode == "count":
            parts = out.split(b"\n")
            obs["pieces"] = [cps(p) for p in parts[:-1]]
            obs["tail"] = cps(parts[-1])
        elif sc.mode in ("exec", "batch"):
            parts = out.split(b"\n")
            obs["pieces"] = [cps(p) for p in parts[:-1]]
            obs["tail"] = cps(parts[-1])
            import re
            m = re.search(rb"\(success: (\d+), failure: (\d+)\)", res["err"])
            if m:
                obs["succ"], obs["failed"] = int(m[1]), int(m[2])
        else:
            try:
                if sc.mode == "jsonl":
                    lines = out.split(b"\n")
                    if lines[-1] != b"":
                        raise ValueError
                    data = [loads(l) for l in lines[:-1]]
                else:
                    data = loads(out)
                if sc.mode == "countjson":
                    obs["cnt"] = count_items(data)
                else:
                    if type(data) is not list:
                        raise ValueError
                    obs["json"] = [[[cps(k), jval(v)] for k, v in r] for r in map(pairs, data)]
            except (ValueError, TypeError, AttributeError):
                obs["jok"] = False
        more = {} if sc.hi is None else {"hi": sc.hi}
        return {**more, "w": sc.w, "kind": "cli", "words": [cps(x) for x in sc.ffopts + sc.argv], "rec": cps(self.rec),
                "big": sc.big, "fault": sc.fault, "enc": sc.enc, "obs": obs}

    def execute_api(self, sc, cwd, env, kw):
        rp = os.path.join(self.scratch.dir, "api%d.json" % id(sc))
        res = self.runner.zygote(sc.opt).request(dict(kind="api", cwd=cwd, timeout=sc.timeout, steps=[sc.step()], result=rp,
                                                      env=self.runner.envfor(sc.opt, env), argv=[], **kw))
        sc.res = res
        if sc.after:
            sc.after(sc)
        try:
            with open(rp) as f:
                r = json.load(f)[0]
            os.unlink(rp)
        except OSError:
            r = {"exc": "died", "recs": [], "attr": True}
        return self.api_record(sc, r, res)

    def api_record(self, sc, r, res):
        obs = {"st": res["status"] if res["status"] is not None else -99, "to": res["timeout"], "left": res["left"],
               "exc": r["exc"], "recs": r["recs"], "attr": r["attr"]}
        sc.result = r
        q = {k: v for k, v in sc.query().items()}
        return {"w": sc.w, "kind": "api", "q": q, "rec": cps(self.rec), "big": False, "fault": sc.fault, "enc": "", "obs": obs}

    def judge(self, scens, recs=None, shards=8, workers=None, timeout=800):
        """Execute and judge; returns [(scenario, record, clauses)] for the ones that do not conform."""
        if recs is None:
            recs = self.runner.pmap(self.execute, scens, workers)
        bad = tlc.judge(self.scratch, self.snaps, recs, shards=shards, timeout=timeout)
        self.tlc_states += len(recs)
        return [(s, r, bad[r["id"]]) for s, r in zip(scens, recs) if r["id"] in bad]


def settle(top):
    """Give the entries whose times were not set fixed ones."""
    def one(p):
        st = os.lstat(p)
        if int(st.st_atime) != 1900000000:
            recent = st.st_mtime > time.time() - 600
            os.utime(p, ns=(1900000000 * 10 ** 9, 1600000000 * 10 ** 9 if recent else st.st_mtime_ns), follow_symlinks=False)
    for d, ds, fs in os.walk(top, topdown=False):
        for n in ds + fs:
            one(os.path.join(d, n))
    one(top)


def tzname(tz):
    """POSIX TZ for an offset in seconds east of UTC."""
    if tz == 0:
        return "UTC"
    sign = "-" if tz > 0 else "+"
    a = abs(tz)
    return f"<XX{'+' if tz > 0 else '-'}>" + f"{sign}{a // 3600:02d}:{a % 3600 // 60:02d}"


def loads(b):
    def bad(x):
        raise ValueError
    s = b.decode("utf-8", "surrogateescape")
    return json.loads(s, parse_constant=bad, object_pairs_hook=Obj)


class Obj(list):
    """A JSON object as a list of pairs."""


def pairs(o):
    if not isinstance(o, Obj):
        raise ValueError
    if len({k for k, v in o}) != len(o):
        raise ValueError
    return o


def jval(v):
    if v is None:
        return {"k": "null", "v": []}
    if isinstance(v, bool):
        return {"k": "bool", "v": v}
    if isinstance(v, int):
        return {"k": "num", "v": digits(v)}
    if isinstance(v, str):
        return {"k": "str", "v": cps(v)}
    if isinstance(v, list) and not isinstance(v, Obj) and all(isinstance(x, str) for x in v):
        return {"k": "list", "v": [cps(x) for x in v]}
    return {"k": "other", "v": cps(repr(v))}


def count_items(data):
    out = []
    for k, v in pairs(data):
        if isinstance(v, Obj):
            for k2, v2 in v:
                out.append([cps(k), [cps(k2)], jval(v2)])
        else:
            out.append([cps(k), [], jval(v)])
    return out


def read_log(path):
    """The recorded commands in the order in which they were started."""
    try:
        with open(path, "rb") as f:
            data = f.read()
    except FileNotFoundError:
        return []
    pos = 0
    starts, ends = [], {}
    events = []
    while pos < len(data):
        kind = data[pos:pos + 1]
        head = data[pos + 2:pos + 120].split(b" ", 3)
        pid, t = int(head[0]), int(head[1])
        n = head[2].split(b"\n", 1)[0]
        pos += 2 + len(head[0]) + 1 + len(head[1]) + 1 + len(n)
        argc = int(n)
        args = []
        for _ in range(argc):
            assert data[pos:pos + 1] == b" "
            e = data.index(b" ", pos + 1)
            l = int(data[pos + 1:e])
            args.append(data[e + 1:e + 1 + l])
            pos = e + 1 + l
        assert data[pos:pos + 1] == b"\n"
        pos += 1
        events.append((t, kind, pid, args))
    times = sorted({e[0] for e in events})
    rank = {t: i + 1 for i, t in enumerate(times)}
    for t, kind, pid, args in sorted(events, key=lambda e: e[0]):
        if kind == b"S":
            starts.append({"a": [cps(a) for a in args], "s": rank[t], "e": rank[t] + 1, "pid": pid, "done": False})
        else:
            for s in reversed(starts):
                if s["pid"] == pid:
                    s["e"] = rank[t]
                    s["done"] = True
                    break
    return starts


DEFAULT_Q = dict(tests=[], dirs=["."], exclude=[], output=["file"], sort=[], reverse=False, hide=False, ignore=False,
                 igfiles=[], onefs=False, case="smart", si=False, follow=False, abs=False, jobs=0, stop=0)
API_NAMES = dict(tests="query", dirs="directories", exclude="exclude", output="output", sort="sort", reverse="reverse", hide="hide",
                 ignore="ignore", igfiles="ignore_files", onefs="one_file_system", case="case", si="si",
                 follow="follow_symlinks", abs="absolute_path", jobs="jobs")


class Scen:
    def __init__(self, w, argv, mode="console", nl=b"\n", ffopts=(), cwd=None, opt=False, env=None, timeout=60, kind="cli", q=None,
                 big=False, tag="", scan=False, fault="", after=None, enc="",
                 hi=None, **kw):
        self.w = w
        self.argv = list(argv)
        self.mode = mode
        self.nl = nl
        self.ffopts = list(ffopts)
        self.cwd = cwd
        self.opt = opt
        self.env = env or {}
        self.timeout = timeout
        self.kind = kind
        self.q = q or {}
        self.big = big
        self.tag = tag
        self.scan = scan
        self.fault = fault
        self.after = after          # called after the run, e.g. to see whether a planned fault took place
        self.enc = enc              # "strict": the output cannot take characters that are not valid
        self.hi = hi                # fault "bounds": the world with everything that may be found
        self.kw = kw
        self.cmds = []

    def key(self):
        return hashlib.md5(json.dumps([self.w, self.argv, self.ffopts, self.q, self.opt, self.kw.get("perturb")], sort_keys=True).encode()).digest()

    def query(self):
        q = dict(DEFAULT_Q)
        q.update(self.q)
        for k in ("qs", "cache"):
            q.pop(k, None)
        for k in ("tests", "dirs", "exclude", "output", "sort", "igfiles"):
            q[k] = [cps(x) for x in q[k]]
        q["jobs"] = q["jobs"] or 0
        return q

    def step(self):
        q = {API_NAMES[k]: v for k, v in self.q.items() if k not in ("stop", "qs", "cache")}
        q["cache"] = self.q.get("cache")
        if self.q.get("qs"):
            q["query"] = shlex.join(q.get("query") or [])
        st = {"op": "find", "q": q}
        if self.q.get("stop"):
            st["stop"] = self.q["stop"]
        return st

    def describe(self, lab=None):
        d = {"argv": self.argv, "mode": self.mode, "FF_OPTIONS": self.ffopts, "optimized": self.opt, "tag": self.tag}
        if self.kind == "api":
            d = {"api": self.q, "optimized": self.opt, "tag": self.tag}
        if self.kw:
            d["run"] = {k: v for k, v in self.kw.items()}
        return d
