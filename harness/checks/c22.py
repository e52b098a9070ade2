"""C22: the git attributes.  Random histories of the state machine Git (spec/GitSim.tla) are carried out with git(1); what ff shows at each
look is judged by spec/GitJudge.tla.  If something does not conform, what git itself tells is judged in the same way: the specification has
to agree with git before a violation is reported."""
import os, re, json, time, shutil, random, subprocess
import tlc
from scen import loads, pairs, dec
from runner import MachineryError, cps, uncps

LEVEL = "model_checking"
RULE = ("random histories of spec/Git.tla (TLC): files are written, removed, added, renamed, staged for removal, committed, reset, in conflict, marked as "
        "unchanged, in several, nested and linked repositories, with names and settings of every kind; at each look ff shows the attributes of all entries "
        "or selects by one; non-trivial: a repository has tracked and untracked or clean and dirty entries")
ASSUMPTIONS = ["git works as its documentation says (the state that the specification computes is compared with git before an alarm)",
               "the entries belong to the user, so that git does not refuse to read the repository"]

ODD = [b"plain", b"new\nline", b'quo"te', b"\xff\xfe", "ümläut".encode(), "日本".encode(), b"-dash", b" lead", b"trail ", b"a -> b", b"R  x", b":(top)x", b"?? q", b"!x", b"*", b"[x]",
       b"tab\there", b"back\\slash", b"#c", b"HEAD", b"A  y", b"\\303\\274", b".hid", b"x.txt", b"MM", b"\x01\x7f", b"'q'", b"d", b"f", b"no\xc3", b"e\xcc\x81", b"R", b"%s", b"{x}", b".gitx",
       b"git", b"long" * 50, b"\r", b"a\rb", b":", b"::", b"~", b"$HOME", b"a  b", b"x\n"]
CONTENT = [b"", b"one\n", b"two\n" * 30, b"three\n" * 30, b"two\n" * 30 + b"x", b"\0bin\xff" * 20]


class History:
    def __init__(self, chk, ops, seed):
        self.chk, self.ops, self.seed = chk, ops, seed
        self.r = random.Random(seed)
        self.text = []
        self.interesting = False

    def setup(self):
        r = self.r
        self.dir = self.chk.lab.scratch.new("g")
        self.root = os.fsencode(self.dir) + b"/t"
        os.mkdir(self.root)
        parts = ["f", "g", "x", "d", "e", "n", "m", "k", "r", "s"]
        odd = r.random() < 0.75
        names = r.sample([n for n in ODD], len(parts)) if odd else [p.encode() for p in parts]
        self.name = dict(zip(parts, names))
        if r.random() < 0.5 and odd:          # mostly plain directories
            for p in ("r", "s", "d", "n"):
                self.name[p] = p.encode() + b"_"
        self.name["dx"] = self.name["d"] + r.choice([b"x", b" ", b".d", b"-", b"\n"])
        self.name["r2"] = self.name["r"] + r.choice([b"2", b"x", b"!"])
        assert len(set(self.name.values())) == len(self.name), names
        self.part = {v: k for k, v in self.name.items()}
        self.cfg = []
        for k, vs in (("status.renames", ["copies", "false", "true"]), ("core.quotePath", ["false"]), ("status.showUntrackedFiles", ["no", "all", "normal"]), ("status.relativePaths", ["false"]),
                      ("color.status", ["always"]), ("color.ui", ["always"]), ("status.branch", ["true"]), ("status.short", ["true"]), ("diff.renames", ["copies", "false"]),
                      ("core.preloadIndex", ["false"]), ("core.untrackedCache", ["true"]), ("index.version", ["4"]), ("status.showStash", ["true"]), ("feature.manyFiles", ["true"])):
            if r.random() < 0.12:
                self.cfg.append((k, r.choice(vs)))
        self.odd = []
        self.name["r3"] = self.name["s"] + r.choice([b"3", b"y", b"="])
        self.part[self.name["r3"]] = "r3"
        if r.random() < 0.35:
            self.unusable()
        self.env = {"HOME": self.dir, "PATH": os.environ["PATH"], "LC_ALL": "C.UTF-8", "GIT_AUTHOR_NAME": "n", "GIT_AUTHOR_EMAIL": "e", "GIT_COMMITTER_NAME": "n", "GIT_COMMITTER_EMAIL": "e",
                    "GIT_CONFIG_NOSYSTEM": "1"}
        self.repos = []
        self.out = []

    def unusable(self):
        """A directory outside of all repositories with something that git does not take for a repository."""
        r, top = self.r, self.path(["r3"])
        self.odd = [["r3", "f"], ["r3", "d", "f"]]
        os.makedirs(top + b"/" + self.name["d"])
        for p in self.odd:
            with open(self.path(p), "wb") as f:
                f.write(b"x")
        k = r.randrange(6)
        if k == 0:
            os.mkdir(top + b"/.git")
        elif k < 4:
            with open(top + b"/.git", "wb") as f:
                f.write([b"", b"garbage\n", b"gitdir: /nonexistent/x\n"][k - 1])
        else:
            for d in (b"objects", b"refs/heads"):
                os.makedirs(top + b"/.git/" + d)
            for n, c in ((b"HEAD", b"ref: refs/heads/main\n" if k == 4 else b"nonsense"), (b"config", b"[core\nrepositoryformatversion = 9\n"), (b"index", b"DIRC\0\0\0\x09nothing")):
                with open(top + b"/.git/" + n, "wb") as f:
                    f.write(c)

    def path(self, p):
        return b"/".join([self.root] + [self.name[x] for x in p])

    def abstract(self, path):
        """The names of an absolute path below the root (None if it is none)."""
        if path == self.root:
            return []
        if not path.startswith(self.root + b"/"):
            return None
        return [self.part.get(x) for x in path[len(self.root) + 1:].split(b"/")]

    def git(self, repo, *args, check=True, **kw):
        p = subprocess.run([b"git", b"-C", self.path(repo), b"--literal-pathspecs", *[a.encode() if isinstance(a, str) else a for a in args]], env=self.env, capture_output=True, timeout=60, **kw)
        if check and p.returncode:
            raise MachineryError(f"git failed: {args} {p.stderr!r} {json.dumps(self.text)[-3000:]}")
        return p.stdout

    def owner(self, p):
        return max((r for r in self.repos if len(r) < len(p) and p[:len(r)] == r), key=len)

    def clear(self, path):
        """A directory without files is not in the way."""
        if os.path.isdir(path) and not os.path.islink(path):
            for d, ds, fs in os.walk(path):
                if fs:
                    raise MachineryError(f"not empty: {path!r}")
            shutil.rmtree(path)

    def write(self, p, v):
        path = self.path(p)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.clear(path)
        if os.path.lexists(path) and (os.path.islink(path) or v["k"] == "link" or self.r.random() < 0.3):
            os.unlink(path)
        if v["k"] == "link":
            os.symlink(CONTENT[v["c"]][:20].replace(b"\0", b"-").strip() + b"t%d" % v["c"], path)
        else:
            with open(path, "wb") as f:
                f.write(CONTENT[v["c"]])
            os.chmod(path, 0o755 if v["k"] == "exec" else 0o644)

    def init(self, r):
        path = self.path(r)
        os.makedirs(path, exist_ok=True)
        if self.r.random() < 0.15:
            self.git([], "init", "-q", "--template=", "--separate-git-dir", os.fsencode(self.dir) + b"/sep%d" % len(self.repos), b"./" + os.path.relpath(path, self.root))
        else:
            self.git(r, "init", "-q", "--template=", ".")
        for k, v in self.cfg:
            self.git(r, "config", k, v)
        if self.r.random() < 0.3:
            os.makedirs(path + b"/.git/info", exist_ok=True) if os.path.isdir(path + b"/.git") else None
            if os.path.isdir(path + b"/.git"):
                with open(path + b"/.git/info/exclude", "wb") as f:
                    f.write(self.r.choice([b"*\n", b"f\n", b"*.txt\nd/\n", b"\n"]))

    def step(self, op):
        k, p, r = op["op"], op.get("p"), self.r
        if k == "look":
            return
        self.text.append(op)
        if k == "write":
            self.write(p, op["v"])
        elif k == "remove":
            os.unlink(self.path(p))
            if r.random() < 0.3:       # directories without files may remain or not
                d = os.path.dirname(self.path(p))
                try:
                    if p[:-1] not in self.repos:
                        os.rmdir(d)
                except OSError:
                    pass
        elif k in ("commit", "reset", "hard"):
            if k == "commit":
                self.git(op["r"], "commit", "-q", "--allow-empty", "-m", "m")
            else:
                if k == "hard":
                    for d, ds, fs in os.walk(self.path(op["r"]), topdown=False):
                        # directories without files are not in the way
                        if not ds and not fs and b"/.git" not in d:
                            os.rmdir(d)
                self.git(op["r"], "reset", "-q", *(["--hard"] if k == "hard" else []))
        elif k == "init":
            self.init(op["r"])
            self.repos.append(op["r"])
        elif k == "worktree":
            path = self.path(op["r"])
            self.clear(path)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            self.git(op["of"], "worktree", "add", "-q", "-f", "--detach", path)
            self.repos.append(op["r"])
        else:
            o = self.owner(p)
            rel = os.path.relpath(self.path(p), self.path(o))
            if k == "add":
                self.clear(self.path(p))
                # git tells changes by times and sizes: all that was written before has to look older
                self.git(o, *r.choice([["add", "-f"], ["add", "-f"], ["update-index", "--add", "--remove", "--replace"]]), "--", rel)
            elif k == "intend":
                self.git(o, "add", "-f", "-N", "--", rel)
            elif k == "forget":
                self.git(o, *r.choice([["rm", "-q", "-f", "--cached"], ["update-index", "--force-remove"]]), "--", rel)
            elif k == "rm":
                self.clear(self.path(p))
                self.git(o, "rm", "-q", "-f", "--", rel)
            elif k == "mv":
                q = self.path(op["q"])
                self.clear(q)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                self.git(o, "mv", "--", rel, os.path.relpath(q, self.path(o)))
            elif k == "restore":
                self.clear(self.path(p))
                self.git(o, *r.choice([["checkout", "-q"], ["restore", "-q"], ["checkout-index", "-q", "-f"]]), "--", rel)
            elif k == "conflict":
                z = b"0" * 40
                b = [self.git(o, "hash-object", "-w", "--stdin", input=x).strip() for x in (b"1", b"2", b"3")]
                stages = r.choice([(1, 2, 3), (2, 3), (1, 2), (1, 3), (2,), (3,), (1,)])
                self.git(o, "update-index", "-z", "--index-info", input=b"0 " + z + b"\t" + rel + b"\0" + b"".join(b"100644 %s %d\t%s\0" % (b[s - 1], s, rel) for s in stages))
            elif k == "flag":
                self.git(o, "update-index", "--assume-unchanged", "--", rel)
            elif k == "unflag":
                self.git(o, "update-index", "--no-assume-unchanged", "--", rel)
            else:
                raise MachineryError(k)

    def entries(self, start):
        """[(abstract path, type)] of what lies below start."""
        out = []
        for d, ds, fs in os.walk(start):
            if b".git" in ds:
                ds.remove(b".git")
            if d == start == self.root and self.name["r3"] in ds:
                ds.remove(self.name["r3"])
            for n in ds + fs:
                if n == b".git":
                    continue
                path = os.path.join(d, n)
                out.append(dict(p=self.abstract(path), t="dir" if os.path.isdir(path) and not os.path.islink(path) else "other"))
        return out

    def look(self, op):
        """A search with ff."""
        r = self.r
        lab = self.chk.lab
        dirs = [self.root] * 4 + [self.path(e["p"]) for e in self.entries(self.root) if e["t"] == "dir"]
        where = r.choice(dirs)
        sel = r.choice(["", "", "", "tracked", "dirty", "repo"])
        val = r.random() < 0.6
        jobs = r.choice([1, 1, 2, 3])
        argv = ["--no-cache", "-j", str(jobs)]
        fields = ["path", "git.tracked", "git.dirty", "git.repo_dir", "git.repo"]
        mode = r.choice(["json", "jsonl", "jsonl", "sorted"])
        argv += ["--json" if mode == "json" else "--jsonl", "--all", "-o", ",".join(fields)]
        if mode == "sorted":
            argv += ["-S", r.choice(fields)]
        if r.random() < 0.5:
            argv += ["-e", "name=.git"]
        how = r.random()
        cwd = where
        if how < 0.3:
            cwd = os.path.dirname(where)
            argv += ["-D", dec(b"./" + os.path.basename(where))]
        elif how < 0.5:
            cwd = b"/"
            argv += ["-D", dec(where)]
        if sel:
            argv += [f"git.{sel}={r.choice(['yes', 'true', '1', 'on'] if val else ['no', 'false', '0', 'off'])}"]
        opt = r.random() < 0.2
        kw = {}
        if r.random() < 0.2:
            kw["perturb"] = dict(seed=r.randrange(10 ** 9), delays={s: [0.4, 3] for s in r.sample(["get", "put", "feed", "barrier", "scan", "lock"], 2)})
        res = lab.runner.cli(argv, dec(cwd), env={"HOME": self.dir, "GIT_CONFIG_NOSYSTEM": "1"}, optimized=opt, timeout=90, **kw)
        self.text.append({"search": argv, "cwd": dec(cwd), "optimized": opt, "status": res["status"], "stderr": dec(res["err"][-800:])})
        seen = []
        ok = res["status"] == 0 and not res["timeout"]
        try:
            data = loads(res["out"]) if mode == "json" else [loads(l) for l in res["out"].split(b"\n")[:-1]]
            for o in data:
                d = dict(pairs(o))
                path = os.fsencode(d["path"])
                if path == where:
                    continue
                q = path[len(where) + 1:].split(b"/") if path.startswith(where + b"/") else None
                if q is None:
                    raise ValueError(path)
                rest = path
                if b".git" in q:
                    e = dict(p=self.abstract(where + b"".join(b"/" + x for x in q[:q.index(b".git")])), t="git" )
                    if len(q) == q.index(b".git") + 1 and not os.path.isdir(path):
                        e["t"] = "git"
                else:
                    e = dict(p=self.abstract(path), t="dir" if os.path.isdir(path) and not os.path.islink(path) else "other")
                if e["p"][:1] == ["r3"]:
                    e["t"] = "odd"
                if None in e["p"]:
                    raise ValueError(path)
                a = [d["git.tracked"], d["git.dirty"], d["git.repo_dir"], d["git.repo"]]
                if a == [None] * 4:
                    a = []
                else:
                    if not (isinstance(a[0], bool) and isinstance(a[1], bool) and isinstance(a[3], bool) and isinstance(a[2], str)):
                        raise ValueError(a)
                    a[2] = self.abstract(os.fsencode(a[2]))
                    a[2] = ["?"] if a[2] is None else [x or "?" for x in a[2]]
                seen.append(dict(e, a=a))
        except (ValueError, KeyError, TypeError, AttributeError) as exc:
            ok = False
            self.text[-1]["problem"] = repr(exc)
        if len({(tuple(e["p"]), e["t"]) for e in seen if e["t"] not in ("git", "odd")}) != sum(e["t"] not in ("git", "odd") for e in seen):
            ok = False
        vals = {(e["a"][0], e["a"][1]) for e in seen if e["a"]}
        self.interesting |= len(vals) > 1
        u, got = [], set()
        for e in seen:
            k = json.dumps(e)
            if k not in got:
                got.add(k)
                u.append(e)
        self.text[-1]["seen"] = u
        self.out.append(dict(op="look", ok=ok, start=self.abstract(where), sel=sel, val=val, seen=u, all=self.entries(where) if sel else [], odd=self.odd))

    def facts(self, op):
        """What git itself tells."""
        tracked, dirty, dropped = {}, {}, {}
        Z = lambda b: b.split(b"\0")[:-1]
        empty = b"4b825dc642cb6eb9a060e54bf8d69288fbee4904"
        for r in self.repos:
            k = tuple(r)
            self.git(r, "update-index", "-q", "--refresh", check=False)
            self.git(r, "hash-object", "-w", "-t", "tree", "--stdin", input=b"")
            A = lambda l: {tuple(self.abstract(self.path(r) + b"/" + x)) for x in l}
            tracked[k] = A(Z(self.git(r, "ls-files", "-z")))
            base = b"HEAD" if subprocess.run([b"git", b"-C", self.path(r), b"rev-parse", b"-q", b"--verify", b"HEAD"], env=self.env, capture_output=True).returncode == 0 else empty
            staged = A(Z(self.git(r, "diff-index", "--cached", "--no-renames", "--ita-invisible-in-index", "--name-only", "-z", base, "--")))
            unst = A(Z(self.git(r, "diff-files", "--no-renames", "--name-only", "-z")))
            ita = A(Z(self.git(r, "diff-index", "--cached", "--no-renames", "--ita-visible-in-index", "--name-only", "-z", base, "--")))
            dirty[k] = (staged | unst | ita) & tracked[k]
            dropped[k] = staged - tracked[k]
        out = []
        for e in self.entries(self.root):
            p = tuple(e["p"])
            rs = [tuple(r) for r in self.repos if (tuple(r) == p and e["t"] == "dir") or (len(r) < len(p) and list(p[:len(r)]) == r)]
            if not rs:
                out.append(dict(e, a=[]))
                continue
            k = max(rs, key=len)
            if e["t"] == "dir":
                B = lambda s: any(len(x) > len(p) and x[:len(p)] == p for x in s)
                out.append(dict(e, a=[B(tracked[k]), B(dirty[k]), list(k), k == p]))
            else:
                out.append(dict(e, a=[p in tracked[k], p in dirty[k], list(k), False]))
        self.out.append(dict(op="look", ok=True, start=[], sel="", val=False, seen=out, all=[], odd=[]))

    def go(self, look):
        self.r = random.Random(self.seed)
        self.text = []
        self.setup()
        lr = random.Random(self.seed + 1)      # the same steps whatever is looked at
        for op in self.ops:
            if op["op"] == "look":
                self.r, keep = lr, self.r
                look(self, op)
                self.r = keep
            else:
                self.step(op)
                self.out.append(op)
        shutil.rmtree(self.dir, ignore_errors=True)
        return dict(paths=PATHS, repos=REPOS, ops=self.out)


REL = [["f"], ["g"], ["x"], ["x", "f"], ["d", "f"], ["d", "g"], ["d", "e", "f"], ["dx", "f"]]
REPOS = [["r"], ["s"], ["r", "n"], ["r", "n", "m"], ["r", "d", "k"], ["s", "n"]]
PATHS = [["f"], ["r2", "f"], ["r2", "d", "f"]] + [r + p for r in (["r"], ["s"]) for p in REL] + \
        [r + p for r in (["r", "n"], ["r", "d", "k"], ["s", "n"], ["r", "n", "m"]) for p in (["f"], ["x"], ["x", "f"], ["d", "f"])]


def behaviours(chk, num, seed):
    d = chk.lab.scratch.new("s")
    with open(d + "/S.cfg", "w") as f:
        f.write("SPECIFICATION SimSpec\n")
    code, out = tlc.tlc("GitSim.tla", d + "/S.cfg", d + "/m", args=("-simulate", f"num={num}", "-depth", "100", "-seed", str(seed), "-deadlock"))
    H = [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'<<"HISTORY", "(.*)">>', out)]
    if len(H) < num * 0.9:
        raise MachineryError("no behaviours: " + out[-2000:])
    return H


def judge(chk, recs, shards=4):
    bad = tlc.judge(chk.lab.scratch, [], recs, shards=shards, module="GitJudge.tla", cfg="GitJudge.cfg")
    for v in bad.values():
        if any("MACHINERY" in x for x in v):
            raise MachineryError(str(v))
    return bad


def run(chk):
    g, quick = chk.g, chk.quick
    INV = "Trees Own Idle AfterHard AfterReset AfterAdd AfterCommit AfterInit Nothing DirtyTracked Upward".split()

    def mc(size, variant="ok", expect="ok"):
        chk.config("Git", dict(Size=size, Variant=f'"{variant}"'), inv=INV, prop=[], expect=expect, spec="Spec", args=("-deadlock",), heap="3g", workers=2)
    wrong = [(2, "keepclash", "Trees"), (1, "commitwt", "Nothing"), (1, "hardkeeps", "AfterHard"), (3, "nested", "AfterInit")]
    todo = [lambda s=s: mc(s) for s in (1, 2, 3)] + [lambda w=w: mc(*w) for w in (g.r.sample(wrong, 1) if quick else wrong)]
    if not quick:
        todo += [lambda: mc(4)]
    chk.lab.runner.pmap(lambda j: j(), todo, 4)
    first = True
    unsure = []
    while first or chk.more(8):
        t = time.monotonic()
        first = False
        per = 12 if quick else 40
        parts = chk.lab.runner.pmap(lambda s: behaviours(chk, per, s)[:per], [g.r.randrange(10 ** 9) for _ in range(4)], 4)
        hs = [History(chk, ops, g.r.randrange(10 ** 9)) for p in parts for ops in p]
        recs = chk.lab.runner.pmap(lambda h: h.go(History.look), hs, 10)
        bad = judge(chk, recs)
        chk.traces += len(recs)
        for h, rec in zip(hs, recs):
            chk.count(json.dumps(h.ops, sort_keys=True) if h.interesting else None)
            if rec["id"] in bad:
                # does git agree with the specification?
                text = h.text
                try:
                    own = h.go(History.facts)
                    b2 = judge(chk, [own], 1)
                    if b2:
                        raise MachineryError(f"the specification and git differ: {b2} {json.dumps([o for o in own['ops']])[-6000:]} {h.cfg}")
                except MachineryError as exc:
                    unsure.append(str(exc))
                    continue
                chk.violation("; ".join(sorted(bad[rec["id"]])[:4]), dict(history=text, names={k: dec(v) for k, v in h.name.items()}, config=h.cfg))
        if not quick:           # git itself behaves as specified
            own = chk.lab.runner.pmap(lambda h: h.go(History.facts), hs[:20], 10)
            unsure += [f"the specification and git differ: {b}" for b in judge(chk, own).values()]
            chk.notes["histories compared with git's own facts"] = chk.notes.get("histories compared with git's own facts", 0) + len(own)
        if len(chk.samples) < 3:
            chk.samples.append(hs[-1].text[:30])
        if chk.left() < (time.monotonic() - t) * 0.9:
            break
    if unsure and not chk.violations:
        raise MachineryError(unsure[0])
