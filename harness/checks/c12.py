"""C12: --halt.  The state machine Halt is checked; what the environment does in its random behaviours (which command ends how and when
nothing happens) is replayed with real commands whose end is decided by the harness; what happened is judged by HaltJudge."""
import os, re, json, time, random, threading, shutil, subprocess
import tlc
from runner import MachineryError

LEVEL = "model_checking"
RULE = ("behaviours of spec/Halt.tla: number of workers, of results and of commands that cannot be started, order and result of the ends of commands, and the "
        "moments at which the program has come to rest; non-trivial: at least two commands were started and one failed, or more commands than workers")
ASSUMPTIONS = ["a program that shows no activity for half a second is at rest (an alarm is confirmed by running it again with two seconds; at rest with nothing running: six times as long)",
               "the commands of the harness die when they are terminated"]


class Run:
    def __init__(self, chk, exe, mode, cfg, steps, seed, quiet=0.5):
        self.chk, self.exe, self.mode, self.cfg, self.steps, self.seed, self.quiet = chk, exe, mode, cfg, steps, seed, quiet
        self.rng = random.Random(seed)

    def again(self, quiet):
        return Run(self.chk, self.exe, self.mode, self.cfg, self.steps, self.seed, quiet)

    def build(self):
        r = self.rng
        self.dir = self.chk.lab.scratch.new("h")
        self.tree = os.path.join(self.dir, "t")
        self.ctl = os.path.join(self.dir, "c")
        os.mkdir(self.tree); os.mkdir(self.ctl)
        open(os.path.join(self.ctl, "log"), "w").close()
        good, bad = self.cfg["good"], self.cfg["bad"]
        self.own = bad > 0 or r.random() < 0.3              # the results are the commands
        self.target = not self.own and r.random() < 0.25    # results without the attribute get no command
        dirs = ["d0"]
        for i in range(r.randrange(5)):
            dirs.append(os.path.join(r.choice(dirs + [""]), f"d{i + 1}"))
        for d in dirs:
            os.makedirs(os.path.join(self.tree, d), exist_ok=True)
        names = [f"c{i}" for i in range(good)]
        for n in names:
            p = os.path.join(self.tree, r.choice(dirs), n)
            if self.own:
                if r.random() < 0.5:
                    os.symlink(self.exe, p)
                else:
                    try:
                        os.link(self.exe, p)
                    except OSError:
                        shutil.copy(self.exe, p)
            elif self.target:
                os.symlink(self.exe, p)
            else:
                open(p, "w").close()
        for i in range(bad):
            p = os.path.join(self.tree, r.choice(dirs), f"b{i}")
            k = r.randrange(4)
            if k == 0:
                os.mkdir(p)
            else:
                with open(p, "w") as f:
                    f.write("" if k == 1 else "x\n")
                os.chmod(p, 0o644 if k < 3 else 0o755)
                if k == 3:
                    with open(p, "w") as f:
                        f.write("#!/nonexistent/interpreter\n")
        for i in range(r.choice([0, 0, 3, 40])):
            open(os.path.join(self.tree, r.choice(dirs), f"n{i}"), "w").close()
        if self.target:
            for i in range(r.randrange(1, 4)):
                open(os.path.join(self.tree, r.choice(dirs), f"c{90 + i}"), "w").close()

    def argv(self):
        r = self.rng
        a = []
        self.w = self.cfg["w"]
        j = self.w
        a += r.choice([[f"-j{j}"], ["-j", str(j)], [f"--jobs={j}"]])
        a += ["--no-cache"] if r.random() < 0.7 else []
        if self.mode != "never" or r.random() < 0.4:
            a += r.choice([["--halt", self.mode], [f"--halt={self.mode}"], ["--halt-on-error", self.mode]])
        x = r.random()
        if x < 0.25:
            a += r.choice([["-S", "path"], ["-S", "name"], ["-S", "size"]])
        elif x < 0.35:
            n = self.cfg["good"] + self.cfg["bad"] + 3 * self.target + r.randrange(3)
            a += ["-l", r.choice([f":{n}", "0:", ":50", "50,0", f"{n},0"])]
        if r.random() < 0.2:
            a += ["-R"]
        if r.random() < 0.3:
            a += ["-a"]
        a += ["name~^[cb][0-9]+$"]
        if r.random() < 0.3:
            a += ["-D", r.choice([self.tree, ".", "./"])]
        if self.own:
            words = ["{path}"] if r.random() < 0.6 else ["./{path}" if "-a" not in a and "-D" not in a else "{path}", r.choice(["{name}", "{path}"])]
        elif self.target:
            words = [self.exe, "{name}", "{target}"]
        else:
            words = [self.exe, r.choice(["{name}", "{path}", "{relpath}", "x/{name}"])]
            if r.random() < 0.3:
                words.append(r.choice(["{size}", "x", "{depth}"]))
        return a + [r.choice(["-x", "--exec"])] + words

    def lines(self):
        with open(os.path.join(self.ctl, "log")) as f:
            s = f.read()
        return s[:s.rindex("\n") + 1].splitlines() if "\n" in s else []

    def note(self, text):
        fd = os.open(os.path.join(self.ctl, "log"), os.O_WRONLY | os.O_APPEND)
        os.write(fd, text.encode() + b"\n")
        os.close(fd)

    def go(self):
        self.build()
        r = self.rng
        argv = self.argv()
        kw = {}
        if r.random() < 0.5:
            kw["perturb"] = dict(seed=r.randrange(10 ** 9), delays={s: [0.4, r.choice([3, 15, 40])] for s in r.sample(["get", "put", "feed", "popen", "barrier", "scan", "lock"], 3)})
        done = []
        opt = r.random() < 0.3
        self.text = dict(argv=argv, optimized=opt, mode=self.mode, cfg=self.cfg, steps=self.steps, run=kw)

        def ff():
            try:
                done.append(self.chk.lab.runner.cli(argv, self.tree, env={"VERIF_CMDDIR": self.ctl}, optimized=opt, timeout=60, grace=3.0,
                                                    exitlog=os.path.join(self.ctl, "log"), **kw))
            except BaseException as exc:
                done.append(exc)
        th = threading.Thread(target=ff)
        th.start()
        self.released = set()
        gone = lambda: bool(done) or any(l.startswith("X ") for l in self.lines())

        def running():
            run = []
            for l in self.lines():
                p = l.split()
                if p[0] == "S":
                    run.append(p[1])
                elif p[0] in "ETL" and p[1] in run:
                    run.remove(p[1])
            return run

        def settle(until=lambda: False):
            """Wait until nothing happens any more (False: the program is gone, or `until` became true)."""
            last, since = None, time.monotonic()
            while True:
                n = len(self.lines())
                if n != last:
                    last, since = n, time.monotonic()
                if gone() or until():
                    return False
                run = running()
                if time.monotonic() - since > (self.quiet if run else self.quiet * 6) and not any(c in self.released for c in run):
                    return True
                time.sleep(0.01)

        def release(c, code):
            self.released.add(c)
            p = os.path.join(self.ctl, "x-" + c)
            with open(p, "w") as f:
                f.write(code)
            os.rename(p, os.path.join(self.ctl, "go-" + c))
        free = lambda: [c for c in running() if c not in self.released]
        try:
            for s in self.steps:
                if s["do"] == "rest":
                    if settle():
                        self.note("R")
                else:
                    if settle(lambda: bool(free())):
                        self.note("R")
                    f = free()
                    if f and not gone():
                        release(f[(s["k"] - 1) % len(f)], "0" if s["do"] == "ok" else r.choice(["1", "2", "77", "255", "K"]))
                if gone():
                    break
            t0 = time.monotonic()
            while not gone() and time.monotonic() - t0 < 30:
                if settle(lambda: time.monotonic() - t0 > 30):
                    self.note("R")
                    for c in free():
                        release(c, "0")
        finally:
            th.join()
        if isinstance(done[0], BaseException):
            raise done[0]
        res = done[0]
        ev, names = [], {}
        out = False
        for l in self.lines():
            p = l.split()
            E = lambda e, c="", st=0: ev.append(dict(e=e, c=c, st=st))
            if p[0] == "S":
                E("start", p[1])
            elif p[0] == "E":
                E("end", p[1], int(p[2]))
            elif p[0] == "T":
                E("term", p[1])
            elif p[0] == "L":
                E("end", p[1], 124)
            elif p[0] == "R":
                if not out:
                    E("rest")
            elif p[0] == "X":
                out = True
                E("exit", st=int(p[1]))
        if res["timeout"]:
            ev.append(dict(e="hangs", c="", st=0))
        else:
            ev.append(dict(e="over", c="", st=0))
        self.text.update(events=[" ".join(x for x in (e["e"], e["c"], str(e["st"]) if e["e"] in ("end", "exit") else "") if x) for e in ev],
                         stderr=res["err"][-1500:].decode("utf-8", "replace"))
        starts = sum(e["e"] == "start" for e in ev)
        fails = sum(e["e"] == "end" and e["st"] != 0 for e in ev) + self.cfg["bad"]
        self.interesting = starts > 1 and (fails > 0 or starts > self.w)
        shutil.rmtree(self.dir, ignore_errors=True)
        return dict(jobs=self.w, halt=self.mode, good=self.cfg["good"], bad=self.cfg["bad"], ev=ev)


def behaviours(chk, mode, num, seed, workers=4):
    d = chk.lab.scratch.new("s")
    cfg = d + "/S.cfg"
    with open(cfg, "w") as f:
        f.write("SPECIFICATION SimSpec\nCONSTANT Workers = {%s}\n" % ", ".join(f'"w{i}"' for i in range(workers)) +
                'CONSTANT Cmds = {"c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "b1", "b2"}\nCONSTANT Bad = {"b1", "b2"}\n' +
                f'CONSTANT Mode = "{mode}"\nCONSTANT Variant = "ok"\n')
    code, out = tlc.tlc("HaltSim.tla", cfg, d + "/m", args=("-simulate", f"num={num}", "-depth", "500", "-seed", str(seed), "-deadlock"))
    H = [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'<<"HISTORY", "(.*)">>', out)]
    if len(H) < num * 0.9:
        raise MachineryError("no behaviours: " + out[-2000:])
    return H


def run(chk):
    g = chk.g
    quick = chk.quick
    exe = os.path.join(chk.lab.scratch.new("x"), "cmd")
    r = subprocess.run(["gcc", "-O1", "-w", "-o", exe, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "c", "cmd.c")], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("cannot build the command: " + r.stderr)

    INV = ["OnlyOne", "NotStopped", "NotKilled", "Stops", "AllRun", "AllEnded", "RightStatus"]
    PROP = ["NoFurther", "Terminates", "NowEnds"]

    def mc(mode, variant="ok", expect="ok", spec="Spec", nw=2, nc=4, prop=PROP, inv=INV):
        S = lambda x, n: "{" + ", ".join(f'"{x}{i}"' for i in range(n)) + "}"
        chk.config("Halt", dict(Workers=S("w", nw), Cmds=S("c", nc), Bad='{"c0"}', Mode=f'"{mode}"', Variant=f'"{variant}"'),
                   inv=inv, prop=prop, expect=expect, spec=spec, args=("-deadlock",), heap="2g", workers=2)
    wrong = [("soon", "nocheck", "NoFurther"), ("now", "nocheck", "NoFurther"), ("soon", "ahead", "OnlyOne"), ("soon", "neverstops", "Stops"),
             ("soon", "soonkills", "NotKilled"), ("soon", "early", "AllEnded"), ("never", "alwaysstops", "NotStopped"), ("soon", "nostatus", "RightStatus")]
    todo = [lambda m=m: mc(m) for m in ("never", "soon", "now")]
    todo += [lambda: mc("now", spec="Forever", prop=["NoFurther", "NowEnds"])]
    todo += [lambda w=w: mc(*w) for w in (g.r.sample(wrong, 2) if quick else wrong)]
    todo += [lambda: mc("now", "nowwaits", "NowEnds", spec="Forever", prop=["NowEnds"], inv=[])]
    if not quick:
        todo += [lambda m=m: mc(m, nw=3, nc=5) for m in ("never", "soon", "now")] + [lambda m=m: mc(m, nw=4, nc=6, prop=["NoFurther"]) for m in ("never", "soon", "now")]
    chk.lab.runner.pmap(lambda j: j(), todo, 4)

    first = True
    while first or chk.more(9):
        t = time.monotonic()
        first = False
        per = 14 if quick else 40
        parts = chk.lab.runner.pmap(lambda m: [(m, h) for h in behaviours(chk, m, per, g.r.randrange(10 ** 9))][:per], ["never", "soon", "now", "soon", "now"][:5], 5)
        hs = [Run(chk, exe, m, h["cfg"], h["steps"], g.r.random()) for p in parts for m, h in p]
        judge(chk, hs)
        if chk.left() < (time.monotonic() - t) * 0.9:
            break


def judge(chk, hs):
    recs = chk.lab.runner.pmap(lambda h: h.go(), hs, 14)
    bad = tlc.judge(chk.lab.scratch, [], recs, shards=4, module="HaltJudge.tla", cfg="HaltJudge.cfg")
    chk.traces += len(recs)
    for h, r in zip(hs, recs):
        chk.count(json.dumps([h.text["argv"][:-3], h.cfg, h.steps], sort_keys=True) if h.interesting else None)
    if len(chk.samples) < 3:
        chk.samples.append(hs[-1].text)
    doubt = [(h, r) for h, r in zip(hs, recs) if r["id"] in bad][:12]

    def confirm(h):
        # the same again with longer pauses
        for _ in range(2):
            h2 = h.again(2.0)
            r2 = h2.go()
            b2 = tlc.judge(chk.lab.scratch, [], [r2], shards=1, module="HaltJudge.tla", cfg="HaltJudge.cfg")
            if b2:
                return h2, "; ".join(b2[r2["id"]])
    for (h, r), c in zip(doubt, chk.lab.runner.pmap(lambda x: confirm(x[0]), doubt, 6)):
        if c:
            chk.violation(c[1], dict(c[0].text, first=h.text))
        else:
            chk.notes["not confirmed"] = chk.notes.get("not confirmed", 0) + 1
