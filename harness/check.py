"""The frame of a check: budget, counting, known findings, verdict, evidence and replay files."""
import os, sys, json, time, random, traceback, threading

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from concurrent.futures import ThreadPoolExecutor
import tlc
from runner import MachineryError, uncps, cps
from scen import Lab, Scen, dec
from gen import Gen, Ctx
import searches

EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    key, _, text = line[7:].partition(" :: ")
                    prop, _, ident = key.partition(" ")
                    if prop == "property=" + pid:
                        out.append((ident, text))
    except FileNotFoundError:
        pass
    return out


class Check:
    def __init__(self, pid, tier, level="exploration"):
        self.pid = pid
        self.tier = tier
        self.quick = tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED") or 1)
        self.level = level
        self.t0 = time.monotonic()
        self.budget = float(os.environ.get("VERIF_BUDGET") or (32 if self.quick else 600))
        self.g = Gen(f"{pid}/{self.seed}")
        self._lab = None
        self.evaluations = 0
        self.keys = set()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.rule = ""
        self.notes = {}
        self.models = []
        self.law_runs = []
        self.assumptions = []
        self.lock = threading.Lock()
        self.exhaustive = []
        import glob
        for f in glob.glob(os.path.join(EVID, "replays", pid + "-*.json")):
            os.unlink(f)

    # -- resources
    @property
    def lab(self):
        if self._lab is None:
            self._lab = Lab()
        return self._lab

    def left(self):
        return self.budget - (time.monotonic() - self.t0)

    def more(self, reserve=0.0):
        """Whether there is time for another round (violations end the check early)."""
        return self.left() > reserve and len(self.violations) < 5

    # -- worlds
    def worlds(self, count, sizes=(8, 20, 40), tz=(0, 19800, -10800), g=None, prepare=None, **kw):
        g = g or self.g
        out = []
        for k in range(count):
            w = self.lab.world(tz=g.pick(tz))
            g.tree(w, g.pick(sizes), **kw)
            if prepare:
                prepare(w)
            self.lab.seal(w)
            out.append(Ctx(g, self.lab, w))
        return out

    def explore(self, scenario, worlds, n=None, reserve=9.0, **kw):
        """Rounds of random searches on fresh worlds until the budget is used up."""
        n = n or (450 if self.quick else 900)
        first = True
        while first or self.more(reserve):
            first = False
            t = time.monotonic()
            ctxs = worlds()
            scens = [x for x in (scenario(self.g.pick(ctxs)) for _ in range(n)) if x is not None]
            self.judge(scens, **kw)
            took = time.monotonic() - t
            if self.left() < took * 0.9:
                left = self.left() - 3
                if left < took * 0.3:
                    break
                n = max(60, int(n * left / took))
            self.reset()

    def family(self, name, items, make, quick, ctx=None, reserve=6.0, chunk=400, share=0.5):
        """An enumerated family of cases: a seeded sample of it (quick), or all of it as far as a share of the time goes."""
        items = list(items)
        total = len(items)
        self.g.r.shuffle(items)
        if self.quick:
            items = items[:quick]
        end = time.monotonic() + max(5.0, self.left() * share)
        done = 0
        for k in range(0, len(items), chunk):
            if done and (time.monotonic() > end or not self.more(reserve)):
                break
            part = items[k:k + chunk]
            self.judge([make(x) for x in part])
            done += len(part)
        self.exhaustive.append({"family": name, "size": total, "explored": done})
        return done

    def reset(self):
        """Forget the worlds (they are rebuilt per round)."""
        import shutil
        for w in self.lab.worlds:
            shutil.rmtree(w.root, ignore_errors=True)
        self.lab.worlds.clear()
        self.lab.snaps.clear()
        self.lab.alt = {}

    # -- judging searches
    def judge(self, scens, nontrivial=None, clauses=None, shards=8, workers=None, timeout=800, ignore=()):
        """Run the scenarios and let the specification judge the records."""
        lab = self.lab
        recs = lab.runner.pmap(lab.execute, scens, workers)
        bad = lab.judge(scens, recs, shards=shards, timeout=timeout)
        self.traces += len(recs)
        self.evaluations += len(recs)
        for s, r in zip(scens, recs):
            if (nontrivial or default_nontrivial)(s, r):
                self.keys.add(s.key())
        if len(self.samples) < 4 and recs:
            self.sample(scens[self.g.r.randrange(len(scens))])
        for s, r, c in bad:
            c = [x for x in c if (clauses is None or x in clauses) and x not in ignore]
            if not c:
                continue
            if set(c) <= {"the search does not end", "processes left behind"} and not s.kw.get("perturb"):
                # a machine that is out of breath must not look like a defect
                again = [lab.execute(s) for _ in range(2)]
                if not any(a["obs"]["to"] or a["obs"]["left"] for a in again):
                    self.notes["unconfirmed timeouts"] = self.notes.get("unconfirmed timeouts", 0) + 1
                    continue
            self.scen_violation(s, r, c)
        return recs

    def sample(self, s):
        d = s.describe()
        if getattr(s, "res", None):
            d["status"] = s.res["status"]
            d["output"] = dec(s.res["out"][:300])
        self.samples.append(clean(d))

    def scen_violation(self, s, r, clauses):
        if len(self.violations) >= 5:
            self.violations.append(None)
            return
        w = self.lab.worlds[s.w]
        try:
            exp = tlc.explain(self.lab.scratch, self.lab.snaps, r) if len(self.lab.snaps[s.w]["nodes"]) < 400 else "(large)"
        except Exception as exc:
            exp = "unavailable: %r" % exc
        self.violation("; ".join(clauses), {
            "scenario": s.describe(), "clauses": clauses, "status": s.res.get("status"), "stdout": dec(s.res["out"][:20000]),
            "stderr": dec(s.res["err"][:4000]), "commands": [[uncps(a) for a in c["a"]] for c in s.cmds][:200],
            "api": getattr(s, "result", None), "expected": exp, "tree": listing(w), "cwd": w.cwd, "tz": w.tz, "now": w.now,
            "record": r if len(json.dumps(r)) < 200000 else None})

    # -- violations
    def violation(self, what, data, ident=None):
        """Report a violation; ident: the identity used by the list of known findings."""
        for k, text in known_findings(self.pid):
            if ident is not None and k == ident:
                self.known(text)
                return
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}-{len(self.violations) + 1}.json")
        with open(path, "w") as f:
            json.dump(clean({"property": self.pid, "what": what, "seed": self.seed, **data}), f, indent=1)
        self.violations.append((what, path))
        print(f"VIOLATION property={self.pid} replay={path}  ({what})", flush=True)

    def known(self, text):
        if text not in self.notes.setdefault("known findings met", []):
            self.notes["known findings met"].append(text)
            print(f"KNOWN-FINDING: property={self.pid} {text}", flush=True)

    def expect(self, cond, what, data=None, ident=None):
        with self.lock:
            if not cond:
                self.violation(what, data or {}, ident)
        return cond

    def count(self, key, n=1):
        """One evaluated case; key identifies a distinct non-trivial one (None: trivial)."""
        with self.lock:
            self.evaluations += n
            if key is not None:
                self.keys.add(key)

    # -- models
    def model(self, module, cfg=None, expect="ok", workers=4, timeout=600, consts=None, env=None, heap="4g", args=(), prop=None, label=None):
        """Model check a specification of /verif/spec; returns TLC's output.  `expect`: "ok", or the name of a property that
        this configuration has to violate (a deliberately wrong variant that shows that the property is not vacuous)."""
        cfg = cfg or module.replace(".tla", ".cfg")
        code, out = tlc.tlc(module, cfg, os.path.join(self.lab.scratch.new("m"), "s"), env, workers=workers, timeout=timeout,
                            heap=heap, args=args)
        import re
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if not m:
            raise MachineryError(f"TLC failed on {module} {cfg}: {out[-2500:]}")
        gen, dist = int(m[1]), int(m[2])
        ok = "Model checking completed. No error has been found." in out
        if expect == "ok":
            if not ok:
                raise MachineryError(f"the specification {module} ({cfg}) does not satisfy its properties: {out[-4000:]}")
            self.states += dist
            self.transitions += gen
        else:
            if ok or not re.search(expect, out):
                raise MachineryError(f"the wrong variant {cfg} of {module} is not rejected by {expect}: {out[-2500:]}")
        self.models.append({"module": module, "config": label or cfg, "states": dist, "generated": gen,
                            "result": "holds" if expect == "ok" else "violated as intended"})
        return out

    def config(self, module, consts, inv=(), prop=(), expect="ok", spec="Spec", **kw):
        """Model check a module with these constants (a wrong variant if `expect` is not "ok")."""
        path = os.path.join(self.lab.scratch.new("cfg"), "M.cfg")
        with open(path, "w") as f:
            f.write(f"SPECIFICATION {spec}\n")
            for k, v in consts.items():
                f.write(f"CONSTANT {k} = {v}\n")
            for i in inv:
                f.write(f"INVARIANT {i}\n")
            for i in prop:
                f.write(f"PROPERTY {i}\n")
        return self.model(module + ".tla", path, expect=expect, label=", ".join(f"{k} = {v}" for k, v in consts.items()), **kw)

    def laws(self, *names):
        """Check these laws of the functional core (Laws.tla) for all arguments of their domains, next to everything else."""
        self.lab                # (made on first use)

        def go():
            self.config("Laws", {"Names": "{" + ", ".join(f'"{n}"' for n in names) + "}", "Deep": "FALSE" if self.quick else "TRUE"},
                        inv=["Lawful"], workers=1 if self.quick else 4, heap="2g", timeout=800)
        self.law_runs.append(ThreadPoolExecutor(1).submit(go))

    # -- end
    def wait(self):
        for run in self.law_runs:
            run.result()

    def finish(self):
        wall = time.monotonic() - self.t0
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.keys), "rule": self.rule or "see DESIGN.md",
               "samples": self.samples[:6] or ["none"]}
        if self.level == "model_checking" or self.models:
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        if self.models:
            cov["models"] = self.models
        if self.exhaustive:
            cov["exhaustive_parts"] = self.exhaustive
        cov.update(clean(self.notes))
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, f".{self.pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, f"{self.pid}.json"))
        print(f"{self.pid} {self.tier}: {self.evaluations} evaluations, {len(self.keys)} distinct non-trivial, "
              f"{self.states} states, {len(self.violations)} violations, {wall:.1f} s", flush=True)
        return 1 if self.violations else 0


def default_nontrivial(s, r):
    o = r["obs"]
    return bool(o.get("pieces") or o.get("json") or o.get("cnt") or o.get("cmds") or o.get("recs") or o.get("exc") or o["st"] not in (0, 1))


def clean(x):
    """Make something JSON can write as UTF-8 text."""
    if isinstance(x, bytes):
        return dec(x).encode("utf-8", "backslashreplace").decode()
    if isinstance(x, str):
        return x.encode("utf-8", "backslashreplace").decode()
    if isinstance(x, dict):
        return {clean(str(k)): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [clean(v) for v in x]
    return x


def listing(w, limit=300):
    out = []
    for d, ds, fs in os.walk(w.root):
        for n in sorted(ds + fs):
            p = os.path.join(d, n)
            if len(out) >= limit:
                return out
            try:
                st = os.lstat(p)
                x = {"path": os.path.relpath(p, w.root), "mode": oct(st.st_mode), "size": st.st_size, "mtime": int(st.st_mtime)}
                if os.path.islink(p):
                    x["link"] = os.readlink(p)
                elif n.endswith(b"ignore") and st.st_size < 2000:
                    x["text"] = open(p, "rb").read()
                v = w.values.get((st.st_dev, st.st_ino))
                if v:
                    x["values"] = v
                out.append(x)
            except OSError:
                pass
    return out


def main(argv):
    pid, tier = argv[1], argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import importlib
    mod = importlib.import_module("checks." + pid.lower())
    chk = Check(pid, tier, getattr(mod, "LEVEL", "exploration"))
    for attr in ("RULE", "ASSUMPTIONS"):
        if hasattr(mod, attr):
            setattr(chk, attr.lower(), getattr(mod, attr))
    try:
        mod.run(chk)
        chk.wait()
    except MachineryError as exc:
        print("MACHINERY ERROR:", exc, file=sys.stderr)
        if not chk.violations:
            traceback.print_exc()
            return 2
    except Exception:
        traceback.print_exc()
        if not chk.violations:
            return 2
    return chk.finish()
