"""Running TLC: model checking of specifications, and judging of records by Judge.tla."""
import os, re, json, subprocess, concurrent.futures, shutil, time
from runner import MachineryError

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def tlc(module, cfg, metadir, env=None, workers=1, timeout=600, heap="2g", args=(), xss="64m"):
    e = dict(os.environ)
    e.update(env or {})
    os.makedirs(metadir, exist_ok=True)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=1" if workers == 1 else "-XX:TieredStopAtLevel=4", f"-Xmx{heap}", f"-Xss{xss}",
           "-Djava.io.tmpdir=" + metadir, "-cp", CP, "tlc2.TLC", "-metadir", metadir, "-workers", str(workers), "-deadlock", "-nowarning", "-noGenerateSpecTE",
           "-config", cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as exc:
        raise MachineryError(f"TLC ran out of time on {module}") from exc
    finally:
        shutil.rmtree(metadir, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


BAD = re.compile(r'^"BAD (\d+) \{(.*?)\}"$', re.M)


def judge(scratch, worlds, recs, shards=8, module="Judge.tla", cfg="Judge.cfg", timeout=800):
    """Returns {record id: [violated clauses]} for the records that do not conform."""
    if not recs:
        return {}
    for n, r in enumerate(recs):
        r["id"] = n + 1
    d = scratch.new("j")
    wpath = os.path.join(d, "worlds.ndjson")
    order = sorted(recs, key=lambda r: -weight(r, worlds)) if worlds else recs
    parts = [order[k::shards] for k in range(shards)]
    parts = [p for p in parts if p]

    def one(k):
        p = parts[k]
        # each process reads only the worlds it needs
        used = sorted({r[x] for r in p for x in ("w", "hi") if x in r})
        num = {w: i + 1 for i, w in enumerate(used)}
        wp = os.path.join(d, f"w{k}.ndjson"); rp = os.path.join(d, f"r{k}.ndjson")
        with open(wp, "w") as f:
            for w in used:
                f.write(json.dumps(worlds[w]) + "\n")
        with open(rp, "w") as f:
            for r in p:
                f.write(json.dumps(dict(r, **{x: num[r[x]] for x in ("w", "hi") if x in r})) + "\n")
        code, out = tlc(module, cfg, os.path.join(d, f"m{k}"), {"RECS": rp, "WORLDS": wp}, timeout=timeout, heap="3g")
        if "Model checking completed. No error has been found." not in out:
            with open("/tmp/judge_error.txt", "w") as f:
                f.write(out)
            raise MachineryError("judging failed: " + out[-3000:])
        m = re.search(r"(\d+) distinct states found", out)
        if not m or int(m.group(1)) != len(p):
            raise MachineryError("judging is incomplete: " + out[-1500:])
        return {int(a): sorted(re.findall(r'"(.*?)"', b.replace('\\"', '"'))) for a, b in BAD.findall(out)}

    bad = {}
    with concurrent.futures.ThreadPoolExecutor(len(parts)) as ex:
        for r in ex.map(one, range(len(parts))):
            bad.update(r)
    shutil.rmtree(d, ignore_errors=True)
    return bad


def weight(r, worlds):
    return len(worlds[r["w"]]["nodes"])


def explain(scratch, worlds, rec):
    """What the specification expects for one record (for debugging and replay files)."""
    from runner import uncps
    d = scratch.new("e")
    with open(os.path.join(d, "w"), "w") as f:
        for x in ("w", "hi"):
            if x in rec:
                f.write(json.dumps(worlds[rec[x]]) + "\n")
    with open(os.path.join(d, "r"), "w") as f:
        f.write(json.dumps(dict(rec, w=1, id=1, **({"hi": 2} if "hi" in rec else {}))) + "\n")
    code, out = tlc("Judge.tla", "Judge.cfg", os.path.join(d, "m"), {"RECS": d + "/r", "WORLDS": d + "/w", "EXPLAIN": "1"}, heap="3g")
    shutil.rmtree(d, ignore_errors=True)
    res = []
    for line in re.findall(r'^.*EXPLAIN.*$', out, re.M):
        m = re.match(r'"EXPLAIN (\d+) (.*)"$', line)
        if m:
            items = json.loads(m[2].replace('\\"', '"').replace('\\\\', '\\'))
            res.append([int(m[1]), [[uncps(p), [uncps(x) for x in r]] for p, r in items]])
        else:
            res.append(line)
    return res or 'no results' if 'No error has been found' in out else out[-1500:]
