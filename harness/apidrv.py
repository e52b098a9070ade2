"""Runs searches with the Python API inside of the forked process.  req["steps"] is a list of
   {"op": "find", "q": keyword arguments, "stop": n, "nest": [at, step]}  and
   {"op": "write"/"rm"/"mkdir", ...}; the results go to req["result"] as JSON."""
import os, json, time, shutil


def cps(s):
    return [ord(c) for c in s]


def digits(n):
    d = [int(c) for c in str(abs(n))] if n else []
    return [-1] + d if n < 0 else d


def val(v):
    if v is None:
        return {"k": "null", "v": []}
    if isinstance(v, bool):
        return {"k": "bool", "v": v}
    if isinstance(v, int):
        return {"k": "num", "v": digits(v)}
    if isinstance(v, str):
        return {"k": "str", "v": cps(v)}
    if isinstance(v, (list, tuple)):
        return {"k": "list", "v": [cps(x) for x in v]}
    return {"k": "other", "v": cps(repr(v))}


def find(step):
    from libff.find import Find
    res = {"exc": "", "recs": [], "attr": True, "early": 0, "sub": []}
    try:
        q = dict(step["q"])
        keep = {k: list(v) for k, v in q.items() if isinstance(v, list)}
        search = Find(**q)
        if step.get("mutate"):
            # the caller goes on using its own lists
            for k, v in q.items():
                if isinstance(v, list):
                    v[:] = ["no such thing"]
        n = 0
        for rec in search:
            r = []
            for k in rec:
                v = rec[k]
                if "." not in k and k.isidentifier():
                    if getattr(rec, k) != v or type(getattr(rec, k)) is not type(v):
                        res["attr"] = False
                r.append([cps(k), val(v)])
            res["recs"].append(r)
            n += 1
            for nest in step.get("nest") or []:
                if nest[0] == n:
                    res["sub"].append(run(nest[1]))
            if step.get("stop") == n:
                break
        if not step.get("mutate"):
            for k, v in keep.items():
                if q[k] != v:
                    res["exc"] = "argument %s was modified" % k
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt,)):
            raise
        res["exc"] = f"{type(exc).__name__}: {exc}" or "error"
    return res


def run(step):
    op = step["op"]
    if op == "find":
        return find(step)
    if op == "sync":
        # the harness changes the tree
        with open(step["ready"], "w") as f:
            f.write("x")
        with open(step["go"]) as f:
            f.read()
        return {}
    if op == "serve":
        return serve(step["dir"])
    p = step["path"]
    if op == "write":
        with open(p, "w") as f:
            f.write(step["data"])
        if step.get("mtime"):
            os.utime(p, (1900000000, step["mtime"]))
    elif op == "rm":
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
    elif op == "mkdir":
        os.mkdir(p)
    elif op == "chdir":
        os.chdir(p)
    return {}


def serve(d):
    """Run the searches that the harness asks for one after another (files req0, req1… in d)."""
    k = 0
    end = time.monotonic() + 300
    while time.monotonic() < end:
        try:
            with open(f"{d}/req{k}") as f:
                r = json.load(f)
        except FileNotFoundError:
            time.sleep(0.003)
            continue
        if "cwd" not in r:
            break
        os.chdir(r["cwd"])
        os.environ.update(r["env"])
        out = find(r)
        with open(f"{d}/tmp", "w") as f:
            json.dump([out], f)
        os.rename(f"{d}/tmp", f"{d}/res{k}")
        k += 1
    return {}


def main(req):
    out = [run(s) for s in req["steps"]]
    with open(req["result"], "w") as f:
        json.dump(out, f)
