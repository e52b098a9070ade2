"""Random searches (command lines and API calls) with an emphasis."""
import os
from scen import Scen
from gen import Gen

# probabilities of the features of a command line; an emphasis overrides some of them
BASE = dict(expr=0.7, exclude=0.15, hide=0.1, ignore=0.06, depth=0.12, case=0.15, follow=0.08, abs=0.1, sort=0.2, reverse=0.3, limit=0.12,
            print0=0.12, sep=0.1, all=0.15, output=0.4, mode={"console": 10, "json": 2, "jsonl": 2, "count": 1, "countjson": 1},
            bad=0.0, dirs=0.25, kinds=None, refs=0.0, opt=0.25, api=0.0, fail=0.05, si=0.05, onefs=0.03, ffopts=0.0, jobs=[1, 1, 2, 2, 3, 4, 6],
            mods="hxonv", sortmods=("", "", ":v"), plugfield=0.3, nexpr=None, exec_words=None, halt=0.0, sortattrs=None, outattrs=None,
            weirdopts=0.0, noparent=0.2, color=0.0)


def weighted(r, d):
    t = r.random() * sum(d.values())
    for k, v in d.items():
        t -= v
        if t < 0:
            return k
    return k


def directories(g, ctx, p):
    """Start directories: (argv words in front, words behind, -D options, list)"""
    root = ctx.w.cwd
    if not g.chance(p):
        return [], [], [], ["."]
    cand = [d for d in ctx.dirs]
    x = g.r.random()
    chosen = []
    n = g.pick(1, 1, 1, 2, 3)
    g.r.shuffle(cand)
    for d in cand:
        if all(not (d == c or d.startswith(c + "/") or c.startswith(d + "/")) for c in chosen):
            chosen.append(d)
        if len(chosen) == n:
            break
    if not chosen:
        return [], [], [], ["."]
    out = []
    for d in chosen:
        y = g.r.random()
        if y < 0.5:
            out.append("./" + d)
        elif y < 0.75:
            out.append(root + "/" + d)
        elif y < 0.85 and not d.startswith("-"):
            out.append(d + "/")
        elif y < 0.9 and not os.path.islink(os.path.join(root, d)):
            out.append("./" + d + "/../" + d.rsplit("/", 1)[-1] + "/")
        else:
            out.append(".//" + d + "/.")
    if x < 0.35:
        return [], [], [w.rstrip("/") or "/" if False else strip(w) for w in out], out
    if x < 0.65:
        return out, [], [], out
    if x < 0.9:
        return [], out, [], out
    return out[:1], out[1:], [], out


def strip(w):
    while w.endswith("/"):
        w = w[:-1]
    return w


def search(g, ctx, emphasis=None, **over):
    """A random command line as a Scen."""
    E = dict(BASE)
    E.update(emphasis or {})
    E.update(over)
    r = g.r
    opts = []          # list of option groups (each a list of words)
    mode = weighted(r, E["mode"])
    pre, post, dopt, _ = directories(g, ctx, E["dirs"])
    tests = g.expr(ctx, E["nexpr"] and g.pick(E["nexpr"]), E["kinds"], E["bad"], E["refs"]) if g.chance(E["expr"]) else []
    if dopt:
        pre = post = []
    if not tests:
        pre, post = pre + post, []
    for d in dopt:
        opts.append(g.pick(["-D", d], ["--directory", d], ["--directory=" + d]))
    for _ in range(3):
        if g.chance(E["exclude"]):
            t = g.test(ctx, E["kinds"], E["bad"])
            opts.append(g.pick(["-e", t], ["--exclude", t], ["-e" + t] if t else ["-e", t]))
    for key, words in (("hide", [["-H"], ["--hide"]]), ("ignore", [["-I"], ["--ignore"]]), ("follow", [["-L"], ["--follow"]]),
                       ("abs", [["-a"], ["--absolute-path"]]), ("all", [["--all"]]), ("fail", [["--fail"]]),
                       ("onefs", [["--one-file-system"], ["--mount"], ["--xdev"]]), ("si", [["--si"]])):
        if g.chance(E[key]):
            opts.append(g.pick(words))
            if key == "ignore" and g.chance(E["noparent"]):
                opts.append(["--no-parent-ignore"])
    if g.chance(E["depth"]):
        a, b = sorted((r.randrange(0, 4), r.randrange(0, 6)))
        t = g.pick(f"{a}", f"{a}-{b}", f"-{b}", f"{a}-", f"{a},{b}", f"{a}-{b},{b + 1}", f"0,{a}-", f"{b}-{a}", "-", f" {a} , {b}- ", f"{b},{a}", f"{a + 1}-{b + 1},0-{a}")
        opts.append(g.pick(["-d", t], ["--depth", t], ["-d" + t], ["--depth=" + t]))
    if g.chance(E["case"]):
        c = g.pick("smart", "ignore", "sensitive")
        opts.append(g.pick(["-c", c], ["--case", c], ["--case=" + c], ["-c" + c]))
    nl = b"\n"
    total = False
    color = E["color"] and g.chance(E["color"])
    if mode in ("console", "json", "jsonl"):
        if mode == "console" and g.chance(E["print0"]):
            opts.append(g.pick(["-0"], ["--print0"]))
            nl = b"\0"
        if g.chance(E["output"]):
            # (only these have colours)
            col = lambda: g.pick("path", "name", "dir", "file.path", "type") + g.pick("", ":h", ":30", ":-25", ":12", ":-8h", ":40n")
            fs = [col() if color and mode == "console" and g.chance(0.7) else
                  g.field(E["outattrs"], E["mods"] if mode == "console" else E["mods"].replace("v", ""), E["plugfield"], E["bad"])
                  for _ in range(g.pick(1, 1, 2, 3, 4))]
            opts.append(g.pick(["-o", ",".join(fs)], ["--output", ",".join(fs)], ["--output=" + ",".join(fs)], ["-o", " , ".join(fs)]))
        elif mode == "console" and g.chance(0.04):
            opts.append(["-v"])
        if mode == "console" and g.chance(E["sep"]):
            opts.append(["--sep", g.pick(",", "\\t", "--", "\\n", ":", "", "x y", "\t")])
        if mode != "console":
            opts.append(g.pick(["--jsonl"], ["--ndjson"]) if mode == "jsonl" else ["--json"])
    if mode in ("count", "countjson"):
        fs = []
        for _ in range(g.pick(0, 1, 1, 2, 3)):
            f = g.field(E["outattrs"], "hxo", 0.5, E["bad"])
            if f.split(":")[0] not in [x.split(":")[0] for x in fs] and ("xlist" not in f and "ulist" not in f or E["bad"]) and \
                    f.split(":")[0].replace("file.", "") not in [x.split(":")[0].replace("file.", "") for x in fs]:
                fs.append(f)
        opts.append(["--count"] + ([",".join(fs)] if fs else []))
        if mode == "countjson":
            opts.append(["--json"])
    env = {}
    if color:
        opts.append(g.pick(["-C", "always"], ["--color=always"], ["--color", "always"]))
        rules = g.r.sample(["di=01;34", "ln=01;36", "or=40;31;01", "ex=01;32", "rs=0", "*.txt=00;31", "*.tar=7", "*.c=4", "*.py=1", "fi=00", "di=", "nonsense", ""],
                           g.pick(0, 3, 6, 9, 12))
        env["LS_COLORS"] = ":".join(rules)
    sorting = False
    if g.chance(E["sort"]) and mode not in ("count", "countjson"):
        sorting = True
        x = r.random()
        if x < 0.35:
            opts.append(g.pick(["-S"], ["--sort"]))
        else:
            fs = []
            for _ in range(g.pick(1, 1, 2, 3)):
                f = g.field(E["sortattrs"], "", E["plugfield"] + 0.1, E["bad"])
                fs.append(f + g.pick(E["sortmods"]))
            if g.chance(0.5):
                fs.append("path")
            opts.append(g.pick(["-S", ",".join(fs)], ["--sort", ",".join(fs)], ["--sort=" + ",".join(fs)]))
    if g.chance(E["reverse"]):
        opts.append(g.pick(["-R"], ["--reverse"]))
    if g.chance(E["limit"]) and mode not in ("count", "countjson"):
        a, b = r.randrange(-4, 12), r.randrange(-4, 25)
        t = g.pick(f"{a}:{b}", f":{b}", f"{a}:", ":", f"{abs(a) + 1},{r.randrange(0, 4)}", f"{abs(a)}:{abs(a) + 5}", "0:1")
        opts.append(g.pick(["-l", t], ["--limit", t], ["--limit=" + t], ["-l" + t], ["-1"]))
    if E["jobs"]:
        opts.append(g.pick(["-j", str(g.pick(E["jobs"]))], [f"-j{g.pick(E['jobs'])}"], [f"--jobs={g.pick(E['jobs'])}"]))
    if g.chance(0.5):
        opts.append(["--no-cache"])
    tail = []
    if mode in ("exec", "batch"):
        if mode == "exec" and g.chance(E["halt"]):
            opts.append(["--halt", g.pick("never", "soon", "now")])
        tail = [g.pick("-x", "--exec") if mode == "exec" else g.pick("-X", "--exec-batch")] + E["exec_words"](g, ctx)
    r.shuffle(opts)
    # put an option with an optional argument never directly in front of tests
    argv = list(pre)
    words = pre + tests + post
    ff = []
    if E["ffopts"] and g.chance(E["ffopts"]):
        k = r.randrange(len(opts) + 1)
        ff = [w for o in opts[:k] for w in o]
        opts = opts[k:]
    flat = [w for o in opts for w in o]
    lastopt = opts[-1][0] if opts else (ff[-1] if ff else "")
    if words and g.chance(0.5):
        # options behind (or in front of) the tests
        argv = words + flat
        if ff and ff[-1] in ("-S", "--sort", "--count"):
            ff = ff + ["-H"] if False else ff
            argv = flat + words if flat and not flat[-1] in ("-S", "--sort", "--count") else words + flat
    else:
        if flat and flat[-1] in ("-S", "--sort", "--count") and words:
            argv = words + flat
        else:
            argv = flat + words
    return Scen(ctx.w.num, argv + tail, mode=mode, nl=nl, ffopts=ff, opt=g.chance(E["opt"]), tag="random", env=env)


def api(g, ctx, emphasis=None, **over):
    E = dict(BASE)
    E.update(emphasis or {})
    E.update(over)
    q = {}
    if g.chance(E["expr"]):
        q["tests"] = g.expr(ctx, E["nexpr"] and g.pick(E["nexpr"]), E["kinds"], E["bad"], E["refs"])
    if g.chance(E["dirs"]):
        _, _, _, d = directories(g, ctx, 1)
        q["dirs"] = [strip(x) for x in d]
    else:
        q["dirs"] = ["."]
    if g.chance(E["exclude"]):
        q["exclude"] = [g.test(ctx, E["kinds"], E["bad"])]
    for k in ("hide", "ignore", "follow", "abs", "onefs", "si", "reverse"):
        if g.chance(E[k]):
            q[k] = True
    if g.chance(E["case"]):
        q["case"] = g.pick("smart", "ignore", "sensitive")
    if g.chance(0.7):
        q["output"] = [g.field(E["outattrs"], "n", 0.4, E["bad"]) for _ in range(g.pick(1, 2, 3))]
    else:
        q["output"] = ["file"]
    if g.chance(E["sort"]):
        q["sort"] = [g.field(E["sortattrs"], "", 0.4, E["bad"]) for _ in range(g.pick(1, 2))] + (["path"] if g.chance(0.6) else [])
    q["jobs"] = g.pick(E["jobs"])
    return Scen(ctx.w.num, [], kind="api", mode="api", q=q, opt=g.chance(E["opt"]), tag="random api")


def exec_template(g, ctx, batch=False, bad=0.0, extra=()):
    """The words of a command for -x or -X."""
    r = g.r
    words = [ctx.lab.rec]
    n = g.pick(0, 1, 1, 2, 3)
    placed = False
    for k in range(n):
        x = r.random()
        if x < 0.25:
            words.append(g.pick("lit", "", "a b", "-n", "{{}}", "}}", "{{x}}", "--sort", "-x", "$HOME", "'q'", "\\", "*", "a\nb", "ü", "%s", "{{", "ok"))
        elif x < 0.55:
            if batch and placed:
                continue
            words.append(g.pick("{}", "{}", "{/}", "{//}", "{.}", "{/.}", "{..}"))
            placed = True
        else:
            if batch and placed:
                continue
            f = g.field(None, "hxon", 0.35, bad)
            words.append(g.pick("", "", "pre-", "{{", "x=") + "{" + f + "}" + g.pick("", "", "-post", "}}", ".bak")
                         if not batch or True else "{" + f + "}")
            if not batch and g.chance(0.2):
                words[-1] += "{" + g.field(None, "hxon", 0.35, bad) + "}"
            placed = True
    words += list(extra)
    return words


def exec_words(g, ctx):
    return exec_template(g, ctx, False)


def batch_words(g, ctx):
    return exec_template(g, ctx, True)


EXEC = dict(mode={"exec": 1}, exec_words=exec_words, output=0, limit=0.15, sort=0.25)
BATCH = dict(mode={"batch": 1}, exec_words=batch_words, output=0, limit=0.15, sort=0.3)
