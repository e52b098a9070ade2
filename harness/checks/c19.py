"""C19: literals and their printed forms."""
import os, time, itertools, fractions
import searches
from scen import Scen, dec
from gen import SIZES, BIGSIZES, XDURS, MODES

RULE = ("enumerated families of size, duration, time, mode, number, boolean, type and depth literals (well-formed and not), each compared "
        "with files whose values lie at and next to the denoted quantity, and enumerated values printed with every modifier; non-trivial: "
        "something was reported or the literal was rejected")

SIZE_NUM = ["0", "1", "2", "7", "10", "1.5", "1.25", "0.1", "0.001", "1.001", "2.0", "007", "1.", ".5", "", "1.5.5", "-1", "+1", "1e3", "1,5",
            "0.9999", "1023.5", "3.14159", "0.0005", "1_0", " 1"]
SIZE_UNIT = ["", "B", "K", "KB", "KiB", "M", "MB", "MiB", "G", "GB", "GiB", "T", "TB", "TiB", "P", "PB", "PiB", "E", "EB", "EiB", "Z", "ZB",
             "ZiB", "Y", "YB", "YiB", "Ki", "iB", "KBB", "BK", "KK", "X", "kiB", "bytes", "KIB", "k", "Kb", "mb", " K", "K "]


def size_values():
    """Values at and next to what the literals denote (only a choice of inputs: what they denote is judged by the specification)."""
    vals = set()
    for n in ("1", "1.5", "1.25", "0.1", "1.001", "2", "7", "0.9999", "1023.5", "3.14159", "0.0005"):
        f = fractions.Fraction(n)
        for base in (1000, 1024):
            for e in range(0, 9):
                v = int(f * base ** e)
                vals |= {v - 1, v, v + 1}
    return sorted(v for v in vals if v >= 0)


def values_world(chk, plugin, attr, vals, tz=0):
    w = chk.lab.world(tz=tz)
    for i, v in enumerate(vals):
        n = f"d{i % 5}/f{i}"
        w.file(n, b"")
        w.set_values(n, plugin, {attr: v})
    chk.lab.seal(w)
    return w


def near(g, x, lo, hi, spread=3):
    return [v for v in range(x - spread, x + spread + 1) if lo <= v <= hi]


def run(chk):
    chk.laws("num", "duration", "durationsum", "size", "sizeunits", "modeoctal", "modeclause", "filemode", "civil", "time", "clock", "age", "base", "strip")
    g = chk.g
    q = chk.quick
    num_ops = ["=", ">", ">=", "<", "<=", "+", "-", "+=", "-="]

    # ---- sizes
    w = values_world(chk, "vfast", "xsize", g.r.sample(size_values(), 60 if q else 150) + [0, 1, 1000, 1024, 1536, 1500, 1048576, 1000000])
    def size(x):
        n, u = x
        return Scen(w.num, ["-j1", "--no-cache"] + g.pick([], [], ["--si"]) + ["vfast.xsize" + g.pick("=", ">=", "<=", ">", "<") + n + u], tag="size literal")
    chk.family("size literals", list(itertools.product(SIZE_NUM, SIZE_UNIT)), size, 260, share=0.16)
    if not q:
        chk.family("size literals with random fractions", [(f"{g.r.randrange(0, 2000)}.{g.r.randrange(0, 10 ** g.r.randrange(1, 7))}", u)
                                                           for u in SIZE_UNIT[1:27] for _ in range(40)], size, 0, share=0.1)

    # ---- durations
    terms = ["1s", "59s", "1m", "2h", "3d", "1w", "1M", "1y", "0s", "90m", "007s"]
    dl = [""] + terms + ["".join(p) for p in itertools.permutations(terms[:8], 2)] + \
         ["".join(g.r.sample(terms, g.r.randrange(3, 7))) for _ in range(200)] + \
         ["0", "1", "60", "90", "1440", "0090", "1h2", "h", "1", "1.5h", "-1h", "1H", "1S", "1D", "1W", "1Y", "1 h", "1h 2m", "1hm", "1x",
          "1h2x", "1ms", "1hh", "1:30", "1h30", "s1", "1s2s", "2m2m", "1e2", "5min", "1hour", "1µs"]
    dv = sorted({v for b in (1, 59, 60, 61, 3600, 5400, 7200, 259200, 604800, 2592000, 31536000, 86400, 7, 90, 120, 3720, 31539600, 2595600, 608400)
                 for v in (b - 1, b, b + 1)})
    wd = values_world(chk, "vnorm", "xdur", dv + [0])
    chk.family("duration literals", dl, lambda t: Scen(wd.num, ["-j1", "--no-cache", "vnorm.xdur" + g.pick("=", "=", ">=", "<", ">") + t],
                                                       tag="duration literal"), 200, share=0.13)

    # ---- times
    def time_world():
        tz = g.pick(0, 19800, -10800, 3600, -34200)
        now = int(time.time())
        vals = set()
        lits = []
        for y, mo, d in [(1970, 1, 1), (1970, 1, 2), (1969, 12, 31), (1999, 12, 31), (2000, 2, 29), (2000, 3, 1), (2001, 2, 28), (2024, 2, 29),
                         (2024, 12, 31), (2025, 1, 1), (2100, 2, 28), (2100, 3, 1), (1904, 2, 29), (2038, 1, 19), (1950, 5, 31), (2200, 6, 30),
                         (g.r.randrange(1971, 2037), g.r.randrange(1, 13), g.r.randrange(1, 29))]:
            import calendar
            t = calendar.timegm((y, mo, d, 0, 0, 0)) - tz
            for h, mi, s in ((0, 0, 0), (23, 59, 59), (12, 30, 0), (g.r.randrange(24), g.r.randrange(60), g.r.randrange(60))):
                v = t + h * 3600 + mi * 60 + s
                if abs(v) < 2 ** 31 - 10:
                    vals |= {v - 1, v, v + 1}
                lits += [f"{y:04}-{mo:02}-{d:02}", f"{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}", f"{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{s:02}"]
        lits += ["2023-02-29", "2024-02-30", "2024-13-01", "2024-00-10", "2024-01-00", "2024-01-32", "2100-02-29", "1900-02-29", "2024-04-31",
                 "2024-01-01 24:00", "2024-01-01 10:60", "2024-01-01 10:10:60x", "2024-01-01T10:00", "24-01-01",
                 "01.02.2024", "2024/01/01", "yesterday", "now", "", "x", "12:60", "25:00", "24:00", "12:00:61",
                 "1:2:3:4", "10:", ":10", "1h2", "1x", "h", "1hh", "--5", "5-", "1e", "0x10"]
        ages = []
        day = now - now % 86400 - tz
        for _ in range(30):
            while True:
                s = g.r.randrange(86400)
                if min((s - (now + tz)) % 86400, (now + tz - s) % 86400) > 400:
                    break
            lits.append(f"{s // 3600:02}:{s % 3600 // 60:02}:{s % 60:02}")
            for k in (-1, 0, 1, 2):
                vals |= set(near(g, day + k * 86400 + s, 0, 2 ** 31 - 10, 1))
            lits.append(f"{s // 3600:02}:{s % 3600 // 60:02}")
            s -= s % 60
            for k in (-1, 0, 1, 2):
                vals |= set(near(g, day + k * 86400 + s, 0, 2 ** 31 - 10, 1))
        for t in ("1h", "90m", "1d", "1w", "1M", "1y", "1d12h", "3h", "100d", "2y6M"):
            lits.append(t)
        for k in (3600, 5400, 86400, 604800, 2592000, 31536000, 129600, 10800, 8640000):
            ages.append(now - k)
        for t in ("0", "1", "86400", "1700000000", "-1", "-86400", "1700000000.9", "0.5", "-1.5", "951782400"):
            lits.append(t)
        vals |= {0, 1, -1, -2, 86400, 86399, 1700000000, 1700000001, 1699999999, 951782400}
        vals = {v for v in vals if all(abs(v - a) > 290 for a in ages)} | {a + d for a in ages for d in (-300, 300)}
        vals = sorted(vals)
        return values_world(chk, "vslow", "xtime", g.r.sample(vals, min(len(vals), 120)), tz), lits
    for _ in range(1 if q else 4):
        wt, lits = time_world()
        chk.family("time literals", sorted(set(lits)), lambda t: Scen(wt.num, ["-j1", "--no-cache", "vslow.xtime" + g.pick("=", ">=", "<", ">", "<=") + t],
                                                                      tag="time literal", opt=g.chance(0.2)), 190, share=0.16)

    # ---- modes
    who = ["", "u", "g", "o", "a", "ug", "go", "uo", "ugo", "z", "uu", "gu"]
    what = ["", "r", "w", "x", "rw", "rwx", "s", "t", "rs", "xt", "rwxst", "q", "7", "u", "X", "rr"]
    clauses = ["".join(p) for p in itertools.product(who, "+-=", what)]
    octal = ["0", "7", "644", "0644", "755", "4755", "7777", "07777", "1777", "2000", "8", "9", "78", "0o644", "0x1", "00644", "+111", "-22", "=600", "",
             "77777", "+4000", "-0"]
    pairs = [a + "," + b for a, b in ((g.pick(clauses), g.pick(clauses)) for _ in range(300))] + \
            [",".join(g.pick(clauses) for _ in range(3)) for _ in range(100)] + \
            [g.pick(octal) + "," + g.pick(clauses) for _ in range(60)] + [",", "u=r,", ",u=r", "u=r,,g=r", "u=r g=r", "u=rwx, g=r", "u+r+w", "u=r=w", "u+rw-x"]
    good = [0, 0o644, 0o755, 0o4755, 0o2755, 0o1777, 0o7777, 0o600, 0o444, 0o111, 0o222, 0o4000, 0o2000, 0o1000, 0o6000, 0o777, 0o700, 0o070, 0o007] + \
           [1 << k for k in range(12)] + [g.r.randrange(4096) for _ in range(60)]
    # the values the clauses denote
    def sym(t):
        m = 0
        for c in t.split(","):
            i = min([c.find(o) for o in "+-=" if o in c] or [-1])
            if i < 0:
                return None
            aff = {"u": 0o4700, "g": 0o2070, "o": 0o1007, "a": 0o7777}
            a = 0
            for x in c[:i] or "a":
                a |= aff.get(x, 0)
            p = 0
            for x in c[i + 1:]:
                p |= {"r": 0o444, "w": 0o222, "x": 0o111, "s": 0o6000, "t": 0o1000}.get(x, 0)
            m = (m & ~a | a & p) if c[i] == "=" else m | a & p if c[i] == "+" else m & ~(a & p)
        return m
    good += [m for m in map(sym, g.r.sample(clauses, 100) + g.r.sample(pairs, 60)) if m is not None]
    wm = values_world(chk, "vfast", "xmode", sorted(set(good)))
    def mode(t):
        return Scen(wm.num, ["-j1", "--no-cache", "vfast.xmode" + g.pick("=", "=", ":", "~") + t], tag="mode literal", opt=g.chance(0.1))
    chk.family("mode literals", clauses + octal + pairs, mode, 330, share=0.22)

    # ---- numbers, booleans, types, depths
    wn = values_world(chk, "vfast", "xnum", [0, 1, 2, 9, 10, 11, 255, 256, 1000, 10 ** 6, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 10 ** 20])
    wb = values_world(chk, "vfast", "xbool", [True, False, True])
    wf = values_world(chk, "vfast", "xftype", ["file", "directory", "symlink", "socket", "fifo", "char", "block", "door", "port", "whiteout", "other"])
    small = [(wn, "vfast.xnum" + o + v) for o in num_ops for v in
             ("0", "1", "10", "010", "256", "2147483648", "4294967296", "9007199254740993", "100000000000000000000", "-1", "1.0", "1K", "0x10", "", "x", "1e3",
              " 10", "--1", "1 0")]
    small += [(wb, "vfast.xbool=" + v) for v in ("true", "True", "TRUE", "t", "T", "1", "yes", "YES", "y", "on", "On", "false", "f", "0", "no", "n", "off",
                                                "OFF", "N", "tru", "maybe", "2", "", "-1", "wahr", "truefalse", "01", "none")]
    small += [(wf, "vfast.xftype=" + v) for v in ("f", "file", "d", "directory", "l", "symlink", "s", "socket", "p", "pipe", "fifo", "char", "block", "door",
                                                 "port", "whiteout", "other", "F", "FILE", "Dir", "dir", "x", "", "link", "c", "b", "regular")]
    small += [(wn, "depth" + o + v) for o in num_ops for v in ("0", "1", "2", "x", "-1", "01")]
    def sm(x):
        return Scen(x[0].num, ["-j1", "--no-cache", x[1]], tag="number, boolean, type or depth literal", opt=g.chance(0.3))
    chk.family("number, boolean, type and depth literals", small, sm, 150, share=0.2)
    wx = chk.lab.world()
    for p in ("a", "d/b", "d/d/c", "d/d/d/e", "d/d/d/d/f"):
        wx.file(p, b"")
    chk.lab.seal(wx)
    parts = ["", "0", "1", "2", "3", "9", "0-", "1-", "-2", "1-2", "2-1", "-", "0-0", "01-2", " 1 ", "1 - 2", "x", "-1-", "1--2", "1-2-3", "1.5", "a-b", "2-x"]
    deps = parts + [a + "," + b for a in parts for b in parts]
    chk.family("depth ranges", deps, lambda t: Scen(wx.num, ["-j1", "--no-cache", "--depth=" + t], tag="depth ranges"), 110, share=0.25)

    # ---- printing
    pw = chk.lab.world(tz=g.pick(0, 19800, -10800))
    def around(b, k):
        return [b ** k + d for d in (-1, 0, 1)]
    ps = sorted(set(SIZES + BIGSIZES + [x for k in range(1, 8) for b in (1000, 1024) for x in around(b, k)] +
                    [x * 1024 ** k // 100 for k in range(1, 5) for x in (149, 150, 151, 155, 994, 995, 999, 1005, 1015, 102000)] +
                    [x * 1000 ** k // 100 for k in range(1, 5) for x in (149, 151, 155, 994, 996, 999, 1005, 1015, 99990)] +
                    [g.r.randrange(10 ** g.r.randrange(1, 20)) for _ in range(100)]))
    pd = sorted(set(XDURS + [x + d for x in (60, 3600, 36000, 86400, 360000) for d in (-1, 0, 1)] + [g.r.randrange(10 ** 7) for _ in range(60)]))
    pt = [0, 1, 86399, 86400, 951782400, 951868799, 951868800, 1709164800, 1709251199, 1709251200, 1735689599, 1735689600, 2147483000,
          4102444800 // 2, 1582934400, 1078012800] + [g.r.randrange(2 ** 31 - 100) for _ in range(80)]
    pm = sorted({t << 12 | m for t in (0o10, 0o04, 0o12, 0o14, 0o01, 0o02, 0o06, 0) for m in g.r.sample(range(4096), 12)} | set(MODES))
    for name, attr, vals in (("s", "xsize", ps), ("d", "xdur", pd), ("t", "xtime", pt), ("m", "xmode", pm), ("n", "xnum", ps)):
        for i, v in enumerate(vals):
            n = f"{name}/{i}"
            pw.file(n, b"")
            pw.set_values(n, "vfast", {attr: v})
    chk.lab.seal(pw)
    pr = []
    for d, attr in (("s", "xsize"), ("d", "xdur"), ("t", "xtime"), ("m", "xmode"), ("n", "xnum")):
        for m in ("", "h", "x", "o"):
            for width in ("", "12", "-12", "3", "0"):
                for mode in ("console", "jsonl", "json", "count", "exec"):
                    for si in ((False, True) if attr == "xsize" else (False,)):
                        if mode in ("json", "jsonl", "count", "exec") and width:
                            continue
                        pr.append((d, attr, m, width, mode, si))
    def printing(x):
        d, attr, m, width, mode, si = x
        f = "vfast." + attr + (":" + width + m if width + m else "")
        argv = ["-D", d, "-j", g.pick("1", "2"), "--no-cache"] + (["--si"] if si else [])
        if mode == "exec":
            argv += ["-l", f"{g.r.randrange(100)}:+{0}".replace("+0", str(g.r.randrange(100, 140)))] + ["-S", "name"]
            return Scen(pw.num, argv + ["-x", chk.lab.rec, "{" + f + "}"], mode="exec", tag="printed value")
        if mode == "count":
            return Scen(pw.num, argv + ["--count", f], mode="count", tag="printed value")
        return Scen(pw.num, argv + ["-o", "name," + f] + ([] if mode == "console" else ["--" + mode]), mode=mode, tag="printed value")
    chk.family("printed values", pr, printing, 60, share=0.6)

    # ---- documented literals that the program is known not to support
    kw = chk.lab.world(tz=0)
    kw.file("a", b"")
    kw.file("b", b"")
    kw.set_values("a", "vfast", {"xtime": 1705276800, "xsize": 1000})       # 2024-01-15 00:00
    kw.set_values("b", "vfast", {"xtime": 20240115, "xsize": 1024})
    chk.lab.seal(kw)
    env = {"VERIF_PLUGDATA": kw.plugdata, "TZ": "UTC"}
    r = chk.lab.runner.cli(["--no-cache", "vfast.xtime=20240115"], kw.cwd, env=env)
    chk.count("compact date")
    if r["out"] != b"a\n":
        # only exactly the listed behaviour (taken as epoch seconds) is the known finding
        chk.violation("a date in the form YYYYMMDD is not taken as a date", {"stdout": r["out"], "status": r["status"]},
                      "compact-times" if r["out"] == b"b\n" and r["status"] == 0 else None)
    r = chk.lab.runner.cli(["--no-cache", "--si", "vfast.xsize=1K"], kw.cwd, env=env)
    chk.count("si size literal")
    if r["out"] != b"a\n":
        chk.violation("--si is not applied to size literals", {"stdout": r["out"], "status": r["status"]},
                      "si-literals" if r["out"] == b"b\n" and r["status"] == 0 else None)

    # ---- random searches over real and plugin attributes
    def worlds():
        return chk.worlds(5, sizes=(15, 30), values=0.9, odd=0.1)

    def one(ctx):
        E = dict(expr=0.8, nexpr=[1, 1, 2], bad=0.0, kinds=["num", "num", "mode", "bool", "type", "plug", "plug"], output=0.6, all=0.4, sort=0.05,
                 limit=0, dirs=0.05, depth=0.15, si=0.3, mods="hxo", mode={"console": 6, "jsonl": 2, "count": 2})
        return searches.search(g, ctx, E)
    if chk.more(9):
        chk.reset()
        chk.explore(one, worlds, n=300 if q else 900)
