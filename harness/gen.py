"""Random worlds, tests and command lines.  Everything is drawn from one seeded generator."""
import os, re, random, stat, time
from runner import cps, uncps
from world import digits

PLAIN = ["a", "b", "foo", "bar.txt", "README.md", "main.py", "a1", "a10", "a2", "a02", "f.tar.gz", "x.TXT", "B", "Foo", "lib", "src",
         "ab", "abc", "test_a.py", "v1.2.10", "v1.2.9", "1", "10", "9", "007.txt", "file10.c", "file9.c", "file9.h"]
ODD = ["a b", " lead", "trail ", "tab\tx", "new\nline", "\u00fcn\u00ef", "\u00c4rger", "\u0436\u0443\u043a", "\u0416\u0423\u041a", "\u65e5\u672c",
       "\u00b2x", "[x]", "a*b", "a?b", "{}", "{x", "}}", "%s", "-x", "--help", "~", "#c", "!neg", "'q'", '"dq"', "$HOME", "`id`",
       "a\\b", "^a", "a+b", "(p)", "a|b", "a,b", "k=v", "a:b", "..a", "...", "a.", "a..b", "[!a]", "[a-c]", "**", "\\#c", "x\x01y",
       "\udcff\udc80", "x\udce4", "a;b", "&", "<r>", "or", "AND", "not", "(", ")", "{{", "name=a", "\r", "\x7f", "\u00e9\u0301", "e\u0301"]
HIDDEN = [".hid", ".hid.txt", ".git", ".a", "..b", ".config"]
SIZES = [0, 1, 2, 511, 999, 1000, 1001, 1023, 1024, 1025, 1536, 2047, 5001, 10239, 10241, 99999, 1048575, 1048576, 1048577, 1572864, 10485761]
BIGSIZES = [123456789, 1073741824, 1073741823, 5000000001, 1099511627776, 3141592653589]
MODES = [0o644, 0o600, 0o755, 0o4755, 0o2755, 0o1777, 0o000, 0o444, 0o111, 0o6711, 0o7777, 0o640, 0o700, 0o777, 0o4644, 0o2644, 0o1644]
XNUMS = [0, 1, 2, 7, 9, 10, 11, 99, 100, 255, 256, 1000, 65535, 2147483648, 99999999999]
XDURS = [0, 1, 59, 60, 61, 3599, 3600, 3601, 7322, 86400, 90061, 604800, 2592000, 31536000]
FTYPES = ["file", "directory", "symlink", "socket", "fifo", "char", "block", "door", "other"]
STRS = ["", "Hello", "hello", "HELLO world", "x", "a/b", "a/b/c", "/abs/p", "dir/", "dir", "..", "Gr\u00fc\u00dfe", "\u00c4\u00d6", "10", "9a", "9b",
        "010", "a,b", "two\nlines", "[x]", "a*b", "foo.tar.gz", ".x", "é", "x=y"]
STRS = [s for s in STRS if "\u00df" not in s or True]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def pick(self, *l):
        return self.r.choice(l if len(l) > 1 else l[0])

    def chance(self, p):
        return self.r.random() < p

    # ---- worlds
    def name(self, odd=0.35, hidden=0.12):
        x = self.r.random()
        if x < hidden:
            return self.pick(HIDDEN)
        if x < hidden + odd:
            n = self.pick(ODD)
            return n if n not in (".", "..") else "a"
        n = self.pick(PLAIN)
        if self.chance(0.2):
            n += str(self.r.randrange(20))
        return n

    def tree(self, w, n=25, odd=0.35, hidden=0.12, links=0.1, special=0.04, depth=6, values=0.5, big=False, follow_ok=True):
        """n entries below the root of world w (already existing)."""
        dirs = [b""]
        made = []
        r = self.r
        now = int(time.time())
        tries = 0
        while len(made) < n and tries < n * 20:
            tries += 1
            d = r.choice(dirs)
            name = os.fsencode(self.name(odd, hidden))
            rel = os.path.join(d, name) if d else name
            if os.path.lexists(w.p(rel)):
                continue
            x = r.random()
            if x < 0.3 and rel.count(b"/") < depth:
                os.mkdir(w.p(rel))
                dirs.append(rel)
            elif x < 0.3 + links and (made or True):
                target = self.link_target(w, rel, made, dirs)
                os.symlink(target, w.p(rel))
            elif x < 0.3 + links + special:
                (w.fifo if self.chance(0.5) else w.sock)(rel)
                if not os.path.lexists(w.p(rel)):
                    continue
            else:
                size = r.choice(SIZES + (BIGSIZES if big else []))
                if self.chance(0.3):
                    w.file(rel, r.choice([b"", b"x", b"hello\n", b"line1\nline2", b"#!/bin/sh\necho\n", b"\x00\xff\n", b"foo bar\n" * 3]))
                else:
                    w.file(rel, b"", size)
            made.append(rel)
        self.metadata(w, made, now)
        if values:
            self.plugin_values(w, made, values)
        return made

    def link_target(self, w, rel, made, dirs):
        d = os.path.dirname(rel)
        x = self.r.random()
        if x < 0.2 or not made:
            return b"nowhere/to/go" if self.chance(0.5) else b"missing"
        # no directories above the link: following must not loop
        ok = [m for m in made if not (rel + b"/").startswith(m + b"/") and not (os.path.isdir(w.p(m)))]
        if self.chance(0.25):
            ok2 = [m for m in made if os.path.isdir(w.p(m)) and not os.path.islink(w.p(m)) and not (rel + b"/").startswith(m + b"/")
                   and not any(os.path.islink(os.path.join(a, f)) for a, _, fs in os.walk(w.p(m)) for f in fs + _)
                   and not getattr(w, "linked", set()) & {m}]
            if ok2 and not getattr(w, "nodirlinks", False):
                m = self.r.choice(ok2)
                # one link to a directory, and nothing is put into it later
                w.linked = getattr(w, "linked", set()) | {m}
                if m in dirs:
                    dirs.remove(m)
                for q in list(dirs):
                    if q.startswith(m + b"/"):
                        dirs.remove(q)
                return os.path.relpath(m, d or b".") if self.chance(0.7) else w.p(m)
        if not ok:
            return b"missing"
        m = self.r.choice(ok)
        return os.path.relpath(m, d or b".") if self.chance(0.7) else w.p(m)

    def metadata(self, w, made, now):
        r = self.r
        for rel in reversed(made):
            p = w.p(rel)
            if os.path.islink(p):
                os.utime(p, (1900000000, now - r.randrange(1, 100) * 3600 + 1800), follow_symlinks=False)
                continue
            st = os.lstat(p)
            if self.chance(0.5):
                md = r.choice(MODES)
                os.chmod(p, md)
            if self.chance(0.3):
                os.chown(p, r.choice([0, 1, 1000, 54321]), r.choice([0, 1, 5, 54321]))
                if self.chance(0.5):
                    os.chmod(p, r.choice(MODES))
            t = r.choice([now - r.randrange(1, 60) * 3600 + 1800, now - r.randrange(1, 40) * 86400 + 45000,
                          r.randrange(0, 1700000000), 0, 1, 86399, 86400, 951782400, 1709164800, 1700000000 + r.randrange(1000)])
            os.utime(p, (1900000000, t))
        os.utime(w.root, (1900000000, now - 7200))

    def plugin_values(self, w, made, density):
        r = self.r
        for rel in made:
            for plugin in ("vfast", "vnorm", "vslow"):
                if self.chance(density):
                    w.set_values(rel, plugin, self.values(plugin))

    def values(self, plugin):
        r = self.r
        v = {}
        for k, f in (("xstr", lambda: r.choice(STRS)), ("xpath", lambda: r.choice(STRS)), ("xnum", lambda: r.choice(XNUMS)),
                     ("xsize", lambda: r.choice(SIZES + BIGSIZES)), ("xdur", lambda: r.choice(XDURS)),
                     ("xtime", lambda: r.choice([0, 1, 1700000000, 86400, 951782400, 2000000000])), ("xmode", lambda: r.choice(MODES)),
                     ("xbool", lambda: self.chance(0.5)), ("xftype", lambda: r.choice(FTYPES)),
                     ("xlist", lambda: [r.choice(STRS) for _ in range(r.randrange(0, 4))])):
            if self.chance(0.7):
                v[k] = f()
        if self.chance(0.5):
            v[{"vfast": "uniq", "vnorm": "unum", "vslow": "ulist"}[plugin]] = \
                {"vfast": lambda: r.choice(STRS), "vnorm": lambda: r.choice(XNUMS), "vslow": lambda: [r.choice(STRS) for _ in range(2)]}[plugin]()
        return v

    # ---- ignore files
    def ignore_rule(self, below):
        r = self.r
        x = r.random()
        if x < 0.1:
            return self.pick("", "# comment", "#", "   ", "  # indented", "\\#c", "\\!neg", "!", "/", "[z-a]", "**", "*", "!*", "!*/", "*/", "/*", "!/*", "!.*")
        rel = self.pick(below) if below else "x"
        parts = rel.split("/")
        name = parts[-1]
        x = r.random()
        if x < 0.3:
            t = name
        elif x < 0.45:
            t = self.glob(name, False)
        elif x < 0.6:
            t = "/" + rel if self.chance(0.5) else rel
        elif x < 0.75:
            t = self.glob(rel, True)
        elif x < 0.82:
            t = "**/" + self.pick(parts)
        elif x < 0.88:
            t = parts[0] + "/**"
        elif x < 0.93 and len(parts) > 2:
            t = parts[0] + "/**/" + name
        else:
            t = self.pick("*", "?*", "*.*", "[a-f]*", "[!a-f]*", "*" + os.path.splitext(name)[1])
        if t.startswith("#"):
            t = "\\" + t
        elif t.startswith("!"):
            t = "\\" + t
        if self.chance(0.12):
            t += "/"
        if self.chance(0.3):
            t = "!" + t
        if self.chance(0.1):
            t += self.pick(" ", "\t", "  ")
        return t.replace("\n", "?").replace("\r", "?")

    def ignore_files(self, w, count=4, names=(".gitignore", ".ignore", ".fdignore", ".ffignore")):
        """Put ignore files (at most one per directory) into some directories."""
        # which of several files in a directory comes first is not specified
        have = {d for d, ds, fs in os.walk(w.root) if {b".gitignore", b".ignore", b".fdignore", b".ffignore"} & set(ds + fs)}
        dirs = [d for d, ds, fs in os.walk(w.root) if d not in have]
        self.r.shuffle(dirs)
        if w.root not in have and w.root not in dirs[:count] and self.chance(0.8):
            dirs.insert(0, w.root)
        for d in dirs[:count]:
            below = [os.path.relpath(os.path.join(a, f), d).decode("utf-8", "surrogateescape")
                     for a, ds, fs in os.walk(d) for f in ds + fs]
            below = [b for b in below if "\n" not in b]
            lines = [self.ignore_rule(below) for _ in range(self.pick(1, 2, 3, 4, 6, 8))]
            data = os.fsencode("\n".join(lines)) + (b"" if self.chance(0.3) else b"\n")
            if self.chance(0.1):
                data = data.replace(b"\n", b"\r\n")
            rel = os.path.relpath(os.path.join(d, self.pick(names).encode()), w.root)
            if not os.path.lexists(w.p(rel)):
                w.file(rel, data)
                os.utime(w.p(rel), (1900000000, self.r.randrange(0, 1700000000)))

    # ---- values that occur in a world
    def pool(self, snap, under):
        """Collect attribute values of the entries below the node path `under` (text)."""
        P = {}

        def put(a, v):
            P.setdefault(a, []).append(v)
        nodes = snap["nodes"]
        base = None

        def path(i):
            n = nodes[i]
            if n["u"] == 0:
                return ""
            return path(n["u"] - 1) + "/" + uncps(n["n"])
        for i, n in enumerate(nodes):
            p = path(i)
            if not p.startswith(under + "/"):
                continue
            rel = p[len(under) + 1:]
            name = uncps(n["n"])
            put("rel", rel); put("name", name); put("abs", p)
            put("dir", os.path.dirname(rel))
            x = os.path.splitext(name)
            put("ext", x[1][1:])
            put("size", num(n["sz"])); put("mtime", num(n["mt"])); put("links", num(n["ln"])); put("inode", num(n["in"]))
            put("uid", num(n["ui"])); put("gid", num(n["gi"])); put("user", uncps(n["us"])); put("group", uncps(n["gr"]))
            put("mode", n["md"]); put("type", n["ty"]); put("depth", rel.count("/"))
            if n["lk"]:
                put("link", uncps(n["lk"][0]))
            for x in n["xs"]:
                v = x["v"]
                a = x["a"].split(".")[1]
                if a in ("xnum", "unum", "xsize", "xdur", "xtime"):
                    put(a, num(v))
                elif a in ("xlist", "ulist"):
                    for e in v:
                        put(a, uncps(e))
                elif a in ("xstr", "xpath", "xftype", "uniq"):
                    put(a, uncps(v))
                elif a == "xmode":
                    put(a, v)
        return P

    # ---- patterns
    def vary(self, s):
        """A text near s."""
        x = self.r.random()
        if x < 0.5:
            return s
        if x < 0.65:
            return s.upper() if safe_case(s) else s
        if x < 0.75:
            return s.lower() if safe_case(s) else s
        if x < 0.85 and s:
            return s[:-1]
        if x < 0.92:
            return s + self.pick("x", "1", "/", ".")
        return s.swapcase() if safe_case(s) else s

    def substring(self, s):
        if not s:
            return "x"
        i = self.r.randrange(len(s))
        j = self.r.randrange(i, len(s)) + 1
        return s[i:j]

    def regex(self, s):
        r = self.r
        if self.chance(0.04):
            return self.pick("(", "[a", "a**", "*a", "a{3,1}", "a)", "\\", "+", "(?:a", "[z-a]", "a(b", r"a\y", r"\Qa", "$*", "a^+", r"[\A]", r"\b*")
        s = self.substring(s) if self.chance(0.6) else s
        out = ""
        i = 0
        while i < len(s):
            c = s[i]
            x = r.random()
            if x < 0.6 or c == "\n":
                piece = esc(c)
            elif x < 0.68:
                piece = "."
            elif x < 0.74:
                piece = "[" + self.pick("", "", "^") + self.classbody(c) + "]"
            elif x < 0.79:
                piece = self.pick(r"\w", r"\d", r"\s", r"\W", r"\D", r"\S")
            elif x < 0.84:
                piece = "(?:" + esc(c) + "|" + esc(self.pick("a", "b", ".", "x")) + ")"
            elif x < 0.88:
                piece = "(" + esc(c) + (esc(s[i + 1]) if i + 1 < len(s) else "") + ")"
                i += 1
            elif x < 0.91:
                piece = ".*"
                i += r.randrange(3)
            else:
                piece = esc(c.swapcase() if safe_case(c) else c)
            if piece[-1] not in "*" and self.chance(0.15):
                piece += self.pick("*", "+", "?", "{1}", "{0,2}", "{1,}", "{2}", "*?", "+?")
            if self.chance(0.04):
                piece = self.pick(piece + r"\b", r"\b" + piece, piece + r"\B", r"\B" + piece)
            out += piece
            i += 1
        if self.chance(0.12):
            out += "|" + esc(self.pick("a", "foo", "x"))
        if self.chance(0.2):
            out = "^" + out
        if self.chance(0.2):
            out += self.pick("$", r"\Z", "$")
        return out or "."

    def classbody(self, c):
        r = self.r
        parts = []
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            if x < 0.5:
                parts.append(esc_class(c))
            elif x < 0.7:
                parts.append(self.pick("a-c", "x-z", "0-9", "A-Z", "a-z"))
            elif x < 0.8:
                parts.append(self.pick(r"\d", r"\s", r"\w"))
            else:
                parts.append(esc_class(self.pick("a", ".", "_", "b", "ü", "Ä")))
        return "".join(parts)

    def glob(self, s, path=True):
        r = self.r
        if self.chance(0.04):
            return self.pick("[z-a]", "a[b", "[]", "[!]", "a[]", "[", "]", "[!", "!", "\\", "**", "*", "?", "/", "//", "!/", "a[c-a]b")
        if path and self.chance(0.5):
            s = s.rsplit("/", 1)[-1]
        parts = s.split("/")
        if len(parts) > 1 and self.chance(0.3):
            k = r.randrange(len(parts))
            parts[k] = self.pick("**", "*", "**", "?", "x")
        if len(parts) > 2 and self.chance(0.2):
            parts = [parts[0], "**", parts[-1]]
        out = []
        for p in parts:
            if p in ("**", "*"):
                out.append(p)
                continue
            q = ""
            i = 0
            while i < len(p):
                c = p[i]
                x = r.random()
                if x < 0.72:
                    q += c
                elif x < 0.8:
                    q += "?"
                elif x < 0.87:
                    q += "*"
                    i += r.randrange(3)
                elif x < 0.93:
                    q += "[" + self.pick("", "!") + self.globclass(c) + "]"
                else:
                    q += c.swapcase() if safe_case(c) else c
                i += 1
            if self.chance(0.1):
                q += "*"
            out.append(q)
        s = "/".join(out)
        x = r.random()
        if x < 0.1:
            s = "/" + s
        elif x < 0.18:
            s = s + "/"
        elif x < 0.25:
            s = "**/" + s
        elif x < 0.3:
            s = s + "/**"
        if self.chance(0.08):
            s = "!" + s
        elif self.chance(0.03):
            s = "\\" + self.pick("!", "#") + s
        return s or "*"

    def globclass(self, c):
        r = self.r
        body = ""
        for _ in range(r.randrange(1, 3)):
            x = r.random()
            if x < 0.5 and c not in "]^!\\-[":
                body += c
            elif x < 0.8:
                body += self.pick("a-c", "x-z", "0-9", "A-Z")
            else:
                body += self.pick("a", ".", "_", "b", "/")
        return body

    # ---- literals: a text for a number
    def size_literal(self, v):
        r = self.r
        x = r.random()
        if x < 0.06:
            return self.pick("", "x", "1X", "1.5", "K", "1KK", "-1", "1 K", "1.K", ".5K", "1KiBB", "0x10", "1e3", "1,5K", "1.2.3K", "1kibi")
        v = max(0, v + self.pick(0, 0, 0, 1, -1))
        if x < 0.4:
            return str(v) + self.pick("", "", "B", "b")
        base, sfx = self.pick((1024, ""), (1024, "iB"), (1000, "B"), (1024, "ib"))
        u = r.randrange(1, 4)
        unit = "KMGT"[u - 1]
        q = v / base ** u
        if self.chance(0.4):
            txt = str(int(q) + self.pick(0, 0, 1))
        else:
            txt = f"{q:.{r.randrange(1, 5)}f}"
        t = txt + unit + sfx
        return t.lower() if self.chance(0.3) else t

    def duration_literal(self, v):
        r = self.r
        x = r.random()
        if x < 0.06:
            return self.pick("x", "1x", "h", "1h2", "1.5h", "-1h", "1H", "1h 2m", "1hm", "1S", "5D", "1Y")
        v = max(0, v + self.pick(0, 0, 0, 1, -1))
        if x < 0.2:
            return str(v // 60)
        if x < 0.4:
            return f"{v}s"
        out = ""
        for u, s in r.sample([("y", 31536000), ("M", 2592000), ("w", 604800), ("d", 86400), ("h", 3600), ("m", 60)], r.randrange(1, 6)):
            q = v // s
            if q or self.chance(0.1):
                out += f"{q}{u}"
                v -= q * s
        return (out + f"{v}s") if v or not out else out

    def time_literal(self, v, now, tz):
        r = self.r
        x = r.random()
        if x < 0.07:
            return self.pick("x", "2024-13-01", "2024-02-30", "2023-02-29", "24:00", "12:60", "12:00:61",
                             "2024-01-01T10:00", "yesterday", "1h2", "0000-01-01", "1x", "h")
        v = v + self.pick(0, 0, 0, 1, -1)
        if x < 0.3:
            return str(v) if v >= 0 else f"{v}"
        if x < 0.55 and 0 <= v < 2000000000:
            t = time.gmtime(v + tz)
            return time.strftime(self.pick("%Y-%m-%d %H:%M:%S", "%Y-%m-%d %H:%M", "%Y-%m-%d"), t)
        if x < 0.8:
            h = max(0, (now - v) // 3600)
            if h < 2000:
                k = h + self.pick(0, 0, 1, -1)
                if k > 0:
                    return self.pick(f"{k}h", f"{k // 24}d{k % 24}h", f"{k * 60}m")
            return self.pick("1y", "2M", "3w", "40d", "1y2M", "500w")
        # clock time at least 5 minutes from now
        while True:
            s = r.randrange(0, 86400)
            cur = (now + tz) % 86400
            if min((s - cur) % 86400, (cur - s) % 86400) > 300:
                break
        return f"{s // 3600:02d}:{s % 3600 // 60:02d}" + (f":{s % 60:02d}" if self.chance(0.5) else "")

    def mode_literal(self, v):
        r = self.r
        v &= 0o7777
        x = r.random()
        if x < 0.07:
            return self.pick("9", "u", "u=", "z=r", "u+q", "=", "+", "u=r,", ",", "rwx", "u=rwx,,g=r", "-", "0o644", "08", "u=r g=r", "u+r=w")
        if x < 0.35:
            return ("0" if self.chance(0.3) else "") + f"{v:o}"
        out = []
        for who, sh in (("u", 6), ("g", 3), ("o", 0)):
            b = (v >> sh) & 7
            p = ("r" if b & 4 else "") + ("w" if b & 2 else "") + ("x" if b & 1 else "")
            if who == "u" and v & 0o4000 or who == "g" and v & 0o2000:
                p += "s"
            if who == "o" and v & 0o1000:
                p += "t"
            if p and self.chance(0.9):
                out.append(who + self.pick("=", "+", "=") + p)
        if self.chance(0.3):
            out.append(self.pick("a", "", "ug", "go", "uo") + self.pick("+", "-", "=") + self.pick("r", "w", "x", "rx", "s", "t", "rwx"))
        if self.chance(0.1):
            out.append(self.pick("+", "-", "=") + self.pick("7", "22", "111", "4000"))
        r.shuffle(out)
        return ",".join(out) or "0"

    def number_literal(self, v):
        if self.chance(0.06):
            return self.pick("x", "-1", "1.5", "0x1", "1K", "", "1e3")
        return ("0" if self.chance(0.1) else "") + str(max(0, v + self.pick(0, 0, 1, -1)))

    # ---- single tests
    STRING = {"path": "Path", "relpath": "Path", "dir": "Path", "name": "String", "ext": "String", "pathx": "Path", "namex": "Path",
              "root": "Path", "link": "Path", "target": "Path", "user": "String", "group": "String", "fstype": "String"}
    NUM = {"size": "Size", "mtime": "Time", "time": "Time", "links": "Number", "uid": "Number", "gid": "Number", "depth": "Number",
           "inode": "Number", "atime": "Time", "device": "Number"}
    BOOL = ["hide", "hidden", "empty", "exec", "broken", "mount", "samedev", "pseudofs"]

    def test(self, ctx, kinds=None, bad=0.02):
        """A test as text."""
        r = self.r
        P = ctx.P
        if self.chance(bad):
            return self.pick("foo", "foo=", "=x", "nosuch=1", "x", "size", "name==", "type=q", "size~1", "type:d", "name>a", "empty=maybe",
                             "depth%1", "hide:true", "perm>1", "mime.nosuch=x", "vfast.nosuch=1", "name.x.y=1", "xnum=1", "xstr=a",
                             "file.nosuch=a", "name", "na me=a", "name!a", "path{}=a", "size=", "name=\\")
        k = self.pick(kinds or ["str", "str", "str", "num", "type", "bool", "mode", "plug", "plug", "plug"])
        sp = self.pick("", "", "", "", " ")
        if k == "str":
            a = self.pick(list(self.STRING))
            ty = self.STRING[a]
            src = {"path": "rel", "relpath": "rel", "dir": "dir", "name": "name", "ext": "ext", "pathx": "rel", "namex": "name",
                   "root": "abs", "link": "link", "target": "abs", "user": "user", "group": "group", "fstype": "name"}[a]
            s = self.pick(P.get(src) or ["x"])
            if a in ("path", "relpath", "pathx") and self.chance(0.2):
                s = self.pick(P["abs"])
            return self.prefix(a) + sp + self.strtest(s, ty)
        if k == "num":
            a = self.pick(list(self.NUM))
            src = {"time": "mtime", "atime": "mtime", "device": "inode"}.get(a, a)
            v = self.pick(P.get(src) or [0])
            return self.prefix(a) + sp + self.numop() + sp + self.numlit(self.NUM[a], v, ctx)
        if k == "type":
            return "type=" + self.pick("f", "d", "l", "file", "directory", "symlink", "fifo", "p", "s", "socket", "pipe", "other", "char", "block",
                                       "F", "Dir", "x")
        if k == "bool":
            return self.pick(self.BOOL) + "=" + self.pick("true", "false", "yes", "no", "1", "0", "on", "off", "t", "f", "TRUE", "No", "y", "n")
        if k == "mode":
            a = self.pick("perm", "mode", "perm")
            return a + self.pick("=", ":", "~") + self.mode_literal(self.pick(P.get("mode") or [0o644]))
        # test plugins
        pl = self.pick("vfast", "vnorm", "vslow")
        if self.chance(0.12):
            a, ty = self.pick(("uniq", "String"), ("unum", "Number"), ("ulist", "List"))
            full = a
        else:
            a, ty = self.pick(("xstr", "String"), ("xpath", "Path"), ("xnum", "Number"), ("xsize", "Size"), ("xdur", "Duration"),
                              ("xtime", "Time"), ("xmode", "Mode"), ("xbool", "Boolean"), ("xftype", "FileType"), ("xlist", "List"))
            full = f"{pl}.{a}"
        if ty in ("String", "Path", "List"):
            s = self.pick(P.get(a) or ["x"])
            return full + sp + self.strtest(s, ty)
        if ty == "Mode":
            return full + self.pick("=", ":", "~") + self.mode_literal(self.pick(P.get(a) or [0o644]))
        if ty == "Boolean":
            return full + "=" + self.pick("true", "false", "1", "off")
        if ty == "FileType":
            return full + "=" + self.pick(FTYPES)
        return full + sp + self.numop() + sp + self.numlit(ty, self.pick(P.get(a) or [0]), ctx)

    def prefix(self, a):
        return ("file." if self.chance(0.2) else "") + a

    def numop(self):
        return self.pick("=", "+", "-", "+=", "-=", ">", "<", ">=", "<=")

    def numlit(self, ty, v, ctx):
        if ty == "Size":
            return self.size_literal(v)
        if ty == "Duration":
            return self.duration_literal(v)
        if ty == "Time":
            return self.time_literal(v, ctx.now, ctx.tz)
        return self.number_literal(v)

    def strtest(self, s, ty):
        op = self.pick("=", ":", "~", "%", "%", "~")
        if op == "=":
            v = self.vary(s)
        elif op == ":":
            v = self.vary(self.substring(s))
        elif op == "~":
            v = self.regex(s)
        else:
            v = self.glob(s, ty == "Path")
        if not v:
            v = "x"
        return op + v

    def ref_test(self, ctx):
        """A test with a reference."""
        a = self.pick("name", "path", "size", "mtime", "type", "perm", "ext", "depth", "links", "uid", "user", "dir", "relpath", "empty",
                      "vfast.xstr", "vfast.xnum", "vnorm.xsize", "vslow.xdur", "vfast.xtime", "vfast.xbool", "vfast.xlist", "link", "inode", "hide")
        base = a.split(".")[-1]
        if base in ("name", "path", "ext", "user", "dir", "relpath", "link", "xstr"):
            op = self.pick("=", "=", ":", "~", "%")
        elif base in ("type", "empty", "xbool", "hide"):
            op = "="
        elif base == "perm":
            op = self.pick("=", ":", "~")
        elif base == "xlist":
            op = "="
        else:
            op = self.numop()
        p = self.pick(ctx.P["rel"])
        if self.chance(0.3):
            p = self.pick(ctx.P["abs"])
        elif self.chance(0.1):
            p = "./" + p
        elif self.chance(0.05):
            p = "no/such/file"
        other = ""
        if self.chance(0.35):
            other = self.pick("name", "path", "size", "mtime", "links", "depth", "xnum", "vnorm.xnum", "vfast.xstr", "ext", "type", "perm", "nosuch", "uid")
        if p[:1].isspace():
            p = "./" + p
        return f"{a}{op}{{{other}}}{p}"

    # ---- expressions
    def expr(self, ctx, n=None, kinds=None, bad=0.02, refs=0.0):
        n = n or self.pick(1, 1, 2, 2, 3, 4, 5)
        toks = []
        self.expr_or(ctx, n, toks, kinds, bad, refs)
        if self.chance(bad):
            # break it
            x = self.r.random()
            i = self.r.randrange(len(toks) + 1)
            if x < 0.5 and toks:
                toks.insert(i, self.pick("(", ")", "{{", "}}", "OR", "NOT", "or", "not"))
            else:
                del toks[min(i, len(toks) - 1)]
        return toks

    def expr_or(self, ctx, n, toks, kinds, bad, refs):
        while n > 0:
            k = self.r.randrange(1, n + 1)
            self.expr_and(ctx, k, toks, kinds, bad, refs)
            n -= k
            if n:
                toks.append(self.pick("OR", "or", "Or"))

    def expr_and(self, ctx, n, toks, kinds, bad, refs):
        while n > 0:
            k = self.r.randrange(1, n + 1)
            n -= k
            if self.chance(0.25):
                toks.append(self.pick("NOT", "not", "Not"))
            if k > 1:
                o, c = self.pick(("(", ")"), ("{{", "}}"), ("(", ")"), ("(", "}}"))
                toks.append(o)
                self.expr_or(ctx, k, toks, kinds, bad, refs)
                toks.append(c)
            else:
                toks.append(self.ref_test(ctx) if self.chance(refs) else self.test(ctx, kinds, bad))
            if n and self.chance(0.4):
                toks.append(self.pick("AND", "and", "And"))

    # ---- fields
    ATTRS = ["path", "root", "relpath", "dir", "name", "ext", "pathx", "namex", "mode", "type", "inode", "samedev", "depth", "exec",
             "size", "mtime", "time", "perm", "links", "uid", "gid", "user", "group", "hide", "hidden", "empty", "link", "target", "broken",
             "mount", "device", "ctime", "mpath", "devname", "fstype", "pseudofs", "file.name", "file.path", "file.size"]
    XATTRS = [f"{p}.{a}" for p in ("vfast", "vnorm", "vslow") for a in
              ("xstr", "xpath", "xnum", "xsize", "xdur", "xtime", "xmode", "xbool", "xftype", "xlist")] + ["uniq", "unum", "ulist"]

    def field(self, attrs=None, mods="", plug=0.3, bad=0.0):
        if self.chance(bad):
            return self.pick("nosuch", "", "a", "name:q", "name:1.5", "xnum", "name::", "vfast.nosuch", "name:hh", ":h", "file.name.x")
        a = self.pick(attrs) if attrs else (self.pick(self.XATTRS) if self.chance(plug) else self.pick(self.ATTRS))
        if mods and self.chance(0.4):
            m = self.pick(mods)
            width = self.pick("", "", "", "5", "-8", "12", "0", "1", "30", "-25") if self.chance(0.5) else ""
            a += ":" + width + ("" if width and self.chance(0.4) else m)
        return a


class Ctx:
    """What a generator needs to know about a sealed world."""

    def __init__(self, gen, lab, w):
        self.w = w
        self.lab = lab
        self.snap = lab.snaps[w.num]
        self.P = gen.pool(self.snap, w.root.decode("utf-8", "surrogateescape"))
        self.P["abs"] = self.P.get("abs") or ["/x"]
        self.P["rel"] = self.P.get("rel") or ["x"]
        self.now = w.now
        self.tz = w.tz
        self.dirs = sorted({os.path.relpath(os.path.join(a, d), w.root).decode("utf-8", "surrogateescape")
                            for a, ds, fs in os.walk(w.root) for d in ds})


def num(d):
    if not d:
        return 0
    if d[0] == -1:
        return -num(d[1:])
    return int("".join(map(str, d)))


def safe_case(s):
    return all(ord(c) < 128 or c in "äöüÄÖÜéÉïÏñÑ" or 0x410 <= ord(c) <= 0x44f for c in s)


SPECIAL = set(".^$*+?{}[]\\|()")


def esc(c):
    return "\\" + c if c in SPECIAL else c


def esc_class(c):
    return "\\" + c if c in "]^\\-[&~|" else c
