"""C23: attributes that come from the content of files.  Trees of files with structured and random content; spec/Content.tla computes from the
bytes what the plugins have to tell; spec/ContentJudge.tla judges what the searches show."""
import os, io, errno, bz2, gzip, json, lzma, zlib, time, wave, random, shutil, struct, hashlib, tarfile, subprocess
from runner import MachineryError, cps, uncps
from scen import loads, pairs, jval, dec
from world import digits

LEVEL = "exploration"
RULE = ("files of every kind (text in several encodings and with every end of line, invalid and cut UTF-8, binary data, scripts, Python sources made of "
        "import statements in every position, tar archives of every format and compression, cut and damaged ones, images, sound) under many names, next to "
        "directories, links and pipes; searches show or test their attributes with every number of workers, with and without the cache, as other users, "
        "with files that cannot be opened or read and with failing plugins; what they show is judged by spec/Content.tla; non-trivial: values of three plugins were shown")
ASSUMPTIONS = ["the digests of hashlib, what file(1) tells and the values of statfs are given facts", "what a damaged archive shows is not determined"]

HASHES = sorted(a for a in hashlib.algorithms_guaranteed)


class Node:
    def __init__(self, rel, t, b=b"", py="any", imports=(), tar="bad", members=(), facts=None, to=0, xattrs=(), secret=False):
        self.rel, self.t, self.b, self.to = rel, t, b, to
        self.py, self.imports, self.tar, self.members = py, list(imports), tar, list(members)
        self.facts = facts or {}
        self.xattrs = list(xattrs)
        self.secret = secret


# ---- content
WORDS = [b"alpha", b"beta", b"Gamma", b"x", b"0", b"import os", b"#!python", b"a b", b"tab\tx", b" lead", b"trail ", b"end  "]
EOLS = [b"\n", b"\n", b"\n", b"\r\n", b"\r", b"\n\n", b"\r\n\r\n", b"\r\r\n", b"\n\r", b""]
MULTI = ["ä", "€", "日本", "😀", "\x85", "\u2028", "\u2029", "\xa0", "\ufeff", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x7f", "\x00", "\uffff", "\U0010ffff", "\ud7ff", "\ue000", "e\u0301"]
WRONG = [b"\xff", b"\xfe", b"\x80", b"\xbf", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf",
         b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xe4\xf6\xfc", b"\xc3\x28", b"\xe2\x28\xa1", b"\xc3\xc3\xa4"]


def text(r, wrong=0.0):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9])):
        for _ in range(r.choice([0, 1, 1, 2])):
            out.append(r.choice(MULTI).encode() if r.random() < 0.25 else r.choice(WORDS))
        out.append(r.choice(EOLS))
    if out and r.random() < 0.4:
        out[-1] = b""
    if r.random() < wrong:
        out.insert(r.randrange(len(out) + 1), r.choice(WRONG))
    b = b"".join(out)
    if r.random() < 0.08:
        b = b"\xef\xbb\xbf" + b
    if r.random() < 0.06:     # something at the end of a buffer
        pad = r.choice([8191, 8190, 8189, 8192, 8188]) - r.choice([0, 1, 2])
        line = b"y" * r.choice([100, 63]) + b"\n"
        b = (line * (pad // len(line) + 1))[:pad] + r.choice([b"\r\n", "€".encode(), "😀".encode(), b"\r", "ä".encode(), b"\n"]) + b
    return b


def shebang(r):
    s = r.choice([b"#!/bin/sh", b"#!/usr/bin/env python3", b"#! /usr/bin/python -u", b"#!python", b"#!", b"#! ", b"#!\t x\t", b" #!/bin/sh", b"#/bin/sh", b"!#/bin/sh", b"#!/usr/bin/Python",
                  b"#!/opt/python-like/sh", b"#!/bin/\xc3\xa4", b"#!/bin/\xff", b"\xef\xbb\xbf#!/bin/sh", b"#!/bin/sh -e  ", b"#!/bin/sh\x1c", b"#!\x0b\x0c", b"#!/bin/sh\x00x", b"#!#!", b"##!x",
                  b"\n#!/bin/sh", b"#!/bin/sh\x85"[:-1], b"#!" + b"p" * 300, b"#!/usr/bin/perl\x1f \t", b"\r#!/bin/sh", b"#!/bin/sh\rpython"])
    return s + r.choice([b"\n", b"\n", b"\r\n", b"", b" \n", b"\r", b"\n#!/usr/bin/python\n", b"\n\xff\xfe", b"\nx = 1\n"])


MODS = ["os", "os.path", "sys", "a.b.c", "json", "_x", "ümläut", "A1", "日本.x", "pkg", "m2", "collections.abc", "important", "from_x", "a" * 60]


def statement(r, top):
    """(text, imports)"""
    k = r.random()
    m = r.choice(MODS)
    N = lambda: r.choice(["x", "y as z", "_q", "X", "import_", "ä"])
    sp = lambda: r.choice([" ", " ", "  ", "\t", " \\\n "])
    if k < 0.35:
        ms = [r.choice(MODS) for _ in range(r.choice([1, 1, 2, 3]))]
        return "import" + sp() + r.choice([", ", ",", " ,\t"]).join(x + (r.choice([" as q", "  as  q2"]) if r.random() < 0.3 else "") for x in ms), [(x, 0) for x in ms]
    lv = r.choice([0, 0, 0, 1, 1, 2, 3]) if k < 0.92 else r.choice([1, 1, 2])
    names = r.choice([N(), f"{N()}, x2", f"({N()})", f"({N()},\n  x2, # import zz\n )", f"(\n{N()}\n)"] + (["*"] if top else []))
    dots = r.choice(["." * lv, " ".join("." * lv)]) if lv else ""
    if k < 0.92:
        return "from" + sp() + dots + (" " if r.random() < 0.2 else "") + m + sp() + "import" + sp() + names, [(m, lv)]
    return "from " + dots + " import " + names, [("", lv)]


DECOY = ["# import no1", "'import no2'", '"""\nimport no3\nfrom no4 import x\n"""', "s = 'from no5 import x'", "__import__('no6')", "importlib.import_module('no7')", "imports = 1", "x = f'{1}import no8'",
         "print('a'); y = 'import no9'", "b = b'import no10'", "lambda: 'import no11'", "x: 'import no12' = 1", "r'\\nimport no13'", "pass", "", "   ", "if 1: pass", "@d\nclass A: pass", "global_ = 1", "del_ = 2"]
BADSRC = ["import", "from import x", "def f(:", "from . import", "import a.", "import a b", "print 'x'", "x = (", "  indented = 1", "if 1:\nx", "\"unclosed", "'''", "import a as", "from a import (b", "$", "import 1a",
          "def f():\n\tif 1:\n        x\n\ty", "x = \\", "from a import b,", "async x", "import a;;", "(" * 300, "0777", "from .. import", "return return", "import *", "from x import *, y", "a = 1 = \xa7"]


def block(r, depth, top):
    """(lines, imports)"""
    lines, imps = [], []
    for _ in range(r.choice([1, 1, 2, 3]) if depth else r.choice([0, 1, 2, 3, 5])):
        k = r.random()
        if k < 0.5:
            t, i = statement(r, top)
            if r.random() < 0.15:
                t2, i2 = statement(r, top)
                t += r.choice(["; ", ";", " ; "]) + t2
                i = i + i2
            if r.random() < 0.1:
                t += r.choice(["  # import zz", ";", " "])
            if r.random() < 0.1 and "\\" not in t.split("(")[0]:
                t = r.choice(["if 1: ", "while 0: ", "for i in (): ", "class B: ", "with x: "]) + t
            lines.append(t)
            imps += i
        elif k < 0.75 or depth > 3:
            lines.append(r.choice(DECOY))
        else:
            head, tails = r.choice([("def f(a, b=1):", []), ("class C(object):", []), ("async def g():", []), ("if x:", ["else:"]), ("if x:", ["elif y:", "else:"]), ("for i in x:", ["else:"]), ("while x:", ["else:"]),
                                    ("try:", ["except ImportError:"]), ("try:", ["except (A, B) as e:", "else:", "finally:"]), ("try:", ["finally:"]), ("with a as b, c:", []), ("try:", ["except* A:"]),
                                    ("@dec\ndef h():", []), ("match x:\n case [1, *_]:", []), ("if True: # import q", []), ("def f[T](x: T) -> T:", [])])
            parts = [head] + [t for t in tails if t.startswith(("except", "finally")) or r.random() < 0.7]
            if parts[-1] == "else:" and "try" in head and not any(p.startswith("except") for p in parts):
                parts = [head, "finally:"]
            ind = r.choice(["    ", "  ", "\t", "        "]) if "match" not in head else "     "
            for h in parts:
                ls, im = block(r, depth + 1, False)
                lines += [h, ind + "pass"] + [ind + x if x.strip() and q is None else x for x, q in quoted(ls)]
                imps += im
    return lines, imps


def quoted(ls):
    """Physical lines; those within a string or parentheses are marked."""
    out = []
    for l in ls:
        for n, x in enumerate(l.split("\n")):
            out.append((x, None if n == 0 else (True if l.lstrip().startswith('"""') else None)))
    return out


def python(r):
    lines, imps = block(r, 0, True)
    st = "ok"
    if r.random() < 0.2:
        lines.insert(r.randrange(len(lines) + 1), r.choice(BADSRC))
        st = "bad"
    src = "\n".join(lines) + r.choice(["\n", "", "\n\n", "\n# end"])
    head = b""
    k = r.random()
    enc = "utf-8"
    if k < 0.1:
        head = b"\xef\xbb\xbf"
    elif k < 0.25:
        enc = r.choice(["latin-1", "utf-8", "ascii", "cp1252"])
        line = r.choice(["# -*- coding: %s -*-\n", "# vim: set fileencoding=%s :\n", "#coding=%s\n"]) % enc
        src = r.choice(["", "#!/usr/bin/python\n"]) + line + src
        if enc in ("latin-1", "cp1252"):
            src += "# \xe4\n"
    elif k < 0.28:
        src = "# coding: nonsense\n" + src
        st = "bad"
    elif k < 0.4:
        src = r.choice(["#!/usr/bin/env python3\n", "#!/usr/bin/python -u\n", "#! python\n"]) + src
    try:
        b = head + src.encode(enc)
    except UnicodeEncodeError:
        b = src.replace("# coding", "# c").encode()
        b = b.replace(b"coding", b"c0ding")
    if r.random() < 0.15:
        b = b.replace(b"\n", b"\r\n")
    if r.random() < 0.04:
        b += r.choice([b"\xff", b"# \xe4\n"]) if enc == "utf-8" else b""
        if enc == "utf-8":
            st = "bad"
    elif r.random() < 0.03:
        b += b"\0"
        st = "bad"
    elif r.random() < 0.02:          # too much for the parser
        b += b"x = " + b"-" * r.choice([6500, 7000]) + b"1\n"
        st = "bad"
    return b, st, [(m, l) for m, l in imps]


def compiles(b):
    import ast, warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            ast.parse(b)
            return True
        except (SyntaxError, ValueError, MemoryError, RecursionError):
            return False


def archive(r):
    """(bytes, members, compression)"""
    names = ["a", "b.txt", "d/", "d/x", "./e", "/abs", "../up", "sp ace", "new\nline", "ümläut", "\udcff\udcfe", "日本", "x" * 99, "y" * 150, "p/" * 60 + "z", "a", "-dash", "d/e/f/", "{name}", '"q"', "tab\t", "dot.", "q" * 100, "e/" + "w" * 100]
    fmt = r.choice([tarfile.USTAR_FORMAT, tarfile.GNU_FORMAT, tarfile.PAX_FORMAT])
    f = io.BytesIO()
    members = []
    with tarfile.open(fileobj=f, mode="w", format=fmt, encoding="utf-8", errors="surrogateescape") as t:
        for n in r.choices(names, k=r.choice([0, 1, 1, 2, 3, 4])):
            ti = tarfile.TarInfo(n.rstrip("/"))
            if n.endswith("/"):
                ti.type = tarfile.DIRTYPE
                ti.mode = 0o755
            else:
                ti.type = r.choice([tarfile.REGTYPE] * 5 + [tarfile.SYMTYPE, tarfile.LNKTYPE, tarfile.FIFOTYPE, tarfile.CHRTYPE])
            if ti.type in (tarfile.SYMTYPE, tarfile.LNKTYPE):
                ti.linkname = r.choice(["a", "no", "k" * 120])
            data = r.choice([b"", b"x", b"data\n" * 20, b"z" * 600]) if ti.type == tarfile.REGTYPE else b""
            ti.size = len(data)
            try:
                t.addfile(ti, io.BytesIO(data))
            except ValueError:
                continue
            members.append(n.rstrip("/"))
    b = f.getvalue()
    end = len(b.rstrip(b"\0"))
    b = b[:(end + 511) // 512 * 512] + b"\0" * 1024       # without the padding to 20 blocks
    c = r.choice(["", "gz", "bz2", "xz", "lzma", "gz"])
    b = {"": lambda: b, "gz": lambda: gzip.compress(b), "bz2": lambda: bz2.compress(b), "xz": lambda: lzma.compress(b), "lzma": lambda: lzma.compress(b, lzma.FORMAT_ALONE)}[c]()
    return b, members, c


TAREXT = [".tar", ".tar.gz", ".taz", ".tgz", ".tpz", ".tar.bz2", ".tb2", ".tbz", ".tbz2", ".tz2", ".tar.lz", ".tar.lzma", ".tlz", ".tar.xz", ".txz"]
NOTAR = [".TAR", ".tar.gz.bak", ".Tgz", ".tar.Z", ".tarx", "_tar", ".tar.gz~", ".zip"]


def png(w, h):
    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 0, 0, 0, 0)) + chunk(b"IDAT", zlib.compress((b"\0" + b"\x80" * w) * h)) + chunk(b"IEND", b"")


def media(r):
    w, h = r.randrange(1, 40), r.randrange(1, 40)
    k = r.choice(["png", "gif", "wav", "avi", "mp3"])
    N = lambda n: jval(n)
    if k == "png":
        return png(w, h), "png", {"medium.width": N(w), "medium.height": N(h), "medium.format": jval("png")}
    if k == "gif":
        return b"GIF89a" + struct.pack("<HHBBB", w, h, 0x80, 0, 0) + b"\0\0\0\xff\xff\xff" + b"," + struct.pack("<HHHHB", 0, 0, w, h, 0) + b"\x02\x02\x44\x01\x00;", "gif", \
            {"medium.width": N(w), "medium.height": N(h), "medium.format": jval("gif")}
    words = ["Bach", "\u00c4rtist \u65e5", "a b, c", "x", "The Band", "5", "1999"]
    if k == "avi":
        n = r.choice([3, 10, 15, 20, 27, 50, 70, 72, 100])  # frames of a tenth of a second
        return avi(w, h, n), "avi", {"medium.width": N(w), "medium.height": N(h), "medium.duration": N(n // 10)}
    if k == "mp3":
        tags = {a: r.choice(words) for a in r.sample(sorted(ID3), r.randrange(len(ID3) + 1))}
        if "date" in tags:
            tags["date"] = r.choice(["1999", "2014"])
        if "genre" in tags:
            tags["genre"] = r.choice(["Rock", "Jazz"])
        s = r.choice([0.4, 1.5, 3.4, 6.6])
        return mp3(tags, s), "mp3", dict({f"medium.{a}": jval(v) for a, v in tags.items()}, **{"medium.duration": N(int(s))})
    s, half = r.choice([0, 1, 2, 3, 7, 20]), r.choice([0, 150])
    half = half if s else 150
    f = io.BytesIO()
    with wave.open(f, "wb") as o:
        o.setnchannels(1); o.setsampwidth(1); o.setframerate(300)
        o.writeframes(b"\x80" * (300 * s + half))
    return f.getvalue(), "wav", {"medium.duration": N(s)}


ID3 = {"artist": b"TPE1", "album": b"TALB", "title": b"TIT2", "date": b"TYER", "genre": b"TCON"}


def mp3(tags, seconds):
    t = b""
    for a, v in tags.items():
        d = b"\1" + v.encode("utf-16")
        t += ID3[a] + struct.pack(">I", len(d)) + b"\0\0" + d
    n = len(t)
    head = b"ID3\3\0\0" + bytes([n >> 21 & 127, n >> 14 & 127, n >> 7 & 127, n & 127]) + t if tags else b""
    return head + (b"\xff\xfb\x90\xc0" + b"\0" * 413) * (int(seconds * 1000 / 26.1224) + 1)


def avi(w, h, n):
    us = 100000
    part = lambda name, d: name + struct.pack("<I", len(d)) + d
    avih = part(b"avih", struct.pack("<14I", us, 1000, 0, 16, n, 0, 1, 1000, w, h, 0, 0, 0, 0))
    strh = part(b"strh", b"vidsDIB " + struct.pack("<IHHIIIIIIIIhhhh", 0, 0, 0, 0, us, 1000000, 0, n, 1000, 0, 0, 0, 0, w, h))
    strf = part(b"strf", struct.pack("<IiiHHIIiiII", 40, w, h, 1, 24, 0, w * h * 3, 0, 0, 0, 0))
    hdrl = part(b"LIST", b"hdrl" + avih + part(b"LIST", b"strl" + strh + strf))
    return part(b"RIFF", b"AVI " + hdrl + part(b"LIST", b"movi" + part(b"00db", b"\0" * 4) * n))


MISC = [b"%PDF-1.4\n%\xe2\xe3\n", b"\x7fELF\x02\x01\x01" + b"\0" * 40, b"PK\x03\x04" + b"\0" * 26, b"\x1f\x8b\x08\0\0\0\0\0\0\x03", b"<html><body>x</body></html>\n", b"<?xml version='1.0'?>\n<a/>\n", b'{"a": [1]}\n',
        b"#include <stdio.h>\nint main(void)\n{ return 0; }\n", b"From: a@b\nTo: c@d\nSubject: x\n\nbody\n", b"a,b,c\n1,2,3\n", b"\0" * 100, bytes(range(256)), b"\xff\xfea\0b\0\n\0", b"BZh91AY&SY", b"SQLite format 3\0" + b"\0" * 50,
        b"-----BEGIN CERTIFICATE-----\nAAAA\n", b"\xca\xfe\xba\xbe\0\0\0\x34", b"GIF", b"\x89PNG", b"RIFF\x10\0\0\0", b"\0asm\1\0\0\0", b"\xff\xd8\xff\xe0\0\x10JFIF\0", b"@echo off\r\n", b"msgid \"\"\n"]
STEMS = ["a", "b", "x y", "ümläut", "new\nline", "p.q", "py", "tar", "\udcff", "-d", "日本", "f", "g", "conf", "Make", "setup", "..x"]


class Run:
    def __init__(self, chk, seed, big=False):
        self.chk, self.r = chk, random.Random(seed)
        self.seed, self.big = seed, big
        self.text = []

    # -- the tree
    def build(self):
        r = self.r
        self.dir = self.chk.lab.scratch.new("c")
        os.chmod(self.dir, 0o755)
        self.root = os.path.join(self.dir, r.choice(["t", "pkg", "ä", "t.py"]))
        os.mkdir(self.root)
        self.nodes = []
        self.used = set()
        self.dirs = [""]
        for _ in range(r.choice([1, 2, 3, 4])):
            d = self.fresh(r.choice(self.dirs), "", ["sub", "pkg", "d.py", "d.tar", "m n", "é"])
            self.add(Node(d, "dir"))
            self.dirs.append(d)
        for _ in range(r.choice([5, 8, 12, 16])):
            self.more()
        files = [n for n, x in enumerate(self.nodes) if x.t == "file" and "medium" not in "".join(x.facts)]
        for _ in range(r.choice([0, 1, 2, 3])):
            d = r.choice(self.dirs)
            if r.random() < 0.75 and files:
                to = r.choice(files)
                self.add(Node(self.fresh(d, r.choice(["", ".py", ".tar", ".tgz", ".txt", ".lnk"])), "link", to=to + 1))
            elif r.random() < 0.5:
                self.add(Node(self.fresh(d, r.choice(["", ".py", ".tar", ".png"])), "fifo"))
            else:
                self.add(Node(self.fresh(d, r.choice(["", ".py", ".tar"])), "link", to=0))
        self.hashes = r.sample(HASHES, r.choice([1, 2, 3]))
        for x in self.nodes:
            if r.random() < 0.25 and x.t in ("file", "dir"):
                for k in r.sample(["k", "name", "long.key", "ä"], r.choice([1, 1, 2])):
                    v = r.choice([b"", b"v", b"two words", b"\xff\xfe", "ü=1".encode(), b"x" * 50])
                    os.setxattr(self.p(x), "user." + k, v)
                    x.xattrs.append(f"user.{k}=" + os.fsdecode(v))
            if r.random() < 0.3 and x.t in ("file", "dir", "fifo"):
                n = self.nodes.index(x) + 1
                for a, v in (("vfast.uniq", f"u{n}"), ("vnorm.unum", n), ("vslow.ulist", [f"l{n}", "x"])):
                    if r.random() < 0.6:
                        x.facts[a] = jval(v)
        for x in self.nodes:
            x.secret = x.t == "file" and r.random() < 0.2

    def p(self, x):
        return os.path.join(self.root, x.rel)

    def fresh(self, d, ext, stems=STEMS):
        while True:
            s = self.r.choice(stems)
            if self.r.random() < 0.5 or (d, s + ext) in self.used:
                s += str(self.r.randrange(100))
            if s + ext not in (".", "..") and (d, s + ext) not in self.used:
                self.used.add((d, s + ext))
                return os.path.join(d, s + ext) if d else s + ext

    def add(self, x):
        self.nodes.append(x)
        p = self.p(x)
        if x.t == "dir":
            os.mkdir(p)
        elif x.t == "fifo":
            os.mkfifo(p)
        elif x.t == "link":
            os.symlink(self.p(self.nodes[x.to - 1]) if x.to else "/nowhere/x", p)
        else:
            with open(p, "wb") as f:
                f.write(x.b)
            os.utime(p, (1900000000, self.mtime))

    mtime = 1600000000

    def large(self):
        """A large file: only its first bytes, its digests and what file(1) says of it are known to the specification."""
        r = self.r
        n = r.choice([8191, 8192, 8193, 16384, 65535, 65536, 65537, 131073, 262144, 524289, 1048575, 1048576, 1048577, 2097153, 3000000])
        head = r.choice([b"", b"#!/bin/sh\n", b"#!/usr/bin/python -O\nprint()\n", b"#!", b"#!" + b"x" * 150 + b"\n", b"\0\1"])
        return dict(b=(head + r.randbytes(n))[:n], tar="any"), ["", ".txt", ".bin", ".dat"]

    def content(self):
        """(content and what is known about it as keywords, fitting extensions)"""
        r = self.r
        if self.big:
            return self.large()
        k = r.random()
        if k < 0.25:
            b = text(r, 0.3)
            return dict(b=b, tar="any" if b"\0" in b else "bad"), ["", ".txt", ".py", ".tar", ".c", ".PY", ".tgz"]
        if k < 0.4:
            b = shebang(r)
            return dict(b=b, tar="any" if b"\0" in b else "bad"), ["", "", ".sh", ".py", ".pl"]
        if k < 0.65:
            b, st, imps = python(r)
            if compiles(b) != (st == "ok"):
                st = "any"
            return dict(b=b, py=st, imports=imps, tar="any" if b"\0" in b else "bad"), [".py", ".py", ".py", "", ".PY", ".Py", ".pyw", ".py.bak", ".txt", ".x.py"]
        if k < 0.80:
            b, members, c = archive(r)
            st = "ok"
            if r.random() < 0.15:
                b, st = b[:r.randrange(len(b))], "cut"
            elif r.random() < 0.12:
                i = r.randrange(len(b))
                b, st = b[:i] + bytes([b[i] ^ r.randrange(1, 256)]) + b[i + 1:] + r.choice([b"", b"junk"]), "any"
            return dict(b=b, tar=st, members=members), TAREXT + r.sample(NOTAR, 4)
        if k < 0.93:
            b, e, facts = media(r)
            return dict(b=b, facts=facts, tar="any"), ["." + e]
        b = r.choice(MISC)
        return dict(b=b, tar="any"), ["", ".bin", ".dat", ".txt", ".py", ".tar"]

    def more(self):
        kw, exts = self.content()
        d = self.r.choice(self.dirs)
        e = self.r.choice(exts)
        if e.startswith(".") and self.r.random() < 0.04 and (d, e) not in self.used and "facts" not in kw:
            self.used.add((d, e))
            rel = os.path.join(d, e) if d else e
        else:
            rel = self.fresh(d, e, [x for x in STEMS if "facts" not in kw or x.isprintable()])
        self.add(Node(rel, "file", **kw))

    def change(self):
        """Other content for some of the files."""
        r = self.r
        self.mtime += r.choice([1, 2, 60, 100000])
        for n, x in enumerate(self.nodes):
            if x.t == "file" and "medium" not in "".join(x.facts) and r.random() < 0.5:
                kw, _ = self.content()
                if "facts" in kw:
                    continue
                y = Node(x.rel, "file", xattrs=x.xattrs, facts={k: v for k, v in x.facts.items() if k.startswith("v")}, secret=x.secret, **kw)
                self.nodes[n] = y
                with open(self.p(y), "wb") as f:
                    f.write(y.b)
                os.utime(self.p(y), (1900000000, self.mtime))

    # -- facts
    def learn(self):
        fs = {}
        files = [x for x in self.nodes if x.t == "file"]
        for x in files:
            for h in self.hashes:
                o = hashlib.new(h, x.b)
                x.facts[f"{h}.{h}"] = jval(o.hexdigest(int(h[6:]) // 8) if h.startswith("shake") else o.hexdigest())
        if files:
            for a, o in (("mime", ["--mime-type"]), ("encoding", ["--mime-encoding"]), ("name", [])):
                out = subprocess.run(["file", "-00", *o, "--", *[self.p(x) for x in files]], capture_output=True, env={"LC_ALL": "C.UTF-8", "PATH": os.environ["PATH"]}).stdout.split(b"\0")
                if len(out) != 2 * len(files) + 1:
                    raise MachineryError(f"file: {out!r}")
                for n, x in enumerate(files):
                    v = os.fsdecode(out[2 * n + 1])
                    x.facts["mime." + a] = jval(v)
                    if a == "mime":
                        x.facts["mime.type"], x.facts["mime.subtype"] = (jval(y) for y in v.split("/", 1))
        for x in self.nodes:
            p = self.p(x)
            d = p if x.t == "dir" else os.path.dirname(p)
            if d not in fs:
                fs[d] = subprocess.run(["stat", "-f", "-c", "%T", d], capture_output=True).stdout.decode().strip()
            x.facts["fs.type"] = jval(fs[d])

    def record(self, x, n, mode):
        return dict(n=n + 1, p=cps(self.p(x)), t=x.t, to=x.to, b=list(x.b[:2000] if self.big or x.b[:3] == b"ID3" or x.b[:2] == b"\xff\xfb" else x.b) if x.t == "file" else [], read=mode != "user" or not x.secret, depth=x.rel.count("/") + 1,
                    py=dict(st=x.py, imports=[dict(m=cps(m), level=l) for m, l in x.imports]), tar=dict(st=x.tar, members=[cps(m) for m in x.members]), facts=x.facts, xattrs=[cps(v) for v in x.xattrs])

    def packages(self):
        """What the package manager (a stand-in) says it has installed."""
        r = self.r
        lines = []
        names = ["bash", "core", "lib32-x+y", "a", "python-foo.bar", "A"]
        for x in r.sample(self.nodes, r.randrange(len(self.nodes) + 1)):
            p = self.p(x) + ("/" if x.t == "dir" else "")
            p = r.choice([p] * 9 + [p.rstrip("/") + "x", p.rstrip("/")[:-1] + " ", os.path.dirname(p.rstrip("/")) + "/", "/"])
            if "\n" not in p:
                for g in r.sample(names, r.choice([1, 1, 1, 2])):
                    lines.append((g, p))
        lines.sort(key=lambda l: (l[0], os.fsencode(l[1])))
        b = os.path.join(self.dir, "bin")
        os.makedirs(b, exist_ok=True)
        with open(os.path.join(b, "list"), "wb") as f:
            f.writelines(g.encode() + b" " + os.fsencode(p) + b"\n" for g, p in lines)
        with open(os.path.join(b, "pacman"), "w") as f:
            f.write(f'#!/bin/sh\n[ "$*" = -Ql ] && exec cat "{b}/list"\nexit 1\n')
        for n in ("list", "pacman"):
            os.chmod(os.path.join(b, n), 0o755)
        self.env = {"PATH": b + ":" + os.environ["PATH"]}
        return [dict(g=cps(g), p=cps(p)) for g, p in lines]

    # -- searches
    def search(self, mode, cache):
        r, lab = self.r, self.chk.lab
        attrs = ["grep.text", "grep.linecount", "grep.lines", "shebang.shebang", "py.imports", "tar.members", "mime.mime", "mime.type", "mime.subtype", "mime.encoding", "mime.name", "xattr.xattrs", "fs.type", "pacman.installed", "pacman.pkgname",
                 "medium.width", "medium.height", "medium.format", "medium.duration", "medium.artist", "medium.album", "medium.title", "medium.genre", "medium.date", "vfast.uniq", "vnorm.unum", "vslow.ulist"] + [f"{h}.{h}" for h in self.hashes]
        if self.big:
            attrs = [a for a in attrs if not a.startswith(("grep", "py", "tar"))]
        fields = r.sample(attrs, r.choice([1, 3, 6, 10, len(attrs)]) if not self.big else len(attrs) - 3)
        if mode == "broken":
            fields = [f for f in fields if f not in ("vfast.uniq", "vnorm.unum", "vslow.ulist")] + [self.raises]
        pkgs = self.packages()
        follow = r.random() < 0.25
        argv = ["--cache", cache] if cache else ["--no-cache"]
        argv += ["-j", str(r.choice([1, 1, 2, 3, 4]))]
        # (JSON output works with absolute paths, other output need not)
        out = r.choice(["--json", "--jsonl", "--jsonl", "-0"] if mode != "broken" else ["--json", "--jsonl"])
        if out == "-0":
            fields = []
            argv += [out] + r.choice([[], ["-a"]])
        else:
            argv += [out, "--all", "-o", ",".join(["path"] + fields)]
        if follow:
            argv += ["-L"]
        if r.random() < 0.2:
            argv += ["-S", r.choice(["path", "size,path"] + [f for f in fields if mode != "broken"])]
        cwd = self.root
        if r.random() < 0.3:
            cwd = r.choice(["/", self.dir])
            argv += ["-D", self.root if cwd == "/" else os.path.basename(self.root)]
        sel = dict(a="", op="", v=0)
        if r.random() < (0.4 if fields else 0.9) and mode != "broken":
            sel = self.test(argv, pkgs)
        kw, faulty = {}, []
        perturb = {}
        if r.random() < 0.3:
            perturb.update(seed=r.randrange(10 ** 9), delays={s: [0.4, 3] for s in r.sample(["get", "put", "feed", "barrier", "scan", "lock"], 2)})
        if mode == "fault" and not cache:
            files = [n for n, x in enumerate(self.nodes) if x.t == "file"]
            for n in r.sample(files, min(len(files), r.choice([1, 2]))):
                faulty.append(n + 1)
                perturb.setdefault("io", []).append({"call": r.choice(["open", "read"]), "path": self.p(self.nodes[n]), "errno": r.choice([errno.EIO, errno.EACCES, errno.ENOENT, errno.EMFILE, errno.ESTALE])})
        if perturb:
            kw["perturb"] = perturb
        if mode == "user":
            kw["uid"] = r.choice([1000, 54321])
        log = os.path.join(self.dir, "log")
        with open(log, "w"):
            pass
        os.chmod(log, 0o666)
        opt = r.random() < 0.2
        res = lab.runner.cli(argv, cwd, env={**self.env, "HOME": self.dir, "VERIF_PLUGDATA": self.plugdata, "VERIF_PLUGLOG": log}, optimized=opt, timeout=90, **kw)
        rows, ok = [], not res["timeout"]
        try:
            if out == "-0":
                ok = ok and res["out"][-1:] in (b"", b"\0")
                rows = [dict(p=q, a={"path": jval(dec(os.path.join(os.fsencode(cwd), l)))}) for l in res["out"].split(b"\0")[:-1] for q in [cps(dec(os.path.join(os.fsencode(cwd), l)))]]
            data = [] if out == "-0" else loads(res["out"]) if out == "--json" else [loads(l) for l in res["out"].split(b"\n")[:-1]]
            for o in data:
                d = {k: jval(v) for k, v in pairs(o)}
                if set(d) != {"path"} | set(fields):
                    ok = False
                rows.append(dict(p=d["path"]["v"], a=d))
        except (ValueError, KeyError, TypeError, AttributeError) as exc:
            ok = False
        with open(log) as f:
            calls = {(c[1], tuple(c[2])) for c in map(json.loads, f)}
        A = {"vfast": "vfast.uniq", "vnorm": "vnorm.unum", "vslow": "vslow.ulist"}
        kinds = {f.split(".")[0] for q in rows for f, v in q["a"].items() if v["k"] != "null"}
        self.interesting = len(kinds) > 3
        self.text.append(dict(argv=argv, cwd=cwd, mode=mode, faulty=[self.nodes[n - 1].rel for n in faulty], optimized=opt, status=res["status"], out=dec(res["out"][:6000]), err=dec(res["err"][-1500:])))
        return dict(rows=rows, ok=ok, status=-1 if res["timeout"] else res["status"], sel=sel, follow=follow, faulty=faulty, broken=mode == "broken", pkgs=pkgs,
                    calls=[dict(a=A[p], p=list(c)) for p, c in sorted(calls)])

    def plain(self, s):
        return bool(s) and all(c.isascii() and (c.isalnum() or c in "_./-+@") for c in s) and not s.startswith("-")

    def test(self, argv, pkgs):
        r = self.r
        x = r.choice([x for x in self.nodes if x.t == "file"])
        k = r.choice(["text", "linecount", "lines", "shebang", "imports", "members", "hash", "mime", "package", "package"] if not self.big else ["shebang", "hash", "mime"])
        none = dict(a="", op="", v=0)
        argv += ["-c", "sensitive"]

        def eq(a, v, word=None):
            argv.append(f"{r.choice([a, a.split('.')[1]]) if a.split('.')[0] not in HASHES and a not in ('mime.mime', 'mime.type') else a}={word or v}")
            return dict(a=a, op="=", v=cps(v) if isinstance(v, str) else v)
        if k == "package":
            if r.random() < 0.5 or not pkgs:
                v = r.random() < 0.6
                return eq("pacman.installed", v, r.choice(["yes", "true", "1"] if v else ["no", "false", "0"]))
            return eq("pacman.pkgname", uncps(r.choice(pkgs)["g"]))
        if k == "text":
            v = r.random() < 0.5
            return eq("grep.text", v, r.choice(["yes", "true", "1", "on"] if v else ["no", "false", "0", "off"]))
        try:
            l = io.TextIOWrapper(io.BytesIO(x.b), encoding="utf-8").readlines()
        except UnicodeDecodeError:
            l = []
        if k == "linecount":
            n = max(0, len(l) + r.choice([0, 0, 0, 1, -1]))
            return eq("grep.linecount", n, str(n))
        if k == "lines":
            c = [y[:-1] for y in l if self.plain(y[:-1])] + ["alpha", "x"]
            return eq("grep.lines", r.choice(c))
        if k == "shebang":
            return eq("shebang.shebang", r.choice(["/bin/sh", "python", "/usr/bin/perl", "/usr/bin/python"]))
        if k == "imports":
            return eq("py.imports", r.choice([m for m, lv in x.imports if self.plain(m)] + ["os", "no1", "sys", "zz"]))
        if k == "members":
            return eq("tar.members", r.choice([m for m in x.members if self.plain(m)] + ["a", "d", "d/x"]))
        if k == "mime":
            a = r.choice(["mime.mime", "mime.type", "mime.subtype", "mime.encoding"])
            v = uncps(x.facts[a]["v"])
            return eq(a, v) if self.plain(v) else none
        h = r.choice(self.hashes)
        return eq(f"{h}.{h}", uncps(x.facts[f"{h}.{h}"]["v"]))

    def go(self):
        r = self.r
        recs = []
        self.build()
        vals = {}
        for x in self.nodes:
            st = os.lstat(self.p(x))
            for a, v in x.facts.items():
                if a.startswith(("vfast", "vnorm", "vslow")):
                    p, n = a.split(".")
                    d = vals.setdefault(f"{st.st_dev}:{st.st_ino}", {}).setdefault(p, {})
                    d[n] = uncps(v["v"]) if v["k"] == "str" else [uncps(y) for y in v["v"]] if v["k"] == "list" else int("".join(map(str, v["v"])))
        self.plugdata = os.path.join(self.dir, "data")
        with open(self.plugdata, "w") as f:
            json.dump(vals, f)
        os.chmod(self.plugdata, 0o644)
        mode = "" if self.big else r.choice(["", "", "", "user", "fault", "fault", "cache", "cache", "broken"])
        if mode == "broken":
            cand = [(n, x) for n, x in enumerate(self.nodes) if any(a[:2] in ("vf", "vn", "vs") for a in x.facts)]
            if cand:
                n, x = r.choice(cand)
                self.raises = next(a for a in x.facts if a[:2] in ("vf", "vn", "vs"))
                st = os.lstat(self.p(x))
                vals[f"{st.st_dev}:{st.st_ino}"][self.raises.split(".")[0]]["raise"] = True
                with open(self.plugdata, "w") as f:
                    json.dump(vals, f)
            else:
                mode = ""
        if mode == "user":
            for x in self.nodes:
                if x.secret:
                    os.chmod(self.p(x), r.choice([0, 0o200, 0o700]))
        cache = os.path.join(self.dir, "c.db") if mode == "cache" else ""
        for turn in range(r.choice([2, 3]) if mode == "cache" else 1):
            if turn:
                self.change()
            self.learn()
            ss = [self.search(mode, cache) for _ in range(r.choice([1, 2]) if mode == "cache" else 3)]
            recs.append(dict(files=[self.record(x, n, mode) for n, x in enumerate(self.nodes)], searches=ss))
        shutil.rmtree(self.dir, ignore_errors=True)
        return recs


def run(chk):
    import tlc
    g = chk.g
    first = True
    while first or chk.more(6):
        t = time.monotonic()
        first = False
        runs = [Run(chk, g.r.randrange(10 ** 9), big=n < 2) for n in range(24)]
        rs = chk.lab.runner.pmap(lambda x: x.go(), runs, 8)
        recs = [rec for rr in rs for rec in rr]
        bad = tlc.judge(chk.lab.scratch, [], recs, shards=8, module="ContentJudge.tla", cfg="ContentJudge.cfg")
        for x, rr in zip(runs, rs):
            for rec in rr:
                chk.evaluations += len(rec["searches"])
            chk.count(f"{x.seed}" if x.interesting else None, 0)
            for rec in rr:
                if rec["id"] in bad:
                    chk.violation("; ".join(bad[rec["id"]][:4]), dict(searches=x.text, files=[dict(n=f["n"], p=uncps(f["p"]), t=f["t"], b=dec(bytes(f["b"])[:3000]), py=[(uncps(i["m"]), i["level"]) for i in f["py"]["imports"]] + [f["py"]["st"]],
                                                                                                        tar=f["tar"]["st"], facts={k: v["k"] == "str" and uncps(v["v"]) or v["v"] for k, v in f["facts"].items()}) for f in rec["files"]], all=bad[rec["id"]]))
                    break
        if len(chk.samples) < 3:
            s = runs[-1].text[-1]
            chk.samples.append({k: (v if k != "out" else v[:300]) for k, v in s.items()})
        if chk.left() < (time.monotonic() - t) * 0.9:
            break
