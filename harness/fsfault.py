"""File system operations that fail, and changes of the file system at chosen moments, inside of the ff process.

io:  {"call": c, "path": p, "errno": e}    the operation c on the absolute path p fails
     c: scandir (opening a directory), next (reading on in a directory, after `after` entries), stat (status of an entry),
        readlink, realpath (any path component), open (opening a file), read (reading an open file, after `after` reads),
        access (os.path.exists & co.)
act: {"call": c, "path": p, "do": [op, ...]}    just before the first such operation, op is carried out
"""
import os, io, errno as errnos, builtins, shutil

IO = {}
ACT = {}


def ab(p):
    if isinstance(p, int):
        return None
    return os.path.abspath(os.fsdecode(p)) if not isinstance(p, os.DirEntry) else os.path.abspath(p.path)


def op(o):
    k = o[0]
    try:
        if k == "rm":
            os.unlink(o[1])
        elif k == "rmtree":
            shutil.rmtree(o[1], ignore_errors=True)
        elif k == "rmdir":
            os.rmdir(o[1])
        elif k == "chmod":
            os.chmod(o[1], o[2])
        elif k == "mkdir":
            os.mkdir(o[1])
        elif k == "file":
            with real_open(o[1], "w") as f:
                f.write("x")
        elif k == "mv":
            os.rename(o[1], o[2])
    except OSError:
        pass


def before(call, p):
    p = ab(p)
    if p is None:
        return
    for o in ACT.pop((call, p), ()):
        op(o)
    e = IO.get((call, p))
    if e is not None and call not in ("next", "read"):
        raise OSError(e, os.strerror(e), p)


class DirEntryProxy:
    def __init__(self, d):
        self._d = d
        self.name = d.name
        self.path = d.path

    def __fspath__(self):
        return self._d.path

    def stat(self, *, follow_symlinks=True):
        before("stat", self.path)
        return self._d.stat(follow_symlinks=follow_symlinks)

    def inode(self):
        return self._d.inode()

    def is_dir(self, *, follow_symlinks=True):
        return self._d.is_dir(follow_symlinks=follow_symlinks)

    def is_file(self, *, follow_symlinks=True):
        return self._d.is_file(follow_symlinks=follow_symlinks)

    def is_symlink(self):
        return self._d.is_symlink()


class ScanProxy:
    def __init__(self, it, path, wrap):
        self.it, self.path, self.n = it, path, 0
        self.wrap = wrap

    def __iter__(self):
        return self

    def __next__(self):
        e = IO.get(("next", self.path))
        if e is not None and self.n >= AFTER.get(("next", self.path), 0):
            raise OSError(e, os.strerror(e), self.path)
        self.n += 1
        d = next(self.it)
        if not isinstance(d.name, str):
            return d
        for o in ACT.pop(("next", os.path.join(self.path, d.name)), ()):
            op(o)
        return DirEntryProxy(d)

    def close(self):
        self.it.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.it.close()


AFTER = {}
real_open = builtins.open


def install(cfg):
    for r in cfg.get("io") or ():
        IO[(r["call"], r["path"])] = r["errno"]
        if "after" in r:
            AFTER[(r["call"], r["path"])] = r["after"]
    for r in cfg.get("act") or ():
        ACT.setdefault((r["call"], r["path"]), []).extend(r["do"])

    scandir, stat, lstat, readlink, listdir = os.scandir, os.stat, os.lstat, os.readlink, os.listdir

    def fscandir(p=".", *a, **k):
        before("scandir", p)
        it = scandir(p, *a, **k)
        return ScanProxy(it, ab(p), None) if isinstance(p, str) else it
    os.scandir = fscandir

    def flistdir(p=".", *a, **k):
        before("scandir", p)
        return listdir(p, *a, **k)
    os.listdir = flistdir

    def fstat(p, *a, **k):
        if not isinstance(p, int):
            before("stat", p)
        return stat(p, *a, **k)
    os.stat = fstat

    def flstat(p, *a, **k):
        before("stat", p)
        return lstat(p, *a, **k)
    os.lstat = flstat

    def freadlink(p, *a, **k):
        before("readlink", p)
        return readlink(p, *a, **k)
    os.readlink = freadlink

    def fopen(f, mode="r", *a, **k):
        if isinstance(f, (str, bytes, os.PathLike)):
            before("open", f)
            p = ab(f)
            if ("read", p) in IO:
                return failing(real_open(f, mode, *a, **k), p)
        return real_open(f, mode, *a, **k)
    builtins.open = fopen
    io.open = fopen


def failing(fobj, p):
    """An open file whose reads fail."""
    raw = fobj
    while hasattr(raw, "buffer"):
        raw = raw.buffer
    text = raw is not fobj

    class Raw(io.RawIOBase):
        n = 0

        def readable(self):
            return True

        def seekable(self):
            return True

        def seek(self, *a):
            return raw.seek(*a)

        def tell(self):
            return raw.tell()

        def readinto(self, b):
            self.n += 1
            if self.n > AFTER.get(("read", p), 0):
                e = IO[("read", p)]
                raise OSError(e, os.strerror(e), p)
            data = raw.read(min(len(b), 16))
            b[:len(data)] = data
            return len(data)

        def fileno(self):
            return raw.fileno()

        def close(self):
            fobj.close()
            super().close()
    r = Raw()
    r.name = p
    buf = io.BufferedReader(r)
    if text:
        return io.TextIOWrapper(buf, encoding=fobj.encoding, errors=fobj.errors)
    return buf
