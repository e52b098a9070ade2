"""File system trees: building them and taking the snapshots the specification works on."""
import os, stat, time, json, pwd, grp, socket
from runner import cps


def digits(n):
    d = [int(c) for c in str(abs(n))] if n else []
    return [-1] + d if n < 0 else d


def mounts():
    out = []
    with open("/proc/mounts") as f:
        for line in f:
            dev, path, fstype, _ = line.split(None, 3)
            out.append((path.rstrip("/") + "/", dev, fstype))
    return sorted(out, reverse=True)


TYPES = [(stat.S_ISDIR, "directory"), (stat.S_ISREG, "file"), (stat.S_ISLNK, "symlink"), (stat.S_ISSOCK, "socket"),
         (stat.S_ISFIFO, "fifo"), (stat.S_ISCHR, "char"), (stat.S_ISBLK, "block")]


class World:
    """A tree below `root` (bytes path).  Plugin values are assigned with set_values()."""

    def __init__(self, root, tz=0):
        self.root = os.fsencode(root)
        self.values = {}                # (dev, ino) -> {plugin: {attr: value}}
        self.tz = tz
        self.now = int(time.time())
        self.extra = []                 # further roots (e.g. on another file system)
        self.plugdata = None

    def p(self, rel):
        return os.path.join(self.root, rel if isinstance(rel, bytes) else rel.encode("utf-8", "surrogateescape"))

    # -- building
    def mkdir(self, rel):
        os.makedirs(self.p(rel), exist_ok=True)

    def file(self, rel, data=b"", size=None):
        p = self.p(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
            if size is not None:
                try:
                    f.truncate(size)
                except OSError:
                    f.truncate(min(size, 1 << 20))

    def link(self, rel, target):
        p = self.p(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        os.symlink(target, p)

    def fifo(self, rel):
        os.mkfifo(self.p(rel))

    def sock(self, rel):
        p = self.p(rel)
        s = socket.socket(socket.AF_UNIX)
        cwd = os.open(".", os.O_RDONLY)
        try:
            if len(p) < 100:
                s.bind(p)
        finally:
            os.close(cwd)
            s.close()

    def set_values(self, rel, plugin, vals, follow=False):
        st = os.stat(self.p(rel), follow_symlinks=follow)
        self.values.setdefault((st.st_dev, st.st_ino), {}).setdefault(plugin, {}).update(vals)

    def write_plugdata(self, path):
        with open(path, "w") as f:
            json.dump({f"{d}:{i}": v for (d, i), v in self.values.items()}, f)
        self.plugdata = path

    # -- snapshot
    def snapshot(self, cwd, readable=None):
        """The world record for the specification."""
        mnts = mounts()
        nodes = []

        def values(st):
            out = []
            for plugin, vals in self.values.get((st.st_dev, st.st_ino), {}).items():
                if "nodata" in vals:
                    continue
                for a, v in vals.items():
                    if a in ("delay", "raise", "nodata"):
                        continue
                    out.append({"a": f"{plugin}.{a}", "v": jvalue(v, a)})
            return out

        def add(path, name, parent):
            st = os.lstat(path)
            ty = next((t for f, t in TYPES if f(st.st_mode)), "other")
            n = len(nodes) + 1
            ap = path.decode("utf-8", "surrogateescape")
            mp, dn, ft = next(((m, d, f) for m, d, f in mnts if (ap.rstrip("/") + "/").startswith(m)), ("/", "root_device", "rootfs"))
            try:
                us = pwd.getpwuid(st.st_uid)[0]
            except KeyError:
                us = ""
            try:
                gr = grp.getgrgid(st.st_gid)[0]
            except KeyError:
                gr = ""
            if ty == "directory":
                par = os.lstat(os.path.dirname(path) or b"/")
                mo = path == b"/" or par.st_dev != st.st_dev
            else:
                mo = False
            tx = []
            if ty == "file" and name.endswith(b"ignore") and st.st_size < 65536:
                with open(path, "rb") as f:
                    tx = [[cps(l) for l in f.read().split(b"\n")]]
            lk = [cps(os.readlink(path))] if ty == "symlink" else []
            node = {"n": cps(name), "u": parent, "k": [], "ty": ty, "md": st.st_mode, "sz": digits(st.st_size),
                    "mt": digits(int(st.st_mtime)), "ct": digits(int(st.st_ctime)), "at": digits(int(st.st_atime)),
                    "ln": digits(st.st_nlink), "ui": digits(st.st_uid), "gi": digits(st.st_gid), "dv": digits(st.st_dev),
                    "in": digits(st.st_ino), "us": cps(us), "gr": cps(gr), "lk": lk, "sc": True,
                    "ex": bool(lk) and os.path.exists(path), "mo": mo, "mp": cps(mp), "dn": cps(dn), "ft": cps(ft),
                    "tx": tx, "xs": values(st)}
            nodes.append(node)
            if parent:
                nodes[parent - 1]["k"].append(n)
            return n

        index = {b"/": add(b"/", b"", 0)}

        def chain(path):
            if path in index:
                return index[path]
            up = chain(os.path.dirname(path))
            index[path] = add(path, os.path.basename(path), up)
            return index[path]

        def tree(path):
            i = chain(path)
            if nodes[i - 1]["ty"] == "directory":
                if readable is not None and not readable(path):
                    nodes[i - 1]["sc"] = False
                for name in sorted(os.listdir(path)):
                    tree(os.path.join(path, name))

        for r in [self.root] + self.extra:
            tree(os.path.realpath(r))
        return {"base": cps("/"), "nodes": nodes, "cwd": cps(cwd), "env": {"now": self.now, "tz": self.tz},
                "uid": [], "gid": [], "flt": []}


def jvalue(v, attr):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v if attr == "xmode" else digits(v)
    if isinstance(v, list):
        return [cps(x) for x in v]
    return cps(v)
