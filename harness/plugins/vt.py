"""Plugins with one attribute of every type and every speed; their values are looked up by inode in a
file the scenario provides, so the specification knows them exactly."""
import os, json, time

from libff.plugin import *

_data = None


def _load():
    global _data
    if _data is None:
        path = os.environ.get("VERIF_PLUGDATA")
        _data = {}
        if path:
            with open(path) as f:
                _data = json.load(f)
    return _data


def _values(plugin, entry):
    return _load().get(f"{entry.device}:{entry.inode}", {}).get(plugin, {})


def _log(kind, plugin, entry):
    path = os.environ.get("VERIF_PLUGLOG")
    if path:
        line = json.dumps([kind, plugin, [ord(c) for c in entry.abspath], os.getpid()]) + "\n"
        fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666)
        try:
            os.write(fd, line.encode())
        finally:
            os.close(fd)


ATTRS = [("xstr", String, "s"), ("xpath", Path, "s"), ("xnum", Number, "s"), ("xsize", Size, "s"),
         ("xdur", Duration, "s"), ("xtime", Time, "s"), ("xmode", Mode, "s"), ("xbool", Boolean, "s"),
         ("xftype", FileType, "s"), ("xlist", ListOfStrings, "s")]


class Base(object):
    def can_handle(self, entry):
        return bool(_values(self.name, entry))

    def process(self, entry, cached):
        v = _values(self.name, entry)
        if v.get("delay"):
            time.sleep(v["delay"])
        if v.get("raise"):
            raise RuntimeError("planned failure")
        if v.get("nodata"):
            raise NoData
        _log("process", self.name, entry)
        for k, x in v.items():
            if k not in ("delay", "raise", "nodata"):
                yield k, x


class VFast(Base, Plugin):
    """Fast test plugin."""
    speed = Speed.FAST
    attributes = ATTRS + [("uniq", String, "u")]


class VNorm(Base, Plugin):
    """Test plugin."""
    speed = Speed.NORMAL
    attributes = ATTRS + [("unum", Number, "u")]


class VSlow(Base, Plugin):
    """Slow test plugin."""
    speed = Speed.SLOW
    attributes = ATTRS + [("ulist", ListOfStrings, "u")]


class VCache(Plugin):
    """Caching test plugin: the first line of the file and its length."""
    speed = Speed.SLOW
    use_cache = True
    cache_tag = 7
    attributes = [("cval", String, "v"), ("cnum", Number, "n")]

    def can_handle(self, entry):
        return entry.is_file()

    def cache(self, entry):
        _log("cache", "vcache", entry)
        with open(entry.path, "rb") as f:
            data = f.read()
        if data[:4] == b"NONE":
            raise NoData
        return {"v": data.split(b"\n")[0].decode("utf-8", "surrogateescape"), "n": len(data)}

    def process(self, entry, cached):
        _log("process", "vcache", entry)
        yield "cval", cached["v"]
        yield "cnum", cached["n"]
