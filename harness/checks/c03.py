"""C03: exclusion prunes subtrees."""
import os
import searches

RULE = ("random trees and command lines dominated by -e, -H, -I, depth ranges and --one-file-system, with a log of the directories "
        "whose contents are read; non-trivial: something was reported")


def other_fs(chk, w):
    """A symbolic link to a directory on another file system."""
    if not os.path.isdir("/dev/shm") or not os.access("/dev/shm", os.W_OK):
        return
    from runner import Scratch
    if not hasattr(chk, "shm"):
        chk.shm = Scratch("/dev/shm")
    if os.stat(chk.shm.dir).st_dev == os.stat(w.root).st_dev:
        return
    d = chk.shm.new("o")
    for n in ("a", "sub/b.txt", "sub/deep/c", ".h"):
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").close()
        os.utime(p, (1900000000, 1600000000))
    for x, _, _ in os.walk(d):
        os.utime(x, (1900000000, 1600000000))
    w.extra.append(os.fsencode(d))
    dirs = [x for x, _, _ in os.walk(w.root)]
    try:
        p = os.path.join(chk.g.pick(dirs), b"otherfs")
        os.symlink(d, p)
        os.utime(p, (1900000000, 1600000000), follow_symlinks=False)
    except OSError:
        pass


def run(chk):
    g = chk.g

    def prepare(w):
        if g.chance(0.5):
            g.ignore_files(w, g.pick(1, 2, 3))
        if g.chance(0.5):
            other_fs(chk, w)

    def worlds():
        return chk.worlds(8, sizes=(12, 25, 40), prepare=prepare, odd=0.2, hidden=0.2, values=0.3)

    def one(ctx):
        E = dict(exclude=0.55, hide=0.3, ignore=0.2, depth=0.35, onefs=0.2, follow=0.3, dirs=0.4, expr=0.4, nexpr=[1, 1, 2], output=0.05,
                 sort=0.15, limit=0, print0=0.4, all=0, case=0.1, mode={"console": 7, "jsonl": 2, "count": 1})
        s = searches.search(g, ctx, E)
        s.scan = not any("empty" in a or "nosuch" in a for a in s.argv)
        return s
    chk.explore(one, worlds)
