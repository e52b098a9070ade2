"""The search protocol: configurations of Par.tla, behaviours of the specification, and trees to replay them on."""
import os, re, json
import tlc
from runner import MachineryError


def cfg(lab, tree="3", mode="collect", chunk=10, proto="count", faults=0, workers=2, live=True, sim=False):
    path = os.path.join(lab.scratch.new("cfg"), "Par.cfg")
    with open(path, "w") as f:
        f.write(f"""SPECIFICATION {"SimSpec" if sim else "Spec"}
CONSTANTS
 Workers = {{{', '.join(str(i + 1) for i in range(workers))}}}
 Dirs <- {"JDirs" if tree == "J" else "D" + tree}
 Sub <- {"JTree" if tree == "J" else "T" + tree}
 Root = "r"
 Mode = "{mode}"
 Chunk = {chunk}
 Proto = "{proto}"
 Faults = {faults}
INVARIANT Safe
""")
        if live and not sim:
            f.write("PROPERTY Ends\n")
    return path


def check(chk, tree, mode, chunk, proto, faults, workers, live=True, expect="ok", par=4, timeout=500):
    chk.model("ParMC.tla", cfg(chk.lab, tree, mode, chunk, proto, faults, workers, live), expect=expect, workers=par, timeout=timeout, heap="6g",
              label=f"tree {tree}, {mode}, chunks of {chunk}, rules {proto}, {faults} faults, {workers} workers")


SAFE = "Invariant Safe is violated"
LIVE = "Temporal propert"


def behaviours(chk, tree, mode, workers, num, seed, chunk=10):
    """Behaviours of the specification for a tree (directory -> list of sub-directories): sequences of (process, event)."""
    d = chk.lab.scratch.new("b")
    with open(d + "/tree", "w") as f:
        json.dump(tree, f)
    c = cfg(chk.lab, "J", mode, chunk, workers=workers, sim=True)
    code, out = tlc.tlc("ParTree.tla", c, d + "/m", {"TREE": d + "/tree"}, args=("-simulate", f"num={num}", "-depth", "2000", "-seed", str(seed)))
    B = [json.loads(json.loads('"' + x + '"')) for x in re.findall(r'<<"BEHAVIOUR", "(.*)">>', out)]
    if len(B) < num * 0.8:
        raise MachineryError("no behaviours: " + out[-2000:])
    m = re.search(r"The number of states generated: (\d+)", out)
    chk.states += 0
    chk.notes["simulated states"] = chk.notes.get("simulated states", 0) + int(m[1])
    return B


def times(b, step):
    """The moments of the events of a behaviour: {"process:site:k": ms}"""
    n = {}
    out = {}
    for i, (p, s) in enumerate(b):
        k = n[(p, s)] = n.get((p, s), 0) + 1
        out[f"{p}:{s}:{k}"] = round((i + 1) * step, 1)
    return out


def random_tree(g, size):
    """A random tree of directories named d0, d1, …; the root is r."""
    names = ["r"] + [f"d{i}" for i in range(size)]
    sub = {n: [] for n in names}
    for i in range(1, len(names)):
        k = g.pick(0, 1, 2)
        p = names[g.r.randrange(i)] if k else names[max(0, i - g.pick(1, 1, 2))]
        sub[p].append(names[i])
    return sub


def build(w, sub, files=0, g=None):
    """Make the directories in the world (and some files)."""
    where = {"r": ""}
    todo = ["r"]
    while todo:
        d = todo.pop()
        for c in sub[d]:
            where[c] = (where[d] + "/" if where[d] else "") + c
            w.mkdir(where[c])
            todo.append(c)
        for i in range(files if g is None else g.r.randrange(files + 1)):
            w.file((where[d] + "/" if where[d] else "") + f"f{i}")
    return where
