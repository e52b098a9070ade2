"""C04: boolean search expressions."""
import itertools
import searches
from scen import Scen
from gen import Ctx

RULE = ("all short sequences of the tokens {three tests, AND, OR, NOT, ( and )} on a world where the tests take every combination of "
        "true, false and missing, and random longer expressions over attributes of all types and costs; non-trivial: something was "
        "reported or the expression was rejected")


def truth_world(chk):
    """Files for every combination of the values of the three tests (true, false or missing)."""
    w = chk.lab.world()
    k = 0
    for a in (None, 1, 2):
        for b in (None, "a", "b"):
            for c in "ax":
                n = f"{c}{k}"
                k += 1
                w.file(n, b"")
                if a is not None:
                    w.set_values(n, "vslow", {"xnum": a})
                if b is not None:
                    w.set_values(n, "vfast", {"uniq": b})
    chk.lab.seal(w)
    return w


def clear(x):
    """No dangling or doubled AND: what that means is not specified."""
    return all(t != "AND" or 0 < i < len(x) - 1 and x[i - 1] not in ("AND", "OR", "NOT", "(") and x[i + 1] not in ("AND", "OR", ")")
               for i, t in enumerate(x))


def balanced(x):
    d = 0
    for t in x:
        d += (t == "(") - (t == ")")
        if d < 0:
            return False
    return d == 0


def run(chk):
    chk.laws("expr", "exprbad")
    g = chk.g
    w = truth_world(chk)
    T = ["vslow.xnum=1", "uniq=a", "name~^a"]
    alphabet = ["t", "AND", "OR", "NOT", "(", ")"]
    seqs = [x for n in (1, 2, 3, 4) for x in itertools.product(alphabet, repeat=n) if clear(x)]
    longest = [x for n in (5, 6) for x in itertools.product(alphabet, repeat=n) if clear(x) and (balanced(x) or g.chance(0.1))]

    def spell(t):
        if t in ("AND", "OR", "NOT"):
            return g.pick(t, t.lower(), t.capitalize())
        if t == "(":
            return g.pick("(", "{{")
        if t == ")":
            return g.pick(")", "}}")
        return t

    def make(x):
        k = g.r.randrange(3)            # which tests: one after the other
        words = []
        for t in x:
            words.append(T[k % 3] if t == "t" else spell(t))
            k += t == "t"
        return Scen(w.num, ["-j", "1", "--no-cache"] + words, opt=g.chance(0.2), tag="tokens")
    chk.family("token sequences of length 1-4", seqs, make, 1000, share=0.7)
    chk.family("token sequences of length 5-6, balanced or a tenth of the others", longest, make, 250, share=0.5)

    # the same tests in two operands
    ops = [x.split() for x in ("0", "NOT 0", "( 0 )", "NOT ( 0 )", "( 0 OR 1 )", "NOT ( 0 OR 1 )", "( 0 1 )", "NOT ( 0 1 )", "( NOT 0 )", "( NOT 0 OR 1 )", "1", "NOT 1", "( 1 )", "( 1 OR 0 )")]
    again = [x + o + y for x in ops for o in ([], ["OR"]) for y in ops]

    def twice(x):
        k, d = g.r.randrange(3), g.pick(1, 2)
        return Scen(w.num, ["-j", "1", "--no-cache"] + [T[(k + d * int(t)) % 3] if t in "01" else spell(t) for t in x], opt=g.chance(0.2), tag="tokens")
    chk.family("the same tests in two operands", again, twice, 400, share=0.5)

    def longer(_=None):
        """A random longer sequence that is nearly well-formed."""
        toks = []

        def expr(d):
            for i in range(g.pick(1, 1, 2, 3)):
                if i:
                    toks.append(g.pick("OR", "OR", "AND"))
                for j in range(g.pick(1, 1, 2, 3)):
                    if j and g.chance(0.3):
                        toks.append("AND")
                    if g.chance(0.3):
                        toks.append("NOT")
                    if d and g.chance(0.45):
                        toks.append("(")
                        expr(d - 1)
                        toks.append(")")
                    else:
                        toks.append(g.pick(T))
        expr(g.pick(1, 2, 2, 3))
        if g.chance(0.25):
            i = g.r.randrange(len(toks) + 1)
            if g.chance(0.5):
                toks.insert(i, g.pick("(", ")", "AND", "OR", "NOT"))
            elif toks:
                del toks[min(i, len(toks) - 1)]
        return toks if toks and clear(toks) else [T[0], "OR", "NOT", T[1]]
    chk.family("longer token sequences", [longer() for _ in range(250 if chk.quick else 6000)], make, 250, share=0.4)

    def worlds():
        return chk.worlds(6, sizes=(15, 30), values=0.7, odd=0.2)

    def one(ctx):
        E = dict(expr=1, nexpr=[2, 3, 4, 5, 6, 8], bad=0.04, exclude=0.05, output=0, all=0, sort=0.05, limit=0, dirs=0.05, ffopts=0.1,
                 mode={"console": 6, "count": 1, "jsonl": 1}, api=0.1, kinds=["str", "num", "type", "bool", "mode", "plug", "plug", "plug"])
        return searches.api(g, ctx, E) if g.chance(0.1) else searches.search(g, ctx, E)
    chk.explore(one, worlds, n=400 if chk.quick else 900)
