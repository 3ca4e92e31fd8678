"""C25: expression graphs are immutable values, and what walks them visits everything once."""
import copy
import decimal
import pickle

from vlib.mc import V, obs, show

D = decimal.Decimal


def graph():
    from pyudunits2._expr import graph

    return graph


# A node is described by a tuple (class name, field...), fields being descriptions or plain values.
LEAVES = [
    ("Identifier", "a"), ("Identifier", "b"), ("Identifier", "2"), ("Identifier", ""),
    ("Number", 2, "2"), ("Number", 2, "2.0"), ("Number", D("2.5"), "2.5"), ("Number", -1, None),
    ("Unhandled", "a"), ("Unhandled", "2000-01-01"),
]
BIN = ["Multiply", "Divide", "Raise", "Shift"]
FUN = ["lg", "ln"]
FIELDS = {
    "Identifier": ("name",), "Number": ("value", "raw_content"), "Unhandled": ("raw_content",), "Multiply": ("lhs", "rhs"),
    "Divide": ("lhs", "rhs"), "Raise": ("lhs", "rhs"), "Shift": ("unit", "shift_from"), "Logarithm": ("function", "term"),
}
TERMINAL = ("Identifier", "Number", "Unhandled")


def level(nodes, deep=None):
    """All nodes with children among `nodes` (at least one among `deep`)."""
    out = []
    for op in BIN:
        for x in nodes:
            for y in nodes:
                if deep is None or x in deep or y in deep:
                    out.append((op, x, y))
    for f in FUN:
        out += [("Logarithm", f, x) for x in (nodes if deep is None else deep)]
    return out


def build(d):
    return getattr(graph(), d[0])(**{f: build(v) if isinstance(v, tuple) else v for f, v in zip(FIELDS[d[0]], d[1:])})


def subs(d):
    return [] if d[0] in TERMINAL else [v for v in d[1:] if isinstance(v, tuple)]


def preorder(d):
    return [d] + [x for c in subs(d) for x in preorder(c)]


def replace(d, m):
    if d in m:
        return m[d]
    if d[0] in TERMINAL:
        return d
    return (d[0],) + tuple(replace(v, m) if isinstance(v, tuple) else v for v in d[1:])


def desc(n):
    """Read back from the object."""
    c = type(n).__name__
    return (c,) + tuple(desc(v) if hasattr(v, "children") else v for v in (getattr(n, f) for f in FIELDS[c]))


def same(a, b):
    """Descriptions equal, types of the numbers included."""
    return a == b and repr(a) == repr(b)


MAPS = [
    {("Identifier", "a"): ("Identifier", "b")},
    {("Identifier", "a"): ("Identifier", "b"), ("Identifier", "b"): ("Identifier", "a")},
    {("Identifier", "a"): ("Multiply", ("Identifier", "a"), ("Number", 2, "2"))},
    {("Identifier", "2"): ("Identifier", "a"), ("Identifier", ""): ("Number", -1, None)},
    {("Identifier", "c"): ("Identifier", "a")},
    {},
]


def node(item):
    g = graph()
    d, = item
    viols = []

    def must(cond, what):
        if not cond:
            viols.append(V(f"node:{d}:{what}", f"{d}: {what}"))

    def check():
        n = build(d)
        must(same(desc(n), d), "fields are as given")
        for f in FIELDS[d[0]]:
            before = getattr(n, f)
            o = obs(setattr, n, f, "x"), obs(delattr, n, f)
            must(all(x[0] == "exc" for x in o) and getattr(n, f) is before, f"field {f} cannot be changed")
        must([desc(c) for c in n.children()] == subs(d), "children are the sub-expressions in order")
        kids = n.children()
        kids.append(None)
        must(len(n.children()) == len(subs(d)), "changing the list of children does not change the node")
        m = build(d)
        must(n == m and m == n and not (n != m) and hash(n) == hash(m), "built twice: equal, with equal hashes")
        must(len({n, m}) == 1 and {n: 1}.get(m) == 1, "built twice: one key")
        for how, k in (("copy", copy.copy(n)), ("deepcopy", copy.deepcopy(n)), ("pickle", pickle.loads(pickle.dumps(n)))):
            must(k == n and hash(k) == hash(n) and same(desc(k), d) and str(k) == str(n), how)
        for other in (str(n), None, d, d[1:], 2, n.children(), object()):
            must((n == other) is False and (n != other) is True, "never equal to a non-node")
        if d[0] in TERMINAL:
            must(n.content == d[1] and type(n.content) is type(d[1]) and str(n) == str(d[1]), "content")

        class Record(g.Visitor):
            def __init__(self):
                self.seen = []

            def generic_visit(self, x):
                self.seen.append(x)
                return super().generic_visit(x)

        r = Record()
        res = r.visit(n)
        must([desc(x) for x in r.seen] == preorder(d), "a visitor meets every node once, in order")

        def nest(x):
            return [nest(c) for c in subs(x)]

        must(res == nest(d), "a visitor returns the results of the children")
        for cls in FIELDS:
            hits, rest = [], []

            class Some(g.Visitor):
                def generic_visit(self, x):
                    rest.append(type(x).__name__)
                    return super().generic_visit(x)

            def hit(self, x, hits=hits):
                hits.append(desc(x))
                return self.generic_visit(x)

            setattr(Some, f"visit_{cls}", hit)
            Some().visit(n)
            must(hits == [x for x in preorder(d) if x[0] == cls] and len(rest) == len(preorder(d)), f"visit_{cls} is called for these nodes only")
        try:
            from pyudunits2._expr.atoms import ExtractIdentifiers
        except ImportError:
            pass
        else:
            ids = ExtractIdentifiers().visit(n)
            must(type(ids) is set and {desc(x) for x in ids} == {x for x in preorder(d) if x[0] == "Identifier"}, "identifiers")
        try:
            from pyudunits2._expr.substitute import Substitute
        except ImportError:
            pass
        else:
            for i, mp in enumerate(MAPS):
                real = {build(k): build(v) for k, v in mp.items()}
                copy_ = dict(real)
                out = Substitute(real).visit(n)
                must(same(desc(out), replace(d, mp)), f"substitution {i}")
                must(same(desc(n), d) and real == copy_, f"substitution {i} leaves the original")
        must(same(desc(n), d) and n == m, "nothing changed it")

    o = obs(check)
    if o[0] != "ok":
        viols.append(V(f"node:{d}", f"{d}: {show(o)}"))
    return viols[:3], {"_states": {repr(d)}, "_edges": {repr(d)}}


def pairs(item):
    """One node against all of the first two levels."""
    d, which = item
    viols, others = [], ALL1 if which == 1 else ALLS

    def check():
        n = build(d)
        for e in others:
            m = build(e)
            eq = d == e
            r = (n == m, m == n, n != m, m != n, m in {n})
            if r != (eq, eq, not eq, not eq, eq) or (eq and hash(n) != hash(m)):
                viols.append(V(f"pair:{d}:{e}", f"{d} and {e}: ==, ==, !=, !=, in: {r}, expected equality {eq}"))

    o = obs(check)
    if o[0] != "ok":
        viols.append(V(f"pairs:{d}", f"{d}: {show(o)}"))
    return viols[:2], {"_items": len(others), "_edges": {repr(d)}}


TEXTS = ["m", "m s", "m/s", "m2", "m^-1 s", "2.5 m", "m @ 2", "s since 2000-01-01", "lg(re m)", "(m s)^2/kg", "(m @ 2) @ 3", "ln(re (2 m/s) @ 1)", "1e3", "m·s", "-1 m", "a/(b c)", "lb(re 1 mW)^2", "s from 2000-01-01 10:00 UTC", "°C", "µm"]


def parsed(item):
    """Parsing gives nodes of these kinds only, equal for equal text, and not shared state."""
    from pyudunits2._grammar import parse

    s, t = item
    viols = []

    def check():
        a, b, c = parse(s), parse(t), parse(s)
        da = desc(a)
        if not (a == c and hash(a) == hash(c) and same(da, desc(c)) and same(da, desc(build(da))) and a == build(da)):
            viols.append(V(f"parse:{s}", f"parsing {s!r} twice: {a!r} and {c!r}"))
        if (a == b) != (da == desc(b)):
            viols.append(V(f"parse:{s}:{t}", f"parsing {s!r} and {t!r}: equality {a == b}"))

    o = obs(check)
    if o[0] != "ok":
        viols.append(V(f"parse:{s}:{t}", f"parsing {s!r} and {t!r}: {show(o)}"))
    return viols, {"_states": {s}, "_edges": {item}}


SMALL = [("Identifier", "a"), ("Number", 2, "2"), ("Unhandled", "a"), ("Identifier", "b")]
ALL1 = LEAVES + level(LEAVES)
S1 = SMALL + level(SMALL)
ALLS = S1 + level(S1, set(level(SMALL)))
FUNCTIONS = {"node": node, "pairs": pairs, "parsed": parsed}


def main(run):
    q = run.quick
    tiny = [("Identifier", "a"), ("Number", 2, "2")]
    t1 = tiny + level(tiny)
    t2 = t1 + level(t1, set(level(tiny)))
    deep = [(op, x, y) for op in BIN for x in t2 for y in t1] + [(op, y, x) for op in BIN for x in t2 for y in t1] + [("Logarithm", "lb", x) for x in t2]
    nodes = ALL1 + ALLS + ([] if q else deep)
    run.map("node", [(d,) for d in dict.fromkeys(nodes)], timeout=60)
    run.map("pairs", [(d, 1) for d in ALL1], timeout=120)
    run.map("pairs", [(d, 2) for d in (S1 if q else S1 + ALL1)], timeout=240)
    run.map("parsed", [(s, t) for s in TEXTS for t in TEXTS], timeout=60)
    return run.finish(
        note=f"every node of depth 1 over {len(LEAVES)} leaves and of depth 2 over {len(SMALL)} leaves (thorough: also depth 3 over 2, one operand of depth 1): {len(nodes)} nodes, {len(MAPS)} substitutions each; all {len(ALL1)}^2 pairs of depth 1 and all pairs of a depth 1 node with the {len(ALLS)} of depth 2; {len(TEXTS)}^2 pairs of parsed texts",
        assumptions=["nodes are built with keyword arguments named as the fields"],
    )
