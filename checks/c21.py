"""C21: expanding a product collects factors without changing its value."""
import itertools
from decimal import Decimal
from fractions import Fraction

from vlib.mc import V, obs, show

LEAVES = [("id", "a"), ("id", "b"), ("num", 2), ("num", 3), ("num", "0.5"), ("num", -1)]
MORE = [("id", "c"), ("num", 1), ("num", "1.5"), ("num", "2"), ("num", "1e3"), ("num", 6)]
EXPS = (-2, -1, 0, 1, 2, 3)


def node(t):
    from pyudunits2._expr import graph as g

    k = t[0]
    if k == "id":
        return g.Identifier(t[1])
    if k == "num":
        v = t[1]
        return g.Number(Decimal(v) if isinstance(v, str) else v, raw_content=str(v))
    if k == "pow":
        return g.Raise(node(t[1]), g.Number(t[2], raw_content=str(t[2])))
    return {"mul": g.Multiply, "div": g.Divide, "shift": g.Shift}[k](node(t[1]), node(t[2]))


def value(t):
    """(factor, {identifier: exponent})"""
    k = t[0]
    if k == "id":
        return Fraction(1), {t[1]: 1}
    if k == "num":
        return Fraction(t[1]), {}
    if k == "pow":
        f, e = value(t[1])
        return f ** t[2], {i: n * t[2] for i, n in e.items()}
    f, e = value(t[1])
    h, d = value(t[2])
    s = 1 if k == "mul" else -1
    e = dict(e)
    for i, n in d.items():
        e[i] = e.get(i, 0) + s * n
    return f * h**s, e


def read(n, out):
    """The factors of an expansion: [(leaf, exponent)]."""
    from pyudunits2._expr import graph as g

    if isinstance(n, g.Multiply):
        read(n.lhs, out)
        read(n.rhs, out)
    elif isinstance(n, g.Raise):
        if not isinstance(n.lhs, (g.Identifier, g.Number)) or not isinstance(n.rhs, g.Number):
            raise ValueError(f"no simple power: {n!r}")
        if isinstance(n.rhs.content, str) or n.rhs.content != int(n.rhs.content):
            raise ValueError(f"exponent {n.rhs!r}")
        out.append((n.lhs, int(n.rhs.content)))
    elif isinstance(n, (g.Identifier, g.Number)):
        out.append((n, 1))
    else:
        raise ValueError(f"a {type(n).__name__} in the expansion: {n}")
    return out


def text(t):
    k = t[0]
    if k in ("id", "num"):
        return str(t[1])
    if k == "pow":
        return f"({text(t[1])})^{t[2]}"
    return f"({text(t[1])}{'·' if k == 'mul' else '/' if k == 'div' else ' @ '}{text(t[2])})"


def one(t):
    from pyudunits2._expr import graph as g
    from pyudunits2._expr.expander import Expander

    n = node(t)
    key = text(t)
    o = obs(lambda: Expander().visit(n))
    if o[0] != "ok":
        return [V(key, f"expanding {text(t)}: {show(o)}")], {}
    if n != node(t):
        return [V(key, f"expanding {text(t)} changed it")], {}
    if t[0] != "shift":
        return product(key, t, o[1])
    # A shift as the last operation: unit and origin are expanded, each for itself.
    if not isinstance(o[1], g.Shift):
        return [V(key, f"{key} expands to {o[1]}, which is no shift")], {}
    v, c = product(key, t[1], o[1].unit)
    w, d = product(key, t[2], o[1].shift_from)
    return v + w, {"_states": {("shift", x, y) for x in c.get("_states", ()) for y in d.get("_states", ())}}


def product(key, t, n):
    from pyudunits2._expr import graph as g

    f, e = value(t)
    e = {i: n for i, n in e.items() if n}
    o = ("ok", n)
    r = obs(read, n, [])
    if r[0] != "ok":
        return [V(key, f"{text(t)} expands to {o[1]}: {show(r)}")], {}
    got, names, twice = Fraction(1), {}, False
    for leaf, x in r[1]:
        if isinstance(leaf, g.Identifier):
            twice |= leaf.name in names
            names[leaf.name] = names.get(leaf.name, 0) + x
        else:
            got *= Fraction(leaf.content) ** x
    viols = []
    if {i: x for i, x in names.items() if x} != e or got != f:
        viols.append(V(key, f"{text(t)} expands to {o[1]}: factor {got} and exponents {names}, expected {f} and {e}"))
    elif twice or names != e:
        viols.append(V(key, f"{text(t)} expands to {o[1]}, where an identifier occurs twice or has cancelled"))
    return viols, {"_states": {(f, tuple(sorted(e.items())))}}


def batch(item):
    viols, st, ed, n = [], set(), set(), 0
    for t in gen(item):
        v, c = one(t)
        n += 1
        viols += v
        ed.add(t)
        st |= c.get("_states", set())
        if len(viols) > 5:
            break
    for v in viols:
        v["fn"] = "batch"
    return viols[:5], {"_items": n, "_states": st, "_edges": ed}


def gen(item):
    kind, *a = item
    if kind == "flat":
        # A product or quotient of powers: first term fixed, the others in all ways.
        first, n, leaves, exps = a
        terms = [("pow", l, x) if x != 1 else l for l in leaves for x in exps]
        for rest in itertools.product([(o, t) for o in ("mul", "div") for t in terms], repeat=n):
            t = first
            for o, u in rest:
                t = (o, t, u)
            yield t
    elif kind == "right":
        first, n, leaves, exps = a
        terms = [("pow", l, x) if x != 1 else l for l in leaves for x in exps]
        for rest in itertools.product([(o, t) for o in ("mul", "div") for t in terms], repeat=n):
            t = first
            for o, u in rest:
                t = (o, u, t)
            yield t
    elif kind == "shift":
        x, leaves, exps = a
        for y in trees(leaves, exps):
            yield ("shift", x, y)
    else:
        # op(pow(x), pow(y)) for all trees x and y of depth 1
        x, leaves, exps = a
        ys = trees(leaves, exps)
        for y in ys:
            for o in ("mul", "div"):
                for k in (1, -1, 2):
                    t = (o, x, y)
                    yield ("pow", t, k) if k != 1 else t
                    yield (o, ("pow", x, 2), ("pow", y, k))


def trees(leaves, exps):
    out = list(leaves) + [("pow", l, x) for l in leaves for x in exps]
    out += [(o, l, m) for l in leaves for m in leaves for o in ("mul", "div")]
    return out + [("pow", (o, l, m), x) for l in leaves for m in leaves for o in ("mul", "div") for x in exps if x != 1]


def replay_one(item):
    return one(item)


FUNCTIONS = {"one": one, "batch": batch}


def main(run):
    q = run.quick
    L = tuple(LEAVES)
    M = tuple(LEAVES + MORE)
    terms = [("pow", l, x) if x != 1 else l for l in L for x in EXPS]
    items = [("flat", t, n, L, EXPS) for t in terms for n in (1, 2)]
    items += [("right", t, 2, L, EXPS) for t in terms]
    items += [("flat", t, 2, M, (1, -1)) for t in M]
    few = (("id", "a"), ("id", "b"), ("num", 2), ("num", 3))
    items += [("flat", t, 3, few, (1, -1, 2)) for t in few]
    items += [("flat", t, 4, few[:3], (1, -1)) for t in few[:3]]
    if not q:
        items += [("flat", ("mul", u, t), 3, few, (1, -1, 2)) for t in few for u in few]
        items += [("flat", t, 6, few[:2], (1, -1)) for t in few[:2]]
    items += [("pairs", x, few[:3] if q else L, (-1, 2, 0) if q else EXPS) for x in trees(few[:3] if q else L[:4], (-1, 2, 0))]
    items += [("shift", x, few[:3] if q else L, (-1, 2, 0)) for x in trees(L, (-1, 2, 0))]
    run.map("batch", items, timeout=600, chunk=1)
    run.map("one", [t for t in trees(M, EXPS)])
    return run.finish(
        note="all products and quotients of up to 3 powers over 6 leaves x 6 exponents (left and right nested), up to 5 (thorough 7) over fewer, all pairs of depth-1 trees under products, quotients, powers and a last shift",
        assumptions=["a number to the power -1 may stay as such; numbers need not be combined"],
    )
