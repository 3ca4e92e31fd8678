"""Bounded enumeration of unit expressions (as strings)."""
import itertools


def combine(left, right, ops):
    return [op.format(a=a, b=b) for a in left for b in right for op in ops]


def unary(terms, ops):
    return [op.format(a=a) for a in terms for op in ops]


BIN = ["({a} {b})", "({a}/{b})"]
BIN_TEXT = ["{a} {b}", "{a}/{b}", "{a}.{b}", "{a} per {b}"]
UN = ["({a})^2", "({a})^-1", "({a})^3", "({a})^0", "({a})^1"]
UN_LOG = ["lg(re {a})", "ln(re {a})"]
UN_SHIFT = ["({a} @ 5)", "({a} @ -2.5)"]


def trees(atoms, depth, binops=BIN, unops=UN + UN_LOG[:1] + UN_SHIFT[:1], both=False):
    """Atoms, and every operator applied up to `depth` times deep.

    With both=False one operand of a binary operator is an atom."""
    out, prev = list(atoms), list(atoms)
    for _ in range(depth):
        new = unary(prev, unops)
        if both:
            new += combine(prev, out, binops) + combine([o for o in out if o not in set(prev)], prev, binops)
        else:
            new += combine(prev, atoms, binops)
            new += combine(atoms, [p for p in prev if p not in set(atoms)], binops)
        prev = list(dict.fromkeys(new))
        out = list(dict.fromkeys(out + prev))
    return out


WIDE = ["m", "kg", "s", "K", "A", "rad", "sym"]


def vectors(names=WIDE, exps=(0, 1, -1), least=4, most=99):
    """Every way of giving the names exponents, at least `least` of them not 0."""
    out = []
    for v in itertools.product(exps, repeat=len(names)):
        if least <= sum(1 for x in v if x) <= most:
            out.append(tuple(zip(names, v)))
    return out


def spell(vector, form):
    """One product of powers, written out in different ways."""
    v = [(n, e) for n, e in vector if e]
    if form == "reversed":
        v.reverse()
    if form in ("product", "reversed"):
        return " ".join(n if e == 1 else f"{n}^{e}" for n, e in v)
    if form == "spread":  # every power as repeated factors, taking turns
        out, left = [], [[n, e] for n, e in v]
        while left:
            for x in left:
                out.append(x[0] if x[1] > 0 else x[0] + "^-1")
                x[1] -= 1 if x[1] > 0 else -1
            left = [x for x in left if x[1]]
        return "·".join(out)
    up = [n if e == 1 else f"{n}{e}" for n, e in v if e > 0] or ["1"]
    down = [n if e == -1 else f"{n}{-e}" for n, e in v if e < 0]
    if form == "slashes":
        return ".".join(up) + "".join("/" + d for d in down)
    if form == "fraction":
        return f"({' '.join(up)})/({' '.join(down)})" if down else f"({' '.join(up)})"
    if form == "inverse":
        return f"(({' '.join(down or ['1'])})/({' '.join(up)}))^-1"
    raise ValueError(form)


SPELLINGS = ["product", "reversed", "slashes", "fraction", "inverse", "spread"]


def wide(names=WIDE, exps=(0, 1, -1), least=4, most=99, forms=SPELLINGS):
    return [spell(v, f) for v in vectors(names, exps, least, most) for f in forms]


def long(names, lengths, joins=(" ", "/", "·")):
    """Products and quotients of many factors, cycling through the names."""
    out = []
    for n in lengths:
        for j in joins:
            for k in range(len(names)):
                out.append(j.join(names[(k + i) % len(names)] for i in range(n)))
        for name in names:
            out += [f"{name}^{n}", f"{name}^-{n}", f"({name}^{n})^-1", "(" * n + name + ")" * n, name + "^1" * 1 + f" {name}^{n}"]
            x = name
            for _ in range(n):
                x = f"({x})^-1"
            out.append(x)
            x = name
            for i in range(n):
                x = f"{names[i % len(names)]}/({x})"
            out.append(x)
    return out
