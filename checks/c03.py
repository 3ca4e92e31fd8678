"""C03: the text of a unit parses back to the same unit."""
from collections import Counter

from vlib import refgrammar
from vlib.mc import V, obs, show
from . import lang

G = refgrammar.frozen()


def meaning(ast, sign=1, out=None):
    """Expression up to associativity and bracketing: factor -> exponent, in a canonical form."""
    top = out is None
    if top:
        out = Counter()
    k = ast[0]
    if k == "mul":
        meaning(ast[1], sign, out)
        meaning(ast[2], sign, out)
    elif k == "div":
        meaning(ast[1], sign, out)
        meaning(ast[2], -sign, out)
    elif k == "pow":
        meaning(ast[1], sign * ast[2], out)
    elif k == "num":
        out[("num", ast[1])] += sign
    elif k == "shift":
        ref = ast[2]
        out[("shift", meaning(ast[1]), ref[0], ref[1])] += sign
    elif k == "log":
        out[("log", ast[1], meaning(ast[2]))] += sign
    else:
        out[ast] += sign
    if top:
        return frozenset((f, e) for f, e in out.items() if e)
    return None


def batch(item):
    from pyudunits2._grammar import parse, normalize

    viols, n, states, edges = [], 0, set(), set()
    for s in lang.enumerate_space(item):
        ref = lang.ast(G, s)
        if ref is None or ref == lang.OUT_OF_RANGE:
            continue
        n += 1
        want = meaning(ref)
        states.add(want)
        o = obs(normalize, s)
        one = ("one", s)
        if o[0] != "ok" or not isinstance(o[1], str):
            viols.append(V(f"normalize:{s!r}", f"normalize({s!r}) gave {show(o)}", item=one))
            continue
        t = o[1]
        edges.add((want, t))
        back = obs(parse, t)
        if back[0] != "ok":
            viols.append(V(f"reparse:{s!r}", f"{s!r} has the text {t!r}, which parse refuses: {show(back)}", item=one))
            continue
        got = meaning(refgrammar.from_code(back[1]))
        if got != want:
            viols.append(V(f"meaning:{s!r}", f"{s!r} has the text {t!r}, which reads as {back[1]}: {sorted(map(str, got))} instead of {sorted(map(str, want))}", item=one))
            continue
        again = obs(normalize, t)
        if again[0] != "ok" or again[1] != t:
            viols.append(V(f"fixpoint:{s!r}", f"normalize({s!r}) = {t!r}, but normalize of that is {show(again)}", item=one))
    return viols, {"_items": n, "_states": states, "_edges": edges}


def tree_batch(item):
    """Expression trees as fully bracketed strings; text at parser and at unit level."""
    from pyudunits2 import UnitSystem  # noqa: F401
    from pyudunits2._grammar import parse, normalize
    from . import systems

    us = systems.tiny()
    viols, n, states = [], 0, set()
    for s in item[1]:
        n += 1
        ref = G.ast(s)
        want = meaning(ref)
        states.add(want)
        u = obs(us.unit, s)
        if u[0] != "ok":
            if u[1] == "ValueError" and ("log" in str(ref) or "shift" in str(ref)):
                continue  # nested dates and products of logarithms may be refused (C16, C11)
            viols.append(V(f"unit:{s!r}", f"unit({s!r}): {show(u)}", item=("t", [s])))
            continue
        t = obs(str, u[1])
        if t[0] != "ok" or t[1] != obs(normalize, s)[1]:
            viols.append(V(f"unittext:{s!r}", f"str(unit({s!r})) = {show(t)}, normalize gives {normalize(s)!r}", item=("t", [s])))
            continue
        got = obs(lambda: meaning(refgrammar.from_code(parse(t[1]))))
        if got[0] != "ok" or got[1] != want:
            viols.append(V(f"meaning:{s!r}", f"str(unit({s!r})) = {t[1]!r} reads as {show(got)} instead of {want}", item=("t", [s])))
            continue
        again = obs(lambda: str(us.unit(t[1])))
        if again[0] != "ok" or again[1] != t[1]:
            viols.append(V(f"again:{s!r}", f"unit of the text {t[1]!r} has the text {show(again)}", item=("t", [s])))
    return viols, {"_items": n, "_states": states}


FUNCTIONS = {"batch": batch, "tree": tree_batch}


def trees(leaves, depth):
    """All expression trees up to the depth as bracketed strings."""
    level = list(leaves)
    allt = list(leaves)
    for d in range(depth):
        new = []
        small = allt if d == 0 else allt
        for a in small:
            for b in small:
                if d and (a not in fresh and b not in fresh):
                    continue
                new.append(f"({a} {b})")
                new.append(f"({a}/{b})")
            if d and a not in fresh:
                continue
            new.append(f"({a})^2")
            new.append(f"({a})^-1")
            new.append(f"lg(re {a})")
            new.append(f"({a} @ 5)")
        fresh = set(new)
        allt = allt + new
    return allt


def main(run):
    q = run.quick
    items = lang.batches_full(3 if not q else 2)
    items += lang.batches_core([3, 4] if q else [3, 4, 5])
    items += lang.batches_num(lang.NUM_CONTEXT[:4] if q else lang.NUM_CONTEXT, 4 if q else 5)
    items += lang.batches_num(lang.NUM_CONTEXT[:1], 5)
    items += lang.batches_date(3)
    items += lang.batches_long(lang.LONG_CONTEXT)
    items += lang.batches_rep(12)
    items += lang.batches_names()
    items += lang.batches_edit(["s since "] if q else ["s since ", "(s @"], lang.SHIFT_TOKENS, 4 if q else 5)
    if q:
        items += lang.batches_sentence(7, 4)
    else:
        items += lang.batches_sentence(19, 10)
        items += lang.batches_sentence(10, 6, (" @ 5", "^2", "2", " 3", "-1"))
    run.map("batch", items, chunk=4, timeout=300)
    t = trees(["m", "s", "2"], 1)
    t = trees(["m", "2"], 2) + t if q else trees(["m", "s", "2", "-1", "0.5"], 2)
    t += [f"({a}) since 2000-01-01 12:00" for a in ("s", "2 s", "s m/m", "s/2", "hour", "(s)^1")]
    run.map("tree", [("t", t[i:i + 100]) for i in range(0, len(t), 100)], timeout=300)
    return run.finish(
        assumptions=["two expressions are the same if they have the same factors with the same exponents, shifts and logarithms (C02 ties the parser to the grammar)"],
        note="every accepted string of: <=2 (thorough 3) tokens over 54 spellings, 4 (5) over 18, numbers of <=5 characters, shift references of <=3 pieces and of <=4 (5) tokens with every edit of one token, sentences of 3 operands; numbers of up to 5000 digits and exponents up to 10^18; repetitions of 32 patterns up to 12 times; all pairs of 473 characters in names, all unicode exponents of <=4 characters; all expression trees of depth 2 over 2 (thorough 5) leaves at unit level",
    )
