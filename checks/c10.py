"""C10: offset conversions: only a unit's outermost shifts count."""
from vlib import refdb, refunits, sem
from vlib.mc import V, obs, show
from vlib.refunits import U, P, System
from . import systems, exprs
from .c09 import system

VALUES = (0, 1, -40, 37.5, 1e4, -273.15)
_m = {}


def meaning(which, s):
    k = (which, s)
    if k not in _m:
        sysm, _ = system(which)
        try:
            kind, m = sysm.date(s)[:2]
            _m[k] = m if kind == "unit" and not m.odd and not m.logs and m.scale != 0 else None
        except (refunits.Unresolvable, refunits.Refused, SyntaxError):
            _m[k] = None
    return _m[k]


def convert(us, s, t, a, b, key, values=VALUES):
    from pyudunits2 import Converter

    c = obs(lambda: Converter(us.unit(s), us.unit(t)))
    if c[0] != "ok":
        return [V(f"{key}:converter", f"no converter from {s!r} to {t!r}: {show(c)}")], 0
    viols, n = [], 0
    for v in values:
        r = sem.check_conversion(c[1].convert, v, a, b, f"{key}:{v}", f"{s!r} to {t!r}")
        if r is not None:
            n += 1
            viols += r
    return viols[:2], n


def row(item):
    which, s, group = item
    sysm, us = system(which)
    a = meaning(which, s)
    viols, n, k, ed = [], 0, 0, set()
    for t in GROUPS[group]:
        v, c = convert(us, s, t, a, meaning(which, t), f"{which}:{s}:{t}")
        viols += v
        n += 1
        k += c
        ed.add((which, s, t))
        if len(viols) > 4:
            break
    return viols[:4], {"_items": n, "values_converted": k, "_edges": ed, "_states": {(which, a.key())}}


def tobase(item):
    """An expression from and to its base units, unshifted and shifted, and their reciprocal."""
    which, s = item
    sysm, us = system(which)
    a = meaning(which, s)
    if a is None:
        return [], {"_items": 0}
    base = sem.base_text(a)
    viols, k, n = [], 0, 0
    for t in (base, f"({base}) @ 7", f"1/({base})"):
        b = meaning(which, t)
        if b is None:
            continue  # a date
        for x, y, mx, my in ((s, t, a, b), (t, s, b, a)):
            v, c = convert(us, x, y, mx, my, f"{which}:{x}:{y}", (0, 2.5, -40))
            viols += v
            k += c
            n += 1
    return viols[:2], {"_items": n, "values_converted": k, "_states": {(which, a.key())}, "_edges": {item}}


BASES = [U("a", None, ("A",)), U("b", None, ("B",)), U("r", None, (), dimensionless=True)]
PRE = [P("kilo", "1e3", ("k",))]
FORMS = ["{x}", "2 {x}", "{x} @ 3", "{x} @ -1.5", "({x} @ 3)^2/a", "k{x}", "2 {x} @ 10", "({x} @ 1) @ 2", "{x}/4 @ .5", "a {x}/a", "2 ({x} @ 3)", "({x} @ 3)^1", "({x})", "({x} @ 0)", "({x} @ 4) r", "1/(1/({x} @ 6))", "{x}^1 @ 5"]


def chain(item):
    f1, f2, f3 = item
    units = [U("u", None, ("U",), definition=f1.format(x="a")), U("v", None, ("V",), [("w", "ws")], definition=f2.format(x="u"))]
    last = "v"
    if f3:
        units.append(U("x", None, definition=f3.format(x="w")))
        last = "x"
    sysm = System(BASES + units, PRE)
    us = refunits.from_system(sysm)
    viols, n, k = [], 0, 0
    for s in (last, f"{last} @ 8", f"{last}^2", f"k{last}", f"3 {last} @ 1"):
        m = sysm.meaning(s)
        base = sem.base_text(m)
        for a, b in ((s, base), (base, s)):
            v, c = convert(us, a, b, sysm.meaning(a), sysm.meaning(b), f"chain:{item!r}:{a}:{b}", (0, -2.5, 7))
            for x in v:
                x["what"] += f" with u = {units[0].definition}, v = {units[1].definition}{', x = ' + units[2].definition if f3 else ''}"
            viols += v
            n += 1
            k += c
    return viols[:2], {"_items": n, "values_converted": k, "_states": {m.key()}, "_edges": {item}}


def deep(item):
    """A long chain of definitions; and a unit shifted again and again in one text."""
    pattern, depth = item
    sysm, last = systems.deep(pattern, depth)
    us = refunits.from_system(sysm)
    viols, n, k = [], 0, 0
    texts = [last, f"{last} @ 8", f"2 ({last})"]
    if len(pattern) == 1 and "{x} @" in pattern[0]:
        s = "2 A"
        for j in range(min(depth, 24)):
            s = f"({s} @ {j + 1})" if j % 3 else f"(({s} @ -{j}.5) @ 1)"
        texts += [s, f"a ({s})/a", f"1/({s})"]
    for s in texts:
        m = sysm.meaning(s)
        base = sem.base_text(m)
        for a, b in ((s, base), (base, s)):
            v, c = convert(us, a, b, sysm.meaning(a), sysm.meaning(b), f"deep:{item!r}:{a}:{b}", (0, -2.5, 7))
            for x in v:
                x["what"] += f" at the end of a chain of {depth} definitions, {pattern}"
            viols += v
            n += 1
            k += c
    return viols[:2], {"_items": n, "values_converted": k, "_states": {m.key()}, "_edges": {item}}


FUNCTIONS = {"deep": deep, "row": row, "tobase": tobase, "chain": chain}
GROUPS = {}

UNITS = [
    "K", "kelvin", "degC", "celsius", "degree_Celsius", "°C", "degF", "°F", "°R", "warm", "hot", "twoC", "kK", "mK", "kdegC", "mdegF", "K @ 10", "K @ -10", "degC @ 10", "degF @ 0.5", "K from 10", "K since 10",
    "K after 10", "K ref 10", "K @10", "(K @ 10) @ 5", "((K @ 1) @ 2) @ 3", "hot @ 1", "(hot @ 1) @ 2", "2 degC", "degC 2", "(degC)", "degC.1", "degC^1", "degC/1", "1 degC", "twoC @ 3", "2 K @ 5", "(2 K) @ 5", "2 (K @ 5)",
    "1/K", "1/degC", "degC^-1", "degC-1", "hot^-1", "(1/K) @ 3", "1/K @ 3", "K @ 1e2", "K @ .5", "K @ -2.5e-1", "degF2/degF", "degC degF/K", "K2/degC", "m degC/m", "degC rad", "rad degC", "(degC @ 10) rad", "kK @ 3", "kdegC @ 3", "K/1.8 @ 459.67", "°R @ 459.67",
    "Pa", "kPa", "gauge", "gauge @ 1", "2 gauge", "kgauge", "Pa @ 100000", "1/gauge", "hPa", "N/m2 @ 5",
    "m", "km", "m @ 5", "km @ 5", "(km @ 5) @ 1", "ft @ 3", "(m @ 5)^2/m", "inch", "1/m", "(1/m) @ 2", "100 cm @ 5", "cm @ 100",
    "1", "2", "1 @ 5", "rad @ 1", "percent", "percent @ 3", "degree @ 90", "(rad @ 1)^2", "(1 @ 5) @ 2", "m/m @ 3", "dozen @ 1",
    "degC^2", "K^2", "(degC @ 4)^2", "degF.degC", "K2 @ 9", "degC2 @ 9", "(m @ 5)^2", "m2", "m2 @ 3", "(m @ 5)(m @ 6)", "(m2 @ 3)/(m @ 2) (m @ 1)",
    # numbers of many digits
    "K @ 1234567891", "K @ 1234567.891", "K @ 0.000001234567891", "K @ 12345678901234", "1234567891 K @ 3", "degC @ 1000000.001", "K/1234567891 @ 7", "(K @ 1234567890) @ 1", "m @ 1234567891", "0.1234567890123 m @ 1234567.1", "km @ 1000000.0001", "Pa @ 10000000001", "1 @ 1234567891", "2 @ 0.1234567890123",
    # products of many powers
    "N m s K A rad sym/(kg m) @ 7", "sym A rad m K s N/(m kg) @ -2", "km2 A K sym/s", "K A sym m2 s-1 @ 5", "(A sym) (m/s) (K m) @ 5",
]


def group(which, names):
    out = {}
    for s in dict.fromkeys(names):
        m = meaning(which, s)
        if m is None:
            continue
        d = tuple(sorted(m.dims.items()))
        i = tuple(sorted((k, -v) for k, v in m.dims.items()))
        out.setdefault(min(d, i), []).append(s)
    return out


def build(quick=True):
    GROUPS.clear()
    for d, g in group("S", UNITS + ([] if quick else trees1())).items():
        GROUPS[("U", "S", d)] = g
    db = refdb.load()
    names = [u.spellings()[0] for u in db.units if db.parse(u.spellings()[0]) == ("id", u.spellings()[0])]
    off = [s for s in names if (lambda m: m is not None and m.shift != 0)(meaning("db", s))]
    more = ["kelvin", "rankine", "kdegC", "degC @ 10", "degF @ 32", "mcelsius", "degree_F @ -40", "1/kelvin", "degC^2/K", "°F", "degrees_Celsius", "K @ 100", "(degC @ 1) @ 2"]
    for d, g in group("db", off + more).items():
        GROUPS[("B", "db", d)] = g


def trees1():
    return exprs.trees(["K", "degC", "hot", "2", "m @ 5" if False else "(m @ 5)", "kdegC", "gauge"], 1, unops=["({a})^2", "({a})^-1", "({a} @ 5)", "({a} @ -2.5)"])


def setup():
    build(False)


def main(run):
    build(run.quick)
    run.map("row", [(k[1], s, k) for k, g in GROUPS.items() for s in g], timeout=600, chunk=1)
    atoms = ["K", "degC", "2", "hot", "m"] if run.quick else ["K", "degC", "2", "hot", "m", "kdegC", "rad", "gauge"]
    deep = exprs.trees(atoms, 2, unops=["({a})^2", "({a})^-1", "({a} @ 5)", "({a})^1"])
    if not run.quick:
        deep += exprs.trees(["degC", "2"], 3, unops=["({a})^-1", "({a} @ 5)", "({a})^1"])
    run.map("tobase", [("S", s) for s in dict.fromkeys(deep)], timeout=120)
    few = FORMS[:11] if run.quick else FORMS
    trip = [(a, b, None) for a in FORMS for b in FORMS] + [(a, b, c) for a in few[1:] for b in few[1:] for c in few[1:]]
    run.map("chain", trip, timeout=120)
    run.map("deep", systems.deep_items(systems.SHIFTS, run.quick), timeout=120)
    return run.finish(
        note=f"all ordered pairs of mutually convertible units among {len(set(UNITS))} shifted and unshifted units and all offset units of the bundled database; all expressions of depth 2 with a shift possible at every node, to and from base units; all chains of 2 and 3 definitions over {len(FORMS)}/{len(few)} forms",
        assumptions=["1e-9 relative tolerance (relative to the terms added) against exact rational arithmetic"],
    )
