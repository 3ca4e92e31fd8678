"""C09: scale conversions multiply by the exact ratio of the units."""
from vlib import refdb, refunits, sem
from vlib.mc import V, obs, show
from vlib.refunits import U, P, System
from . import systems, exprs

VALUES = (0, 0.0, 1, -1, 3, -2.5, 1e6, 1e-5, 123456789)
_cache = {}


def system(which):
    if which == "db":
        if "us" not in _cache:
            from pyudunits2 import UnitSystem

            _cache["us"] = UnitSystem.from_udunits2_xml()
        return refdb.load(), _cache["us"]
    return systems.both()


def meaning(sysm, s):
    try:
        kind, m = sysm.date(("id", s[1:]) if s[:1] == "=" else s)[:2]
    except (refunits.Unresolvable, refunits.Refused, SyntaxError, RecursionError):
        return None
    if kind != "unit" or m.odd or m.logs or m.shift or m.scale == 0:
        return None
    return m


def unit(us, s):
    return us.unit_by_name_or_symbol(s[1:]) if s[:1] == "=" else us.unit(s)


def convert(us, ua, ub, a, b, key, what, values=VALUES):
    from pyudunits2 import Converter

    c = obs(Converter, ua, ub)
    if c[0] != "ok":
        return [V(f"{key}:converter", f"{what}: no converter, {show(c)}")], 0
    viols, n = [], 0
    for v in values:
        r = sem.check_conversion(c[1].convert, v, a, b, f"{key}:{v}", what)
        if r is not None:
            n += 1
            viols += r
    return viols[:2], n


def row(item):
    """One unit against every unit of its group."""
    which, s, group = item
    sysm, us = system(which)
    a = meaning(sysm, s)
    ua = obs(unit, us, s)
    if ua[0] != "ok":
        return ([] if which == "db" else [V(f"unit:{s}", f"unit({s!r}): {show(ua)}")]), {"_items": 0}
    viols, n, k, ed = [], 0, 0, set()
    for t in GROUPS[group]:
        b = meaning(sysm, t)
        ub = obs(unit, us, t)
        if ub[0] != "ok":
            continue
        v, c = convert(us, ua[1], ub[1], a, b, f"{which}:{s}:{t}", f"{s!r} to {t!r}")
        viols += v
        n += 1
        k += c
        ed.add((which, s, t))
        if len(viols) > 4:
            break
    return viols[:4], {"_items": n, "values_converted": k, "_edges": ed, "_states": {(which, a.key())}}


BASES = [U("a", None, ("A",)), U("t", None, ("T",), time=True), U("r", None, (), dimensionless=True)]
PRE = [P("kilo", "1e3", ("k",)), P("milli", "1e-3", ("n",)), P("third", "3.3", ("h",))]
FORMS = ["{x}", "2 {x}", "0.3 {x}", "{x}/7", "k{x}", "n{x}^2", "3/{x}", "(2 {x})^-1", "(0.1 {x})^3", "{x} {x}", "12 k{x}/r", "1e-3 {x}.2", "{x}/0.25", "-4 {x}", "{x}2/{x}", "2^3 {x}", "{x} 10^-2", "h{x}", "1234567891 {x}", "{x}/123456789012345678", "(123456.789012345678 {x})^2", "{x} 0.000000123456789012"]


def chain(item):
    """Three units defined on top of one another."""
    f1, f2, f3 = item
    units = [U("u", "us", ("U",), definition=f1.format(x="a")), U("v", None, ("V",), [("w", "ws")], definition=f2.format(x="us"))]
    last = "v"
    if f3:
        units.append(U("x", None, definition=f3.format(x="w")))
        last = "x"
    sysm = System(BASES + units, PRE)
    us = refunits.from_system(sysm)
    viols, n, k = [], 0, 0
    for s in (last, f"k{last} t^2", f"1/({last} t)"):
        m = sysm.meaning(s)
        base = sem.base_text(m)
        for a, b in ((s, base), (base, s), (s, f"1/({base})")):
            v, c = convert(us, us.unit(a), us.unit(b), sysm.meaning(a), sysm.meaning(b), f"chain:{item!r}:{a}:{b}", f"with u = {units[0].definition}, v = {units[1].definition}{', x = ' + units[2].definition if f3 else ''}: {a!r} to {b!r}", (1, -2.5, 7))
            viols += v
            n += 1
            k += c
    return viols[:2], {"_items": n, "values_converted": k, "_states": {m.key()}, "_edges": {item}}


def deep(item):
    """A long chain of definitions."""
    pattern, depth = item
    sysm, last = systems.deep(pattern, depth)
    try:
        sysm.meaning(last)
    except refunits.Unresolvable:
        return [], {"_items": 0}
    us = refunits.from_system(sysm)
    half = systems.deepname(depth // 2)
    viols, n, k = [], 0, 0
    for s in (last, f"k{last} t^2"):
        m = sysm.meaning(s)
        base = sem.base_text(m)
        for a, b in ((s, base), (base, s)) + (((s, half),) if s == last else ()):
            v, c = convert(us, us.unit(a), us.unit(b), sysm.meaning(a), sysm.meaning(b), f"deep:{item!r}:{a}:{b}", f"at the end of a chain of {depth} definitions, {pattern}: {a!r} to {b!r}", (1, -2.5))
            viols += v
            n += 1
            k += c
    return viols[:2], {"_items": n, "values_converted": k, "_states": {m.key()}, "_edges": {item}}


def prefixed(item):
    """Every prefix of the database on one unit, from and to the base units."""
    s, = item
    sysm, us = system("db")
    viols, n, k = [], 0, 0
    m0 = meaning(sysm, "=" + s)
    if m0 is None or obs(us.unit_by_name_or_symbol, s)[0] != "ok":
        return [], {"_items": 0}
    base = us.unit(sem.base_text(m0))
    for p in [*sysm.pn, *sysm.ps]:
        m = meaning(sysm, "=" + p + s)
        if m is None or sysm.exact(p + s):
            continue
        u = us.unit_by_name_or_symbol(p + s)
        v, c = convert(us, u, base, m, sem.base_meaning(m), f"db:{p}{s}", f"{p + s!r} to base units", (1, -2.5))
        n += 1
        k += c
        viols += v
    return viols[:2], {"_items": n, "values_converted": k}


def names(item):
    """Basis units whose names mean something elsewhere."""
    name, other = item
    sysm = systems.named(name, other)
    try:
        sysm.meaning(f"w_ {name}")
    except (refunits.Unresolvable, SyntaxError):
        return [], {"_items": 0}
    us = refunits.from_system(sysm)
    viols, n, k, st = [], 0, 0, set()
    group = [["u_", "q_", name, f"k{name}", f"1/{name}", "2 q_", f"rr_ {name}", f"{name}/7"], ["w_", f"q_/{other}", f"{other}/{name}", "bb_/kq_", f"k{name} rr_/bb_"], [f"{name}^2", "u_ q_", f"q_^-1/{name}"], [f"{name}^2 {other}^3", "u_^2 bb_^3", "q_^-2 kbb_^-3"], ["1", f"{name}/{name}", f"u_/{name}", f"w_ bb_/{name}", "rr_"]]
    for g in group:
        for a in g:
            for b in g:
                v, c = convert(us, us.unit(a), us.unit(b), sysm.meaning(a), sysm.meaning(b), f"names:{item}:{a}:{b}", f"{a!r} to {b!r}", (3, -2.5))
                viols += v
                n += 1
                k += c
                st.add((item, sysm.meaning(a).key()))
    return viols[:2], {"_items": n, "values_converted": k, "_edges": {item}, "_states": st}


FUNCTIONS = {"names": names, "deep": deep, "row": row, "chain": chain, "prefixed": prefixed}
GROUPS = {}

ATOMS = ["m", "km", "s", "2", "hours", "rad", "N", "0.3"]
UNITS = [
    "m", "=meter", "km", "inch", "ft", "foot", "dm", "Mm", "cm 3", "100 cm", "1/m", "m-1", "1/km", "ft^-1", "m^2/ft", "N s2/kg",
    "s", "=second", "min", "hours", "day", "year", "Hz", "kHz", "1/min", "per day", "Hz-1", "m s/ft", "ms", "µs",
    "J", "N m", "kg m2 s-2", "W.s", "kW hour", "g cm2/s2", "1/J", "erg" if False else "mJ", "J-1",
    "1", "2", "0.01", "percent", "dozen", "rad", "degree", "sr", "m/m", "km/m", "m/km", "rad/degree", "rad^2", "kelvin/K", "1e3", "0.5", "one", "-3",
    "K", "kelvin", "°R", "1/K", "kK", "°R-1", "degC^2/K", "K degF/°R" if False else "K2/K",
    "m/s", "km/hour", "ft/s", "s/m", "min/km", "m^2", "L/m", "litre", "m^3", "dm^3", "l", "(2 cm)^3", "m^-3", "kg/m^3", "g/L", "m3/kg",
    "kg", "g", "Mg", "µg", "1e-3 kg", "kg^-1", "Pa", "kPa", "N/m2", "1/Pa", "A", "mA", "A-1", "sym", "ksym", "1/sym", "2 sym",
    # numbers of many digits
    "1234567891 m", "123456789012345678 m", "m/1234567891", "12345678901234567890123456789 m", "0.1234567890123456789 m", "1.00000000001 m", "1.0000001 m", "10000000001 m", "99999999999 m", "2147483648 m", "9007199254740993 m", "1234567.891 m", "1e-7 1234567891 m", "(1234567891 m)^-1",
    "1000000007 s", "s/1000000007", "86400000001 s", "1e9 s", "1000000001 s/1000000000", "1.23456789e9 Hz", "1.23456789e-9 s", "1e22 s", "1e-22 s", "100000000000000000000000 s", "(1000003 s)^2/s",
    "1234567891", "1/1234567891", "1.000000001", "123456789.123456789", "(33333 33333 33333)",
]


def group(which, names):
    """Groups of mutually convertible scale units."""
    sysm, _ = system(which)
    out = {}
    for s in dict.fromkeys(names):
        m = meaning(sysm, s)
        if m is None:
            continue
        d = tuple(sorted(m.dims.items()))
        i = tuple(sorted((k, -v) for k, v in m.dims.items()))
        out.setdefault(min(d, i), []).append(s)
    return out


def build(quick=True):
    GROUPS.clear()
    trees = exprs.trees(ATOMS if not quick else ATOMS[:6], 1, unops=exprs.UN[:2] + ["({a})^3", "k({a})"[1:]])
    wide = [exprs.spell(v, f) for v in exprs.vectors(["N", "km", "h", "rad", "Pa", "ft", "K"] if quick else ["N", "km", "h", "rad", "Pa", "ft", "K", "sym"], least=7 if quick else 5) for f in exprs.SPELLINGS[:4]]
    wide += [exprs.spell([(r"(" + n + ")" if " " in n else n, e) for n, e in v], f) for v in exprs.vectors(["3 m", "7 s", "0.7 K", "1.1 kg", "km", "A", "sym"], least=7 if quick else 5) for f in ("product", "reversed")]
    deep = exprs.trees(["km", "2", "hours"] if quick else ["km", "2", "hours", "0.3 N", "rad"], 2, unops=["({a})^2", "({a})^-1"])
    for tag, which, names in (("U", "S", UNITS), ("T", "S", trees), ("D", "S", deep), ("W", "S", wide), ("B", "db", ["=" + x for u in refdb.load().units for x in u.spellings()[:1 if quick else 2]])):
        for d, g in group(which, names).items():
            if tag == "D" and len(g) > (40 if quick else 150):
                g = g[: 40 if quick else 150]  # the simplest ones
            GROUPS[(tag, which, d)] = g


def setup():
    build(False)


def main(run):
    build(run.quick)
    items = [(k[1], s, k) for k, g in GROUPS.items() for s in g]
    run.map("row", items, timeout=600, chunk=1)
    forms = FORMS
    trip = [(a, b, None) for a in forms for b in forms]
    few = forms[1:11] if run.quick else forms
    trip += [(a, b, c) for a in few for b in few for c in few]
    run.map("chain", trip, timeout=120)
    run.map("deep", systems.deep_items(systems.LINEAR, run.quick), timeout=120)
    pairs = [(a, "b") for a in systems.NAMES] + [("b", a) for a in systems.NAMES]
    pairs += [(a, b) for a in systems.NAMES for b in systems.NAMES if a != b and (not run.quick or (systems.NAMES.index(a) - systems.NAMES.index(b)) % len(systems.NAMES) == 1)]
    run.map("names", pairs, timeout=120)
    sp = [u.spellings()[0] for u in refdb.load().units]
    run.map("prefixed", [(s,) for s in sp], timeout=300)
    return run.finish(
        note=f"all ordered pairs of mutually convertible units among {len(set(UNITS))} units, expressions of depth 1 and 2, products of up to 7 powers, and the whole bundled database; all chains of 2 and 3 definitions over {len(forms)} forms ({len(few)} for chains of 3); basis units with {len(systems.NAMES)} names that mean something elsewhere; every prefix of the database on every unit; 9 values each",
        assumptions=["1e-9 relative tolerance against exact rational arithmetic"],
    )
