"""C07: dimensionality is a homomorphism into integer exponents."""
from vlib import refdb, refunits, sem
from vlib.mc import V, obs, isexc, show
from vlib.refunits import U, P, System
from . import systems, exprs

SKIP = ("zero", "two logarithms", "logarithm times a unit", "power of a logarithm", "division by a logarithm")


def judge(sysm, us, s, key):
    """-> (violations, dims or None)"""
    try:
        kind = sysm.date(s)
    except (refunits.Unresolvable, refunits.Refused, SyntaxError):
        return [], None
    m = kind[1]
    if m.odd in SKIP:
        return [], None
    u = obs(us.unit, s)
    if u[0] != "ok":
        return [V(f"{key}:unit", f"unit({s!r}): {show(u)}, expected {m}")], None
    u = u[1]
    viols = sem.check_dims(u, m, f"{key}:dims", f"{s!r}")
    if kind[0] == "date":
        u, what = u.unit, f"the unit of {s!r}"
        viols += sem.check_dims(u, m, f"{key}:dims", what)
    a = obs(u.is_dimensionless)
    if a[0] != "ok" or bool(a[1]) != (not m.dims):
        viols.append(V(f"{key}:dimensionless", f"{s!r}: is_dimensionless is {show(a)}, its dimensionality is {m.dims}"))
    a = obs(u.is_time_unit)
    if a[0] != "ok" or bool(a[1]) != sysm.is_time(m):
        viols.append(V(f"{key}:time", f"{s!r}: is_time_unit is {show(a)}, its dimensionality is {m.dims}"))
    return viols, (tuple(sorted(m.dims.items())), kind[0])


def parts(d):
    return (len(d), sorted((str(k), v) for k, v in d.items()), sorted(map(str, d.keys())), sorted(d.values()))


def one(item):
    which, s = item
    if which == "db":
        sysm, us = refdb.load(), _db()
    else:
        sysm, us = systems.both()
    viols, d = judge(sysm, us, s, s)
    if d is None:
        return viols, {"skipped": 1}
    if not viols:
        # The Dimensionality object itself.
        o = obs(lambda: us.unit(s).dimensionality())
        m = dict(d[0])
        p = obs(lambda: parts(o[1]))
        want = (len(m), sorted(m.items()), sorted(m), sorted(m.values()))
        if p[0] != "ok" or p[1] != want:
            viols.append(V(f"{s}:object", f"{s!r}: len, items, keys, values of the dimensionality are {show(p)}, expected {want}"))
        i = obs(lambda: (o[1].inverted() == {k: -v for k, v in m.items()}, o[1].inverted().inverted() == o[1], o[1] == us.unit(s).dimensionality(), o[1] == {**m, "nosuch": 1}, o[1].inverted() == o[1]))
        if i[0] != "ok" or i[1] != (True, True, True, False, not m):
            viols.append(V(f"{s}:inverted", f"{s!r}: comparing its dimensionality with its inverse etc. gives {show(i)}"))
    return viols[:2], {"_states": {d}, "_edges": {(s, d)}}


_cache = {}


def _db():
    if "us" not in _cache:
        from pyudunits2 import UnitSystem

        _cache["us"] = UnitSystem.from_udunits2_xml()
    return _cache["us"]


BASES = [U("a", "as_", ("A",)), U("t", None, ("T",), time=True), U("r", None, (), dimensionless=True), U(None, None, ("b",))]
PRE = [P("kilo", "1e3", ("k",))]
FORMS = [
    "{x}", "2 {x}", "{x}/{y}", "{x} {y}", "{x}^2", "{x}^-1", "({x} {y})^2", "{x}/({x} {y})", "({x}/{y})^-1", "{x}^2/{x}",
    "({x} @ 3)^2", "{x}/{x}", "{x}^0 {y}", "k{x} {y}", "r {x}", "{x} @ 5", "lg(re {x})", "lg(re {x}/{y})", "1/{x}", "({x}^2)^-1 {y}^3", "7", "r",
]
QUERIES = ["{u}", "{u} {v}", "{u}/{v}", "({u}/{v})^2", "{u}^-2 {v}", "k{u} {v}^2", "1/({u}^2)", "{u} {u} {v}^-2"]


def chain(item):
    """Two units defined on top of one another over base units, and expressions of them."""
    f1, f2 = item
    d1 = f1.format(x="a", y="t")
    d2 = f2.format(x="u", y="b") if "{y}" in f2 else f2.format(x="u")
    sysm = System(BASES + [U("u", "us", (), definition=d1), U("v", None, ("V",), [("w", "ws")], definition=d2)], PRE)
    try:
        if any(sysm.date(d)[0] != "unit" for d in (d1, d2)):
            return [], {"_items": 0}
    except refunits.Refused:
        return [], {"_items": 0}  # a date in a definition: C16
    us = refunits.from_system(sysm)
    viols, n, st, ed = [], 0, set(), set()
    for q in QUERIES:
        s = q.format(u="u", v="v")
        vs, d = judge(sysm, us, s, f"chain:{d1}:{d2}:{s}")
        viols += vs
        if d is not None:
            n += 1
            st.add(d)
            ed.add((item, q, d))
    return viols[:2], {"_items": n, "_states": st, "_edges": ed}


def twobases(item):
    """Which basis unit is the time unit is the basis unit's own affair."""
    times, s = item
    sysm = System([U("a", None, ("A",), time="a" in times), U("c", None, ("C",), time="c" in times), U("r", None, dimensionless=True, time="r" in times), U("d", None, definition="60 a"), U("e", None, definition="c/a")], PRE)
    us = refunits.from_system(sysm)
    viols, d = judge(sysm, us, s, f"times:{times}:{s}")
    return viols, {"_states": {(times, d)}, "_edges": {(item, d)}}


def deep(item):
    """A long chain of definitions."""
    pattern, depth = item
    sysm, last = systems.deep(pattern, depth, "a" if any("@" in x for x in pattern) else "t")  # no dates: C16
    us = refunits.from_system(sysm)
    viols, n, st, ed = [], 0, set(), set()
    for s in (last, systems.deepname(depth // 2), f"k{last}", f"1/{last}", f"{last} a/t^2", f"{last}^2 @ 3"):
        vs, d = judge(sysm, us, s, f"deep:{item}:{s}")
        viols += vs
        if d is not None:
            n += 1
            st.add(d)
            ed.add((item, s, d))
    return viols[:2], {"_items": n, "_states": st, "_edges": ed}


FUNCTIONS = {"one": one, "deep": deep, "chain": chain, "twobases": twobases}

ATOMS = ["m", "s", "km", "2", "N", "degC", "rad", "Bm", "hour"]
MORE = ["kelvins", "0.5", "-1", "1e3", "millimetre", "hertz", "Hz", "hot", "dam", "sym", "one", "percent", "sr", "degree", "decade", "neper", "year", "J", "W", "litre", "degF", "kHz", "dm^3", "m²", "s⁻¹", "°K"]
SHIFTED = ["s @ 5", "s since 2000-01-01", "(s) since 1970-01-01 00:00", "hour from 12", "m @ 2", "rad @ 1", "m s/m @ 3", "s^2/s since 1999", "(1/Hz) after 2001-1-1", "s2 @ 1", "Hz @ 1", "lg(re s) @ 1"]


def main(run):
    q = run.quick
    sysm = systems.model()
    items = [("S", s) for u in sysm.units for s in u.spellings()]
    items += [("S", p.name + s) for u in sysm.units for s in u.spellings() for p in sysm.prefixes]
    items += [("S", s) for s in SHIFTED]
    items += [("S", s) for s in exprs.trees(ATOMS + MORE, 1, unops=exprs.UN + exprs.UN_LOG + exprs.UN_SHIFT, both=True)]
    items += [("S", s) for s in exprs.trees(ATOMS[:6] if q else ATOMS, 2, both=not q)]
    items += [("S", s) for s in exprs.trees(["m", "s", "2", "degC"] if q else ["m", "s", "2", "degC", "rad", "N"], 3, unops=["({a})^2", "({a})^-1"] + ([] if q else ["({a})^0", "({a} @ 5)"]))]
    items += [("S", s) for s in exprs.wide()]
    items += [("S", s) for s in exprs.wide(exps=(0, 2, -3), least=2 if q else 1, most=3 if q else 7, forms=exprs.SPELLINGS)]
    items += [("S", s) for s in exprs.wide(["N", "km", "h", "rad", "Pa", "ft", "K"], forms=["product", "fraction"])]
    items += [("S", s) for s in exprs.long(["m", "s", "N"], range(3, 13 if q else 31))]
    items = list(dict.fromkeys(items))
    run.map("one", items, timeout=60)
    run.map("chain", [(a, b) for a in FORMS for b in FORMS], timeout=60)
    run.map("deep", systems.deep_items(systems.MIXED, q), timeout=100)
    tq = ["a", "c", "d", "e", "a c/c", "a^2", "1/a", "ka", "a r", "a/r", "d e/c", "a @ 3", "c @ 3", "(a^2/a) @ 1", "2 a", "a c", "r", "r @ 1", "r a", "1"]
    run.map("twobases", [(t, s) for t in ((), ("a",), ("c",)) for s in tq], timeout=60)
    return run.finish(
        note="every spelling and prefix x spelling of a 37-unit system, expressions of depth 1 over 35 atoms, 2 over 6 (thorough 9), 3 over 4 (thorough 6); all 22x22 two-step definition chains with 8 expressions each; which of three basis units is the time unit",
        assumptions=["products of logarithms with units, powers of logarithms and zero-scale units are outside the property"],
    )
