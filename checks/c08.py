"""C08: convertibility is one consistent relation, decided by dimensionality."""
from vlib import refdb, refunits
from vlib.mc import V, obs, isexc, show
from . import systems, exprs

SKIP = ("zero", "two logarithms", "logarithm times a unit", "power of a logarithm", "division by a logarithm")
_cache = {}


def system(which):
    if which == "db":
        if "us" not in _cache:
            from pyudunits2 import UnitSystem

            _cache["us"] = UnitSystem.from_udunits2_xml()
        return refdb.load(), _cache["us"]
    return systems.both()


def get(which, s):
    """(kind, meaning, unit of the code); s starting with '=' is looked up, not parsed.  None: outside the property."""
    k = (which, s)
    if k not in _cache:
        sysm, us = system(which)
        _cache[k] = None
        try:
            kind = sysm.date(("id", s[1:]) if s[:1] == "=" else s)
        except (refunits.Unresolvable, refunits.Refused, SyntaxError):
            return None
        if kind[1].odd in SKIP:
            return None
        o = obs(us.unit_by_name_or_symbol, s[1:]) if s[:1] == "=" else obs(us.unit, s)
        if o[0] != "ok":
            if which == "db":
                return None  # C05
            raise RuntimeError(f"unit({s!r}): {show(o)}")
        _cache[k] = (*kind[:2], o[1])
    return _cache[k]


def pair(which, s, t, build=True):
    a, b = get(which, s), get(which, t)
    if a is None or b is None:
        return [], None
    want = "date" not in (a[0], b[0]) and (a[1].same_dims(b[1]) or a[1].inverse_dims(b[1]))
    key = f"{which}:{s}:{t}"
    viols = []
    o = obs(a[2].is_convertible_to, b[2])
    if o[0] != "ok" or o[1] is not want:
        viols.append(V(key, f"{s!r} ({a[1].dims}) convertible to {t!r} ({b[1].dims}): {show(o)}, expected {want}"))
    if build:
        from pyudunits2 import Converter

        o = obs(Converter, a[2], b[2])
        if want and o[0] != "ok":
            viols.append(V(f"{key}:converter", f"no converter from {s!r} to {t!r}: {show(o)}"))
        elif not want and (o[0] == "ok" or not isexc(o, "IncompatibleUnitsError")):
            viols.append(V(f"{key}:converter", f"a converter from {s!r} to {t!r} should raise IncompatibleUnitsError, gave {show(o) if o[0] != 'ok' else 'a converter'}"))
    return viols, want


def row(item):
    which, s, others, build = item
    viols, n, ed = [], 0, set()
    others = LISTS[others]
    for t in others:
        v, want = pair(which, s, t, build == "all")
        if want is not None:
            n += 1
            ed.add((which, s, t, want))
            if want and build == "some":
                v += pair(which, s, t, True)[0]
        viols += v
    a = get(which, s)
    return viols[:3], {"_items": n, "_edges": ed, "_states": {(which, a[0], tuple(sorted(a[1].dims.items())), a[1].logs, a[1].shift != 0)} if a else set()}


def vector(item):
    """Products of many powers against their spellings, inverses, and neighbouring exponents."""
    names, exps = item
    v = tuple(zip(names, exps))
    near = [v[:i] + ((v[i][0], v[i][1] + d),) + v[i + 1:] for i in range(len(v)) for d in (1, -1, -2 * v[i][1])]
    near += [tuple(zip(names, exps[1:] + exps[:1])), tuple((n, 2 * e) for n, e in v)]
    texts = list(dict.fromkeys(exprs.spell(x, f) for y in [v, tuple((n, -e) for n, e in v)] for x in (y,) for f in exprs.SPELLINGS))
    texts += [exprs.spell(x, f) for x in near for f in ("product", "fraction")]
    viols, n, ed = [], 0, set()
    for t in texts:
        if not t.strip():
            continue
        for s in (texts[0], texts[3]):
            w, want = pair("S", s, t, False)
            viols += w
            if want is not None:
                n += 1
                ed.add((s, t, want))
    if not viols:
        viols += pair("S", texts[0], texts[7], True)[0] + pair("S", texts[0], exprs.spell(near[0], "product"), True)[0]
    return viols[:2], {"_items": n, "_edges": ed, "_states": {("S", v)}}


FUNCTIONS = {"row": row, "vector": vector}

UNITS = [
    "m", "=m", "=meter", "=kilogram", "=second", "s", "s2", "1/s", "Hz", "=Hz", "kHz", "s-1", "m/s", "s/m", "m2/s2", "s2/m2", "km/hour", "m s", "1/(m s)", "kg m2 s-2", "J", "N.m", "1/J", "N", "K", "=kelvin",
    "degC", "=degC", "degF", "degC2", "1/K", "1/degC", "K @ 10", "degC @ 10", "kdegC", "°R", "rad", "=radian", "1/rad", "rad2", "sr", "degree", "rad/s", "s rad", "1", "2", "", "percent", "m/m", "one", "=one", "K/degC",
    "lg(re m)", "ln(re 2 km)", "lb(re s)", "lg(re 1/s)", "lg(re 1 mW)", "Bm", "=Bm", "lg(re lg(re m))", "loglog", "bit", "ln(re J)", "lg(re degC)", "(lg(re m)) @ 3", "2 lg(re m)", "W", "1/W", "sym", "=sym", "1/sym", "sym m", "m sym-1", "A",
    "s since 2000-01-01", "hours since 2000-01-01", "s @ 5", "(s) from 12", "day since 1970-01-01 00:00:00", "s since 2000", "(m @ 5)", "(m @ 5) s", "(rad @ 5)", "2 @ 3", "m^0", "s^0", "m^0 s", "gauge", "Pa", "Pa-1", "m.m.m-1",
]
ATOMS = ["m", "s", "2", "degC", "rad", "Bm"]
LISTS = {}


def lists(quick=True):
    LISTS["units"] = list(UNITS)
    LISTS["trees"] = exprs.trees(ATOMS, 1)
    small = ["({a})^2", "({a})^-1"]
    LISTS["deep"] = exprs.trees(["m", "s"] if quick else ["m", "s", "2"], 2, unops=small)
    LISTS["db"] = ["=" + u.spellings()[0] for u in refdb.load().units]


def setup():
    lists(False)


def main(run):
    lists(run.quick)
    for name, build in (("units", "all"), ("trees", "all"), ("deep", "some")):
        run.map("row", [("S", s, name, build) for s in LISTS[name]], timeout=300)
    run.map("row", [("db", s, "db", "some") for s in LISTS["db"]], timeout=300)
    names = tuple(exprs.WIDE)
    run.map("vector", [(names, tuple(e for _, e in v)) for v in exprs.vectors(least=6 if run.quick else 2)] + [(("N", "km", "h", "rad", "Pa", "ft", "K"), tuple(e for _, e in v)) for v in exprs.vectors(least=7 if run.quick else 4)], timeout=100)
    return run.finish(
        note=f"products of up to 7 powers against all their spellings, inverses and neighbouring exponents; all ordered pairs of {len(LISTS['units'])} units (offset, logarithmic, reciprocal, basis, dimensionless, date), of {len(LISTS['trees'])} expressions of depth 1, of {len(LISTS['deep'])} of depth 2, and of all entries of the bundled database",
        assumptions=["products of logarithms with units and powers of logarithms are outside the property"],
    )
