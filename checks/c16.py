"""C16: a shifted time unit is a date unit, and dates occur nowhere else."""
import functools

from vlib import refdb, refgrammar, refunits, sem
from vlib.mc import V, obs, isexc, show
from vlib.refunits import U, P, System
from . import systems

BASES = [U("m", None, ("M",)), U("s", "ss", ("S",), time=True), U("r", None, dimensionless=True), U("K", None)]
UNITS = BASES + [
    U("min", "mins", definition="60 s"), U("hour", None, ("h",), [("hr", "hrs")], definition="60 min"), U("Hz", None, definition="1/s"), U("v", None, definition="m/s"),
    U("degC", None, definition="K @ 273.15"), U("epoch", None, definition="s since 1970-01-01"), U("late", None, definition="s @ 5"), U("inner", None, definition="2 (s @ 5)"), U("dec", None, definition="lg(re s)"),
    U("via", None, definition="v Hz^-1 s/m"), U("badk", None, definition="K since 2000-01-01"),
]
PRE = [P("kilo", "1e3", ("k",))]


@functools.lru_cache(None)
def both():
    m = System(UNITS, PRE)
    return m, refunits.from_system(m)


def has_date_def(sysm, ast):
    """Does it mention (directly or not) a unit whose definition is refused?"""
    if ast[0] == "id":
        _, u, _ = sysm.lookup(ast[1])
        if u.definition is None:
            return False
        d = sysm.parse(u.definition)
        if has_date_def(sysm, d):
            return True
        try:
            return sysm.date(d)[0] == "date"
        except refunits.Refused:
            return True
    return any(has_date_def(sysm, x) for x in ast[1:] if isinstance(x, tuple))


ODD = ("two logarithms", "logarithm times a unit", "power of a logarithm", "division by a logarithm", "zero")


def odd(sysm, ast):
    if ast[0] in ("mul", "div", "pow"):
        try:
            if refunits._eval(sysm.expand(ast)).odd in ODD:
                return True
        except refunits.Unresolvable:
            return False
    return any(odd(sysm, x) for x in ast[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))


def one(item):
    """A unit string; ref is the reference as written, where the string ends in a shift."""
    which, s, ref = item
    if which == "db":
        from .c08 import system

        sysm, us = system("db")
    else:
        sysm, us = both()
    o = obs(us.unit, s)
    key = f"{which}:{s}"
    ast = refgrammar.frozen().ast(s)
    if ast is None:
        if not isexc(o, "SyntaxError"):
            return [V(key, f"{s!r} should be a SyntaxError, gave {show(o)}")], {}
        return [], {"_states": {"syntax"}, "_edges": {(item, "syntax")}}
    if odd(sysm, ast):
        return [], {"_items": 0}  # products of logarithms with units are not specified
    try:
        if has_date_def(sysm, ast):
            raise refunits.Refused("a unit defined as a date")
        want = sysm.date(s)
    except refunits.Unresolvable:
        return [], {"_items": 0}
    except refunits.Refused as e:
        if not isexc(o, "ValueError"):
            return [V(key, f"{s!r} should be refused with ValueError ({e}), gave {show(o)}")], {}
        return [], {"_states": {"refused"}, "_edges": {(item, "refused")}}
    from pyudunits2 import Unit, DateUnit

    if o[0] != "ok":
        return [V(key, f"{s!r}: {show(o)}, expected a {want[0]}")], {}
    u = o[1]
    viols = []
    if want[0] == "unit":
        if not isinstance(u, Unit) or isinstance(u, DateUnit):
            viols.append(V(key, f"{s!r} is a {type(u).__name__}, expected an ordinary unit"))
        return viols, {"_states": {("unit", want[1].key())}, "_edges": {(item, "unit")}}
    if not isinstance(u, DateUnit) or isinstance(u, Unit):
        return [V(key, f"{s!r} is a {type(u).__name__}, expected a date unit")], {}
    if type(u.unit) is DateUnit or not isinstance(u.unit, Unit):
        return [V(key, f"the unit of {s!r} is a {type(u.unit).__name__}")], {}
    m = want[1]
    e = obs(lambda: sem.expanded_meaning(u.unit.expanded(), sysm))
    same = e[0] == "ok" and (e[1] == m or (m.odd and e[1].dims == m.dims))
    if not same:
        viols.append(V(key, f"the unit of {s!r} is {show(obs(str, u.unit))}, which means {show(e)}, expected {m}"))
    r = obs(lambda: str(u.reference_date))
    if ref is not None and (r[0] != "ok" or r[1] != ref):
        viols.append(V(key, f"the reference of {s!r} is {show(r)}, expected {ref!r}"))
    viols += sem.check_dims(u, m, key, repr(s))
    a = obs(lambda: (u.is_dimensionless(), u.is_time_unit(), u.is_convertible_to(u), u.is_convertible_to(u.unit), u.unit.is_convertible_to(u), u.unit.is_time_unit()))
    if a[0] != "ok" or a[1] != (False, True, False, False, False, True):
        viols.append(V(key, f"{s!r}: is_dimensionless, is_time_unit, convertible to itself, to its unit, its unit to it, its unit's is_time_unit: {show(a)}"))
    t = obs(lambda: us.unit(str(u)))
    if t[0] != "ok" or not isinstance(t[1], DateUnit) or str(t[1]) != str(u) or str(t[1].reference_date) != r[1]:
        viols.append(V(key, f"the text of {s!r}, {show(obs(str, u))!r}, reads back as {show(t)}"))
    x = obs(lambda: us.unit(u.expanded()))
    if x[0] != "ok" or not isinstance(x[1], DateUnit) or str(x[1].reference_date) != r[1]:
        viols.append(V(key, f"the basis form of {s!r}, {show(obs(u.expanded))!r}, reads back as {show(x)}"))
    return viols[:2], {"_states": {("date", m.key(), r[1] if r[0] == "ok" else None)}, "_edges": {(item, "date")}}


FUNCTIONS = {"one": one}
SHIFTED = [
    "s", "min", "hour", "ks", "kilohour", "2 s", "s/3", "s m/m", "1/Hz", "Hz^-1", "m/v", "s r", "s^1", "(s)", "s2/s", "hrs", "via", "0.5 hour.r", "lg(re s)", "dec", "2^3 s", "s m^0", "kS",
    "m", "s2", "1/s", "Hz", "s m", "m2", "K", "degC", "r", "1", "2", "s/s", "v", "s^-1", "s^0", "m s-1", "lg(re m)", "epoch", "late", "inner", "badk", "2 late", "s inner", "degC s/K",
]
OPS = [" since ", " @ ", "@", " from ", " after ", " ref ", " SINCE ", " From "]
REFS = [
    "2000-01-01", "2000-1-1", "1970-01-01 00:00:00", "1970-01-01T12:30", "2000-01-01 12:30:59.5", "2000-01-01 12:30 UTC", "2000-01-01 12:30 +6", "2000-01-01 12:30 -6:30", "2000-01-01 12", "2000-01", "-5-1-1", "+1999-12-31", "19900101T1200", "19900101T120059.5",
    "5", "0", "-2.5", "1e3", "2000", "20000101", "1.5", "+3", "12", "1e-2", ".5", "2000-01-01 12:30Z", "2000-01-01 12:30 GMT", "2000-01-01 12:30 TZ",
]
NUMS = {"5", "0", "-2.5", "12", "1.5"}
DATES = ["s since 2000-01-01", "hour from 1970-01-01 12:30", "s @ 5", "min after -2", "ks @ 0", "(s @ 3) @ 4", "(s since 2000-01-01) @ 3", "(s @ 5) since 2000-01-01", "1/Hz @ 1.5"]
PLAIN = ["m @ 5", "K @ 273.15", "r @ 1", "Hz @ 2", "2 @ 3", "(m @ 1) @ 2"]
WRAPS = [
    "({})", "(({}))", "({})^1", "({})^2", "({})^-1", "({})^0", "2 ({})", "({}) 2", "m ({})", "({}) m", "({})/m", "m/({})", "({})/({})", "({}) ({})", "1/({})", "({}) @ 5", "({}) since 2000-01-01", "({}) @ -1.5", "lg(re {})", "lg(re ({}))", "ln(re 2 ({}))",
    "(({}) m) @ 5", "(({})^2) @ 3", "(({}) s) @ 5", "(({})/s) since 2000-01-01", "k({})", "({})2", "({})²", "({})/s @ 3", "(2 ({}))^2/m",
]


def main(run):
    items = []
    for u in SHIFTED:
        for op in OPS:
            for r in REFS:
                items.append(("S", u + op + r, r if op != " " else None))
                items.append(("S", "(" + u + op + r + ")", r))
    inner = DATES + PLAIN + ([] if run.quick else [u + " @ " + r for u in SHIFTED[:20] for r in ("5", "2000-01-01")])
    for d in inner:
        for w in WRAPS:
            s = w.replace("{}", d)
            items.append(("S", s, None))
            for w2 in WRAPS:
                items.append(("S", w2.replace("{}", s), None))
    items = list(dict.fromkeys(items))
    db = refdb.load()
    for u in db.units:
        x = u.spellings()[0]
        if db.parse(x) == ("id", x):
            for r in ("2000-01-01", "5"):
                try:
                    db.meaning(x)
                except Exception:
                    continue
                from .c04 import _unreadable

                if not _unreadable(u) and u.definition != "arc_minute/60" and db.parse(x + " @ " + r):
                    items.append(("db", x + " @ " + r, r))
                    items.append(("db", f"2 ({x} @ {r})", None))
    run.map("one", items, timeout=60)
    return run.finish(
        note=f"{len(SHIFTED)} units x {len(OPS)} shift operators x {len(REFS)} references, plain and bracketed; {len(inner)} dates and shifts in {len(WRAPS)}+{len(WRAPS) ** 2} nestings; every entry of the bundled database shifted by a date and a number",
        assumptions=["what is a date reference and what a number is decided by the frozen grammar"],
    )
