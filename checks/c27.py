"""C27: copies and pickles of units and unit systems mean the same."""
import copy
import pickle

from vlib import refdb, refunits, sem
from vlib.mc import V, obs, isexc, show
from vlib.refunits import System, U, P
from . import systems, exprs
from .c07 import BASES, PRE, FORMS, SKIP

HOW = {"copy": copy.copy, "deepcopy": copy.deepcopy}
for _p in range(2, pickle.HIGHEST_PROTOCOL + 1):
    HOW[f"pickle{_p}"] = lambda x, _p=_p: pickle.loads(pickle.dumps(x, protocol=_p))
VALUES = (0, 3, -2.5)
STATES = ("new", "used", "copied")


def looks(u, base, us):
    """All there is to see of a unit, and what converting it says."""
    from pyudunits2 import Converter

    out = [type(u).__name__, str(u), u.expanded(), str(u.dimensionality()), u.is_dimensionless(), u.is_time_unit()]
    if hasattr(u, "reference_date"):
        return out + [str(u.reference_date), str(u.unit), u.unit.expanded(), u.is_convertible_to(u), u.is_convertible_to(u.unit)]
    b = us.unit(base)
    for x, y in ((u, b), (b, u), (u, u)):
        c = obs(Converter, x, y)
        if c[0] == "ok":
            out.append((str(c[1].expression), [repr(obs(c[1].convert, v)[:2]) for v in VALUES]))
        else:
            out.append(c[:3])
    out.append((u.is_convertible_to(b), b.is_convertible_to(u), u == b, b == u))
    return out


def unit(item):
    """Copies of one unit, made before and after it was used."""
    s, hows = item
    sysm, us = systems.both()
    try:
        kind, m = sysm.date(s)[:2]
    except (refunits.Unresolvable, refunits.Refused, SyntaxError):
        return [], {"_items": 0}
    if m.odd in SKIP:
        return [], {"_items": 0}
    base = sem.base_text(m)
    u = obs(us.unit, s)
    if u[0] != "ok":
        return [], {"_items": 0}
    want = obs(lambda: looks(us.unit(s), base, us))
    viols, n = [], 0
    for how in hows:
        f = HOW[how]
        for state in STATES:
            def go():
                o = us.unit(s)
                if state == "used":
                    looks(o, base, us)
                if state == "copied":
                    o = f(o)
                c = f(o)
                one = obs(lambda: looks(c, base, us))
                two = obs(lambda: looks(o, base, us))
                same = None
                if kind == "unit":
                    same = (c == o, o == c, c != o, c.dimensionality() == o.dimensionality())
                return one, two, same

            o = obs(go)
            n += 1
            key = f"{s}:{how}:{state}"
            what = f"a {how} of {s!r} ({state})"
            if o[0] != "ok":
                viols.append(V(key, f"{what}: {show(o)}"))
                continue
            one, two, same = o[1]
            if one[:3] != want[:3]:
                viols.append(V(key, f"{what} answers {show(one)}, the unit {show(want)}"))
            elif two[:3] != want[:3]:
                viols.append(V(key, f"{what}: the original then answers {show(two)}, before {show(want)}"))
            elif same not in (None, (True, True, False, True)):
                viols.append(V(key, f"{what}: equal both ways, unequal, same dimensionality: {same}"))
    return viols[:2], {"_items": n, "_states": {m.key()}, "_edges": {item}}


QUERIES = ["u", "us", "v", "V", "w", "ws", "k_u", "ku", "kw", "kV", "u v", "u/v", "(u/V)^2 a", "ku/w", "lg(re u)", "u @ 2", "t since 2000-01-01", "u since 2000-01-01", "kx", "nosuch", "kk", "r", "b"]


def answers(us, sysm):
    out = {}
    for s in QUERIES:
        o = obs(us.unit, s)
        if o[0] != "ok":
            out[s] = o[:3]
            continue
        try:
            m = sysm.date(s)[1]
        except (refunits.Unresolvable, refunits.Refused):
            out[s] = (str(o[1]),)
            continue
        out[s] = obs(lambda: looks(o[1], sem.base_text(m), us))[:3] if m.odd not in SKIP else str(o[1])
        if s.isalpha():
            x = obs(lambda: us.unit_by_name_or_symbol(s))
            out[s + "!"] = (x[0], str(x[1]) if x[0] == "ok" else x[1:3])
    return out


def differ(a, b):
    return [k for k in a if a[k] != b.get(k)]


def system(item):
    """A copied system answers as the original, and each goes its own way."""
    f1, f2, how = item
    d1 = f1.format(x="a", y="t")
    d2 = f2.format(x="u", y="b") if "{y}" in f2 else f2.format(x="us")
    base = BASES + [U("u", "us", (), definition=d1), U("v", None, ("V",), [("w", "ws")], ("x",), definition=d2)]
    sysm = System(base, PRE)
    more = [U("extra", "extras", ("kV",), definition="12 a u"), U("nosuch", None, (), definition="a/u")]
    grown = System(base + more, PRE + [P("mega", "1e6", ("k_",))])
    try:
        if any(sysm.date(d)[0] != "unit" or sysm.date(d)[1].odd in SKIP for d in (d1, d2)):
            return [], {"_items": 0}
    except refunits.Refused:
        return [], {"_items": 0}

    def grow(us):
        us.add_prefix(refunits.code_prefix(grown.prefixes[-1]))
        for u in more:
            us.add_unit(refunits.code_unit(us, u))

    f = HOW[how]
    want = answers(refunits.from_system(sysm), sysm)
    big = refunits.from_system(sysm)
    grow(big)
    wantbig = answers(big, grown)
    viols, n = [], 0

    def must(got, exp, what):
        nonlocal n
        n += len(exp)
        if got[0] != "ok":
            viols.append(V(f"system:{item}:{what}", f"u = {d1}, v = {d2}, {how}: {what}: {show(got)}"))
            return
        d = differ(exp, got[1])
        if d:
            viols.append(V(f"system:{item}:{what}:{d[0]}", f"u = {d1}, v = {d2}, {how}: {what}: {d[0]!r} gives {got[1].get(d[0])}, expected {exp[d[0]]}"))

    for state in ("new", "used", "half"):
        us = refunits.from_system(sysm)
        if state == "used":
            answers(us, sysm)
        if state == "half":
            obs(us.unit, "ku")
        c = obs(f, us)
        if c[0] != "ok":
            viols.append(V(f"system:{item}:{state}", f"u = {d1}, v = {d2}: {how} of the {state} system: {show(c)}"))
            continue
        c = c[1]
        must(obs(answers, c, sysm), want, f"the copy of the {state} system")
        must(obs(answers, us, sysm), want, f"the {state} original")
        if how == "copy":
            continue  # may share with the original
        grow(c)
        must(obs(answers, us, sysm), want, f"the {state} original after units were added to the copy")
        must(obs(answers, c, grown), wantbig, f"the copy of the {state} system with units added")
        c2 = f(us)
        grow(us)
        must(obs(answers, c2, sysm), want, f"the copy of the {state} system after units were added to the original")
        must(obs(answers, us, grown), wantbig, f"the {state} original with units added")
    return viols[:2], {"_items": n, "_edges": {item}, "_states": {(d1, d2, how)}}


def together(item):
    """Units of one system stay units of one system when copied together, or apart."""
    from pyudunits2 import Converter

    a, b = item
    sysm, us = systems.both()
    want = obs(lambda: (us.unit(a) == us.unit(b), us.unit(a).is_convertible_to(us.unit(b)), us.unit(a).dimensionality() == us.unit(b).dimensionality(), [repr(Converter(us.unit(a), us.unit(b)).convert(v)) for v in VALUES] if us.unit(a).is_convertible_to(us.unit(b)) else None))
    viols, n = [], 0
    for how, f in HOW.items():
        for way in ("together", "apart", "first", "second"):
            def go():
                x, y = us.unit(a), us.unit(b)
                if way == "together":
                    x, y = f([x, y]) if how != "copy" else (f(x), f(y))
                elif way == "apart":
                    x, y = f(x), f(y)
                elif way == "first":
                    x = f(x)
                else:
                    y = f(y)
                return x == y, x.is_convertible_to(y), x.dimensionality() == y.dimensionality(), [repr(Converter(x, y).convert(v)) for v in VALUES] if x.is_convertible_to(y) else None

            o = obs(go)
            n += 1
            if o[:3] != want[:3]:
                viols.append(V(f"{a}:{b}:{how}:{way}", f"{a!r} and {b!r} ({how}, {way}): {show(o)}, without copies {show(want)}"))
    return viols[:2], {"_items": n, "_edges": {item}}


def db(item):
    """The bundled system, copied."""
    how, names = item
    from pyudunits2 import UnitSystem, Converter

    us = UnitSystem.from_udunits2_xml()
    c = obs(HOW[how], us)
    if c[0] != "ok":
        return [V(f"db:{how}", f"{how} of the bundled system: {show(c)}")], {}
    viols = []
    for s in names:
        a = obs(lambda: looks(us.unit(s), "m", us))
        b = obs(lambda: looks(c[1].unit(s), "m", c[1]))
        if a[:3] != b[:3]:
            viols.append(V(f"db:{how}:{s}", f"{s!r} in a {how} of the bundled system: {show(b)}, in the system {show(a)}"))
    return viols[:2], {"_items": len(names), "_edges": {item}}


FUNCTIONS = {"unit": unit, "system": system, "together": together, "db": db}
ATOMS = ["m", "s", "km", "2", "N", "degC", "rad", "Bm", "hours"]
MORE = ["0.5", "-1", "millimetre", "Hz", "hot", "sym", "one", "percent", "decade", "dm^3", "degF", "year", "s @ 5", "s since 2000-01-01", "hours since 1970-01-01 00:00", "m @ 2", "", "1e3", "1.5e-3 kg", "m²"]
PAIRS = ["m", "km", "1/m", "s", "Hz", "degC", "K", "degF", "rad", "1", "percent", "Bm", "W", "decade", "N m", "J", "sym", "s2", "2", "hot"]


def main(run):
    q = run.quick
    items = ATOMS + MORE + exprs.trees(ATOMS + MORE[:9] if q else ATOMS + MORE, 1, unops=exprs.UN[:2] + exprs.UN_LOG[:1] + exprs.UN_SHIFT[:1] if q else exprs.UN + exprs.UN_LOG + exprs.UN_SHIFT)
    if not q:
        items += exprs.trees(ATOMS[:5], 2)
    hows = ("copy", "deepcopy", "pickle2", f"pickle{pickle.HIGHEST_PROTOCOL}") if q else tuple(HOW)
    run.map("unit", [(s, hows) for s in dict.fromkeys(items)], timeout=100)
    forms = FORMS[:2] + FORMS[2:3] + FORMS[15:17] + FORMS[20:] if q else FORMS
    run.map("system", [(a, b, h) for a in forms for b in forms for h in (hows if not q else hows[:2] + hows[-1:])], timeout=100)
    run.map("together", [(a, b) for a in PAIRS for b in PAIRS], timeout=100)
    names = [u.spellings()[0] for u in refdb.load().units]
    run.map("db", [(h, tuple(names[lo:lo + 60])) for h in HOW for lo in range(0, len(names), 60)], timeout=200)
    return run.finish(
        note=f"expressions of depth 1 over {len(ATOMS + MORE)} atoms (thorough 2 over 5) x {len(hows)} ways to copy x fresh, used and copied units; all two-step definition chains over {len(forms)} forms x copies of new, half used and used systems, each extended afterwards; all pairs of {len(PAIRS)} units, copied together or apart; the bundled system",
        assumptions=["a shallow copy of a system may share its tables with the original", "date units are compared by what they answer (they have no equality of values)", "a converter need not be picklable"],
    )
