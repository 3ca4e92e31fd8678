"""C11: logarithmic units convert by the power of their own base."""
import math
from fractions import Fraction

from vlib import refdb, refunits, sem
from vlib.mc import V, obs, isexc, show
from vlib.refunits import U, System, LOGBASE
from . import systems
from .c09 import system

VALUES = (1, 2, 0.5, -1, 3, -0.25, 10, 0)
_m = {}


def meaning(which, s):
    k = (which, s)
    if k not in _m:
        sysm, _ = system(which)
        try:
            kind, m = sysm.date(s)[:2]
            _m[k] = m if kind == "unit" and not m.odd and m.scale > 0 else None
        except (refunits.Unresolvable, refunits.Refused, SyntaxError):
            _m[k] = None
    return _m[k]


def convert(us, s, t, a, b, key, extra="", values=VALUES):
    from pyudunits2 import Converter

    c = obs(lambda: Converter(us.unit(s), us.unit(t)))
    if c[0] != "ok":
        return [V(f"{key}:converter", f"no converter from {s!r} to {t!r}{extra}: {show(c)}")], 0
    viols, n = [], 0
    for v in values:
        r = sem.check_conversion(c[1].convert, v, a, b, f"{key}:{v}", f"{s!r} to {t!r}{extra}")
        if r is not None:
            n += 1
            viols += r
    return viols[:2], n


def row(item):
    which, s, group = item
    sysm, us = system(which)
    a = meaning(which, s)
    viols, n, k, ed = [], 0, 0, set()
    for t in GROUPS[group]:
        b = meaning(which, t)
        if not (a.logs or b.logs):
            continue
        v, c = convert(us, s, t, a, b, f"{which}:{s}:{t}")
        viols += v
        n += 1
        k += c
        ed.add((which, s, t))
        if len(viols) > 4:
            break
    return viols[:4], {"_items": n, "values_converted": k, "_edges": ed, "_states": {(which, a.key())}}


DEFS = ["a", "2 a", "0.5 a", "a2", "1/a", "lg(re a)", "ln(re 2 a)", "lb(re a/4)", "log(re 3 a)", "lg(re 1/a)", "(lg(re a)) @ 2", "lg(re (a @ 3))", "a @ 3", "lb(re 2 a2)"]


def chain(item):
    """A unit defined by a logarithm of a unit defined by ..., to and from base units."""
    d1, fn, wrap = item
    d2 = wrap.format(f"{fn}(re u)")
    sysm = System([U("a", None, ("A",)), U("u", None, definition=d1), U("v", None, definition=d2)])
    us = refunits.from_system(sysm)
    viols, n, k, st = [], 0, 0, set()
    for s in ("v", "v @ 1", "lb(re v)"):
        m = sysm.meaning(s)
        if m.odd:
            continue
        base = sem.base_text(m)
        mb = sem.base_meaning(m)
        inv = f"1/({base})"
        st.add(m.key())
        for x, y, mx, my in ((s, base, m, mb), (base, s, mb, m), (s, inv, m, sysm.meaning(inv)), (inv, s, sysm.meaning(inv), m), ("u", s, sysm.meaning("u"), m), (s, "u", m, sysm.meaning("u"))):
            v, c = convert(us, x, y, mx, my, f"chain:{item!r}:{x}:{y}", f" with u = {d1}, v = {d2}", (1.0, 2, 0.5, -1.0, 3.0))
            viols += v
            n += 1
            k += c
    return viols[:2], {"_items": n, "values_converted": k, "_states": st, "_edges": {item}}


def scaled(item):
    """A multiple of a logarithmic unit: v stands for 10^(c·v) times the reference."""
    c, fn, ref, other, oc = item
    us = systems.both()[1]
    s = f"{c} {fn}(re {ref})"
    t = other
    from pyudunits2 import Converter

    conv = obs(lambda: Converter(us.unit(s), us.unit(t)))
    v = 3
    b = LOGBASE[fn]
    x = float(Fraction(c)) * v
    x = math.exp(x) if b == "e" else float(b) ** x
    want = x if oc is None else math.log(x, b) / oc
    o = obs(conv[1].convert, v) if conv[0] == "ok" else conv
    if o[0] != "ok" or not sem.close(o[1], want):
        return [V(f"scaled:{s} -> {t}", f"{v} ({s}) in {t} is {show(o)}, expected {want}")], {}
    return [], {}


def bigint(item):
    """Whole numbers beyond 64 bits."""
    s, t, e = item
    _, us = systems.both()
    v, c = convert(us, s, t, meaning("S", s), meaning("S", t), f"int:{s} -> {t}:10**{e}", values=(10**e,))
    for x in v:
        x["key"] = f"int:{s} -> {t}:10**{e}"
    return v, {"values_converted": c}


def two(item):
    """Two logarithms multiplied or divided are no unit that converts."""
    from pyudunits2 import Converter

    s, targets = item
    _, us = systems.both()
    u = obs(us.unit, s)
    if u[0] != "ok":
        return ([] if isexc(u, "ValueError") else [V(f"two:{s}", f"unit({s!r}): {show(u)}")]), {}
    viols = []
    for t in (s,) + targets:
        w = us.unit(t)
        for what, x, y in (("to", u[1], w), ("from", w, u[1])):
            o = obs(Converter, x, y)
            if not isexc(o, "ValueError", "IncompatibleUnitsError"):
                viols.append(V(f"two:{s}:{what}:{t}", f"{s!r}, which has two logarithms, {what} {t!r} is not refused with ValueError: {show(o)}"))
    return viols[:2], {"_items": 2 * (1 + len(targets)), "_edges": {item}}


LOGS = ["lg(re m)", "ln(re m)", "lb(re 2 s)", "lg(re 1)", "Bm", "decade", "lg(re lg(re m))", "(lg(re m) @ 2)", "loglog", "2 lg(re W)", "neper/2"]


def doubles(quick):
    out = []
    for a in LOGS:
        for b in LOGS if not quick else LOGS[:8]:
            for p in ("{a} {b}", "{a}/{b}", "({a}) ({b})", "m {a} {b}", "{a} m {b}", "{a}/s/{b}", "({a} {b}) @ 3", "lg(re {a} {b})", "({a} {b})^2", "({a}/{b})^-1", "2/({a} {b})"):
                out.append((p.format(a=a, b=b), ("m", "s", "1", a, b)))
    return out


def names(item):
    """Basis units whose names mean something elsewhere."""
    name, = item
    sysm = systems.named(name)
    try:
        sysm.meaning(f"w_ {name}")
    except (refunits.Unresolvable, SyntaxError):
        return [], {"_items": 0}
    us = refunits.from_system(sysm)
    viols, n, k = [], 0, 0
    logs = [f"lg(re {name})", "ln(re 3 q_)", f"(lb(re u_)) @ 1", f"lb(re lg(re {name}))", f"lg(re 1/{name})"]
    for a in logs:
        for b in logs + [name, "u_", f"1/{name}", f"{name} @ 2"]:
            for x, y in ((a, b), (b, a)):
                v, c = convert(us, x, y, sysm.meaning(x), sysm.meaning(y), f"names:{name}:{x}:{y}", f" ({name!r} is a basis unit)", (1.0, 2, 0.5, 3.0))
                viols += v
                n += 1
                k += c
    return viols[:2], {"_items": n, "values_converted": k, "_edges": {("names", name)}}


FUNCTIONS = {"names": names, "two": two, "bigint": bigint, "row": row, "chain": chain, "scaled": scaled}
GROUPS = {}
REFS = ["m", "2 m", "0.1 km", "km", "1/m", "m^2/ft", "s", "3 hours", "1/s", "Hz", "mW", "W", "1 mW", "1e-3 J/s", "1", "2", "percent", "rad", "degree", "K", "degC", "(K @ 3)", "Pa", "20 µPa", "m/s", "s/m", "km/hour", "1234567891 m", "0.1234567890123 km", "m/1234567891", "W/1000000007", "1000000007"]
NEST = ["m", "2 m", "1", "W", "s"]
UNITS = [
    "m", "km", "ft", "1/m", "100 m", "s", "hours", "Hz", "min", "W", "mW", "kW", "1/W", "1", "2", "0.01", "rad", "percent", "K", "degC", "kK", "1/K", "Pa", "kPa", "gauge", "m/s", "s/m", "km/hour",
    "Bm", "belmilliwatt", "decade", "neper", "Np", "bit", "loglog", "lg(re Bm)", "(Bm) @ 3", "Bm^1", "1 Bm", "Bm 1", "(lg(re m)) @ 2", "(ln(re km)) @ -1", "(lb(re 1/m)) @ 0.5", "((lg(re s)) @ 1) @ 2", "lg(re lg(re lg(re m)))",
    "log(re: m)", "LG(RE m)", "Ln(Re 2 m)", "lb(re:1)", "lg(re 1:)" if False else "lg(re 10)", "ln(re 1)", "lb(re 8)", "log(re 2)",
]


def build(quick=True):
    GROUPS.clear()
    names = UNITS + [f"{f}(re {r})" for f in ("lg", "ln", "lb", "log") for r in REFS]
    names += [f"{f}(re {g}(re {r}))" for f in ("lg", "ln", "lb", "log") for g in ("lg", "ln", "lb") for r in (NEST[:3] if quick else NEST)]
    out = {}
    for s in dict.fromkeys(names):
        m = meaning("S", s)
        if m is None:
            continue
        d = tuple(sorted(m.dims.items()))
        i = tuple(sorted((k, -v) for k, v in m.dims.items()))
        out.setdefault(min(d, i), []).append(s)
    for d, g in out.items():
        GROUPS[("U", "S", d)] = g
    db = refdb.load()
    logs = [x for u in db.units for x in u.spellings() if db.parse(x) == ("id", x) and (lambda m: m is not None and m.logs)(meaning("db", x))]
    for s in logs:
        m = meaning("db", s)
        g = GROUPS.setdefault(("B", "db", tuple(sorted(m.dims.items()))), [sem.base_text(m), f"1/({sem.base_text(m)})", f"7 {sem.base_text(m)}" if m.dims else "7", f"ln(re {sem.base_text(m)})"])
        g.append(s)
    for k, g in GROUPS.items():
        GROUPS[k] = list(dict.fromkeys(g))


def setup():
    build(False)


def main(run):
    build(run.quick)
    run.map("row", [(k[1], s, k) for k, g in GROUPS.items() for s in g], timeout=800, chunk=1)
    run.map("chain", [(d, f, w) for d in DEFS for f in ("lg", "ln", "lb", "log") for w in ("{}", "({}) @ 0.5")], timeout=200)
    run.map("names", [(x,) for x in systems.NAMES], timeout=200)
    run.map("bigint", [("m", "lg(re m)", 18), ("m", "lg(re m)", 20), ("m", "ln(re m)", 20)], timeout=60)
    run.map("two", doubles(run.quick), timeout=60)
    run.map("scaled", [("2", "lg", "m", "m", None), ("0.1", "lg", "m", "m", None), ("0.1", "lg", "1", "1", None), ("2", "lg", "m", "lg(re m)", 1), ("2", "lg", "m", "5 lg(re m)", 5), ("2", "ln", "m", "m", None), ("0.5", "lb", "m", "m", None)], timeout=60)
    return run.finish(
        note=f"all ordered pairs (at least one logarithmic) among {sum(len(g) for g in GROUPS.values())} units: 4 functions x {len(REFS)} references, nested twice, shifted, named, and the logarithmic units of the bundled database; {len(DEFS)} definition chains x 4 functions; every product and quotient of two of {len(LOGS)} logarithmic units in 11 shapes (refused); basis units with {len(systems.NAMES)} names that mean something elsewhere; 8 values each",
        assumptions=["results compared within 1e-9 relative plus 10 times the effect of a 1e-10 relative change of the value (logarithms amplify rounding)", "multiples of logarithmic units are a known finding (pinned by the project's tests)"],
    )
