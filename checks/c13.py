"""C13: unit equality is equality of meaning."""
from vlib import refdb, refunits
from vlib.mc import V, obs, show
from vlib.refunits import U, P, System
from . import systems, exprs
from .c08 import system

SKIP = True
_u = {}


def get(which, s):
    k = (which, s)
    if k not in _u:
        sysm, us = system(which)
        _u[k] = None
        try:
            kind, m = sysm.date(("id", s[1:]) if s[:1] == "=" else s)[:2]
        except (refunits.Unresolvable, refunits.Refused, SyntaxError):
            return None
        if kind != "unit" or m.odd:
            return None
        o = obs(us.unit_by_name_or_symbol, s[1:]) if s[:1] == "=" else obs(us.unit, s)
        if o[0] == "ok":
            _u[k] = (m, o[1])
    return _u[k]


def compare(a, b, want, key, what):
    viols = []
    o = obs(lambda: (a == b, b == a, a != b, b != a))
    if o[0] != "ok" or o[1] != (want, want, not want, not want) or any(type(x) is not bool for x in o[1]):
        viols.append(V(key, f"{what}: ==, reversed ==, !=, reversed != give {show(o)}, expected == to be {want}"))
    return viols


def few(m, others):
    """The positions of others worth comparing with m in the quick tier: those of its dimensions, and the first of each other."""
    seen = set()
    for j, k in enumerate(others):
        new = tuple(sorted(k.dims.items()))
        if not QUICK or k.dims == m.dims or new not in seen:
            yield j
        seen.add(new)


FIRST = {}


def first(which, name, t):
    """Whether t is the first of its dimensions in the list."""
    if name not in FIRST:
        seen = FIRST[name] = {}
        for x in LISTS[name]:
            b = get(which, x)
            if b is not None:
                seen.setdefault(tuple(sorted(b[0].dims.items())), x)
    return t in FIRST[name].values()


def row(item):
    """One unit against the units from its position on in the list."""
    which, s, name = item
    a = get(which, s)
    viols, n, ed = [], 0, set()
    if a is None:
        return [], {"_items": 0}
    g = LISTS[name]
    for t in g[g.index(s):]:
        b = get(which, t)
        if b is None:
            continue
        if QUICK and name in "TDB" and a[0].dims != b[0].dims and not first(which, name, t):
            continue  # (thorough: all)
        n += 1
        want = a[0] == b[0]
        viols += compare(a[1], b[1], want, f"{which}:{s}:{t}", f"{s!r} and {t!r}")
        if s == t:
            # The same text, asked again.
            us = system(which)[1]
            c = us.unit_by_name_or_symbol(s[1:]) if s[:1] == "=" else us.unit(s)
            viols += compare(a[1], c, True, f"{which}:{s}:again", f"{s!r} asked for twice")
        ed.add((which, s, t, want))
        if len(viols) > 3:
            break
    return viols[:3], {"_items": n, "_edges": ed, "_states": {(which, a[0].key())}}


def others(item):
    """Things that are no unit."""
    which, s = item
    a = get(which, s)
    if a is None:
        return [], {"_items": 0}
    from pyudunits2._grammar import parse

    u = a[1]
    us = system(which)[1]
    viols = []

    class Odd:
        pass

    date = us.unit("s since 2000-01-01") if which == "S" else us.unit("seconds since 2000-01-01")
    things = [s, str(u), None, 0, 1, 1.0, (), [], {}, object(), Odd(), parse("m"), u.dimensionality(), date, type(u), us, "1", b"m"]
    for x in things:
        o = obs(lambda: (u == x, x == u, u != x, x != u))
        if o[0] != "ok" or o[1] != (False, False, True, True):
            viols.append(V(f"{which}:{s}:{type(x).__name__}", f"{s!r} compared with {x!r} ({type(x).__name__}): {show(o)}"))
    o = obs(lambda: (u in [None, 1, "m", u], [u].index(u), [None, u].count(u)))
    if o[0] != "ok" or o[1] != (True, 0, 1):
        viols.append(V(f"{which}:{s}:list", f"{s!r} is not found in a list: {show(o)}"))
    return viols[:2], {"_items": len(things)}


def products(n, leaves):
    """All products and quotients of n leaves, fully bracketed."""
    if n == 1:
        return list(leaves)
    return [f"({x}{op}{y})" for k in range(1, n) for x in products(k, leaves) for y in products(n - k, leaves) for op in ("·", "/")]


def bracketed(item):
    """A product against all products of the same leaves."""
    leaves, i = item
    group = PRODUCTS[leaves]
    viols, n = [], 0
    a = get("S", group[i])
    for t in group[i:]:
        b = get("S", t)
        n += 1
        viols += compare(a[1], b[1], a[0] == b[0], f"prod:{group[i]}:{t}", f"{group[i]!r} and {t!r}")
        if viols:
            break
    return viols, {"_items": n, "_edges": {item}, "_states": {("S", a[0].key())}}


def vector(item):
    """Products of many powers: every spelling against every other, and against those of the neighbouring exponents."""
    names, exps = item
    v = tuple(zip(names, exps))
    same = list(dict.fromkeys(exprs.spell(v, f) for f in exprs.SPELLINGS))
    near = [exprs.spell(v[:i] + ((v[i][0], v[i][1] + d),) + v[i + 1:], "product") for i in range(len(v)) for d in (1, -1)]
    near += ["2 " + same[0], exprs.spell(tuple((n, -e) for n, e in v), "product"), exprs.spell(tuple((n, 2 * e) for n, e in v), "product"), exprs.spell(tuple(zip(names, exps[1:] + exps[:1])), "product")]
    viols, n = [], 0
    a = get("S", same[0])
    for s in same[:1] if QUICK else same:
        u = get("S", s)
        for t in same + near:
            b = get("S", t) if t.strip() else None
            if u is None or b is None:
                continue
            n += 1
            viols += compare(u[1], b[1], u[0] == b[0], f"vector:{s}:{t}", f"{s!r} and {t!r}")
            if len(viols) > 1:
                return viols, {}
    return viols, {"_items": n, "_edges": {item}, "_states": {("S", a[0].key())} if a else set()}


def names(item):
    """Basis units whose names mean something elsewhere."""
    name, other = item
    sysm = systems.named(name, other)
    ex = ["u_", "q_", name, other, f"3 {name}", f"k{name}", f"1000 {name}", "1/q_", "w_", f"3 q_/{other}", "1", f"{name}/{name}", "o_", f"{name} @ 2", f"{name} @ 3", f"lg(re {name})", "lg(re q_)", f"lg(re 3 {name})", "lg(re u_)", f"{name}^2", "q_ q_", f"{name} {other}", f"{other} {name}", "rr_", f"rr_ {name}", f"lg(re {other})", "lg(re 1)"]
    try:
        sysm.meaning(f"w_ {name}")
    except (refunits.Unresolvable, SyntaxError):
        return [], {"_items": 0}
    us = refunits.from_system(sysm)
    got = []
    for s in ex:
        o = obs(us.unit, s)
        if o[0] != "ok":
            return [V(f"names:{item}:{s}", f"unit({s!r}): {show(o)}")], {}
        got.append((s, sysm.meaning(s), o[1]))
    viols, n = [], 0
    for i, (s, m, u) in enumerate(got):
        for t, k, w in got[i:]:
            n += 1
            viols += compare(u, w, m == k, f"names:{item}:{s}:{t}", f"{s!r} and {t!r}")
    return viols[:2], {"_items": n, "_states": {(item, m.key()) for _, m, _ in got}, "_edges": {item}}


PRODUCTS = {}
BASES = [U("a", "as_", ("A",)), U("t", None, time=True), U("r", None, dimensionless=True), U("q", None, dimensionless=True)]
DEFS = ["a", "2 a", "a t", "a/t", "a @ 3", "lg(re a)", "0.1 a", "r a", "a2", "1/a", "2 (a @ 3)", "a r/q", "ln(re 2 a)", "2 a @ 3", "a/3", "ka"]


def chain(item):
    """Two units defined somehow, compared with each other in expressions."""
    d1, d2 = item
    sysm = System(BASES + [U("u", "us", ("U",), definition=d1), U("v", None, ("V",), [("w", None)], definition=d2)], [P("kilo", "1e3", ("k",))])
    us = refunits.from_system(sysm)
    ex = ["u", "v", "us", "w", "u^2", "v^2", "2 u", "ku", "1/v", "u/v", "v/u", "a", d1, d2, "u v", "v u", "(u) @ 3" , "(v @ 1) @ 2"]
    got = []
    for s in dict.fromkeys(ex):
        try:
            kind, m = sysm.date(s)[:2]
        except refunits.Refused:
            continue
        if kind != "unit" or m.odd:
            continue
        o = obs(us.unit, s)
        if o[0] != "ok":
            return [V(f"chain:{item!r}:{s}", f"unit({s!r}): {show(o)}")], {}
        got.append((s, m, o[1]))
        if s in ("u", "v", "us", "w", "a"):
            got.append(("=" + s, m, us.unit_by_name_or_symbol(s)))
    viols, n = [], 0
    for i, (s, m, u) in enumerate(got):
        for j in few(m, [k for _, k, _ in got]):
            t, k, w = got[j]
            if j < i and k.dims == m.dims:
                continue
            n += 1
            viols += compare(u, w, m == k, f"chain:{item!r}:{s}:{t}", f"with u = {d1}, v = {d2}: {s!r} and {t!r}")
    return viols[:2], {"_items": n, "_states": {(item, m.key()) for _, m, _ in got}, "_edges": {item}}


def across(item):
    """The same texts where u means d1 and where it means d2: in two systems, or in one before and after u is replaced."""
    d1, d2, how = item
    got = []
    us = None
    for k, d in enumerate((d1, d2)):
        more = U("u", "us", ("U",), definition=d)
        v = U("v", None, definition="2 u")
        sysm = System(BASES + [more, v], [P("kilo", "1e3", ("k",))])
        if how == "replaced" and k:
            from pyudunits2._unit_system import LazilyDefinedUnit
            from pyudunits2._unit_reference import UnitReference, Name

            us.add_unit(LazilyDefinedUnit(us, d, UnitReference(name=Name("u", "us"), symbols=("U",))), replace=True)
            ex = ["u", "us", "u^2", "2 u", "ku", "1/u", "u a"]  # (v may have been resolved before)
        else:
            us = refunits.from_system(sysm)
            ex = ["u", "us", "v", "u^2", "2 u", "ku", "1/u", "u a", "v/2", d1, d2]
        for s in dict.fromkeys(ex):
            try:
                kind, m = sysm.date(s)[:2]
            except refunits.Refused:
                continue
            if kind != "unit" or m.odd:
                continue
            o = obs(us.unit, s)
            if o[0] != "ok":
                return [V(f"across:{item!r}:{s}", f"unit({s!r}): {show(o)}")], {}
            got.append((k, s, m, o[1]))
            if s == "u":
                got.append((k, "=u", m, us.unit_by_name_or_symbol("u")))
    viols, n = [], 0
    for i, s, m, u in got:
        if i == 0:
            later = [x for x in got if x[0]]
            for _, t, k, w in (later[j] for j in few(m, [k for _, _, k, _ in later])):
                n += 1
                viols += compare(u, w, m == k, f"across:{item!r}:{s}:{t}", f"{s!r} where u is {d1} and {t!r} where u is {d2} ({how})")
    return viols[:2], {"_items": n, "_states": {(item, m.key()) for _, _, m, _ in got}, "_edges": {item}}


def deep(item):
    """The end of a long chain of definitions, and what it comes to."""
    pattern, depth = item
    sysm, last = systems.deep(pattern, depth)
    us = refunits.from_system(sysm)
    m = sysm.meaning(last)
    powers = " ".join(f"{n}^{e}" for n, e in [*m.dims.items(), *m.dless.items()])
    viols, n = [], 0
    num, den = m.scale.numerator, m.scale.denominator
    for a in (last, f"({last})"):
        for b, want in ((f"{num} {powers}/{den}", True), (f"{num + 1} {powers}/{den}", num * (num + 1) == 0), (f"{num} {powers} r/{den}", False), (last, True), (f"2 {last}", False), (f"k{last}", False), (f"1000 {last}/1000", True), (f"{num} {powers}/{den + 1}", False)):
            n += 1
            viols += compare(us.unit(a), us.unit(b), want, f"deep:{item}:{a}:{b}", f"at the end of a chain of {depth} definitions, {pattern}: {a!r} and {b!r}")
    return viols[:2], {"_items": n, "_states": {m.key()}, "_edges": {item}}


FUNCTIONS = {"deep": deep, "row": row, "others": others, "chain": chain, "bracketed": bracketed, "across": across, "vector": vector, "names": names}
LISTS = {}
QUICK = False
UNITS = [
    "m", "=m", "=meter", "meters", "metre", "1 m", "m 1", "(m)", "m^1", "m.1", "1.0 m", "m/1", "m s/s", "100 cm", "1e-3 km", "0.001 km", "1e2 cm", "m·m^0", "1/m^-1", "(1/m)^-1", "(m^-1)^-1", "m2/m", "km", "kilometer", "1000 m", "1e3 m", "10^3 m", "Mm", "mm", "millimetre",
    "m @ 0", "m @ 3", "m @ 3.0", "(m @ 1) @ 2", "(m @ 3)", "m @ -3", "km @ 3", "(m @ 3)^1", "1 (m @ 3)", "2 (m @ 3)", "2 m", "2 m @ 3", "(m @ 3) 2", "0.1 m 3", "0.3 m", "m 3/10", "m/3", "0.3333333333333333 m", "m 7/21",
    "s", "=second", "sec", "1/Hz", "Hz^-1", "min/60", "hour", "60 min", "3600 s", "3.6 ks", "h", "s-1", "Hz", "hertz", "1/s", "per s" if False else "s^-1",
    "N", "kg m/s2", "m.kg/s2", "kg·m·s⁻²", "J/m", "m kg s^-2", "g km/s2", "N rad", "rad N", "N rad/rad", "N^1", "N m", "J", "m N", "W s", "N/m2", "Pa", "N m^-2",
    "K", "kelvin", "°K", "degC", "celsius", "=degC", "K @ 273.15", "K from 273.15", "degree_Celsius", "warm", "hot", "K @ 283.15", "(degC) @ 10", "degC @ 10", "°R @ 459.67", "degF", "K/1.8 @ 459.67", "K 5/9 @ 459.67", "2 degC", "twoC", "2 K", "degC^2", "K^2", "K2", "degC/K",
    "1", "", "2/2", "m/m", "1.0", "one", "rad", "rad/rad", "rad^2", "sr", "rad rad", "1/rad", "degree", "°", "0.017453292519943295 rad", "percent", "0.01", "1/100", "1e-2", "dozen", "12", "3 4", "m^0", "(m/s)^0", "rad^0",
    "lg(re m)", "log(re m)", "lg(re: m)", "LG(RE m)", "lg(re 1 m)", "lg(re metre)", "ln(re m)", "lb(re m)", "lg(re km)", "lg(re 1000 m)", "lg(re 1e3 m)", "(lg(re m))^1", "1 lg(re m)", "lg(re lg(re m))", "lg(re ln(re m))", "ln(re lg(re m))", "(lg(re m)) @ 1", "lg(re (m @ 1))", "lg(re m s)",
    "Bm", "belmilliwatt", "lg(re 1 mW)", "lg(re mW)", "lg(re 0.001 W)", "lg(re 1e-3 J/s)", "loglog", "lg(re Bm)", "decade", "lg(re s)", "bit", "lb(re 1)", "ln(re Pa)", "neper",
    "sym", "=sym", "1 sym", "sym m", "m sym", "a", "A", "ampere", "year", "365.242198781 d", "litre", "dm^3", "l", "(10 cm)^3", "0.001 m3", "1e3 cm3",
]
# Numbers that differ late.
NUMBERS = [
    "1234567891 m", "1234567892 m", "1234567891.0 m", "1.234567891e9 m", "123456789012345678 m", "123456789012345679 m", "123456789012345678.0 m", "12345678901234567.8e1 m", "1e22 m", "10000000000000000000000 m", "10000000000000000000001 m", "10^22 m", "(1e11 m)^2/m", "1e23 m", "99999999999999991611392 m",
    "0.1 m", "0.10 m", "0.1000000000000000055511151231257827 m", "0.10000000000000001 m", "0.1000000001 m", "1e-1 m", "m/10", "0.3 m", "0.1 m 3", "0.30000000000000004 m", "0.33333333333333333333 m", "m/3", "0.3333333333333333 m", "0.333333333333333333333 m", "1/3 m", "7 m/21",
    "9007199254740992 m", "9007199254740993 m", "9007199254740992.0 m", "2^53 m", "(2^53) m", "1.0000000001 m", "1.0000000000000000001 m", "m", "0.99999999999999999999 m", "1e-30 m", "1e-31 m", "0.000000000000000000000000000001 m", "m/1e30", "m @ 1e-30", "m @ 0", "m @ 0.1", "m @ 0.10000000000000001", "m @ 0.1000000000000000055511151231257827",
    "m @ 1234567891", "m @ 1234567891.0", "m @ 1234567892", "m @ 123456789012345678", "m @ 123456789012345679", "m @ 1e22", "m @ 10000000000000000000001", "lg(re 1234567891 m)", "lg(re 1234567892 m)", "lg(re 0.1 m)", "lg(re 0.10000000000000001 m)", "lg(re m/10)",
]


def build(quick=True):
    LISTS.clear()
    LISTS["U"] = list(dict.fromkeys(UNITS))
    sysm = systems.model()
    atoms = ["m", "km", "2", "rad", "degC", "Bm"] if quick else ["m", "km", "2", "rad", "degC", "Bm", "N", "0.1", "hot", "min"]
    trees = exprs.trees(atoms, 1, unops=["({a})^2", "({a})^-1", "({a} @ 5)", "({a})^1", "lg(re {a})"])
    LISTS["T"] = list(dict.fromkeys(trees))
    LISTS["N"] = list(dict.fromkeys(NUMBERS))
    LISTS["D"] = exprs.trees(["m", "2", "(m @ 5)"], 2, unops=["({a})^2", "({a})^-1"])[: 140 if quick else 700]
    db = refdb.load()
    LISTS["B"] = ["=" + x for u in db.units for x in u.spellings()[:1]]


    PRODUCTS.clear()
    for s in products(4, ["m", "s"] if quick else ["m", "s", "rad"]):
        key = "".join(sorted(c for c in s if c.isalpha()))
        PRODUCTS.setdefault(key, []).append(s[1:-1])


def setup():
    build(False)


def main(run):
    global QUICK
    QUICK = run.quick
    build(run.quick)
    for name, which in (("U", "S"), ("N", "S"), ("T", "S"), ("D", "S"), ("B", "db")):
        run.map("row", [(which, s, name) for s in LISTS[name]], timeout=800, chunk=1)
    run.map("others", [("S", s) for s in LISTS["U"]] + [("db", s) for s in LISTS["B"]], timeout=100)
    run.map("chain", [(a, b) for a in DEFS for b in DEFS + ["u", "2 u", "ku", "u2", "u @ 1", "1/u", "lg(re u)"]], timeout=200)
    run.map("across", [(a, b, how) for a in DEFS for b in DEFS for how in ("systems", "replaced")], timeout=200)
    run.map("deep", systems.deep_items(systems.LINEAR, run.quick), timeout=120)
    run.map("names", [(a, "b") for a in systems.NAMES] + ([] if run.quick else [("b", a) for a in systems.NAMES]), timeout=120)
    wide = tuple(exprs.WIDE)
    if run.quick:
        # (up to inversion)
        run.map("vector", [(k, tuple(e for _, e in v)) for k, least in ((wide, 7), (("N", "km", "h", "rad", "Pa", "ft", "K"), 7)) for v in exprs.vectors(least=least) if [e for _, e in v if e][0] > 0], timeout=100)
    else:
        run.map("vector", [(wide, tuple(e for _, e in v)) for v in exprs.vectors(least=3)] + [(("N", "km", "h", "rad", "Pa", "ft", "K"), tuple(e for _, e in v)) for v in exprs.vectors(least=4)], timeout=100)
    run.map("bracketed", [(k, i) for k, g in PRODUCTS.items() for i in range(len(g))], timeout=800, chunk=2)
    return run.finish(
        note=f"all pairs of the products and quotients of the same four factors ({sum(map(len, PRODUCTS.values()))} bracketings); products of up to 7 powers in six spellings (quick: one of them with the others), with each other and with those of neighbouring exponents; basis units with {len(systems.NAMES)} names that mean something elsewhere; all pairs of {len(NUMBERS)} units with numbers that differ late; all pairs of {len(LISTS['U'])} units written in many ways, of {len(LISTS['T'])} expressions of depth 1, of {len(LISTS['D'])} of depth 2, and of all entries of the bundled database (quick: of the last three those of equal dimensions and the first of every other dimension); {len(DEFS)}x{len(DEFS) + 7} definition chains; the same texts in two systems, or in one before and after replacing a unit, for all pairs of {len(DEFS)} definitions; 18 things that are no unit",
        assumptions=["meaning = exact rational scale, exponents (dimensionless basis units included), outermost shift, logarithm chain"],
    )
