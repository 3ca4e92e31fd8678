"""C24: units built by hand mean the same as units asked of a system."""
from vlib import refunits, sem
from vlib.mc import V, obs, isexc, show
from vlib.refunits import U, P, System
from . import systems, exprs
from .c07 import BASES, PRE, FORMS, SKIP

VALUES = (0, 3, -2.5)


def idents(ast, out=None):
    out = set() if out is None else out
    if ast[0] == "id":
        out.add(ast[1])
    for x in ast[1:]:
        if isinstance(x, tuple):
            idents(x, out)
    return out


def by_hand(us, s, ast, cls=None, **kw):
    from pyudunits2 import Unit
    from pyudunits2._expr.graph import Identifier
    from pyudunits2._grammar import parse

    refs = {Identifier(n): us.unit_by_name_or_symbol(n) for n in idents(ast)}
    return (cls or Unit)(definition=parse(s), identifier_references=refs, **kw)


def look(u, us, base):
    """All there is to see of a unit."""
    from pyudunits2 import Converter

    out = [str(u), u.expanded(), str(u.dimensionality()), u.is_dimensionless(), u.is_time_unit(), type(u).__name__ in ("Unit", "NamedUnit", "BasisUnit")]
    b = us.unit(base)
    for x, y in ((u, b), (b, u)):
        c = obs(Converter, x, y)
        if c[0] != "ok":
            out.append(c[:3])
            continue
        out.append([repr(obs(c[1].convert, v)[:2]) for v in VALUES])
    out.append((u == u, u == b, b == u, u.is_convertible_to(b), b.is_convertible_to(u)))
    return out


def plain(item):
    """Unit(definition, references) against unit(text)."""
    s, = item
    sysm, us = systems.both()
    ast = sysm.parse(s)
    if ast is None or ast == ("empty",):
        return [], {"_items": 0}
    try:
        kind, m = sysm.date(s)[:2]
    except (refunits.Unresolvable, SyntaxError):
        return [], {"_items": 0}
    except refunits.Refused:
        kind, m = "refused", None
    h = obs(by_hand, us, s, ast)
    if kind != "unit":
        if not isexc(h, "ValueError"):
            return [V(f"date:{s}", f"Unit of the definition {s!r} should be refused with ValueError, gave {show(h)}")], {}
        return [], {"refused": 1}
    if m.odd in SKIP:
        return [], {"_items": 0}
    u = obs(us.unit, s)
    if u[0] != "ok":
        return [], {"_items": 0}  # (C16)
    if h[0] != "ok":
        return [V(f"hand:{s}", f"Unit of the definition {s!r} cannot be built: {show(h)}")], {}
    viols = sem.check_dims(h[1], m, f"dims:{s}", f"Unit of the definition {s!r}")
    base = sem.base_text(m)
    a, b = obs(look, h[1], us, base), obs(look, u[1], us, base)
    if a[:3] != b[:3] or (a[0] != "ok" and not m.odd):
        viols.append(V(f"look:{s}", f"Unit of the definition {s!r} answers {show(a)}, unit({s!r}) answers {show(b)}"))
    e = obs(lambda: (h[1] == u[1], u[1] == h[1], h[1] != u[1], h[1].is_convertible_to(u[1])))
    if e != ("ok", (True, True, False, True)):
        viols.append(V(f"eq:{s}", f"Unit of the definition {s!r} compared with unit({s!r}): {show(e)}"))
    # The same from a definition normalised before.
    def normalised():
        from pyudunits2 import Unit
        from pyudunits2._expr.graph import Identifier
        from pyudunits2._expr.normaliser import NormalisedNode
        from pyudunits2._grammar import parse

        refs = {Identifier(n): us.unit_by_name_or_symbol(n) for n in idents(ast)}
        graph = parse(s)
        n = NormalisedNode(graph, refs)
        if graph != parse(s):
            return "the given graph was changed"
        return Unit(definition=n, identifier_references=refs)

    n = obs(normalised)
    if n[0] != "ok" or isinstance(n[1], str):
        viols.append(V(f"norm:{s}", f"Unit of the normalised definition {s!r}: {show(n)}"))
    else:
        c = obs(look, n[1], us, base)
        if c[0] != b[0] or (c[0] == "ok" and c[1][2:] != b[1][2:]) or (c[0] != "ok" and not m.odd):
            viols.append(V(f"norm:{s}:look", f"Unit of the normalised definition {s!r} answers {show(c)}, unit({s!r}) answers {show(b)}"))
        viols += sem.check_dims(n[1], m, f"norm:{s}:dims", f"Unit of the normalised definition {s!r}")
        e = obs(lambda: (n[1] == u[1], u[1] == n[1], n[1] == h[1]))
        if e != ("ok", (True, True, True)):
            viols.append(V(f"norm:{s}:eq", f"Unit of the normalised definition {s!r} compared with unit({s!r}): {show(e)}"))
    return viols[:2], {"_states": {m.key()}, "_edges": {item}}


def register(sysm, how):
    """The system with each unit registered lazily ('l') or as a finished NamedUnit ('n')."""
    from pyudunits2 import NamedUnit, UnitSystem

    us = UnitSystem()
    for p in sysm.prefixes:
        us.add_prefix(refunits.code_prefix(p))
    k = 0
    for u in sysm.units:
        lazy = refunits.code_unit(us, u)
        if u.definition is None:
            us.add_unit(lazy)
            continue
        if how[k] == "n":
            from pyudunits2._unit_reference import UnitReference, Name

            ref = UnitReference(
                name=Name(u.name, u.plural) if u.name is not None else None, symbols=u.symbols,
                alias_names=tuple(Name(*a) for a in u.aliases), alias_symbols=u.alias_symbols,
            )
            us.add_unit(by_hand(us, u.definition, sysm.parse(u.definition), NamedUnit, names=ref))
        else:
            us.add_unit(lazy)
        k += 1
    return us


QUERIES = ["u", "us", "v", "V", "w", "ws", "x", "ku", "kw", "kV", "u v", "u/v", "(u/V)^2 a", "ku/w", "1/(ws u)", "lg(re u)", "u @ 2", "2 v @ 1", "kx", "nosuch", "kk"]


def named(item):
    """Definitions registered as text or as finished units: the same system."""
    f1, f2, how = item
    d1 = f1.format(x="a", y="t")
    d2 = f2.format(x="u", y="b") if "{y}" in f2 else f2.format(x="us")
    sysm = System(BASES + [U("u", "us", (), definition=d1), U("v", None, ("V",), [("w", "ws")], ("x",), definition=d2)], PRE)
    try:
        if any(sysm.date(d)[0] != "unit" or sysm.date(d)[1].odd in SKIP for d in (d1, d2)):
            return [], {"_items": 0}
    except refunits.Refused:
        return [], {"_items": 0}
    us = register(sysm, how)
    ref = refunits.from_system(sysm)
    viols, n, st = [], 0, set()
    for s in QUERIES:
        try:
            kind, m = sysm.date(s)[:2]
        except refunits.Unresolvable:
            o = obs(us.unit, s)
            if not isexc(o, "UnresolvableUnitException"):
                viols.append(V(f"named:{item}:{s}", f"u = {d1}, v = {d2}, registered {how}: {s!r} gives {show(o)}"))
            continue
        except refunits.Refused:
            continue
        if m.odd in SKIP or kind != "unit":
            continue
        n += 1
        st.add(m.key())
        base = sem.base_text(m)
        what = f"{s!r} with u = {d1} and v = {d2} registered as {how}"
        u, r = obs(us.unit, s), obs(ref.unit, s)
        if u[0] != "ok" or r[0] != "ok":
            if u[:2] != r[:2]:
                viols.append(V(f"named:{item}:{s}", f"{what}: {show(u)}, registered as text {show(r)}"))
            continue
        viols += sem.check_dims(u[1], m, f"named:{item}:{s}:dims", what)
        a, b = obs(look, u[1], us, base), obs(look, r[1], ref, base)
        if a[:3] != b[:3] or (a[0] != "ok" and not m.odd):
            viols.append(V(f"named:{item}:{s}:look", f"{what}: {show(a)}, all registered as text: {show(b)}"))
        if s.isalpha():
            x, y = obs(lambda: look(us.unit_by_name_or_symbol(s), us, base)), obs(lambda: look(ref.unit_by_name_or_symbol(s), ref, base))
            if x[:3] != y[:3] or (x[0] != "ok" and not m.odd):
                viols.append(V(f"named:{item}:{s}:lookup", f"{what}, looked up: {show(x)}, all registered as text: {show(y)}"))
        if len(viols) > 2:
            break
    return viols[:2], {"_items": n, "_states": st, "_edges": {item}}


SHAPES = [("a", None, ()), ("a", "as_", ()), ("a", None, ("A",)), (None, None, ("a",)), (None, None, ("b", "a")), ("b", None, ("a",)), ("c", "a", ()), ("A", None, ())]


def basis(item):
    """Basis units that belong to no system."""
    from pyudunits2 import BasisUnit, Converter, Unit
    from pyudunits2._expr.graph import Identifier
    from pyudunits2._grammar import parse
    from pyudunits2._unit_reference import UnitReference, Name

    (n1, k1), (n2, k2) = item

    def make(sh, kind):
        n, pl, sy = sh
        return BasisUnit(names=UnitReference(name=Name(n, pl) if n else None, symbols=sy), dimensionless=kind == "dimensionless", is_time_unit=kind == "time")

    def check():
        a, b = make(n1, k1), make(n2, k2)
        ra, rb = n1[0] or n1[2][0], n2[0] or n2[2][0]
        same = ra == rb
        viols = []

        def must(cond, what):
            if not cond:
                viols.append(V(f"basis:{item}:{what}", f"basis units {n1} {k1} and {n2} {k2}: {what}"))

        must(str(a) == ra and a.expanded() == ra, "the text of the first")
        must((a == b) is same and (b == a) is same and (a != b) is not same, "equality")
        must(a == a, "reflexivity")
        must(not same or hash(a) == hash(b), "equal ones have equal hashes")
        must(len({a, b}) == (1 if same else 2) and (b in {a: 1}) is same, "sets and dictionaries")
        must(a.dimensionality() == ({} if k1 == "dimensionless" else {ra: 1}), "dimensionality")
        must(a.is_dimensionless() is (k1 == "dimensionless"), "dimensionless")
        must(bool(a.is_time_unit()) is (k1 == "time"), "time unit")
        ab = Unit(definition=parse(f"2 {ra} {rb}^2" if not same else f"2 {ra}^3"), identifier_references={Identifier(ra): a, Identifier(rb): b} if not same else {Identifier(ra): a})
        d = {}
        for r, o, k in ((ra, 1, k1), (rb, 2, k1 if same else k2)):
            if k != "dimensionless":
                d[r] = d.get(r, 0) + o
        must(ab.dimensionality() == d and len(ab.dimensionality()) == len(d), "dimensionality of a product")
        two = Unit(definition=parse(f"2 {ra}"), identifier_references={Identifier(ra): a})
        must(Converter(two, a).convert(3) == 6 and Converter(a, two).convert(3) == 1.5 and Converter(a, a).convert(3) == 3, "conversions with twice the unit")
        must(two != a and two == Unit(definition=parse(f"{ra} 2"), identifier_references={Identifier(ra): a}), "comparison with twice the unit")
        if k1 != "dimensionless" and k2 != "dimensionless" and not same:
            must(not a.is_convertible_to(b) and isexc(obs(Converter, a, b), "IncompatibleUnitsError"), "convertibility")
        return viols

    o = obs(check)
    if o[0] != "ok":
        return [V(f"basis:{item}", f"basis units {item}: {show(o)}")], {}
    return o[1][:2], {"_states": {item}, "_edges": {item}}


FUNCTIONS = {"plain": plain, "named": named, "basis": basis}
ATOMS = ["m", "s", "km", "2", "N", "degC", "rad", "Bm", "hours"]
MORE = ["0.5", "-1", "millimetre", "Hz", "hot", "sym", "one", "percent", "decade", "dm^3", "degF", "year", "s @ 5", "s since 2000-01-01", "m @ 2"]


def main(run):
    q = run.quick
    items = exprs.trees(ATOMS + MORE, 1, unops=exprs.UN + exprs.UN_LOG + exprs.UN_SHIFT)
    items += exprs.trees(ATOMS[:5] if q else ATOMS, 2)
    if not q:
        items += exprs.trees(["m", "s", "2", "degC"], 3, unops=["({a})^2", "({a})^-1", "({a} @ 5)"])
    run.map("plain", [(s,) for s in dict.fromkeys(items)], timeout=60)
    forms = FORMS if not q else FORMS[:3] + FORMS[4:7] + FORMS[10:11] + FORMS[13:14] + FORMS[15:18] + FORMS[20:]
    run.map("named", [(a, b, h) for a in forms for b in forms for h in ("nn", "ln", "nl")], timeout=60)
    kinds = ("plain", "time", "dimensionless")
    run.map("basis", [((n1, k1), (n2, k2)) for n1 in SHAPES for k1 in kinds for n2 in SHAPES for k2 in kinds], timeout=60)
    return run.finish(
        note=f"Unit built from expression and references against unit(text): expressions of depth 1 over {len(ATOMS + MORE)} atoms, 2 over 5 (thorough {len(ATOMS)}), thorough 3 over 4; all two-step definition chains over {len(forms)} forms with each definition registered as text or as a finished NamedUnit, {len(QUERIES)} queries each; all pairs of {len(SHAPES) * 3} basis units outside any system",
        assumptions=["products of logarithms with units and powers of logarithms are outside the property"],
    )
