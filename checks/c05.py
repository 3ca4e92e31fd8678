"""C05: every spelling of every database entry denotes the database unit."""
from vlib import refgrammar, refunits, refdb, sem
from vlib.mc import V, obs, show

_cache = {}


def db():
    if "us" not in _cache:
        from pyudunits2 import UnitSystem

        _cache["us"] = UnitSystem.from_udunits2_xml()
    return _cache["us"]


VALUES = (1, 0, -2.5)


def one(item):
    """One spelling, looked up through one entry point."""
    s, how = item
    sysm, us = refdb.load(), db()
    m = sysm.meaning(("id", s))
    o = obs(us.unit if how == "unit" else us.unit_by_name_or_symbol, s)
    key = f"{how}:{s}"
    if o[0] != "ok":
        # The kind of failure is part of the identity of the finding.
        return [V(f"{key}:{o[1]}", f"{how}({s!r}): {show(o)}, expected {m}")], {}
    from pyudunits2 import Converter, Unit

    u = o[1]
    if not isinstance(u, Unit):
        return [V(f"{key}:type", f"{how}({s!r}) is a {type(u).__name__}")], {}
    viols = sem.check_dims(u, m, f"{key}:dims", f"{how}({s!r})")
    if viols:
        return viols, {}
    e = obs(lambda: sem.expanded_meaning(u.expanded(), sysm))
    if e[0] != "ok" or e[1] != m:
        viols.append(V(f"{key}:expanded", f"{how}({s!r}) expands to {show(obs(u.expanded))}, which means {show(e)}; expected {m}"))
    base = us.unit(sem.base_text(m))
    n = 0
    for a, b, ma, mb in ((u, base, m, sem.base_meaning(m)), (base, u, sem.base_meaning(m), m)):
        c = obs(Converter, a, b)
        if c[0] != "ok":
            viols.append(V(f"{key}:converter", f"no converter between {s!r} and its base units: {show(c)}"))
            break
        for v in VALUES:
            r = sem.check_conversion(c[1].convert, v, ma, mb, f"{key}:value", f"{s!r} {'to' if a is u else 'from'} base units")
            viols += r or []
            n += 1
    return viols[:2], {"conversions": n, "_states": {m.key()}, "_edges": {(s, how)}}


def same(item):
    """All spellings of one entry are one unit; its dimensions are the entry's, to every power."""
    (i,) = item
    sysm, us = refdb.load(), db()
    u = sysm.units[i]
    viols, n = [], 0
    sp = [s for s in u.spellings() if us_ok(us, s)]
    if not sp:
        return [], {"_items": 0}
    first = us.unit_by_name_or_symbol(sp[0])
    m = sysm.meaning(("id", sp[0]))
    for s in sp[1:]:
        n += 1
        o = obs(us.unit_by_name_or_symbol, s)
        eq = obs(lambda: first == o[1] and o[1] == first)
        if o[0] != "ok" or eq[0] != "ok" or eq[1] is not True:
            viols.append(V(f"same:{s}", f"{sp[0]!r} and {s!r} name one database entry, but compare as {show(eq)}"))
    for s in sp:
        if sysm.parse(s) != ("id", s):
            continue
        for t in (f"{s}2", f"1/{s}", f"{s}·{s}", f"10 {s}^-1"):
            n += 1
            try:
                mt = sysm.meaning(t)
            except (refunits.Unresolvable, SyntaxError):
                continue  # the grammar reads "e2" or "'2" as something else than the unit's square
            if mt.odd:
                continue
            o = obs(us.unit, t)
            if o[0] != "ok":
                viols.append(V(f"expr:{t}", f"unit({t!r}): {show(o)}"))
                continue
            e = obs(lambda: sem.expanded_meaning(o[1].expanded(), sysm))
            if e[0] != "ok" or e[1] != mt:
                viols.append(V(f"expr:{t}", f"unit({t!r}) expands to {show(obs(o[1].expanded))}, expected {mt}"))
            viols += sem.check_dims(o[1], mt, f"expr:{t}:dims", t)
    return viols[:3], {"_items": n}


def us_ok(us, s):
    o = obs(us.unit_by_name_or_symbol, s)
    return o[0] == "ok"


FUNCTIONS = {"one": one, "same": same}


def main(run):
    sysm = refdb.load()
    items = []
    for u in sysm.units:
        for s in u.spellings():
            items += [(s, "lookup"), (s, "unit")]
    run.map("one", items, timeout=60)
    run.map("same", [(i,) for i in range(len(sysm.units))], timeout=120)
    return run.finish(
        note="every spelling of all 276 entries through both entry points, converted from and to base units; squares, reciprocals and products of every spelling",
        assumptions=["the database is the one frozen in /verif/model/refdb.json, whose 857 spellings agree with the C library UDUNITS-2 in scale and offset (tools/gen_refdb.py)"],
    )
