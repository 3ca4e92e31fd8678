"""C04: the basis form names only basis units and means the same."""
from vlib import refunits, refdb, sem
from vlib.mc import V, obs, isexc, show
from . import systems, exprs


def one(item):
    which, s = item
    if which == "db":
        sysm, us = refdb.load(), _db()
    else:
        sysm, us = systems.both()
    return judge(which, sysm, us, s)


def deep(item):
    """A long chain of definitions."""
    pattern, depth = item
    sysm, last = systems.deep(pattern, depth)
    us = refunits.from_system(sysm)
    viols, n, ed = [], 0, set()
    for s in (last, systems.deepname(depth // 2), f"k{last}", f"1/{last}", f"{last}^2", f"{last} @ 3", f"lg(re {last})"):
        v, more = judge((pattern, depth), sysm, us, s)
        for x in v:
            x["key"] = f"deep:{item}:" + x["key"]
        viols += v
        n += 1
        ed |= more.get("_edges", set())
    return viols[:2], {"_items": n, "_edges": ed}


def judge(which, sysm, us, s):
    try:
        kind = sysm.date(s)
    except (refunits.Unresolvable, refunits.Refused, SyntaxError):
        return [], {"skipped": 1}
    if kind[0] != "unit":
        return [], {"skipped": 1}
    m = kind[1]
    u = obs(us.unit, s)
    if u[0] != "ok":
        if m.odd and isexc(u, "ValueError"):
            return [], {"skipped": 1}
        return [V(f"unit:{s}", f"unit({s!r}): {show(u)}, expected {m}")], {}
    t = obs(u[1].expanded)
    if t[0] != "ok" or not isinstance(t[1], str):
        return [V(f"expanded:{s}", f"unit({s!r}).expanded(): {show(t)}")], {}
    got = obs(sem.expanded_meaning, t[1], sysm)
    viols = []
    if got[0] != "ok" or loose(got[1]) != loose(m):
        viols.append(V(f"meaning:{s}", f"unit({s!r}).expanded() = {t[1]!r} means {show(got)}, the definitions give {m}"))
    else:
        again = obs(lambda: us.unit(t[1]).expanded())
        if again[0] != "ok" or again[1] != t[1]:
            viols.append(V(f"again:{s}", f"expanding {t[1]!r} (of {s!r}) again gives {show(again)}"))
        twice = obs(u[1].expanded)
        if twice[0] != "ok" or twice[1] != t[1]:
            viols.append(V(f"twice:{s}", f"expanded() of {s!r} first gave {t[1]!r}, then {show(twice)}"))
    return viols, {"_states": {m.key()}, "_edges": {(which, m.key(), t[1])}}


_cache = {}


def _db():
    if "us" not in _cache:
        from pyudunits2 import UnitSystem

        _cache["us"] = UnitSystem.from_udunits2_xml()
    return _cache["us"]


def loose(m):
    # Which of the unspecified combinations of logarithms it is depends on the bracketing.
    return m.key()[:-1] + (bool(m.odd),)


FUNCTIONS = {"one": one, "deep": deep}

ATOMS = ["m", "kelvins", "km", "2", "0.5", "N", "degC", "hours", "rad", "Bm", "hot"]
MORE = ["-1", "1e3", "millimetre", "µm", "degF", "twoC", "dam", "gauge", "kdegC", "loglog", "sym", "one", "percent", "kiloNp", "a", "cm2"]


def main(run):
    q = run.quick
    sysm = systems.model()
    items = [("S", s) for u in sysm.units for s in u.spellings()]
    items += [("S", p + s) for u in sysm.units for s in u.spellings() for x in sysm.prefixes for p in (x.name, *x.symbols)]
    items += [("S", s) for s in exprs.trees(ATOMS + MORE, 1, unops=exprs.UN + exprs.UN_LOG + exprs.UN_SHIFT, both=True)]
    items += [("S", s) for s in exprs.trees(ATOMS[:5] if q else ATOMS, 2)]
    if not q:
        items += [("S", s) for s in exprs.trees(ATOMS[2:5] + ["degC"], 3)]
    items += [("S", s) for s in exprs.wide(least=5 if q else 4)]
    items += [("S", s) for s in exprs.wide(["N", "km", "h", "rad", "Pa", "ft", "K"], least=5, forms=["product", "fraction"])]
    items += [("S", s) for s in exprs.long(["m", "s", "N"] if q else ["m", "s", "N", "degC", "0.5", "L"], range(3, 9 if q else 21))]
    db = refdb.load()
    items += [("db", s) for u in db.units for s in u.spellings() if db.parse(s) == ("id", s) and u.definition not in ("arc_minute/60",) and not _unreadable(u)]
    items = list(dict.fromkeys(items))
    run.map("one", items, timeout=60)
    # (shifts and logarithms become nested brackets, which Python's recursion limit restricts)
    run.map("deep", list(dict.fromkeys((p, min(d, 16) if any("@" in x or "lg" in x for x in p) else d) for p, d in systems.deep_items(systems.MIXED, q))), timeout=100)
    return run.finish(
        note="every spelling and every prefix x spelling of a 37-unit system, all expressions of depth 1 over 27 atoms and 2 over 5 (thorough 11) atoms, every readable spelling of the bundled database",
        assumptions=["meaning of a basis form = exact rational scale, exponents, outermost shift, logarithm chain (vlib/refunits.py)"],
    )


def _unreadable(u):
    # Entries whose database definition the grammar cannot read (known findings of C05).
    return u.definition in (
        "cm conventional_water", "inch (gravity 999.972 kg/m^3)", "inch (gravity 999.001 kg/m^3)",
        "mm conventional_mercury", "inch conventional_mercury", "inch (gravity 13556.8 kg/m^3)",
    )
