"""C06: prefixes scale exactly, never shadow a unit, and do not stack."""
import itertools

from vlib import refdb, refunits, sem
from vlib.mc import V, obs, isexc, show
from vlib.refunits import U, P, System

_cache = {}


def db():
    if "us" not in _cache:
        from pyudunits2 import UnitSystem

        _cache["us"] = UnitSystem.from_udunits2_xml()
    return _cache["us"]


def texts(sysm, t):
    memo = sysm.__dict__.setdefault("_texts", {})
    if t not in memo:
        memo[t] = sem.expanded_meaning(t, sysm)
    return memo[t]


def readings(sysm, s):
    """All (prefix spelling, prefix, unit) readings of a spelling that is no unit's own."""
    out = []
    for spelling, p in [*sysm.pn.items(), *sysm.ps.items()]:
        if spelling and s.startswith(spelling):
            u = sysm.exact(s[len(spelling):])
            if u is not None:
                out.append((spelling, p, s[len(spelling):]))
    return sorted(out, key=lambda r: -len(r[0]))


def expected(sysm, s, longest):
    """Set of the meanings the spelling may have; None if it has none."""
    if sysm.exact(s) is not None:
        return {"own": sysm.meaning(("id", s))}
    rs = readings(sysm, s)
    if not rs:
        return None
    if longest:
        rs = [r for r in rs if len(r[0]) == len(rs[0][0])]
    out = {}
    for spelling, p, rest in rs:
        from fractions import Fraction

        out[spelling + "+" + rest, p.value] = refunits.evaluate(("mul", ("num", Fraction(p.value)), sysm.expand_id(rest)))
    return out


def judge(sysm, us, s, longest, key, entry="lookup"):
    """-> (violations, what it is)"""
    want = expected(sysm, s, longest)
    o = obs(us.unit if entry == "unit" else us.unit_by_name_or_symbol, s)
    if want is None:
        if isexc(o, "UnresolvableUnitException"):
            return [], "none"
        return [V(key, f"{entry}({s!r}) should raise UnresolvableUnitException, gave {show(o)}")], "none"
    if o[0] != "ok":
        return [V(key, f"{entry}({s!r}): {show(o)}, expected {want}")], "?"
    t = obs(lambda: o[1].expanded())
    got = obs(texts, sysm, t[1]) if t[0] == "ok" else t
    if got[0] != "ok" or got[1] not in want.values():
        return [V(key, f"{entry}({s!r}) is {show(t)}, which means {show(got)}; expected {want}")], "?"
    return [], next(iter(want))


def in_db(item):
    """One prefix spelling in front of every spelling of one unit."""
    prefixes, i = item
    sysm, us = refdb.load(), db()
    viols, n, edges = [], 0, set()
    for x in sysm.units[i].spellings():
        for p in prefixes:
            s = p + x
            try:
                n += 1
                v, r = judge(sysm, us, s, True, f"db:{s}")
                if not v and sysm.parse(s) == ("id", s):
                    v, r = judge(sysm, us, s, True, f"db:unit:{s}", "unit")
            except SyntaxError:
                continue
            except refunits.Unresolvable:
                continue
            if v and unreadable(us, x):
                continue
            viols += v
            edges.add((s, r))
    return viols[:3], {"_items": n, "_edges": edges, "_states": {(i,)}}


def unreadable(us, x):
    # A unit that cannot be looked up even without a prefix is a matter of C05.
    return obs(us.unit_by_name_or_symbol, x)[0] != "ok"


def stacks(item):
    """Two prefixes in front of a unit, and prefixes alone."""
    p, = item
    sysm, us = refdb.load(), db()
    viols, n, edges = [], 0, set()
    todo = [p, p + p]
    for q in [*sysm.pn, *sysm.ps]:
        todo += [p + q + x for x in ("m", "meter", "meters", "s", "metre", "g", "K", "celsius")] + [p + q]
    todo += [p + "nosuch", p + " ", p + "M3ter", p.upper() + "metre", p + "_m", "m" + p, "meter" + p]
    for s in todo:
        n += 1
        try:
            v, r = judge(sysm, us, s, True, f"db:{s}")
        except (SyntaxError, refunits.Unresolvable):
            continue
        viols += v
        edges.add((s, r))
    return viols[:3], {"_items": n, "_edges": edges}


ROLES = ("name", "plural", "symbol", "alias", "aplural", "asymbol")


def mk(role, spelling, definition, i):
    n = f"u{i}"
    if role == "name":
        return U(spelling, None, definition=definition)
    if role == "plural":
        return U(n, spelling, definition=definition)
    if role == "symbol":
        return U(n, None, (spelling,), definition=definition)
    if role == "alias":
        return U(n, None, (), [(spelling, None)], definition=definition)
    if role == "aplural":
        return U(n, None, (), [(n + "x", spelling)], definition=definition)
    return U(n, None, (), (), (spelling,), definition=definition)


WORDS = ["".join(w) for n in range(1, 6) for w in itertools.product("ab", repeat=n)]


def small(item):
    """A small system of prefixes and units over two letters; every word looked up."""
    prefixes, units = item
    ps = []
    for i, (role, sp) in enumerate(prefixes):
        ps.append(P(sp, ("7", "1e2")[i]) if role == "name" else P(f"p{i}", ("7", "1e2")[i], (sp,)))
    us_ = [U("base", "bases", ("z",))]
    us_ += [mk(role, sp, ("3 base", "5 z2")[i], i) for i, (role, sp) in enumerate(units)]
    sysm = System(us_, ps)
    if len(sysm.units) != len(us_):
        return [], {"_items": 0}
    us = refunits.from_system(sysm)
    viols, n, edges = [], 0, set()
    for s in WORDS:
        n += 1
        v, r = judge(sysm, us, s, False, f"small:{item!r}:{s}")
        viols += v
        edges.add((item, s, r))
    return viols[:2], {"_items": n, "_edges": edges, "_states": {item}}


def values(item):
    """Prefixes of every written form of a value."""
    value, role = item
    p = P("pre", value) if role == "name" else P("other", value, ("pre",))
    sysm = System([U("base", "bases", ("b",), [("alt", "alts")], ("q",)), U("d", None, definition="3 base"), U("off", None, definition="base @ 4"), U("inv", None, definition="1/d")], [p])
    us = refunits.from_system(sysm)
    viols, n = [], 0
    for x in ("base", "bases", "b", "alt", "alts", "q", "d", "off", "inv"):
        for e in ("lookup", "unit"):
            n += 1
            v, _ = judge(sysm, us, "pre" + x, False, f"value:{value}:{role}:{x}", e)
            viols += v
    from pyudunits2 import Converter

    for x in ("base", "alts", "d", "inv"):
        m = sysm.meaning("pre" + x)
        c = Converter(us.unit("pre" + x), us.unit(sem.base_text(m)))
        for v in (1, -2.5, 1e6):
            n += 1
            viols += sem.check_conversion(c.convert, v, m, sem.base_meaning(m), f"value:{value}:{role}:{x}:conv", f"pre{x} with pre={value}") or []
    return viols[:2], {"_items": n, "_states": {item}}


FUNCTIONS = {"in_db": in_db, "stacks": stacks, "small": small, "values": values}


def main(run):
    q = run.quick
    sysm = refdb.load()
    px = list(dict.fromkeys([*sysm.pn, *sysm.ps]))
    run.map("in_db", [(tuple(px), i) for i in range(len(sysm.units))], timeout=200)
    run.map("stacks", [(p,) for p in px], timeout=200)
    vals = ["1e24", "1e-24", "1e18", "1E+3", "10", "100", ".01", "0.1", "1.", "1e-2", "1e0", "1000000", "2.5e-3", "0.000001", "3"]
    run.map("values", [(v, r) for v in vals for r in ("name", "symbol")], timeout=60)
    psp = ["a", "b", "aa", "ab"] if q else ["a", "b", "aa", "ab", "ba", "bb", "aab"]
    usp = ["a", "b", "ab", "ba"] if q else ["a", "b", "aa", "ab", "ba", "bb", "aba"]
    ones = [(r, s) for r in ("name", "symbol") for s in psp]
    uo = [(r, s) for r in ROLES for s in usp]
    sys_ = [((p,), (u,)) for p in ones for u in uo]
    sys_ += [((p1, p2), (u,)) for p1 in ones for p2 in ones if p1 != p2 for u in uo]
    if q:
        uo = [(r, s) for r in ("name", "alias", "symbol") for s in usp]
    sys_ += [((p,), (u1, u2)) for p in ones for u1 in uo for u2 in uo if u1[1] != u2[1]]
    if not q:
        uo2 = [(r, s) for r in ("name", "asymbol") for s in usp]
        sys_ += [((p1, p2), (u1, u2)) for p1 in ones for p2 in ones if p1 < p2 for u1 in uo2 for u2 in uo2 if u1[1] != u2[1]]
    run.map("small", sys_, timeout=60)
    return run.finish(
        note="bundled database: every prefix spelling x every unit spelling (both entry points), all prefix pairs; all systems of <= 2 prefixes and <= 2 units with spellings over two letters in every role, every word up to length 5 looked up; 15 ways to write a prefix value",
        assumptions=["outside the bundled database a spelling with several one-prefix readings may denote any of them"],
    )
