"""C23: date and time values: equality, hash and text agree."""
import itertools
import re

from vlib.mc import V, obs, show

TEXT = re.compile(r"([0-9]{2,}):([0-9]{2})(?::([0-9]{2})(?:\.([0-9]{6}))?)?")


def times(item):
    """All times of one hour: their texts."""
    from pyudunits2._datetime import Time

    hour, minutes, seconds, micros = item
    viols, n, seen = [], 0, {}
    for m in minutes:
        for s in seconds:
            for u in micros:
                n += 1
                t = Time(hour, m, s, u)
                o = obs(str, t)
                want = f"{hour:02}:{m:02}" + (f":{s:02}" if s or u else "") + (f".{u:06}" if u else "")
                if o[0] != "ok" or o[1] != want:
                    viols.append(V(f"time:{hour}:{m}:{s}:{u}", f"str(Time({hour}, {m}, {s}, {u})) is {show(o)}, expected {want}"))
                    continue
                k = TEXT.fullmatch(o[1])
                back = tuple(int(x or 0) for x in k.groups())
                if back != (hour, m, s, u):
                    viols.append(V(f"back:{hour}:{m}:{s}:{u}", f"{o[1]} names {back}"))
                if o[1] in seen:
                    viols.append(V(f"twice:{o[1]}", f"Time{seen[o[1]]} and Time{(hour, m, s, u)} are both written {o[1]}"))
                seen[o[1]] = (hour, m, s, u)
    return viols[:3], {"_items": n, "_states": {(hour, len(seen))}, "_edges": {(hour, x) for x in seen}}


def same(a, b, want, key, what):
    o = obs(lambda: (a == b, b == a, a != b, b != a))
    if o[0] != "ok" or o[1] != (want, want, not want, not want):
        return [V(key, f"{what}: ==, reversed, !=, reversed give {show(o)}, expected equal = {want}")]
    if want:
        h = obs(lambda: hash(a) == hash(b))
        if h[0] != "ok" or h[1] is not True:
            return [V(key, f"{what} are equal, but equality of their hashes is {show(h)}")]
        c = obs(lambda: (len({a, b}), {a: 1}.get(b), b in {a}, a in [b], {a: 1} == {b: 1}))
        if c[0] != "ok" or c[1] != (1, 1, True, True, True):
            return [V(key, f"{what} are equal, but as set members and keys: {show(c)}")]
    else:
        c = obs(lambda: (len({a, b}), {a: 1}.get(b), b in {a}))
        if c[0] != "ok" or c[1] != (2, None, False):
            return [V(key, f"{what} differ, but as set members and keys: {show(c)}")]
    return []


def times_pairs(item):
    from pyudunits2._datetime import Time

    viols, n = [], 0
    a = Time(*item)
    for b in SMALL:
        n += 1
        full = lambda t: tuple(t) + (0,) * (4 - len(t))
        viols += same(a, Time(*b), full(item) == full(b), f"times:{item}:{b}", f"Time{item} and Time{b}")
    return viols[:3], {"_items": n, "_edges": {item}}


def mk(d):
    from pyudunits2._datetime import DateTime, Time

    y, m, dd, t, z, raw = d
    kw = {}
    if t is not None:
        kw["time"] = Time(*t)
    if z is not None:
        kw["tz_offset"] = Time(*z) if isinstance(z, tuple) else z
    if raw is not None:
        kw["raw_content"] = raw
    return DateTime(y, m, dd, **kw)


def canon(d):
    y, m, dd, t, z, raw = d
    t = (t or (0, 0)) + (0,) * (4 - len(t or (0, 0)))
    if z is None:
        z = "UTC"
    if isinstance(z, tuple):
        z = z + (0,) * (4 - len(z))
    return y, m, dd, t, z


def dates(item):
    """One date-time against all the others."""
    viols, n, ed = [], 0, set()
    a = mk(item)
    for d in DATES:
        n += 1
        want = canon(item) == canon(d)
        viols += same(a, mk(d), want, f"dates:{item}:{d}", f"DateTime {item} and {d}")
        ed.add((item, d, want))
    if item[-1] is not None and a.raw_content != item[-1]:
        viols.append(V(f"raw:{item}", f"raw_content is {a.raw_content!r}"))
    for x in (None, item, str(a), 0, a.time, object()):
        o = obs(lambda: (a == x, x == a, a != x))
        if o[0] != "ok" or o[1] != (False, False, True):
            viols.append(V(f"other:{item}:{type(x).__name__}", f"{item} compared with {x!r}: {show(o)}"))
    return viols[:3], {"_items": n, "_edges": ed, "_states": {canon(item)}}


FUNCTIONS = {"times": times, "times_pairs": times_pairs, "dates": dates}
SMALL = [(h, m, *r) for h in (0, 1, 10, 23) for m in (0, 1, 10, 59) for r in ((), (0,), (1,), (10,), (59,), (0, 0), (0, 1), (0, 10), (0, 100000), (1, 0), (1, 1), (10, 500000), (59, 999999))]
DATES = [
    (y, m, d, t, z, raw)
    for y in (2000, 2001, 0, -5)
    for m in (1, 12)
    for d in (1, 31)
    for t in (None, (0, 0), (0, 0, 0, 1), (12, 30), (1, 0, 1))
    for z in (None, "UTC", "GMT", (0, 0), (6, 30))
    for raw in (None, "2000-1-1", "2000-01-01 00:00")
]


def main(run):
    sec = list(range(60))
    micro = [0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 50000, 99999, 100000, 500000, 999999, 123456, 120000, 12]
    if run.quick:
        items = [(h, list(range(60)), [0, 1, 9, 10, 30, 59], micro) for h in range(24)]
        items += [(h, [0, 7, 59], sec, micro) for h in (0, 9, 23)]
    else:
        items = [(h, list(range(60)), sec, micro) for h in range(25)]
        items += [(h, [0, 30], [0, 5, 59], list(range(s, 1000000, 24))) for h, s in zip(range(24), range(24))]
    run.map("times", items, timeout=600, chunk=1)
    run.map("times_pairs", SMALL, timeout=100)
    run.map("dates", DATES, timeout=100)
    return run.finish(
        note=f"the texts of all times on a grid of all minutes x boundary seconds x {len(micro)} microseconds (thorough: all seconds, and every microsecond once); all pairs of {len(SMALL)} times and of {len(DATES)} date-times, defaults written and left out, with three original texts",
    )
