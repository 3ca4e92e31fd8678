"""C12: conversions invert, compose, act elementwise and are pure."""
import math

from vlib import refdb, refunits, sem
from vlib.mc import V, obs, show
from . import systems
from .c09 import system

VALUES = (1, 2.5, -3, 0, 40.0)
_m = {}
_c = {}


def meaning(which, s):
    k = (which, s)
    if k not in _m:
        sysm, _ = system(which)
        _m[k] = sysm.date(s)[1]
    return _m[k]


def conv(which, s, t):
    from pyudunits2 import Converter

    k = (which, s, t)
    if k not in _c:
        us = system(which)[1]
        _c[k] = obs(lambda: Converter(us.unit(s), us.unit(t)))
    return _c[k]


def slack(which, path, v):
    """None: outside the domain; else (exact result, how far rounding may move it)."""
    x, tol = float(v), 1e-12 * abs(float(v))
    for s, t in zip(path, path[1:]):
        a, b = meaning(which, s), meaning(which, t)
        try:
            y = float(refunits.convert(x, a, b))
            near = []
            for d in (tol + abs(x) * 1e-13, -tol - abs(x) * 1e-13):
                near.append(abs(float(refunits.convert(x + d, a, b)) - y))
        except (ValueError, OverflowError, ZeroDivisionError):
            return None
        if not math.isfinite(y) or abs(y) > 1e200 or (y != 0 and abs(y) < 1e-200):
            return None
        tol = max(near) + 1e-13 * max([abs(y)] + [abs(float(z)) for z in sem.magnitudes(x, a, b)])
        x = y
    if any(meaning(which, s).logs for s in path):
        tol += 1e-14
    return x, 100 * tol + 1e-9 * abs(x)


def near(x, want, tol):
    return sem.is_number(x) and math.isfinite(x) and abs(float(x) - want) <= tol


def triple(item):
    """a -> b -> c against a -> c (c == a: there and back)."""
    which, a, b, group = item
    viols, n = [], 0
    ab = conv(which, a, b)
    if ab[0] != "ok":
        return [V(f"{which}:{a}:{b}", f"no converter from {a!r} to {b!r}: {show(ab)}")], {}
    for c in GROUPS[group]:
        bc, ac = conv(which, b, c), conv(which, a, c)
        if bc[0] != "ok" or ac[0] != "ok":
            continue
        for v in VALUES:
            s2, s1 = slack(which, (a, b, c), v), slack(which, (a, c), v)
            if s2 is None or s1 is None:
                continue
            n += 1
            mid = obs(ab[1].convert, v)
            two = obs(bc[1].convert, mid[1]) if mid[0] == "ok" else mid
            one = obs(ac[1].convert, v)
            if one[0] != "ok" or two[0] != "ok" or not near(two[1], float(one[1]), s1[1] + s2[1]):
                viols.append(V(f"{which}:{a}:{b}:{c}:{v}", f"{v!r} {a!r}: by way of {b!r} it is {show(two)} {c!r}, directly {show(one)}"))
            elif c == a and not near(one[1], float(v), 1e-9 * max(1e-9, abs(v)) + s1[1]):
                viols.append(V(f"{which}:{a}:{a}:{v}", f"{v!r} {a!r} converted to itself is {show(one)}"))
            elif c == a and not near(two[1], float(v), s2[1]):
                viols.append(V(f"{which}:{a}:{b}:back:{v}", f"{v!r} {a!r} to {b!r} and back is {show(two)}"))
        if len(viols) > 3:
            break
    return viols[:3], {"values_converted": n, "_edges": {item}, "_states": {(which, a, b)}}


def arrays(item):
    """Arrays of every shape and kind; purity; the expression."""
    import numpy as np
    import sympy

    which, a, b = item
    o = conv(which, a, b)
    if o[0] != "ok":
        return [V(f"{which}:{a}:{b}", f"no converter from {a!r} to {b!r}: {show(o)}")], {}
    c = o[1]
    key = f"{which}:{a}:{b}"
    viols, n = [], 0
    good = [v for v in (1.0, 2.5, -3.0, 0.0, 40.0, 0.125, 7.0) if slack(which, (a, b), v) is not None]
    if not good:
        return [], {"_items": 0}
    single, raised = {}, False
    for v in good:
        r = obs(c.convert, v)
        if r[0] != "ok" or not sem.is_number(r[1]):
            viols.append(V(f"{key}:{v}", f"{v!r} {a!r} to {b!r}: {show(r)}, no number"))
            return viols, {}
        single[v] = float(r[1])
    ints = [int(v) for v in good if v == int(v)]
    cases = [
        ("floats", np.array(good)), ("two rows", np.array([good, good[::-1]])), ("reversed view", np.array(good)[::-1]), ("every other", np.array(good + good)[::2]), ("one", np.array(good[:1])), ("column", np.array(good).reshape(-1, 1)),
        ("zero-dimensional", np.array(good[0])), ("read-only", np.array(good)), ("Fortran", np.asfortranarray(np.array([good, good]))),
    ]
    cases[7][1].flags.writeable = False
    if ints:
        cases += [("integers", np.array(ints)), ("integer scalar", np.int64(ints[0])), ("float scalar", np.float64(ints[-1]))]
    cases.append(("empty", np.array([])))
    before = str(c.expression)
    for name, arr in cases:
        n += 1
        copy = np.array(arr, copy=True)
        r = obs(c.convert, arr)
        if r[0] != "ok":
            viols.append(V(f"{key}:{name}", f"array ({name}) {copy!r} {a!r} to {b!r}: {show(r)}"))
            continue
        if np.shape(arr) != np.shape(r[1]):
            viols.append(V(f"{key}:{name}:shape", f"array ({name}) {a!r} to {b!r}: shape {np.shape(arr)} became {np.shape(r[1])}"))
            continue
        if not np.array_equal(np.asarray(arr), copy):
            viols.append(V(f"{key}:{name}:input", f"array ({name}) {a!r} to {b!r}: the input {copy!r} was changed to {arr!r}"))
            continue
        want = [single.get(float(x), None) for x in copy.reshape(-1)]
        got = np.asarray(r[1]).reshape(-1)
        for x, w, g in zip(copy.reshape(-1), want, got):
            if not near(g, w, slack(which, (a, b), float(x))[1]):
                viols.append(V(f"{key}:{name}:value", f"array ({name}) {a!r} to {b!r}: element {x!r} became {g!r}, alone it becomes {w!r}"))
                break
    # Elements that are masked stay masked, those that are no number stay none; neither touches the others.
    mask = [bool(k % 2) for k in range(len(good))]
    for name, arr in (("masked", np.ma.masked_array(good, mask=mask)), ("masked by scalar", np.ma.masked_array(good, mask=False)), ("masked rows", np.ma.masked_array([good, good], mask=[mask, mask[1:] + [True]]))):
        n += 1
        r = obs(c.convert, arr)
        if r[0] != "ok" or np.shape(r[1]) != np.shape(arr):
            viols.append(V(f"{key}:{name}", f"array ({name}) {arr!r} {a!r} to {b!r}: {show(r)}"))
            continue
        if not np.array_equal(np.ma.getmaskarray(r[1]), np.ma.getmaskarray(arr)):
            viols.append(V(f"{key}:{name}", f"array ({name}) {arr!r} {a!r} to {b!r}: {r[1]!r}, not masked where the input is"))
            continue
        for x, g in zip(np.ma.compressed(arr), np.ma.compressed(r[1])):
            if not near(g, single[float(x)], slack(which, (a, b), float(x))[1]):
                viols.append(V(f"{key}:{name}:value", f"array ({name}) {a!r} to {b!r}: element {x!r} became {g!r}, alone it becomes {single[float(x)]!r}"))
                break
    for k in range(len(good) + 1):
        n += 1
        arr = np.array(good[:k] + [math.nan] + good[k:])
        r = obs(c.convert, arr)
        if r[0] != "ok" or np.shape(r[1]) != arr.shape or not math.isnan(r[1][k]):
            viols.append(V(f"{key}:nan:{k}", f"array {arr!r} {a!r} to {b!r}: {show(r)}, nan has to stay nan"))
        elif not all(near(g, single[x], slack(which, (a, b), x)[1]) for x, g in zip(good, np.delete(r[1], k))):
            viols.append(V(f"{key}:nan:{k}", f"array {arr!r} {a!r} to {b!r}: {show(r)}; alone the numbers become {[single[x] for x in good]}"))
    # Numbers of every size numpy has, up to their limits.
    for t in ("bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "longdouble", ">i2", ">f8", "object"):
        dt = np.dtype(t)
        if dt.kind in "iu":
            info = np.iinfo(dt)
            vals = sorted({int(info.min), int(info.min) // 3, 0, 1, 2, 7, 100, int(info.max) // 2, int(info.max) - 1, int(info.max)})
        elif dt.kind == "b":
            vals = [0, 1]
        elif dt.kind == "O":
            vals = [1, 2.5, 40]
        else:
            vals = [1.0, 2.5, -3.0, 0.0, 40.0]
        vals = [v for v in vals if slack(which, (a, b), v) is not None]
        if not vals:
            continue
        alone = [obs(c.convert, float(v)) for v in vals]
        if dt.kind == "O" and (meaning(which, a).logs or meaning(which, b).logs):
            continue  # (numpy has no logarithm of objects)
        for name, arr in [("array", np.array(vals, dtype=dt))] + [("scalar", np.array(v, dtype=dt)[()]) for v in vals if dt.kind in "iu"]:
            n += 1
            copy = np.array(arr, copy=True)
            r = obs(c.convert, arr)
            ws = list(zip(vals, alone)) if name == "array" else [(int(arr), obs(c.convert, float(arr)))]
            if r[0] != "ok" or np.shape(r[1]) != np.shape(arr):
                viols.append(V(f"{key}:{t}:{name}", f"{name} of {t} {copy!r} {a!r} to {b!r}: {show(r)}"))
                continue
            if not np.array_equal(np.asarray(arr), copy):
                viols.append(V(f"{key}:{t}:input", f"{name} of {t} {a!r} to {b!r}: the input {copy!r} was changed to {arr!r}"))
            for (x, w), g in zip(ws, np.asarray(r[1]).reshape(-1)):
                tol = slack(which, (a, b), x)[1] * (10**4 if t == "float32" else 1)
                mag = max([abs(w[1])] + [abs(float(z)) for z in sem.magnitudes(x, meaning(which, a), meaning(which, b))]) if w[0] == "ok" else 0
                if w[0] != "ok" or not abs(float(g) - w[1]) <= tol + (1e-5 * mag if t == "float32" else 0):
                    viols.append(V(f"{key}:{t}:{name}:value", f"{name} of {t} {a!r} to {b!r}: element {x!r} became {g!r}, alone it becomes {show(w)}"))
                    break
    # The answer for an array is of what is in it now, and it is kept by nobody.
    if len(good) > 1:
        n += 2
        arr, other = np.array(good[:2]), np.array(good[::-1][:2])
        first = obs(lambda: np.array(c.convert(arr), copy=True))
        given = obs(c.convert, arr)
        obs(c.convert, other)
        if given[0] != "ok" or first[0] != "ok" or (given[1] is not arr and not np.array_equal(np.asarray(given[1]), first[1])):
            viols.append(V(f"{key}:kept", f"the result {show(first)} of {a!r} to {b!r} was changed to {show(given)} by a later conversion"))
        for step, now in enumerate((good[::-1][:2], good[:2], good[:2], good[::-1][:2])):
            arr[:] = now
            r = obs(c.convert, arr)
            if r[0] != "ok" or not all(near(g, single[x], slack(which, (a, b), x)[1]) for x, g in zip(now, np.asarray(r[1]).reshape(-1))):
                viols.append(V(f"{key}:changed:{step}", f"an array {a!r} to {b!r}, changed in place to {arr!r}, now gives {show(r)}"))
    for v in good:
        n += 1
        r = obs(c.convert, v)
        if r[0] != "ok" or float(r[1]) != single[v]:
            viols.append(V(f"{key}:again", f"{v!r} {a!r} to {b!r} first gave {single[v]!r}, later {show(r)}"))
    if str(c.expression) != before:
        viols.append(V(f"{key}:expression", f"the expression changed from {before} to {c.expression}"))
    free = obs(lambda: {str(s) for s in c.expression.free_symbols})
    if free[0] != "ok" or not free[1] <= {"value"}:
        viols.append(V(f"{key}:symbols", f"the expression from {a!r} to {b!r} is {c.expression}, with symbols {show(free)}"))
    else:
        for v in good:
            n += 1
            e = obs(lambda: complex(c.expression.subs(sympy.Symbol("value"), v).evalf(30)))
            if e[0] != "ok" or abs(e[1].imag) > 1e-12 or not near(e[1].real, single[v], slack(which, (a, b), v)[1]):
                viols.append(V(f"{key}:eval", f"the expression {c.expression} ({a!r} to {b!r}) at {v} is {show(e)}, converting gives {single[v]!r}"))
        u = system(which)[1]
        from pyudunits2 import Converter

        again = obs(lambda: Converter(u.unit(a), u.unit(b)).convert(good[0]))
        if again[0] != "ok" or float(again[1]) != single[good[0]]:
            viols.append(V(f"{key}:second", f"a second converter from {a!r} to {b!r} gives {show(again)} for {good[0]}, the first {single[good[0]]!r}"))
    return viols[:3], {"values_converted": n, "_edges": {item}}


def sized(item):
    """Arrays of every size up to a bound, and around the usual block sizes; then one call after another on one converter."""
    import numpy as np

    which, a, b, most = item
    o = conv(which, a, b)
    if o[0] != "ok":
        return [V(f"{which}:{a}:{b}", f"no converter from {a!r} to {b!r}: {show(o)}")], {}
    c, key, n = o[1], f"{which}:{a}:{b}", 0
    good = [v for v in (1.0, 2.5, -3.0, 40.0, 0.125, 7.0, 11.5) if slack(which, (a, b), v) is not None]
    single = [obs(c.convert, v) for v in good]
    if any(r[0] != "ok" for r in single):
        return [], {"_items": 0}
    want, tol = np.array([float(r[1]) for r in single]), np.array([slack(which, (a, b), v)[1] for v in good])
    k = len(good)
    sizes = list(range(132)) + [x + d for x in [2**e for e in range(8, 22)] + [10**e for e in range(3, 7)] + [3 * 2**e for e in range(7, 20)] for d in (-1, 0, 1)]
    for size in sorted(x for x in sizes if x <= most):
        at = np.arange(size) % k
        arr = np.array(good)[at]
        forms = [("", arr)]
        if size <= 132 or size % 2 == 0:
            forms += [("every other of ", np.repeat(arr, 2)[::2]), ("rows of ", arr.reshape(-1, 1) if size % 2 else arr.reshape(2, -1)), ("columns of ", np.asfortranarray(arr.reshape(1, -1) if size % 2 else arr.reshape(-1, 2)))]
        for name, x in forms:
            n += 1
            r = obs(c.convert, x)
            if r[0] != "ok" or np.shape(r[1]) != x.shape:
                return [V(f"{key}:size:{name}{size}", f"array, {name}{size} numbers, {a!r} to {b!r}: {show(r)[:200]}, shape {np.shape(r[1]) if r[0] == 'ok' else None}")], {}
            bad = ~(np.abs(np.asarray(r[1]).reshape(-1) - want[at]) <= tol[at] + 1e-12 * np.abs(want[at]))
            if bad.any():
                j = int(np.argmax(bad))
                return [V(f"{key}:size:{name}{size}", f"array, {name}{size} numbers, {a!r} to {b!r}: number {j}, {arr[j]}, became {np.asarray(r[1]).reshape(-1)[j]!r}; alone it becomes {want[at][j]!r}")], {}
    # Call after call: numbers that differ, then the first ones again; arrays likewise.
    calls = []
    for j in range(min(most, 3000)):
        v = 1 + j / 128
        if slack(which, (a, b), v) is None:
            continue
        r = obs(c.convert, v)
        calls.append((v, r))
    all_at_once = obs(c.convert, np.array([v for v, _ in calls]))
    for j, (v, r) in enumerate(calls):
        n += 1
        again = obs(c.convert, v)
        g = again[1] if again[0] == "ok" else math.nan
        if r[0] != "ok" or again[0] != "ok" or float(r[1]) != float(g) or all_at_once[0] != "ok" or not abs(all_at_once[1][j] - g) <= slack(which, (a, b), v)[1]:
            return [V(f"{key}:call:{j}", f"{v!r} {a!r} to {b!r}, call {j} of one converter: first {show(r)}, later {show(again)}, within an array {all_at_once[1][j] if all_at_once[0] == 'ok' else show(all_at_once)}")], {}
    return [], {"values_converted": n, "_edges": {item}, "_states": {(key, "sizes")}}


SIZED = [("S", "m", "m"), ("S", "km", "m"), ("S", "inch", "1/m"), ("S", "degC", "degF"), ("S", "K", "degC^-1"), ("S", "degC", "K"), ("S", "lg(re m)", "km"), ("S", "ft", "ln(re 2 km)"), ("S", "ln(re 2 km)", "lb(re 1/m)"), ("S", "hours", "s"), ("S", "Bm", "mW"), ("S", "loglog", "W"), ("S", "rad", "degree"), ("db", "psi", "pascal"), ("db", "celsius", "fahrenheit")]

FUNCTIONS = {"triple": triple, "arrays": arrays, "sized": sized}
SETS = {
    "length": ["m", "km", "1/m", "inch", "2 m", "ft^-1", "(m @ 5)", "lg(re m)", "ln(re 2 km)", "m @ -3", "m2/km", "lb(re 1/m)", "(lg(re m)) @ 1", "0.3 m"],
    "temperature": ["K", "degC", "degF", "°R", "K @ 10", "hot", "kdegC", "1/K", "degC^-1", "twoC", "2 K @ 5", "lg(re K)", "degC rad", "degF.degree", "K-1 @ 2"],
    "time": ["s", "hours", "day", "Hz", "1/min", "decade", "year", "ms", "kHz", "s2 Hz", "(Hz @ 3)"],
    "power": ["W", "mW", "Bm", "neper", "kW", "N m/s", "1/W", "lg(re 2 W)", "loglog", "J/min", "W rad"],
    "pressure": ["Pa", "kPa", "gauge", "neper", "Pa @ 10", "hPa", "N/m2", "1/Pa", "lg(re kPa)", "gauge @ 5"],
    "number": ["1", "2", "percent", "rad", "degree", "m/km", "1 @ 5", "bit", "sr", "lg(re 1)", "ln(re 2)", "dozen", "rad @ 1", "K/degC", "rad2/degree", "s/hours"],
    "speed": ["m/s", "km/hour", "s/m", "ft/min", "min/km", "m Hz", "lg(re m/s)", "ln(re s/m)", "m/s @ 2", "m rad/s", "degree m/s"],
    "angular": ["rad/s", "degree/min", "Hz", "1/s", "s", "s/rad", "sr/s", "rad s", "lg(re rad/s)"],
    "volume": ["litre", "m3", "dm^3", "ft3", "(2 cm)^3", "l @ 1", "m^-3"],
    "symbol": ["sym", "2 sym", "1/sym", "ksym", "sym @ 1", "sym rad"],
}
DBSETS = {
    "pressure": ["pascal", "atm", "bar", "torr", "psi", "mbar", "dyne/cm^2", "at", "kPa"],
    "temperature": ["kelvin", "celsius", "fahrenheit", "rankine", "degC", "degF"],
    "angle": ["radian", "degree", "grade", "circle", "turn", "percent", "1", "arc_minute"],
    "time": ["s", "day", "fortnight", "year", "Hz", "becquerel", "common_year", "sidereal_day"],
    "energy": ["J", "calorie", "eV", "Btu", "kWh", "erg", "therm"],
    "log": ["watt", "Bm", "W", "mW"],
    "velocity": ["m/s", "knot", "kt", "c", "mile/hour", "lg(re knot)"],
}
GROUPS = {}


def build(quick=True):
    GROUPS.clear()
    for n, g in SETS.items():
        GROUPS["S:" + n] = g
    sysm, us = system("db")
    for n, g in DBSETS.items():
        ok = []
        for s in g:
            try:
                sysm.meaning(s)
                us.unit(s).dimensionality()
                ok.append(s)
            except Exception:
                pass
        GROUPS["db:" + n] = ok


def setup():
    build(False)


def main(run):
    build(run.quick)
    items = [(k.split(":")[0], a, b, k) for k, g in GROUPS.items() for a in g for b in g]
    items = [i for i in items if refunits.Meaning.same_dims(meaning(i[0], i[1]), meaning(i[0], i[2])) or meaning(i[0], i[1]).inverse_dims(meaning(i[0], i[2]))]
    run.map("triple", items, timeout=300, chunk=2)
    run.map("arrays", list(dict.fromkeys(i[:3] for i in items)), timeout=300)
    run.map("sized", [(w, a, b, 70000 if run.quick else 2**21 + 2) for w, a, b in SIZED], timeout=600)
    return run.finish(
        note=f"all triples within {len(GROUPS)} groups of mutually convertible units ({sum(len(g) for g in GROUPS.values())} units: scaled, shifted, logarithmic, reciprocal, dimensionless), 5 values; all pairs with 16 kinds of arrays (masked ones too), arrays and scalars of 14 number types up to the limits of the type, 15 pairs with arrays of every size up to 131 and around powers of two and ten up to {70000 if run.quick else 2**21} in four memory layouts and 3000 calls of one converter, nan at every place of an array, and the printed expression",
        assumptions=["rounding is bounded by the exact model evaluated at moved values"],
    )
