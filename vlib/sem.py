"""Comparing a unit of the code with its Meaning in the model."""
import math
from fractions import Fraction

from . import refgrammar, refunits
from .mc import V, obs, show

_BASE = {}


def base_text(m):
    """The unit string of the base units of a meaning, e.g. 'meter^1·second^-2'."""
    return "·".join(f"{k}^{v}" for k, v in sorted(m.dims.items())) or "1"


def base_meaning(m):
    return refunits.Meaning(dims=m.dims)


def is_number(x):
    import numpy as np

    return isinstance(x, (int, float, np.floating, np.integer)) and not isinstance(x, bool)


def close(got, want, *mags):
    """Equal up to rounding: 1e-9 relative to the result and the magnitudes that went into it."""
    if not is_number(got):
        return False
    want = float(want)
    if math.isnan(got) or math.isinf(got):
        return False
    return abs(float(got) - want) <= 1e-9 * max([abs(want)] + [abs(float(x)) for x in mags])


def magnitudes(v, a, b):
    """Sizes of the terms a conversion adds up (offsets may cancel)."""
    if a.logs or b.logs:
        return [abs(b.shift)]
    out = [abs(b.shift)]
    if a.same_dims(b):
        r = abs(a.scale / b.scale)
        out += [abs(a.shift) * r, abs(Fraction(v)) * r]
    return out


def log_tol(v, a, b, want):
    """How far rounding of the parameters can move a result through logarithms."""
    # Evaluate the model at slightly moved values.
    tol = 0.0
    for dv in (1e-10, -1e-10):
        try:
            w = refunits.convert(float(v) * (1 + dv) + dv * 1e-3, a, b)
            tol = max(tol, abs(float(w) - float(want)))
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
    return tol


def check_conversion(conv, v, a, b, key, what, item=None):
    """conv(v) against the model; [] or a violation.  None: the model has no finite answer."""
    try:
        want = refunits.convert(v, a, b)
        fw = float(want)
    except (ValueError, OverflowError, ZeroDivisionError):
        return None
    if a.shift and not a.logs and not a.same_dims(b) and abs(Fraction(v) + a.shift) < abs(a.shift) / 10**4:
        return None  # the reciprocal of a difference of nearly equal numbers
    if math.isinf(fw) or math.isnan(fw) or abs(fw) > 1e250 or (fw != 0 and abs(fw) < 1e-250):
        return None
    o = obs(conv, v)
    if o[0] != "ok":
        return [V(key, f"{what}: converting {v!r} gave {show(o)}, expected {fw!r}", **({"item": item} if item is not None else {}))]
    mags = magnitudes(v, a, b)
    ok = close(o[1], want, *mags)
    if not ok and (a.logs or b.logs) and is_number(o[1]):
        ok = abs(float(o[1]) - fw) <= 10 * log_tol(v, a, b, want) + 1e-9 * abs(fw) + 1e-10
    if ok:
        return []
    return [V(key, f"{what}: {v!r} became {o[1]!r}, expected {fw!r}", **({"item": item} if item is not None else {}))]


def expanded_meaning(text, sysm):
    """Meaning of a basis form; its identifiers must be base units of the system."""
    ast = refgrammar.frozen().ast(text)
    if ast is None:
        raise ValueError(f"the basis form {text!r} is no unit string")
    bases = {u.ref: u for u in sysm.units if u.definition is None}

    def ex(a):
        k = a[0]
        if k == "id":
            if a[1] not in bases:
                raise ValueError(f"{a[1]!r} in the basis form {text!r} is no basis unit")
            return ("base", bases[a[1]])
        if k in ("mul", "div"):
            return (k, ex(a[1]), ex(a[2]))
        if k in ("pow", "shift"):
            return (k, ex(a[1]), a[2])
        if k == "log":
            return (k, a[1], ex(a[2]))
        return a

    return refunits.evaluate(ex(ast))


def dims_of(unit):
    """{base unit name: exponent} as the code gives it."""
    d = unit.dimensionality()
    out = {}
    for k, v in d.items():
        k = str(k)
        if k in out:
            raise ValueError(f"{k} listed twice in {d}")
        out[k] = v
    return out


def check_dims(unit, m, key, what):
    o = obs(dims_of, unit)
    viols = []
    if o[0] != "ok" or o[1] != m.dims or any(type(v) is not int for v in o[1].values()):
        viols.append(V(key, f"{what}: dimensionality {show(o)}, expected {m.dims}"))
    else:
        d = unit.dimensionality()
        if not (d == m.dims) or (m.dims and d == {}):
            viols.append(V(key, f"{what}: dimensionality {d} does not compare equal to {m.dims}"))
    return viols
