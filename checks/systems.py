"""Unit systems for the semantic checks: as model data, built in the code through its public API."""
import functools

from vlib.refunits import U, P, System, from_system

PREFIXES = [
    P("mega", "1e6", ("M",)), P("kilo", "1e3", ("k",)), P("deca", "1e1", ("da",)), P("deka", "10"), P("hecto", "100", ("h",)),
    P("deci", ".1", ("d",)), P("centi", "1e-2", ("c",)), P("milli", "1e-3", ("m",)), P("micro", "0.000001", ("µ", "u")), P("exa", "1E18", ("E",)),
]

UNITS = [
    U("meter", "meters", ("m",), [("metre", "metres")]),
    U("kilogram", "kilograms", ("kg",)),
    U("second", "seconds", ("s",), [("sec", None)], time=True),
    U("kelvin", "kelvins", ("K",), [("degree_kelvin", None)], ("°K",)),
    U("ampere", "amperes", ("A",)),
    U("radian", "radians", ("rad",), dimensionless=True),
    U(None, None, ("sym",)),  # a basis unit with a symbol only
    U("gram", "grams", ("g",), definition="1e-3 kg"),
    U("minute", "minutes", ("min",), definition="60 s"),
    U("hour", "hours", ("h",), [("hr", "hrs")], definition="60 min"),
    U("day", "days", ("d",), definition="24 hours"),
    U("year", "years", ("a", "yr"), definition="365.242198781 days"),
    U("hertz", None, ("Hz",), definition="1/s"),
    U("newton", "newtons", ("N",), definition="m.kg/s2"),
    U("joule", "joules", ("J",), definition="N.m"),
    U("watt", "watts", ("W",), definition="J/s"),
    U("pascal", "pascals", ("Pa",), definition="N/m2"),
    U("litre", "litres", ("L",), [("liter", "liters")], ("l",), definition="dm^3"),
    U("inch", "inches", ("in",), definition="2.54 cm"),
    U("foot", "feet", ("ft",), definition="12 inches"),
    U("degree", "degrees", ("°",), definition="0.017453292519943295 rad"),
    U("steradian", None, ("sr",), definition="rad2"),
    U("percent", None, (), definition="0.01"),
    U("dozen", None, (), definition="12"),
    U("rankine", "rankines", ("°R",), definition="K/1.8"),
    U("celsius", None, ("degC", "°C"), [("degree_Celsius", None)], definition="K @ 273.15"),
    U("fahrenheit", None, ("degF", "°F"), definition="°R @ 459.67"),
    U("warm", None, (), definition="degC"),
    U("hot", None, (), definition="degC @ 10"),
    U("twoC", None, (), definition="2 degC"),
    U("gauge", None, (), definition="kPa @ 101.325"),
    U("decade", None, (), definition="lg(re s)"),
    U("belmilliwatt", None, ("Bm",), definition="lg(re 1 mW)"),
    U("neper", None, ("Np",), definition="ln(re 1 Pa)"),
    U("bit", None, (), definition="lb(re 1)"),
    U("loglog", None, (), definition="lg(re Bm)"),
    U("one", None, (), definition="1"),
]


def model():
    return System(UNITS, PREFIXES)


@functools.lru_cache(None)
def both():
    """(model, the same system in the code)"""
    m = model()
    return m, from_system(m)


def fresh():
    m = model()
    return m, from_system(m)


def tiny():
    return both()[1]


# Names of basis units that mean something elsewhere (in Python, sympy, numpy, or inside the library).
NAMES = [
    "value", "to_value", "value_transformed_to_base_unit_scale", "values", "x", "E", "pi", "I", "S", "N", "O", "Q", "oo", "zoo", "nan", "inf", "lambda", "None", "True", "def", "exp", "sqrt", "beta", "gamma", "Symbol", "sin", "e", "E_n", "j", "_x", "self", "unit", "Identifier", "per_unit", "since_x", "é", "µ", "Ω_", "α",
]


def named(name, other="b"):
    """A system whose basis unit has this name."""
    return System([U(name, None, ("q_",)), U(other, None, ("bb_",)), U("rr_", None, dimensionless=True), U("u_", None, definition=f"3 {name}"), U("w_", None, definition=f"3 {name}/{other}"), U("o_", None, definition=f"{name} @ 2")], [P("kilo", "1e3", ("k",))])


# Steps from one definition to the next.
LINEAR = ["2 {x}", "{x}/3", "k{x}", "1/{x}", "{x} r", "0.3 {x}", "{x}", "({x})^-1", "t {x}/t", "r/{x}"]
SHIFTS = ["{x} @ 3", "2 {x} @ -1", "({x})", "{x} r", "k{x}", "({x} @ 1) @ 0.5", "{x}/4", "1/{x}"]
MIXED = LINEAR[:5] + ["{x} a", "{x}/t", "{x} @ 2", "lg(re {x})"]
DEPTHS = (5, 12, 24, 40)


def deepname(k):
    return "z" + chr(97 + k // 26) + chr(97 + k % 26)


def deep(pattern, depth, top="a"):
    """A system with a chain of definitions, each upon the one before, going through the pattern again and again."""
    units = [U("a", None, ("A",)), U("t", None, ("T",), time=True), U("r", None, (), dimensionless=True)]
    last = top
    for k in range(depth):
        n = deepname(k)
        units.append(U(n, n + "s", (n.upper(),), definition=pattern[k % len(pattern)].format(x=last)))
        last = (n, n.upper(), n + "s")[k % 3]
    return System(units, [P("kilo", "1e3", ("k",)), P("third", "3.3", ("h",))]), last


def deep_items(steps, quick):
    """(pattern, depth): every pattern of one or two (thorough: three) steps."""
    pats = [(a,) for a in steps] + [(a, b) for a in steps for b in steps if a != b]
    if not quick:
        pats += [(a, b, c) for a in steps for b in steps for c in steps if not a == b == c]
    return [(p, d) for p in pats for d in (DEPTHS[1:3] if quick and len(p) > 1 else DEPTHS)]
