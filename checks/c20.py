"""C20: the command line agrees with the library."""
import contextlib
import io
import itertools
import os
import subprocess
import sys

import numpy

from vlib import refdb, refgrammar, refunits, sem
from vlib.mc import V, obs, isexc, show
from . import lang
from .c08 import system


def run_cli(*args):
    """(exit status, stdout, stderr) of main() in this process."""
    from pyudunits2 import __main__ as m

    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["pyudunits2", *args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            o = obs(m.main)
    finally:
        sys.argv = old
    if o[0] == "ok":
        code = 0
    elif o[1] == "SystemExit":
        code = o[3].code
        code = 0 if code is None else code
    else:
        code = o
    return code, out.getvalue(), err.getvalue()


def sub_cli(*args):
    env = dict(os.environ, PYTHONPATH="/repo" if not os.environ.get("VERIF_REPO") else os.environ["VERIF_REPO"], PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-m", "pyudunits2", *args], capture_output=True, text=True, env=env, cwd="/", timeout=100)
    return p.returncode, p.stdout, p.stderr


def cli(how, *args):
    return run_cli(*args) if how == "in" else sub_cli(*args)


def failed(code):
    return isinstance(code, tuple) or code not in (0,)


def explain(item):
    how, s = item
    _, us = system("db")
    code, out, err = cli(how, "explain-unit", s)
    want = obs(lambda: (lambda u: (str(u), u.expanded(), str(u.dimensionality())))(us.unit(s)))
    key = f"explain:{s}"
    if want[0] != "ok":
        # Nothing is specified but that it is no success.
        if not failed(code):
            return [V(key, f"explain-unit {s!r}: status {code}, though the library gives {show(want)}")], {}
        return [], {"_states": {"refused"}, "_edges": {(item, "refused")}}
    lines = [l.strip() for l in out.strip().splitlines()]
    ok = code == 0 and len(lines) == 3 and all(any(l == w or l.endswith(": " + w) or (w == "" and l.endswith(":")) for l in lines) for w in want[1])
    if ok:
        # In this order, each on its own line.
        ok = all(l == w or l.endswith(": " + w) or (w == "" and l.endswith(":")) for l, w in zip(lines, want[1]))
    if not ok:
        return [V(key, f"explain-unit {s!r}: status {code}, printed {out!r} {err[-200:]!r}, the library gives {want[1]}")], {}
    return [], {"_states": {want[1]}, "_edges": {(item, want[1])}}


def expr(item):
    import sympy

    how, s, t = item
    sysm, us = system("db")
    from pyudunits2 import Converter

    code, out, err = cli(how, "conversion-expr", s, t)
    key = f"expr:{s}:{t}"
    lib = obs(lambda: Converter(us.unit(s), us.unit(t)))
    if isexc(lib, "IncompatibleUnitsError"):
        txt = out + err
        if code != 1 or "value" in out.splitlines()[-1:] or "not" not in txt:
            return [V(key, f"conversion-expr {s!r} {t!r}: status {code}, printed {out!r}; they are not convertible")], {}
        if not all(str(us.unit(x)) in txt for x in (s, t)):
            return [V(key, f"conversion-expr {s!r} {t!r}: {txt!r} does not name the units")], {}
        return [], {"_states": {"incompatible"}, "_edges": {(item, "incompatible")}}
    if lib[0] != "ok":
        if not failed(code):
            return [V(key, f"conversion-expr {s!r} {t!r}: status {code}, though the library gives {show(lib)}")], {}
        return [], {"_states": {"refused"}, "_edges": {(item, "refused")}}
    if code != 0 or not out.strip():
        return [V(key, f"conversion-expr {s!r} {t!r}: status {code}, printed {out!r} {err[-300:]!r}")], {}
    text = out.strip().splitlines()[-1]
    e = obs(lambda: sympy.sympify(text))
    if e[0] != "ok" or not {str(x) for x in e[1].free_symbols} <= {"value"}:
        return [V(key, f"conversion-expr {s!r} {t!r} printed {text!r}, which is no expression in value: {show(e)}")], {}
    a, b = sysm.date(s)[1], sysm.date(t)[1]
    viols = []
    n = 0
    for v in (1, 2.5, -3, 0, 40):
        l = obs(lib[1].convert, v)
        if l[0] != "ok" or not sem.is_number(l[1]) or not abs(l[1]) < 1e250:
            continue
        g = obs(lambda: complex(e[1].evalf(30, subs={sympy.Symbol("value"): v})))
        if l[0] != "ok" or g[0] != "ok" or not sem.is_number(l[1]):
            continue
        n += 1
        if abs(g[1] - float(l[1])) > 1e-9 * abs(l[1]) + 1e-9 * abs(float(b.shift)) + 1e-12 * bool(b.logs):
            viols.append(V(f"{key}:{v}", f"conversion-expr {s!r} {t!r} printed {text!r}, which makes {g[1]} of {v}; the library {l[1]}"))
        if not a.odd and not b.odd:
            r = sem.check_conversion(lambda x: g[1].real, v, a, b, f"{key}:{v}:model", f"the expression {text!r} printed for {s!r} to {t!r}")
            viols += r or []
    if not all(str(us.unit(x)) in out for x in (s, t)):
        viols.append(V(key, f"conversion-expr {s!r} {t!r}: {out!r} does not name the units"))
    return viols[:2], {"values_converted": n, "_states": {text}, "_edges": {item}}


def tokens(item):
    """debug-parser prints the tokens of the unit, one a line."""
    how, s = item
    g = refgrammar.frozen()
    code, out, err = cli(how, "debug-parser", s)
    if g.ast(s) is None:
        return [], {"_items": 0}  # printed as far as it got
    want = "".join(f"{x}: {t}\n" for t, x in g.tokens(s) if t != "EOF")
    if code != 0 or out != want:
        return [V(f"tokens:{s}", f"debug-parser {s!r}: status {code}, printed {out!r} {err[-200:]!r}, its tokens are {want!r}")], {}
    return [], {"_states": {want}, "_edges": {item}}


def usage(item):
    how, args, want = item
    code, out, err = cli(how, *args)
    viols = []
    if want == "help1":
        if code != 1 or "usage" not in (out + err).lower():
            viols.append(V(f"usage:{args}", f"{args}: status {code}, printed {out!r} {err[-200:]!r}; expected help and status 1"))
    elif want == "help0":
        if code != 0 or "usage" not in out.lower():
            viols.append(V(f"usage:{args}", f"{args}: status {code}, printed {out!r}"))
    elif not failed(code):
        viols.append(V(f"usage:{args}", f"{args}: status {code}, expected a failure"))
    return viols, {"_edges": {item}}


numpy.seterr(all="ignore")
FUNCTIONS = {"explain": explain, "expr": expr, "usage": usage, "tokens": tokens}
UNITS = [
    "m", "mg", "km/h", "degC", "degF", "K @ 273.15", "2 m", "m2", "m^-1", "m²", "1/s", "Hz", "rad", "degree", "1", "", "0.01", "percent", "ppm", "N.m", "J", "Pa", "lg(re m)", "ln(re 2 km)", "lb(re 1)", "lg(re lg(re m))", "2 lg(re m)", "dBZ", "Bm", "Np",
    "s since 2000-01-01", "days since 1970-01-01 00:00:00", "hours from 5", "(m @ 5) s", "m/(s kg)", "(m/s)^2", "m/s/s", "m per s", " m ", "kilometers", "µm", "mmHg", "torr", "atm", "psi", "celsius", "kelvin", "year", "fortnight", "mph", "knot", "W/m2", "kWh", "eV", "c", "gauss", "henries", "angstrom", "1e-3 m", "-3 m", "m m-1", "°F", "ua",
]
BAD = ["nosuchunit", "m^^", "(m", "m since 2000-01-01", "m (s @ 5)", "2 nosuch", "%%", "km km km )", "lg(m)"]
PAIRS = [
    ("m", "km"), ("km", "m"), ("mg", "lg(re grams)"), ("m/s", "s/m"), ("mg", "meters"), ("degC", "degF"), ("degC", "K"), ("K @ 10", "degF"), ("rad", "degree"), ("degree", "rad"), ("rad/s", "Hz"), ("1", "percent"), ("lg(re m)", "m"), ("m", "lg(re m)"), ("ln(re m)", "lb(re km)"), ("lg(re lg(re m))", "m"),
    ("s since 2000-01-01", "s"), ("s", "s since 2000-01-01"), ("s since 2000-01-01", "s since 2000-01-01"), ("hours", "days"), ("m", "m"), ("1/m", "m"), ("degC", "1/K"), ("nosuch", "m"), ("m", "nosuch"), ("m^^", "m"), ("N.m", "J"), ("mph", "knot"), ("W", "Bm"), ("Bm", "mW"), ("", "1"), ("m", "s"), ("m2", "m"),
]


def main(run):
    _, us = system("db")
    items = [("in", s) for s in UNITS + BAD]
    db = refdb.load()
    items += [("in", u.spellings()[0]) for u in db.units if not u.spellings()[0].startswith("-")]
    run.map("explain", items, timeout=100)
    pairs = [("in", a, b) for a, b in PAIRS]
    us_ = [u for u in UNITS if not u.startswith("-")]
    same = []
    if run.quick:
        conv = ["m", "km/h", "degC", "K", "1/s", "Hz", "rad", "percent", "lg(re m)", "2 m", "s since 2000-01-01", "W", "Bm", "mph", "nosuchunit", "m^^"]
        pairs += [("in", a, b) for a in conv for b in conv]
    else:
        pairs += [("in", a, b) for a in us_ + BAD for b in us_ + BAD]
    run.map("expr", list(dict.fromkeys(pairs)), timeout=100)
    uses = [((), "help1"), (("--help",), "help0"), (("-h",), "help0"), (("explain-unit",), "fail"), (("conversion-expr", "m"), "fail"), (("conversion-expr",), "fail"), (("nosuchcommand", "m"), "fail"), (("explain-unit", "m", "km"), "fail"), (("conversion-expr", "m", "km", "s"), "fail"), (("explain-unit", "--help"), "help0")]
    run.map("usage", [(h, a, w) for h in ("in", "sub") for a, w in uses], timeout=100)
    run.map("explain", [("sub", s) for s in ("mg", "degC", "m2", "", "s since 2000-01-01", "nosuchunit", "µm", "lg(re m)")], timeout=100)
    run.map("expr", [("sub", a, b) for a, b in PAIRS], timeout=100)
    toks = [("in", s) for s in UNITS + BAD] + [("in", "".join(t)) for n in (1, 2, 3) for t in itertools.product(lang.CORE, repeat=n)]
    toks += [("in", p + "".join(t)) for p in ("s since ", "(s @") for n in (1, 2) for t in itertools.product(lang.DATE, repeat=n)]
    run.map("tokens", [t for t in dict.fromkeys(toks) if not t[1].startswith("-")], timeout=100)
    run.map("tokens", [("sub", s) for s in ("mg", "m2 s-1", "", "s since 2000-01-01T12:30 UTC", "lg(re 1 mW)", "°F", "K @ 273.15")], timeout=100)
    return run.finish(
        note=f"explain-unit of {len(items)} units (every database entry), conversion-expr of {len(pairs)} pairs, debug-parser of every text of <=3 of 18 tokens and dates of <=2 of 23 pieces, every usage error, in process and as a program of its own",
        assumptions=["the printed expression is the last line of the output and is read by sympy"],
    )
