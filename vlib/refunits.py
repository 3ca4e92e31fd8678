"""The meaning of unit expressions: exact reference semantics.

A system is a list of prefixes and units (data, see `System`).  An expression
(refgrammar form) is expanded to one over base units only and then evaluated to
a `Meaning`:

    shift   what the outermost shifts add up to
    logs    the bases of the enclosing logarithms, outermost first
    scale   exact rational factor to the product of base units
    dims    base unit -> exponent, dimensionless base units left out
    dless   exponents of the dimensionless base units
    odd     why the unit is outside the specified part (scaled logarithm ...)

A value v of the unit stands for  pow(logs, v + shift) * scale * base units.
"""
import math
from fractions import Fraction

from . import refgrammar

LOGBASE = {"lg": 10, "log": 10, "ln": "e", "lb": 2}


class Unresolvable(Exception):
    pass


class Refused(Exception):
    """ValueError: a date where none is allowed."""


def plural_of(s):
    """UDUNITS-2's rule, as the library implements it."""
    if s.endswith(("s", "sh", "ch", "x", "z")):
        return s + "es"
    if len(s) > 1 and s.endswith("y") and s[-2] not in "aeiou":
        return s[:-1] + "ies"
    return s + "s"


class U:
    """A registered unit: base (dimensionless?, time?) or defined by text."""

    def __init__(self, name=None, plural=None, symbols=(), aliases=(), alias_symbols=(), definition=None, dimensionless=False, time=False):
        self.name, self.plural = name, plural
        self.symbols, self.aliases, self.alias_symbols = tuple(symbols), tuple(aliases), tuple(alias_symbols)
        self.definition, self.dimensionless, self.time = definition, dimensionless, time

    @property
    def ref(self):
        return self.name if self.name is not None else self.symbols[0]

    def names(self):
        return [n for n in (self.name, self.plural) if n]

    def alias_names(self):
        return [n for a in self.aliases for n in a if n]

    def spellings(self):
        return self.names() + list(self.symbols) + self.alias_names() + list(self.alias_symbols)


class P:
    def __init__(self, name, value, symbols=()):
        self.name, self.value, self.symbols = name, value, tuple(symbols)


class Meaning:
    __slots__ = ("shift", "logs", "scale", "dims", "dless", "odd")

    def __init__(self, scale=Fraction(1), dims=None, dless=None, logs=(), shift=Fraction(0), odd=""):
        self.scale, self.logs, self.shift, self.odd = scale, logs, shift, odd
        self.dims = {k: v for k, v in (dims or {}).items() if v}
        self.dless = {k: v for k, v in (dless or {}).items() if v}

    def key(self):
        return (self.shift, self.logs, self.scale, tuple(sorted(self.dims.items())), tuple(sorted(self.dless.items())), self.odd)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"<{self.logs or ''} {self.scale if self.scale.denominator < 10**6 else float(self.scale)} {self.dims} {self.dless or ''} @{float(self.shift)} {self.odd}>"

    # -- conversions -------------------------------------------------------
    def plain(self):
        return not self.odd and not self.logs

    def same_dims(self, o):
        return self.dims == o.dims

    def inverse_dims(self, o):
        return {k: -v for k, v in self.dims.items()} == o.dims

    def to_base(self, v):
        x = v + self.shift
        for b in self.logs:
            x = math.exp(x) if b == "e" else float(b) ** float(x)
        return x * self.scale

    def from_base(self, x):
        x = x / self.scale
        for b in reversed(self.logs):
            x = math.log(x) if b == "e" else math.log2(x) if b == 2 else math.log10(x)
        return x - self.shift


def convert(v, a, b):
    """Value v of unit meaning a, in unit meaning b (exact for plain units)."""
    if not (a.logs or b.logs):
        v = Fraction(v)
    base = a.to_base(v)
    if not a.same_dims(b):
        base = 1 / base
    return b.from_base(base)


class System:
    def __init__(self, units=(), prefixes=()):
        self.prefixes, self.units = [], []
        self.n, self.a, self.s, self.as_ = {}, {}, {}, {}
        self.pn, self.ps = {}, {}
        self._parsed = {}
        for p in prefixes:
            self.add_prefix(p)
        for u in units:
            self.add(u)

    def copy(self):
        """What is registered now."""
        c = System()
        for k, v in self.__dict__.items():
            setattr(c, k, v.copy() if k != "_parsed" and isinstance(v, (list, dict)) else v)
        return c

    # -- registration --------------------------------------------------------
    def add_prefix(self, p):
        self.prefixes.append(p)
        self.pn[p.name] = p
        for s in p.symbols:
            self.ps[s] = p

    def add(self, u, replace=False):
        """Returns False (and changes nothing) if a name or symbol is taken."""
        if not replace and (any(x in self.n for x in u.names()) or any(x in self.s for x in u.symbols)):
            return False
        self.units.append(u)
        for x in u.names():
            self.n[x] = u
        for x in u.symbols:
            self.s[x] = u
        for x in u.alias_names():
            self.a[x] = u
        for x in u.alias_symbols:
            self.as_[x] = u
        return True

    # -- lookup ----------------------------------------------------------------
    def exact(self, s):
        for d in (self.n, self.a, self.s, self.as_):
            if s in d:
                return d[s]
        return None

    def lookup(self, s):
        """-> (prefix or None, unit, spelling) or raises Unresolvable."""
        u = self.exact(s)
        if u is not None:
            return None, u, s
        for d in (self.pn, self.ps):
            for spelling, p in d.items():
                if spelling and s.startswith(spelling):
                    u = self.exact(s[len(spelling):])
                    if u is not None:
                        return p, u, s[len(spelling):]
        raise Unresolvable(s)

    def parse(self, s):
        if s not in self._parsed:
            self._parsed[s] = refgrammar.frozen().ast(s)
        return self._parsed[s]

    # -- expansion ---------------------------------------------------------------
    def expand_id(self, name, depth=0):
        if depth > 60:
            raise RecursionError(name)
        p, u, _ = self.lookup(name)
        if u.definition is None:
            e = ("base", u)
        else:
            d = self.parse(u.definition)
            if d is None:
                raise SyntaxError(u.definition)
            if d == ("empty",):
                d = ("num", 1)
            e = self.expand(d, depth + 1)
        return ("mul", ("num", Fraction(p.value)), e) if p else e

    def expand(self, ast, depth=0):
        k = ast[0]
        if k == "id":
            return self.expand_id(ast[1], depth)
        if k in ("num", "ts", "base"):
            return ast
        if k == "pow":
            return ("pow", self.expand(ast[1], depth), ast[2])
        if k == "log":
            return ("log", ast[1], self.expand(ast[2], depth))
        if k == "shift":
            return ("shift", self.expand(ast[1], depth), ast[2])
        return (k, self.expand(ast[1], depth), self.expand(ast[2], depth))

    # -- meaning -------------------------------------------------------------------
    def meaning(self, s):
        """Meaning of a unit string (not of a date)."""
        ast = self.parse(s) if isinstance(s, str) else s
        if ast is None:
            raise SyntaxError(s)
        if ast == ("empty",):
            ast = ("num", 1)
        return evaluate(self.expand(ast))

    def date(self, s):
        """('date', Meaning of the unit, reference text) | ('unit', Meaning); raises Refused."""
        ast = self.parse(s) if isinstance(s, str) else s
        if ast is None:
            raise SyntaxError(s)
        if ast == ("empty",):
            ast = ("num", 1)
        if ast[0] == "shift":
            inner = ast[1]
            self._no_dates(inner)
            m = evaluate(self.expand(inner))
            if self.is_time(m):
                return ("date", m, ast[2])
        self._no_dates(ast)
        return ("unit", evaluate(self.expand(ast)))

    def is_time(self, m):
        return len(m.dims) == 1 and next(iter(m.dims.items())) in {(u.ref, 1) for u in self.units if u.time}

    def _no_dates(self, ast):
        """Shifts written in the string itself (not those in definitions)."""
        if ast[0] == "shift":
            self._no_dates(ast[1])
            if self.is_time(evaluate(self.expand(ast[1]))):
                raise Refused("date in a nested unit")
            if ast[2][0] != "num":
                raise Refused("non-numeric shift")
        elif ast[0] in ("mul", "div"):
            self._no_dates(ast[1])
            self._no_dates(ast[2])
        elif ast[0] == "pow":
            self._no_dates(ast[1])
        elif ast[0] == "log":
            self._no_dates(ast[2])


def evaluate(e):
    shift = Fraction(0)
    while e[0] == "shift":
        if e[2][0] != "num":
            raise Refused("non-numeric shift")
        shift += Fraction(e[2][1])
        e = e[1]
    m = _eval(e)
    m.shift = shift
    return m


def _merge(a, b, f):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + f * v
    return out


def _eval(e):
    k = e[0]
    if k == "num":
        return Meaning(Fraction(e[1]))
    if k == "base":
        u = e[1]
        return Meaning(dless={u.ref: 1}) if u.dimensionless else Meaning(dims={u.ref: 1})
    if k == "shift":
        return _eval(e[1])  # not outermost: ignored
    if k == "log":
        m = _eval(e[2])
        return Meaning(m.scale, m.dims, m.dless, (LOGBASE[e[1]],) + m.logs, odd=m.odd)
    if k == "pow":
        m, n = _eval(e[1]), e[2]
        odd = m.odd or ("power of a logarithm" if m.logs and n != 1 else "")
        if m.scale == 0 and n <= 0:
            odd = odd or "zero"
            return Meaning(Fraction(0), odd=odd)
        return Meaning(m.scale**n, {k: v * n for k, v in m.dims.items()}, {k: v * n for k, v in m.dless.items()}, m.logs, odd=odd)
    a, b = _eval(e[1]), _eval(e[2])
    f = 1 if k == "mul" else -1
    odd = a.odd or b.odd
    if a.logs and b.logs:
        odd = odd or "two logarithms"
    elif a.logs or b.logs:
        o = b if a.logs else a
        if o.dims or o.dless:
            odd = odd or "logarithm times a unit"
        elif o.scale != 1:
            odd = odd or "scaled logarithm"
        elif f == -1 and b.logs:
            odd = odd or "division by a logarithm"
    if b.scale == 0 and f < 0:
        return Meaning(Fraction(0), odd=odd or "zero")
    return Meaning(a.scale * b.scale**f, _merge(a.dims, b.dims, f), _merge(a.dless, b.dless, f), a.logs + b.logs, odd=odd)


def from_system(sysm):
    """The same system, built in the code under test through its public API."""
    from pyudunits2 import UnitSystem

    us = UnitSystem()
    for p in sysm.prefixes:
        us.add_prefix(code_prefix(p))
    for u in sysm.units:
        us.add_unit(code_unit(us, u))
    return us


def code_prefix(p):
    from pyudunits2._unit_reference import Prefix

    return Prefix(p.name, p.value, p.symbols)


def code_unit(us, u):
    from pyudunits2 import BasisUnit
    from pyudunits2._unit_reference import UnitReference, Name
    from pyudunits2._unit_system import LazilyDefinedUnit

    ref = UnitReference(
        name=Name(u.name, u.plural) if u.name is not None else None,
        symbols=u.symbols,
        alias_names=tuple(Name(*a) for a in u.aliases),
        alias_symbols=u.alias_symbols,
    )
    if u.definition is None:
        return BasisUnit(names=ref, dimensionless=u.dimensionless, is_time_unit=u.time)
    return LazilyDefinedUnit(us, u.definition, ref)
