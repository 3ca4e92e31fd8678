"""The spaces of unit strings shared by C01, C02, C03 and C22."""
import decimal
import itertools

# Every token of the grammar in its different spellings, simplest first, and
# things that are no token.
FULL = [
    "m", "s", " ", "2", "/", "^", "(", ")", ".", "-", "*", "-1", "+3", "10", "@", "since", "1.5", ".5", "1.",
    "1e3", "e2", "E-2", "**", "·", " per ", " PER ", "per", "lg(re ", "ln(re: ", "log(RE", "lb ( re ", "lg(", "²", "⁻¹", "⁻", "⁺³",
    ":", "from", "after", "ref", "%", "\t", "'", "+", "°", "Ω", "µ", "_", "re", "0", "UTC", "T", "2000-01-01", "12:30",
]
CORE = ["m", " ", "2", "/", "^", "(", ")", ".", "-", "*", "-1", "@", "1.5", "lg(re ", "²", "e2", " per ", "s"]
DATE = ["2000", "1", "12", "31", "60", "-", "+", ":", ".", "T", " ", "Z", "UTC", "TZ", "GMT", "6", "-01", "e5", "m", ")", "2000-01-01", "12:30:59.5", "19900101T1200"]
DATE_PREFIX = ["s since ", "s @", "(s from ", "s^2 after ", "s ref", "lg(re s @ "]
# Operands and operators of whole sentences.
OPERANDS = ["m", "2", "1.5", "m2", "(m s)", "m^-2", "-1", "(m/s)", "lg(re m)", "(m s)2", "m²", "(K @ 5)", "s-1", ".5", "1e3", "2^3", "(m2)^-3", "°F", "ln(re 2 K)²"]
OPERATORS = [" ", "/", ".", "", "-", "*", " per ", "·", " / ", "  "]
NUMCH = "019.eE+-"
NUM_CONTEXT = ["{}", "m {}", "m^{}", "K @ {}", "m{}", "({})", "m.{}", "s since {}", "{}m", "m/{}"]


def _long():
    """Numbers of very many digits and with big exponents."""
    digits = "1234567890" * 500
    lengths = [*range(7, 42), 60, 100, 309, 310, 1000, 4299, 4300, 4301, 5000]
    out = []
    for n in lengths:
        d = digits[:n]
        out += [d, "-" + d, "+" + d, "0" * (n - 1) + "7", "-" + "0" * (n - 1) + "7", d + ".", "." + d, "0." + d, d + "." + d, d + "e3", "." + d + "E-7", "1." + "0" * n, "1." + "0" * (n - 1) + "1", "0." + "0" * n + "1", "1e" + "0" * n + "5", "9" * n, "." + "9" * n, "1" + "0" * n]
    exps = [*range(10, 32), 100, 300, *range(305, 312), 400, 5000, 999999, 10**9, 10**17, 10**18 - 2, 10**18 - 1, 10**18, 10**18 + 1, 10**19, 10**30]
    for e in exps:
        out += [f"1e{e}", f"1e-{e}", f"-2.5E+{e}", f".07e-{e}", f"12.e{e}", f"0e{e}", f"0.0e-{e}", f"+1e{e}"]
    return out


LONG = _long()
LONG_CONTEXT = ["{}", "{} m", "m {}", "m^{}", "m{}", "K @ {}", "({}m)", "m/{}", "s since {}", "lg(re {} m)", "m.{}"]
REPEAT = [("(", "m", ")"), ("m ", "s", ""), ("m·", "s", ""), ("m/", "s", ""), ("m.", "2", ""), ("", "m", "2"), ("", "m", " 2"), ("", "m", ".2"), ("", "m", "-2"), ("", "m", "^2"), ("", "m", "²"), ("lg(re ", "m", ")"), ("(2 ", "m", ")^2"), ("(", "m", "/s)"), ("(", "K", " @ 3)"), (" ", "m", " "), ("m", "s", ""), ("m_", "s", "µ"), ("2 ", "s", ""), ("2.", "s", ""), (".5", "s", ""), ("1.5.", "s", ""), ("- ", "2", ""), ("-", "2", ""), ("(s/", "m", ")"), ("ln(re (", "m", "))"), ("m*", "s", " per K"), ("", "K", " @ 3"), ("(", "s", " since 5)"), ("m  ", "s", "  "), ("m", " ", "s"), ("(m)", "s", "")]


# One spelling of every token there is in a shift, and sentences made of them.
SHIFT_TOKENS = ["10", "+6", "1.5", "12:30", "12:30:59.5", "2000-01-01", "19900101T1200", "T", " ", "UTC", "TZ", "-", ".", ")", "m", "^", "@", "²"]
UNIT_TOKENS = ["m", " ", "2", "+3", "1.5", "/", "^", "(", ")", "·", "lg(re ", "²", "@5"]
_sentences = {}


def sentences(prefix, tokens, depth):
    """All derivable token sequences of up to `depth` tokens after `prefix` (found by
    extending only what a few closing texts can complete), as tuples."""
    key = (prefix, tuple(tokens), depth)
    if key not in _sentences:
        from vlib import refgrammar

        g = refgrammar.frozen()

        def derivable(s):
            try:
                return g.tree(s) is not None
            except (ValueError, IndexError):
                return False

        done, level = [], [()]
        for n in range(depth + 1):
            nxt = []
            for t in level:
                s = prefix + "".join(t)
                if t[-1:] != (" ",) and derivable(s):
                    done.append(t)
                if n < depth and any(derivable(s + c) for c in ("", "m", "2", "10", ")", "m)", "2)", "))", "10)", "UTC", "m))", "2))")):
                    nxt += [t + (x,) for x in tokens if not (x.isdigit() and t and t[-1].isdigit()) and t[-2:] + (x,) != (" ",) * 3]
            level = nxt
        _sentences[key] = done
    return _sentences[key]


def edits(prefix, tokens, sentence):
    """A sentence, and all that one token dropped, inserted, doubled or replaced makes of it."""
    s = list(sentence)
    out = {prefix + "".join(s): None}
    for i in range(len(s) + 1):
        if i < len(s):
            out[prefix + "".join(s[:i] + s[i + 1:])] = None
        for t in tokens:
            out[prefix + "".join(s[:i] + [t] + s[i:])] = None
            if i < len(s):
                out[prefix + "".join(s[:i] + [t] + s[i + 1:])] = None
    return out


# Every character of a name, and some that are not; every character of a unicode exponent.
ID_CHARS = [chr(c) for c in range(0x250) if chr(c).isalpha() or c in (0x5F, 0x80, 0xAD, 0xB0, 0xB5, 0xD7, 0xF7)] + list("πΩμÅKℓ°ﬁ") + list("²·%' 1")
EXP_CHARS = "⁻⁺¹²³⁴⁵⁶⁷⁸⁹⁰"


def batches_names():
    """All pairs of characters of names; all unicode exponents of up to 4 characters."""
    return [("names", c) for c in ID_CHARS] + [("exps", c, n) for c in EXP_CHARS for n in range(4)]


_edited = {}


def edited(prefix, tokens, depth):
    """The edits of all sentences, each text once."""
    key = (prefix, tuple(tokens), depth)
    if key not in _edited:
        out = {}
        for t in sentences(prefix, tokens, depth):
            out.update(edits(prefix, tokens, t))
        _edited[key] = list(out)
    return _edited[key]


def batches_edit(prefixes, tokens, depth, step=300):
    return [("edit", p, tuple(tokens), depth, lo, lo + step) for p in prefixes for lo in range(0, len(edited(p, tokens, depth)), step)]


def batches_long(ctxs, step=100):
    return [("long", c, lo, lo + step) for c in ctxs for lo in range(0, len(LONG), step)]


def batches_rep(top):
    return [("rep", *r, top) for r in REPEAT]


def char_templates():
    return ["{}", "m{}", "m {}", "2{}", "s since {}", "m^{}", "s since 2000{}", "{}m"]


OUT_OF_RANGE = "out of range"


def ast(grammar, s):
    """The tree of a string, None, or OUT_OF_RANGE for a number that Python can't represent."""
    try:
        return grammar.ast(s)
    except (ValueError, decimal.InvalidOperation):
        if len(s) < 20:
            raise
        return OUT_OF_RANGE


def enumerate_space(item):
    """The strings of one batch."""
    kind, *a = item
    if kind == "full":
        (prefix, n) = a
        for t in itertools.product(FULL, repeat=n):
            yield "".join(prefix) + "".join(t)
    elif kind == "core":
        (prefix, n) = a
        for t in itertools.product(CORE, repeat=n):
            yield "".join(prefix) + "".join(t)
    elif kind == "date":
        (prefix, n) = a
        for t in itertools.product(DATE, repeat=n):
            yield "".join(prefix) + "".join(t)
    elif kind == "char":
        (template, lo, hi) = a
        for c in range(lo, hi):
            if not 0xD800 <= c < 0xE000:
                yield template.format(chr(c))
    elif kind == "num":
        (ctx, prefix, n) = a
        for t in itertools.product(NUMCH, repeat=n):
            yield ctx.format("".join(prefix) + "".join(t))
    elif kind == "sentence":
        (prefix, n, last, nops, nands) = a
        for t in itertools.product(*([OPERATORS[:nops], OPERANDS[:nands]] * n)):
            yield "".join(prefix) + "".join(t) + last
    elif kind == "long":
        (ctx, lo, hi) = a
        for num in LONG[lo:hi]:
            yield ctx.format(num)
    elif kind == "edit":
        (prefix, tokens, depth, lo, hi) = a
        yield from edited(prefix, tokens, depth)[lo:hi]
    elif kind == "names":
        for c in ID_CHARS:
            yield a[0] + c
            yield "2 m" + a[0] + c + "s2"
    elif kind == "exps":
        for t in itertools.product(EXP_CHARS, repeat=a[1]):
            yield "m" + a[0] + "".join(t)
    elif kind == "rep":
        (pre, core, post, top) = a
        for n in range(2, top + 1):
            yield pre * n + core + post * n
    elif kind == "one":
        yield a[0]


def batches_full(depth):
    """All strings of up to `depth` tokens of FULL."""
    out = [("full", (), n) for n in range(min(depth, 2) + 1)]
    for d in range(3, depth + 1):
        out += [("full", p, 2) for p in itertools.product(FULL, repeat=d - 2)]
    return out


def batches_core(depths):
    out = []
    for d in depths:
        out += [("core", p, 2) for p in itertools.product(CORE, repeat=d - 2)]
    return out


def batches_date(depth, prefixes=DATE_PREFIX):
    out = []
    for pre in prefixes:
        out += [("date", (pre,), n) for n in range(3)]
        for d in range(3, depth + 1):
            out += [("date", (pre,) + p, 2) for p in itertools.product(DATE, repeat=d - 2)]
    return out


def batches_char(templates, hi=0x10000, step=256):
    return [("char", t, lo, lo + step) for t in templates for lo in range(0, hi, step)]


def batches_num(ctxs, depth):
    out = []
    for c in ctxs:
        out += [("num", c, (), n) for n in range(1, min(depth, 3) + 1)]
        for d in range(4, depth + 1):
            out += [("num", c, p, 3) for p in itertools.product(NUMCH, repeat=d - 3)]
    return out


def batches_sentence(nands, nops=len(OPERATORS), lasts=("",)):
    """Operand (operator operand){0,1,2}, optionally followed by something."""
    out = []
    every = len(OPERANDS)
    for last in lasts:
        out += [("sentence", (o,), n, last, len(OPERATORS), every) for o in OPERANDS for n in (0, 1)]
        out += [
            ("sentence", (o, p, q), 1, last, nops, nands)
            for o in OPERANDS[:nands] for p in OPERATORS[:nops] for q in OPERANDS[:nands]
        ]
    return out
