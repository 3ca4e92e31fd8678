"""C19: the XML reader registers exactly what the document says.

A document is assembled from data (the model's units and prefixes) and a way of
writing them down; the data is what the reader has to come up with.
"""
import itertools
import os
import pathlib
import tempfile
from xml.sax.saxutils import escape

from vlib import refunits
from vlib.mc import V, obs, isexc, show
from vlib.refunits import U, P, System
from .c06 import judge

GIVEN = object()


class Doc:
    """A tree of [tag, text, children, after]: `after` is put behind the closing tag."""

    def __init__(self, tag, text="", children=(), after="", attrs=""):
        self.tag, self.text, self.children, self.after, self.attrs = tag, text, list(children), after, attrs


def name_el(tag, name, plural, how):
    c = [Doc("singular", name)]
    if how == "given":
        c.append(Doc("plural", plural))
    elif how == "none":
        c.append(Doc("noplural"))
    return Doc(tag, children=c)


def unit_el(spec):
    """spec: (name or None, plural or '' (rule) or None (noplural), symbols, aliases, alias symbols, definition | 'base' | 'dimensionless', noplural in aliases?)"""
    name, plural, symbols, aliases, asym, definition = spec
    c = []
    if definition == "base":
        c.append(Doc("base"))
    elif definition == "dimensionless":
        c.append(Doc("dimensionless"))
    else:
        c.append(Doc("def", definition))
    if name is not None:
        c.append(name_el("name", name, plural, how_of(plural)))
    c += [Doc("symbol", s) for s in symbols]
    if aliases or asym:
        a = [name_el("name", n, p, how_of(p)) for n, p in aliases]
        a += [Doc("symbol", s) for s in asym]
        c.append(Doc("aliases", children=a))
    return Doc("unit", children=c)


def how_of(plural):
    return "rule" if plural == "" else "none" if plural is None else "given"


def plur(name, plural):
    return refunits.plural_of(name) if plural == "" else plural


def unit_model(spec):
    name, plural, symbols, aliases, asym, definition = spec
    base = definition in ("base", "dimensionless")
    return U(
        name, plur(name, plural) if name is not None else None, symbols, [(n, plur(n, p)) for n, p in aliases], asym,
        definition=None if base else definition, dimensionless=definition == "dimensionless", time=definition == "base" and name == "second",
    )


def prefix_el(spec):
    name, value, symbols = spec
    return Doc("prefix", children=[Doc("value", value), Doc("name", name)] + [Doc("symbol", s) for s in symbols])


def element(spec):
    return prefix_el(spec) if len(spec) == 3 else unit_el(spec)


def model(specs):
    """The system the document says, or None (a name or symbol is taken)."""
    s = System()
    for spec in specs:
        if len(spec) == 3:
            s.add_prefix(P(*spec))
    for spec in specs:
        if len(spec) != 3 and not s.add(unit_model(spec)):
            return None
    return s


NS = ("none", "default", "prefixed", "mixed")


def write(root, ns):
    n = [0]

    def tagname(tag):
        n[0] += 1
        if ns == "prefixed":
            return "u2:" + tag
        if ns == "mixed":
            return ("u2:", "", "d:")[n[0] % 3] + tag
        return tag

    decl = {"none": "", "default": ' xmlns="https://doi.org/10.5065/D6KD1WN0"'}.get(ns, ' xmlns:u2="urn:u2" xmlns:d="urn:d"')

    def go(e, top=""):
        t = tagname(e.tag)
        attrs = f" {e.attrs}" if e.attrs else ""
        # e.text is markup where it is a tuple
        text = "".join(x if i % 2 else escape(x) for i, x in enumerate(e.text)) if isinstance(e.text, tuple) else escape(e.text)
        return f"<{t}{top}{attrs}>{text}{''.join(go(c) for c in e.children)}</{t}>{e.after}"

    return "<?xml version='1.0' encoding='UTF-8'?>\n" + go(root, decl) + "\n"


def read(text, strict):
    from pyudunits2 import _udunits2_xml_parser as x

    fd, path = tempfile.mkstemp(prefix="verif-c19-", suffix=".xml")
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode())
        return obs((x.UnhandledContentDisallowed if strict else x.UDUNITS2XMLParser).parse_file, pathlib.Path(path))
    finally:
        os.unlink(path)


def words_of(specs):
    w = set()
    names = set()
    for s in specs:
        if len(s) == 3:
            w |= {s[0], *s[2]}
            continue
        names |= {n for n, _ in ([(s[0], s[1])] if s[0] else []) + list(s[3])}
        w |= {*s[2], *s[4]}
        w |= {p for _, p in ([(s[0], s[1])] if s[0] else []) + list(s[3]) if p}
    for n in names:
        w |= {n, n + "s", n + "es", n[:-1] + "ies"}
    pre = {x for s in specs if len(s) == 3 for x in (s[0], *s[2])}
    w |= {p + x for p in pre for x in list(w)}
    return sorted(x for x in w if x)


def compare(us, sysm, words, key, what):
    viols = []
    for w in words:
        if sysm.parse(w) != ("id", w):
            continue
        try:
            v, _ = judge(sysm, us, w, False, f"{key}:{w}")
        except (refunits.Unresolvable, RecursionError):
            # A definition that needs what is not in the document.
            v = [] if isexc(obs(us.unit_by_name_or_symbol, w), "UnresolvableUnitException", "RecursionError") else [V(f"{key}:{w}", f"{w!r} resolves although its definition cannot")]
        for x in v:
            x["what"] = f"{what}: {x['what']}"
        viols += v
        if len(viols) > 1:
            break
    return viols


def bases(us, sysm, key, what):
    """Time basis and dimensionless basis, as a user sees them."""
    from pyudunits2 import DateUnit

    viols = []
    for u in sysm.units:
        if u.definition is not None:
            continue
        w = u.ref
        if sysm.exact(w) is not u:
            continue
        o = obs(us.unit, f"{w} since 2001-02-03")
        got = "date" if o[0] == "ok" and isinstance(o[1], DateUnit) else "refused" if isexc(o, "ValueError") else show(o)
        if got != ("date" if u.time else "refused"):
            viols.append(V(f"{key}:time:{w}", f"{what}: '{w} since 2001-02-03' is {got}; time basis: {u.time}"))
        d = obs(lambda: us.unit(w).is_dimensionless())
        if d != ("ok", u.dimensionless):
            viols.append(V(f"{key}:dimensionless:{w}", f"{what}: {w} is_dimensionless is {show(d)}; the document says {u.dimensionless}"))
    return viols


def judge_doc(text, specs, refused_strict, key, what, deep=True):
    sysm = model(specs)
    viols, n = [], 0
    for strict in (False, True):
        o = read(text, strict)
        reader = "strict reader" if strict else "reader"
        n += 1
        if sysm is None or (strict and refused_strict):
            if not isexc(o, "ValueError"):
                viols.append(V(f"{key}:{strict}:refuse", f"{reader} on {what} should raise ValueError, gave {show(o)}: {text}"))
            continue
        if o[0] != "ok":
            viols.append(V(f"{key}:{strict}:read", f"{reader} on {what}: {show(o)}: {text}"))
            continue
        if strict and not refused_strict and not deep:
            continue
        viols += compare(o[1], sysm, words_of(specs), f"{key}:{strict}", f"{reader} on {what}: {text}")
        viols += bases(o[1], sysm, f"{key}:{strict}", f"{reader} on {what}: {text}")
    return viols[:3], {"_items": n, "_states": {tuple(specs) if sysm else None}, "_edges": {(tuple(specs), what)}}


# -- families of documents ---------------------------------------------------------

SPECS = [
    ("metre", "", ("m",), (), (), "base"),
    ("second", "", ("s",), (("sec", None),), (), "base"),
    ("radian", None, ("rad",), (), (), "dimensionless"),
    ("henry", "", (), (("sec", ""),), ("s",), "3 m"),
    ("foot", "feet", ("ft",), (("inch", ""), ("box", "boxen")), (), "5 metres"),
    (None, None, ("m2", "q"), (("second", None),), (), "7 m.s"),
    (None, None, ("q",), (), (), "base"),
    ("sec", None, ("k",), (("metre", ""),), ("rad",), "base"),
    ("metres", None, (), (), ("x",), "11 sec"),
    ("seconds", "second", (), (("foot", None),), ("ft", "µ"), "dimensionless"),
    ("kilo", "1e3", ("k",)),
    ("s", ".5", ("µ", "m")),
    ("k", "20", ()),
]
RICH = [
    ("foot", "feet", ("ft", "'"), (("inch", ""), ("box", None), ("day", "dies")), ("f", "F"), "5 m"),
    ("day", "", ("d",), (("henry", ""),), (), "base"),
    (None, None, ("d",), (), ("D",), "dimensionless"),
    ("glass", None, (), (("ash", "ashen"),), (), "m"),
]
CONTEXT = (("metre", "", ("m",), (), (), "base"), ("kilo", "1e3", ("k",)))


def sequence(item):
    """A document of a sequence of elements."""
    idx, ns = item
    specs = [SPECS[i] for i in idx]
    text = write(Doc("unit-system", children=[element(s) for s in specs]), ns)
    return judge_doc(text, specs, False, f"seq:{idx}:{ns}", f"elements {idx}", deep=False)


def nth(k):
    return "".join("bcdfghjklmnpqrst"[(k >> sh) & 15] for sh in (8, 4, 0))


def large(item):
    """Many of one thing: units, symbols, aliases, alias symbols, prefixes, prefix symbols; or a late clash of names."""
    what, n, ns = item
    base = ("metre", "", ("m",), (), (), "base")
    time = ("second", "", ("s",), (), (), "base")
    k = range(n)
    if what == "units":
        specs = [base, time, *((nth(j) + "y", ("", None, nth(j) + "z")[j % 3], (nth(j).upper(),) if j % 2 else (), ((nth(j) + "o", ""),) if j % 4 == 0 else (), (), f"{j + 2} {('m', nth(j - 1) + 'y')[j % 5 > 0]}" if j % 7 else "base") for j in k)]
    elif what == "symbols":
        specs = [base, time, ("foot", "feet", tuple(nth(j) for j in k), (), (), "5 m")]
    elif what == "nameless":
        specs = [(None, None, tuple(nth(j) for j in k), (), (), "base"), base]
    elif what == "aliases":
        specs = [time, base, ("foot", "", (), tuple((nth(j) + "x", ("", None, nth(j) + "ies")[j % 3]) for j in k), (), "5 m")]
    elif what == "alias symbols":
        specs = [base, ("foot", "", (), (("inch", ""),), tuple(nth(j) for j in k), "5 m")]
    elif what == "prefixes":
        specs = [base, *((nth(j), f"{j + 2}e{j % 9 - 4}", (nth(j).upper(),)) for j in k), time]
    elif what == "prefix symbols":
        specs = [("kilo", "1e3", tuple(nth(j) for j in k)), base]
    elif what == "clash":  # the last unit takes the first one's name
        specs = [base, *((nth(j) + "y", None, (), (), (), f"{j + 2} m") for j in k), (nth(0) + "y", None, ("X",), (), (), "3 m")]
    else:  # an early unit is defined by the last one
        specs = [("early", None, (), (), (), f"7 {nth(n - 1)}y"), *((nth(j) + "y", None, (), (), (), f"{j + 2} m") for j in k), base]
    return judge_doc(write(wrap([element(x) for x in specs], n % 3), ns), specs, False, f"large:{item}", f"{n} {what}", deep=True)


def wrap(children, how):
    us = Doc("unit-system", children=children)
    return us if how == 0 else Doc("udunits-2", children=[us]) if how == 1 else Doc("udunits-2", children=[Doc("x", children=[us]), Doc("unit")])


def target(k):
    """The k-th element that gets varied, and the document's specs."""
    spec = (RICH + SPECS[-3:-1])[k]
    if len(spec) == 3 and spec[0] == "kilo":
        return spec, [spec, CONTEXT[0]]
    return spec, [*CONTEXT, spec]


N_TARGETS = len(RICH) + 2


def order(item):
    """One permutation of the children of an element (and of its aliases)."""
    k, ns, perm, aperm, rev = item
    spec, specs = target(k)
    els = [(s, element(s)) for s in specs]
    for s, e in els:
        if s is spec:
            e.children = [e.children[i] for i in perm]
            for c in e.children:
                if c.tag == "aliases" and aperm:
                    c.children = [c.children[i] for i in aperm]
                if c.tag == "name" and rev:
                    c.children.reverse()
    els = [e for _, e in (els[::-1] if rev else els)]
    return judge_doc(write(wrap(els, rev), ns), specs, False, f"order:{item}", f"element {k} in order {perm} {aperm} {rev}", deep=False)


def gaps(e, path=()):
    """All places of an element: ('text', path, offset) within its text, ('child', path, i) before its i-th child or at its end."""
    out = [("child", path, i) for i in range(len(e.children) + 1)]
    if not e.children:
        out += [("text", path, j) for j in range(len(e.text) + 1)]
    for i, c in enumerate(e.children):
        out += gaps(c, path + (i,))
    return out


def at(e, path):
    for i in path:
        e = e.children[i]
    return e


NOISE = {
    "comment": ("<!-- a comment < & -->", "markup"),
    "comment2": ("<!--- <unit><name/></unit> -->", "markup"),
    "pi": ("<?pi some thing?>", "markup"),
    "space": (" \n\t ", "space"),
    "text": ("<!---->\n ", "markup"),
}


def noise(item):
    """Something that says nothing (a comment, a processing instruction, white space) at one place."""
    k, ns, gap, what = item
    spec, specs = target(k)
    els = [element(s) for s in specs]
    e = els[specs.index(spec)]
    markup, _ = NOISE[what]
    put(e, gap, markup)
    return judge_doc(write(wrap(els, 1), ns), specs, False, f"noise:{item}", f"{what} at {gap} of element {k}", deep=False)


def put(e, gap, markup):
    kind, path, i = gap
    t = at(e, path)
    if kind == "text":
        t.text = (t.text[:i], markup, t.text[i:])
    elif i == 0:
        t.text = (t.text if isinstance(t.text, str) else "", markup)
    else:
        t.children[i - 1].after = markup


HANDLED = {"comment": Doc("comment", "An example."), "definition": Doc("definition", "the length of 2 m")}


def extra(item):
    """An additional element at one place: a handled one or one unknown to the reader."""
    k, ns, gap, what = item
    spec, specs = target(k)
    els = [element(s) for s in specs]
    kind, path, i = gap
    holder = Doc("unit-system", children=els) if path == "top" else at(els[specs.index(spec)], path)
    holder.children.insert(i, extra_el(what))
    doc = holder if path == "top" else wrap(els, 1)
    return judge_doc(write(doc, ns), specs, what not in HANDLED, f"extra:{item}", f"<{what}> at {gap} of element {k}", deep=False)


def extra_el(what):
    if what in HANDLED:
        return Doc(what, HANDLED[what].text)
    if what == "nested":
        return Doc("more", children=[Doc("unit", children=[Doc("base"), Doc("name", children=[Doc("singular", "metre")])])])
    if what == "attr":
        return Doc("extra", "text", attrs='k="v"')
    return Doc(what)


def two_names(item):
    """A repeated part of a unit: the first counts, the strict reader refuses."""
    k, part = item
    spec, specs = target(k)
    els = [element(s) for s in specs]
    e = els[specs.index(spec)]
    if part not in [c.tag for c in e.children]:
        return [], {"_items": 0}
    add = {"name": name_el("name", "other", "", "rule"), "def": Doc("def", "99 m"), "aliases": Doc("aliases", children=[Doc("symbol", "other")]), "value": Doc("value", "99")}[part]
    if len(spec) == 3 and part == "name":
        add = Doc("name", "other")
    e.children.append(add)
    return judge_doc(write(wrap(els, 1), "default"), specs, True, f"two:{item}", f"two <{part}> in element {k}", deep=False)


def malformed(item):
    """A name without a singular form, a prefix without name or value."""
    k, path, tag, ns, how = item
    spec, specs = target(k)
    els = [element(s) for s in specs]
    e = at(els[specs.index(spec)], path)
    if tag not in [c.tag for c in e.children]:
        return [], {"_items": 0}
    e.children = [c for c in e.children if c.tag != tag]
    text = write(wrap(els, how), ns)
    viols = []
    for strict in (False, True):
        o = read(text, strict)
        if not isexc(o, "ValueError"):
            viols.append(V(f"malformed:{item}:{strict}", f"without <{tag}>: {show(o)}, expected ValueError: {text}"))
    return viols, {"_items": 2, "_states": {item}, "_edges": {item}}


def required():
    """The parts that cannot be missing: (element, path, tag)."""
    out = []
    for k in range(N_TARGETS):
        e = element(target(k)[0])
        if e.tag == "prefix":
            out += [(k, (), "name"), (k, (), "value")]
            continue
        for i, c in enumerate(e.children):
            if c.tag == "name":
                out.append((k, (i,), "singular"))
            if c.tag == "aliases":
                out += [(k, (i, j), "singular") for j, a in enumerate(c.children) if a.tag == "name"]
    return out


def plural(item):
    """The plural rule on all singulars with these endings; checked as name and as alias name."""
    (singulars,) = item
    viols, n = [], 0
    for s in singulars:
        for spec in (("" if False else s, "", (), (), (), "5 m"), ("other", None, (), ((s, ""),), (), "5 m"), (s, None, (), (), (), "5 m"), (s, "qqq", (), (), (), "5 m")):
            n += 1
            specs = [CONTEXT[0], spec]
            v, _ = judge_doc(write(wrap([element(x) for x in specs], 0), "default"), specs, False, f"plural:{spec}", f"unit named {s!r}", deep=False)
            viols += v
        if len(viols) > 2:
            break
    return viols[:3], {"_items": n, "_states": {singulars}, "_edges": {singulars}}


def repeated(item):
    """Two units share one spelling, in two roles: refused if both are names or both symbols."""
    role1, role2, how = item
    specs = [CONTEXT[0], role(role1, "x", "a", 3), role(role2, "x", "b", 5)]
    els = [element(s) for s in specs]
    if how == 1:
        els = [els[1], els[2], els[0]]
        specs = [specs[1], specs[2], specs[0]]
    return judge_doc(write(wrap(els, 1), "default"), specs, False, f"repeated:{item}", f"x as {role1} and as {role2}", deep=True)


def role(r, x, other, n):
    d = f"{n} m"
    return {
        "name": (x, None, (), (), (), d),
        "plural": (other, x, (), (), (), d),
        "ruled": ("x"[:0] + x[:-1] if len(x) > 1 else other, x, (), (), (), d),
        "symbol": (None, None, (x,), (), (), d),
        "symbol2": (other, None, (other * 2, x), (), (), d),
        "alias": (other, None, (), ((x, None),), (), d),
        "aplural": (other, None, (), ((other * 2, x),), (), d),
        "asymbol": (other, None, (), (), (x,), d),
        "base": (x, None, (), (), (), "base"),
        "bsymbol": (other, None, (x,), (), (), "dimensionless"),
    }[r]


def timebase(item):
    """Units around the name of the time basis; exactly a basis unit named so is it."""
    name, plural, symbols, aliases, asym, definition, ns = item
    spec = (name, plural, symbols, aliases, asym, definition)
    specs = [CONTEXT[0], spec]
    return judge_doc(write(wrap([element(s) for s in specs], 1), ns), specs, False, f"time:{item}", f"unit {spec}", deep=False)


def timebases():
    near = ["second", "Second", "SECOND", "secon", "seconds", "secondary", "xsecond", "second_", "sec", "s", "time", "minute", "hour", "day", "secund"]
    out = []
    for definition in ("base", "dimensionless", "5 m"):
        for x in near:
            out.append((x, None, (), (), (), definition))
            out.append(("other", x, ("o",), (), (), definition))
            out.append((None, None, (x, "o"), (), (), definition))
            out.append((None, None, ("o", x), (), (), definition))
            out.append(("other", "", (), ((x, None),), (), definition))
            out.append(("other", "", (), (("another", x),), (), definition))
            out.append(("other", "", (), (), (x,), definition))
    return [(*o, ns) for k, o in enumerate(out) for ns in (NS[k % 4],)]


# -- how the characters are written down -------------------------------------------

BROAD = [  # characters of Latin-1, of Windows-1252 and beyond
    [CONTEXT[0], (None, None, ("µ",), (), (), "5 m"), ("µg", None, ("°a",), (("å", ""),), ("é",), "7 µ")],
    [CONTEXT[0], ("µ", "1e-6", ("ß",)), ("ÿ", "", ("ÿy",), (), (), "m^2")],
    [CONTEXT[0], ("Ωx", "2", ()), ("ångström", None, ("Å", "\u212b"), (("Ω", None),), ("μ",), "3 m·m")],
    [CONTEXT[0], ("plain", "", ("p",), (), (), "5 m²")],
]
ENCODINGS = [  # encoding, the declaration (None: no declaration), byte order mark
    ("utf-8", "UTF-8", b""), ("utf-8", None, b""), ("utf-8", "utf-8", b"\xef\xbb\xbf"), ("utf-8", None, b"\xef\xbb\xbf"), ("utf-8", "", b""),
    ("utf-16-le", "UTF-16", b"\xff\xfe"), ("utf-16-be", "UTF-16", b"\xfe\xff"), ("utf-16-le", None, b"\xff\xfe"), ("utf-16-be", None, b"\xfe\xff"), ("utf-16-le", "", b"\xff\xfe"),
    ("iso-8859-1", "ISO-8859-1", b""), ("iso-8859-1", "iso-8859-1", b""), ("cp1252", "windows-1252", b""), ("ascii", "US-ASCII", b""), ("ascii", "UTF-8", b""), ("iso-8859-15", "ISO-8859-15", b""),
]
LINES = ("", "\n", "\r\n", "\r", "\n\t  ")
QUOTING = ("plain", "decimal", "hex", "cdata", "entity")


def quoted(text, how):
    """Element text, written with character references, CDATA sections or entities."""
    if how == "cdata":
        return f"<![CDATA[{text}]]>"
    out = ""
    for c in text:
        out += escape(c) if how == "plain" else f"&#{ord(c)};" if how == "decimal" else f"&#x{ord(c):X};" if how == "hex" else f"&e{ord(c)};"
    return out


def encoding(item):
    """A document in one encoding, way of writing its characters, and line ending."""
    k, enc, how, nl = item
    specs = BROAD[k]
    codec, decl, bom = ENCODINGS[enc]
    if how != "entity" and how != "decimal" and how != "hex":
        try:
            "".join(str(s) for s in specs).encode(codec)
        except UnicodeEncodeError:
            return [], {"_items": 0}

    def leaves(e):
        if not e.children and e.text:
            e.text = ("", quoted(e.text, how), "")
        elif e.children:
            e.text = ("", LINES[nl], "")
        for c in e.children:
            leaves(c)
            c.after = LINES[nl]

    root = wrap([element(s) for s in specs], nl % 3)
    chars = sorted({c for s in specs for c in str(s)})
    leaves(root)
    body = write(root, NS[(k + nl) % 2]).split("?>\n", 1)[1]
    head = "" if decl is None else "<?xml version='1.0'?>" if decl == "" else f"<?xml version='1.0' encoding='{decl}'?>"
    if how == "entity":
        head += f"<!DOCTYPE {root.tag} [" + "".join(f'<!ENTITY e{ord(c)} "&#{ord(c)};">' for c in chars) + "]>"
    data = bom + (head + LINES[nl] + body).encode(codec, "xmlcharrefreplace")
    return judge_doc(data, specs, False, f"encoding:{item}", f"document {k} as {ENCODINGS[enc]} {how} {LINES[nl]!r}", deep=False)


ROLES = ("name", "plural", "ruled", "symbol", "symbol2", "alias", "aplural", "asymbol", "base", "bsymbol")

FUNCTIONS = {f.__name__: f for f in (sequence, large, malformed, order, noise, extra, two_names, plural, repeated, encoding, timebase)}


def main(run):
    q = run.quick
    n = len(SPECS)
    for d in (1, 2, 3):
        run.map("sequence", [(idx, NS[sum(idx) % 4]) for idx in itertools.product(range(n), repeat=d)] if d > 1 else [((i,), ns) for i in range(n) for ns in NS])
    sizes = (1, 2, 3, 5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100) if q else (*range(1, 34), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257)
    kinds = ("units", "symbols", "nameless", "aliases", "alias symbols", "prefixes", "prefix symbols", "clash", "early")
    run.map("large", [(w, m, ns) for w in kinds for m in sizes for ns in NS[:2]] + [("units", m, "none") for m in ((500, 1025) if q else (500, 999, 1000, 1001, 1023, 1024, 1025, 2000))], timeout=600, chunk=1)
    items = []
    for k in range(N_TARGETS):
        spec, _ = target(k)
        e = element(spec)
        al = [c for c in e.children if c.tag == "aliases"]
        for perm in itertools.permutations(range(len(e.children))):
            # the units' symbols keep their order: the first one is what a nameless unit is called
            sy = [i for i in perm if e.children[i].tag == "symbol"]
            if sy != sorted(sy):
                continue
            for rev in (0, 1):
                items.append((k, NS[len(items) % 4], perm, None, rev))
        if al:
            for ap in itertools.permutations(range(len(al[0].children))):
                items.append((k, "default", tuple(range(len(e.children))), ap, 0))
    run.map("order", items)
    items, ext = [], []
    for k in range(N_TARGETS):
        e = element(target(k)[0])
        for g in gaps(e):
            for w, (_, kind) in NOISE.items():
                if g[0] == "text" and kind == "space" and 0 < g[2] < len(at(e, g[1]).text):
                    continue
                if g[0] == "text" and w == "text" and 0 < g[2]:
                    continue
                for ns in NS[:2] if q else NS:
                    items.append((k, ns, g, w))
            if g[0] == "child" and at(e, g[1]).tag in ("unit", "prefix", "aliases") or (g[0] == "child" and g[1] and at(e, g[1]).tag == "name" and at(e, g[1]).children):
                holder = at(e, g[1]).tag
                for w in ("extra", "nested", "attr"):
                    ext += [(k, ns, g, w) for ns in NS]
                if holder == "unit":
                    ext += [(k, ns, g, w) for ns in NS for w in HANDLED]
        for i in range(len(target(k)[1]) + 1):
            ext += [(k, ns, ("child", "top", i), w) for ns in NS for w in ("extra", "nested", "attr")]
    run.map("noise", items)
    run.map("extra", ext)
    run.map("two_names", [(k, p) for k in range(N_TARGETS) for p in ("name", "def", "aliases", "value")])
    run.map("malformed", [(*r, ns, how) for r in required() for ns in NS for how in (0, 1, 2)])
    run.map("repeated", list(itertools.product(ROLES, ROLES, (0, 1))))
    run.map("timebase", timebases())
    run.map("encoding", list(itertools.product(range(len(BROAD)), range(len(ENCODINGS)), QUOTING, range(len(LINES)))))
    a = "abcdefghijklmnopqrstuvwxyz"
    ends = list(a) + [x + y for x in a for y in a]
    three = [x + y + z for x in "aesy" for y in a for z in a] if q else [x + y + z for x in a for y in a for z in a]
    sing = [("b" if len(e) == 2 else "") + e for e in ends] + ["b" + t for t in three if t[1:] not in ()]
    sing = [s for s in sing if s not in ("m", "metre", "metres", "other")]
    run.map("plural", [(tuple(sing[i:i + 8]),) for i in range(0, len(sing), 8)])
    if not q:
        few = [i for i in range(n) if i not in (2, 9)]
        run.map("sequence", [(idx, NS[sum(idx) % 4]) for idx in itertools.product(few, repeat=4)])
    return run.finish(
        note=f"documents of all sequences of up to 3 (thorough 4) of {n} elements that collide in names, symbols, plurals and aliases; every order of the children of {N_TARGETS} elements, every place for a comment, a processing instruction or white space in them, every place for an additional element; every pair of roles for one spelling; names like that of the time basis in every role; documents in every combination of encoding and declaration (UTF-8, UTF-16, Latin-1, Windows-1252, ASCII, Latin-9), way of writing characters (plain, references, CDATA, entities) and line ending; every singular ending of up to 2 (3 with a, e, s, y; thorough all) letters; each read by the default and the strict reader, every spelling (and prefixed, and mis-pluralised ones) looked up and compared with the model",
        assumptions=["the model has the meaning of a definition (vlib/refunits.py)"],
    )
