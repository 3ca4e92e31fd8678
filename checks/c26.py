"""C26: a syntax error points at the first token that cannot continue a unit."""
from vlib import refgrammar
from vlib.mc import V, obs, isexc, show
from . import lang

G = refgrammar.frozen()


def error_of(o, s):
    """(line, text, offset into the text) of a SyntaxError."""
    e = o[3]
    return e.lineno, e.text, e.offset


def check(s, run, what):
    """Violations of one refused text."""
    s = s.strip()
    bad = G.first_bad(s)
    if bad is None:
        return None
    o = obs(run, s)
    key = f"{what}:{s!r}"
    if not isexc(o, "SyntaxError"):
        return [V(key, f"{what} {s!r}: {show(o)} instead of a SyntaxError", item=("one", s))]
    line, text, offset = error_of(o, s)
    where = bad[0]
    # The text is quoted: its first character has offset 2.
    if line != 1 or text != f"'{s}'" or offset != where + 2:
        return [V(key, f"{what} {s!r}: the error is at line {line}, offset {offset} of {text!r}; the first token that continues no unit is {bad[1]} at offset {where + 2} of {repr(s)}", item=("one", s))]
    return []


def batch(item):
    from pyudunits2._grammar import parse

    viols, n, st, ed = [], 0, set(), set()
    for s in lang.enumerate_space(item):
        if "\n" in s or "\r" in s:
            continue
        v = check(s, parse, "parsing")
        if v is None:
            continue
        n += 1
        s = s.strip()
        w, t = G.first_bad(s)
        st.add((tuple(x[0] for x in G.tokens(s[:w]))[-4:], t[0]))
        ed.add(s)
        viols += v
        if len(viols) > 5:
            break
    return viols[:5], {"_items": n, "_states": st, "_edges": ed}


def query(item):
    """The same from every query that takes text."""
    from . import systems
    from vlib.refunits import System, U

    s, = item
    viols = []
    if G.first_bad(s) is None:
        return [], {"_items": 0}
    _, us = systems.both()
    viols += check(s, us.unit, "the unit")
    for pad in (" ", "\t", "  "):
        viols += check(pad + s + pad, us.unit, "the padded unit")
    # As the definition of a unit.
    from vlib import refunits

    sysm = System([U("a"), U("u", definition=s)], [])
    mine = refunits.from_system(sysm)
    viols += check(s, lambda _: mine.unit("u").dimensionality(), "a unit with the definition")
    viols += check(s, lambda _: mine.unit("2 u").dimensionality(), "twice a unit with the definition")
    for v in viols:
        v["item"] = item
        v["fn"] = "query"
    return viols[:3], {"_edges": {item}}


FUNCTIONS = {"batch": batch, "query": query}


def main(run):
    q = run.quick
    items = lang.batches_full(3)
    items += [("core", p, 2) for p in ([(c,) for c in lang.CORE] if q else [(c, d) for c in lang.CORE for d in lang.CORE])]
    items += lang.batches_date(2 if q else 4)
    items += lang.batches_char(lang.char_templates()[:2] if q else lang.char_templates(), 0x3000 if q else 0x10000)
    items += lang.batches_rep(8)
    items += lang.batches_edit(["s since "] if q else ["s since ", "(s @"], lang.SHIFT_TOKENS, 3 if q else 4)
    items += lang.batches_edit([""], lang.UNIT_TOKENS, 3 if q else 4)
    items += lang.batches_num(lang.NUM_CONTEXT[:4] if q else lang.NUM_CONTEXT, 3 if q else 4)
    run.map("batch", items, chunk=4, timeout=300)
    texts = {}
    for it in [("full", (), 1), ("full", (), 2)] + lang.batches_date(1, lang.DATE_PREFIX[:2]):
        for s in lang.enumerate_space(it):
            s = s.strip()
            if s and "\n" not in s and "\t" not in s and G.first_bad(s) is not None:
                texts[s] = None
    run.map("query", [(s,) for s in texts], timeout=100)
    return run.finish(
        note="every refused text of <=3 tokens over 54 spellings, 3 (4) over 18, shift references of <=2 (3) pieces, characters to U+2FFF (U+FFFF) in 2 (8) contexts, repetitions, every edit of one token of derivable sentences, numbers of <=3 (4) characters; those of 2 tokens also through UnitSystem.unit, padded, and as definitions of units",
        assumptions=["texts of several lines, and exponents that are derivable but no number, are outside the property"],
    )
