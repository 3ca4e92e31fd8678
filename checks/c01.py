"""C01: the accepted language is the published grammar, everything else a SyntaxError."""
from vlib import refgrammar
from vlib.mc import V, obs, isexc, show
from . import lang

G = refgrammar.frozen()


def batch(item):
    from pyudunits2._grammar import parse

    viols, n, acc, states, edges = [], 0, 0, set(), set()
    for s in lang.enumerate_space(item):
        n += 1
        toks = G.tokens(s)
        types = tuple(t[0] for t in toks)
        states.add(types)
        if len(toks) > 1:
            edges.add((types[:-2], toks[-2]))
        want = lang.ast(G, s) not in (None, lang.OUT_OF_RANGE)
        o = obs(parse, s)
        acc += want
        if want and o[0] != "ok":
            viols.append(V(f"refused:{s!r}", f"{s!r} is derivable but parse raised {show(o)}", item=("one", s)))
        elif not want and o[0] == "ok":
            viols.append(V(f"accepted:{s!r}", f"{s!r} is not derivable but was accepted as {show(o)}", item=("one", s)))
        elif not want and not isexc(o, "SyntaxError"):
            viols.append(V(f"error:{s!r}", f"{s!r}: {show(o)} instead of a SyntaxError", item=("one", s)))
    return viols, {"_items": n, "_states": states, "_edges": edges, "accepted": acc, "refused": n - acc}


def strip_batch(item):
    """Surrounding whitespace, and only surrounding whitespace, is dropped."""
    from pyudunits2._grammar import parse

    (w,) = item
    viols, n = [], 0
    for core in ["m", "m s", "s since 2000-01-01", "2 m^2", "(m)", ""]:
        for s in (w + core, core + w, w + w + core + w):
            n += 1
            stripped = s.strip()
            a, b = obs(parse, s), obs(parse, stripped)
            ref = G.ast(stripped)
            ok = (a[0] == "ok" and ref is not None and refgrammar.same(ref, refgrammar.from_code(a[1]))) if ref is not None else isexc(a, "SyntaxError")
            if not ok:
                viols.append(V(f"strip:{s!r}", f"{s!r}: {show(a)}; without the whitespace: {show(b)}"))
        if core:
            mid = core[0] + w + core[1:] if len(core) > 1 else "m" + w + "m"
            n += 1
            ref, o = G.ast(mid), obs(parse, mid)
            if (ref is None and not isexc(o, "SyntaxError")) or (ref is not None and o[0] != "ok"):
                viols.append(V(f"inner:{mid!r}", f"{mid!r}: {show(o)}, the grammar says {ref}"))
    return viols, {"_items": n}


FUNCTIONS = {"batch": batch, "strip": strip_batch}
WHITE = [chr(c) for c in range(0x3001) if chr(c).isspace()] + ["\u200b", "\u2060", "\ufeff", " \t\n "]


def main(run):
    run.map("strip", [(w,) for w in WHITE])
    items = lang.batches_full(3 if run.quick else 3)
    items += lang.batches_core([4] if run.quick else [4, 5])
    items += lang.batches_date(3 if run.quick else 4, lang.DATE_PREFIX if run.quick else lang.DATE_PREFIX)
    items += lang.batches_char(lang.char_templates()[:2] if run.quick else lang.char_templates(), 0x10000 if run.quick else 0x30000)
    items += lang.batches_long(lang.LONG_CONTEXT[:4] if run.quick else lang.LONG_CONTEXT)
    items += lang.batches_rep(16 if run.quick else 28)
    items += lang.batches_names()
    items += lang.batches_edit(["s since "] if run.quick else ["s since ", "(s @"], lang.SHIFT_TOKENS, 4 if run.quick else 5)
    items += lang.batches_edit([""], lang.UNIT_TOKENS, 3 if run.quick else 4)
    if not run.quick:
        items += lang.batches_num(lang.NUM_CONTEXT, 5)
        items += lang.batches_sentence(10, 6, ("", ")", " @ 5", "^2"))
    run.map("batch", items, chunk=4, timeout=300)
    return run.finish(
        assumptions=["the published grammar is the grammar files of the repository as frozen in /verif/model",
                     "numbers beyond the range of Decimal (exponents of 10^18) are refused with a SyntaxError", "nesting beyond Python's recursion limit is out of scope",
                     "a run of unicode exponent characters that is no integer is a syntax error"],
        note="all strings of <=3 tokens over 54 spellings, <=4 (thorough 5) over 18 core ones, shift references of <=3 (4) pieces over 23 date pieces after 6 shift prefixes, every BMP character in 2 (thorough: 8, to U+2FFFF) contexts; numbers of up to 5000 digits and exponents up to 10^30; repetitions of 32 patterns up to 16 (thorough 28) times; all pairs of 473 characters in names, all unicode exponents of <=4 characters; all derivable shift references of <=4 (5) tokens over 18 and units of <=3 (4) over 13, with every edit of one token",
    )
