"""C02: structure and exact numbers of every accepted string."""
from vlib import refgrammar
from vlib.mc import V, obs, show
from . import lang

G = refgrammar.frozen()


def batch(item):
    from pyudunits2._grammar import parse

    viols, n, states, edges = [], 0, set(), set()
    for s in lang.enumerate_space(item):
        toks = G.tokens(s)
        ref = lang.ast(G, s)
        if ref is None or ref == lang.OUT_OF_RANGE:
            continue
        n += 1
        types = tuple(t[0] for t in toks)
        states.add(types)
        if len(toks) > 1:
            edges.add((types[:-2], toks[-2]))
        o = obs(parse, s)
        if o[0] != "ok":
            viols.append(V(f"refused:{s!r}", f"{s!r}: {show(o)}, the grammar gives {ref}", item=("one", s)))
        else:
            got = refgrammar.from_code(o[1])
            if not refgrammar.same(ref, got):
                viols.append(V(f"structure:{s!r}", f"{s!r}: parsed as {got}, the grammar gives {ref}", item=("one", s)))
    return viols, {"_items": n, "_states": states, "_edges": edges}


FUNCTIONS = {"batch": batch}


def main(run):
    q = run.quick
    items = lang.batches_full(3)
    items += lang.batches_core([4] if q else [4, 5])
    items += lang.batches_num(lang.NUM_CONTEXT, 4 if q else 6)
    items += lang.batches_num(lang.NUM_CONTEXT[:1], 5 if q else 7)
    items += lang.batches_date(3 if q else 4)
    items += lang.batches_long(lang.LONG_CONTEXT)
    items += lang.batches_rep(16 if q else 28)
    items += lang.batches_names()
    items += lang.batches_edit(["s since "] if q else ["s since ", "(s @"], lang.SHIFT_TOKENS, 4 if q else 5)
    items += lang.batches_edit([""], lang.UNIT_TOKENS, 3 if q else 4)
    if q:
        items += lang.batches_sentence(9, 5)
    else:
        items += lang.batches_sentence(19, 10)
        items += lang.batches_sentence(10, 6, (" @ 5", "^2", "2", " 3", "-1"))
    run.map("batch", items, chunk=4, timeout=300)
    return run.finish(
        assumptions=["the published grammar is the grammar files of the repository as frozen in /verif/model"],
        note="every accepted string of: <=3 tokens over 54 spellings; 4 (thorough 5) over 18; numeric spellings of <=4 (6) characters in 10 contexts and of <=5 (7) alone; shift references of <=3 (4) pieces; sentences of 3 operands (9, thorough 19 forms) joined by 5 (10) operators; numbers of up to 5000 digits and exponents up to 10^18; repetitions of 32 patterns up to 16 (thorough 28) times; all pairs of 473 characters in names, all unicode exponents of <=4 characters; all derivable shift references of <=4 (5) tokens over 18 and units of <=3 (4) over 13, with every edit of one token",
    )
