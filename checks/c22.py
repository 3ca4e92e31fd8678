"""C22: the shipped lexer and parser against the grammar files next to them."""
import contextlib
import glob
import io
import os
import sys

from vlib import atncheck, boot, refgrammar
from vlib.mc import V, obs, isexc, show
from . import lang

HERE = os.path.join(boot.REPO, "pyudunits2", "_grammar")
G = refgrammar.load(HERE)


def tokens_of_code(s):
    """The tokens as `debug-parser` prints them, one 'text: TYPE' each."""
    from pyudunits2._grammar import _debug_tokens

    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        _debug_tokens(s)
    return out.getvalue()


def batch(item):
    from pyudunits2._grammar import parse

    viols, n, states, edges = [], 0, set(), set()
    for s in lang.enumerate_space(item):
        n += 1
        toks = G.tokens(s)
        types = tuple(t[0] for t in toks)
        states.add(types)
        if len(toks) > 1:
            edges.add((types[:-2], toks[-2]))
        ref = G.ast(s)
        o = obs(parse, s)
        one = ("one", s)
        if ref is None:
            if o[0] == "ok":
                viols.append(V(f"accepted:{s!r}", f"{s!r} is not derivable from the grammar files, but the parser gives {show(o)}", item=one))
            elif not isexc(o, "SyntaxError"):
                viols.append(V(f"error:{s!r}", f"{s!r}: {show(o)} instead of a SyntaxError", item=one))
            continue
        if o[0] != "ok":
            viols.append(V(f"refused:{s!r}", f"{s!r} is derivable from the grammar files, but the parser raised {show(o)}", item=one))
            continue
        got = refgrammar.from_code(o[1])
        if not refgrammar.same(ref, got):
            viols.append(V(f"structure:{s!r}", f"{s!r}: parsed as {got}, the grammar files give {ref}", item=one))
        want = "".join(f"{x}: {t}\n" for t, x in toks if t != "EOF")
        t = obs(tokens_of_code, s)
        if t[0] != "ok" or t[1] != want:
            viols.append(V(f"tokens:{s!r}", f"{s!r}: tokens {show(t)!r}, the grammar files give {want!r}", item=one))
    return viols, {"_items": n, "_states": states, "_edges": edges}


def automata(item):
    """The tables of the generated lexer or parser, as automata (texts of any length)."""
    try:
        from pyudunits2._grammar.parser.udunits2Lexer import udunits2Lexer
        from pyudunits2._grammar.parser.udunits2Parser import udunits2Parser

        udunits2Lexer.atn, udunits2Parser.atn, udunits2Lexer.modeNames
    except (ImportError, AttributeError):  # organised in another way: the texts decide
        return [], {"_items": 0}
    if item[1] == "lexer":
        found, stats = atncheck.check_lexer(udunits2Lexer, G.lexer)
    else:
        found, stats = atncheck.check_parser(udunits2Parser, G.parser)
    viols = [V(k, t, item=item) for k, t in found]
    return viols, {"_items": 1, f"{item[1]}_automaton_states": stats["states"], f"{item[1]}_automaton_transitions": stats["transitions"]}


def template(item):
    """What compile.py makes of the lexer template is what the reference reads."""
    import importlib.util
    import pathlib
    import tempfile

    src = os.path.join(HERE, "udunits2Lexer.g4.jinja")
    spec = importlib.util.spec_from_file_location("_verif_compile", os.path.join(HERE, "compile.py"))
    mod = importlib.util.module_from_spec(spec)
    try:
        import jinja2  # noqa: F401
    except ImportError:
        # Not installed with the library: take it from the verification tools.
        extra = sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"))
        sys.path.extend(extra)
        try:
            import jinja2  # noqa: F401
        except ImportError:
            pass
        finally:
            del sys.path[len(sys.path) - len(extra):]
    try:
        spec.loader.exec_module(mod)
        expand = mod.expand_lexer
    except (ImportError, AttributeError):  # no jinja2, or another build
        return [], {"_items": 0}
    with tempfile.TemporaryDirectory() as d:
        target = pathlib.Path(d) / "lexer.g4"
        o = obs(expand, pathlib.Path(src), target)
        if o[0] != "ok":
            return [V("expand", f"compile.py cannot expand the lexer template: {show(o)}", item=item)], {"_items": 1}
        got = refgrammar.read_g4(target.read_text(encoding="utf-8"))
    want = refgrammar.read_g4(refgrammar.expand_jinja(pathlib.Path(src).read_text(encoding="utf-8")))
    viols = []
    if got != want:
        names = [r[2] for r in want if r not in got] + [r[2] for r in got if r not in want]
        viols.append(V("expand", f"compile.py expands the lexer template to other rules: {names or 'another order'}", item=item))
    return viols, {"_items": 1, "expanded_rules": len(got)}


FUNCTIONS = {"batch": batch, "automata": automata, "template": template}


def main(run):
    q = run.quick
    items = lang.batches_full(2 if q else 3)
    items += lang.batches_core([3, 4] if q else [3, 4, 5])
    items += lang.batches_date(3 if q else 4)
    items += lang.batches_edit(["s since "] if q else ["s since ", "(s @"], lang.SHIFT_TOKENS, 4 if q else 5)
    items += lang.batches_edit([""], lang.UNIT_TOKENS, 3 if q else 4)
    items += lang.batches_num(lang.NUM_CONTEXT, 3 if q else 5)
    items += lang.batches_char(lang.char_templates() if not q else lang.char_templates()[:4], 0x3000 if q else 0x20000)
    items += lang.batches_sentence(5 if q else 15, 4 if q else 10)
    run.map("automata", [("automata", "lexer"), ("automata", "parser")], chunk=1, timeout=300)
    run.map("template", [("template",)], chunk=1, timeout=300)
    run.map("batch", items, chunk=4, timeout=300)
    return run.finish(
        assumptions=["the grammar files are read with ANTLR 4 semantics (longest match, rule order, modes, ordered alternatives) by the interpreter in vlib/refgrammar.py"],
        note="the tables of the generated lexer (every reachable pair of state sets of table and grammar file over all of Unicode, each mode: texts of any length) and of every parser rule; token types, acceptance and structure of all strings of <=2 (thorough 3) tokens over 54 spellings, <=4 (5) over 18, shift references of <=3 (4) pieces, all derivable shift references of <=4 (5) tokens and units of <=3 (4) with every edit of one token, numbers of <=3 (5) characters in 10 contexts, characters to U+2FFF (U+1FFFF) in 4 (8) contexts, sentences of 3 operands",
    )
