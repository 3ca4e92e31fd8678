"""C18: a failed or interrupted query leaves nothing behind.

At every line of the library which a query executes, an exception is raised there
(in a process forked at that line); afterwards the query and others are asked, and
have to answer as if nothing had happened.  Sequences of failing queries likewise.
"""
import itertools

from vlib import sched
from vlib.mc import V, obs
from . import c14, c17
from .c17 import CTX, OPS, do, ans, ALONE, alone, KINDS, OWN, ALL, warm

class Interrupt(BaseException):
    """Stands for KeyboardInterrupt and the like (the engine itself obeys the real one)."""


EXC = {"Interrupt": Interrupt, "MemoryError": MemoryError, "RecursionError": RecursionError, "ValueError": ValueError}

QUERIES = {
    "system": [
        ("find", "hour"), ("find", "hr"), ("look", "x"), ("look", "kcel"), ("look", "broken"), ("look", "nosuch"), ("look", "bad"), ("unit", "2 hours"), ("unit", "k degC/x"), ("unit", "s since 2000-01-01"), ("unit", "m (s @ 3)"),
        ("unit", "m^^"), ("unit", "2 broken"), ("conv", "degC", "K"), ("conv", "decade", "x"), ("conv", "m", "s"), ("conv", "angle/hour", "1/s"), ("eq", "N", "m/s2"), ("eq", "hour", "s since 2000-01-01"),
    ],
    "units": [
        ("expanded", "u"), ("expanded", "v"), ("dims", "N"), ("dims", "d"), ("text", "d"), ("same", "u", "h"), ("same", "d", "u"), ("same", "v", "K"), ("converter", "v", "K"), ("converter", "g", "N"), ("converter", "u", "h"), ("converter", "d", "u"),
    ],
    "converters": [("value", "c1", (1.0, 2.0)), ("value", "c2", 3)],
    "parse": [("parse", "2 m.s-1"), ("parse", "m^^"), ("parse", "s since 2000-01-01 1:2")],
}
PROBES = {
    "system": [("find", "hour"), ("conv", "degC", "K"), ("look", "kcel"), ("unit", "m (s @ 3)"), ("look", "x"), ("unit", "k degC/x")],
    "units": [("expanded", "u"), ("expanded", "N"), ("converter", "v", "K"), ("same", "u", "h"), ("converter", "u", "h"), ("text", "d"), ("expanded", "v"), ("dims", "N")],
    "converters": [("value", "c1", 3), ("value", "c2", 3), ("converter", "v", "K")],
    "parse": [("parse", "lg(re 1 mW)"), ("parse", "2 m.s-1"), ("parse1", "m^^")],
}


def follow(ctx, kind, op, probes=9):
    """The query again, the probes, and the query once more: [(query, answer)]."""
    return [(o, ans(obs(do(o), ctx))) for o in (op, *(p for p in PROBES[kind][:probes] if p != op), op)]


def verdict(results, kind, op, want, tag):
    viols = []
    for n, wh, e, r in results:
        what = f"{e} raised in {op} at its line event {n}, {wh}"
        key = f"{kind}:{op}:{tag}:{e}:{wh}"
        if r[0] != "ok":
            viols.append(V(key, f"{what}: {'then no answer' if r[0] == 'hang' else f'the process ended with {r[1]}'}"))
            continue
        for o, a in r[1]["after"]:
            if a != want[kind, o]:
                viols.append(V(key, f"{what} ({'it answers ' + str(r[1]['op'])[:120]}); then {o} answers {a}, otherwise {want[kind, o]}"))
                break
    return viols


def interrupt(item):
    """An exception at every line event i of a query with i % R == r (at most `visits` of each line)."""
    kind, op, kinds, excs, visits, r, R = item

    def process():
        warm(kind, op, op)
        for p in PROBES[kind]:
            warm(kind, p, p)
        ctx = CTX[kind]()
        seen = {}
        k = 0

        def variants(i, code, line):
            nonlocal k
            seen[code, line] = seen.get((code, line), 0) + 1
            if seen[code, line] > visits:
                return ()
            k += 1
            return excs if k % R == r else ()

        def at_point(ctx, e):
            raise EXC[e]("injected")

        results, n, a = sched.explore(ctx, do(op), kinds, variants, at_point, lambda ctx, e, a: {"op": ans(a), "after": follow(ctx, kind, op)})
        return verdict(results, kind, op, ALONE, "warm"), len(results), n, ans(a)

    return c17.result(process, item, kind, op)


def cold(item):
    """An exception in a parse, nothing parsed before, at the given line events."""
    op, e, pts = item
    pts = set(pts)

    def process():
        def at_point(ctx, e):
            raise EXC[e]("injected")

        results, n, a = sched.explore({}, do(op), ALL, lambda i, code, line: (e,) if i in pts else (), at_point, lambda ctx, e, a: {"op": ans(a), "after": follow(ctx, "parse", op)})
        return verdict(results, "parse", op, ALONE, "cold"), len(results), n, ans(a)

    return c17.result(process, item, "parse", op)


def twice(item):
    """A query interrupted, asked again and interrupted again (every pair of distinct lines), asked again."""
    kind, op, r, R = item

    def process():
        warm(kind, op, op)
        ctx = CTX[kind]()
        k = 0
        seen = set()

        def variants(i, code, line):
            nonlocal k
            if (code, line) in seen:
                return ()
            seen.add((code, line))
            k += 1
            return ("Interrupt",) if k % R == r else ()

        def at_point(ctx, e):
            raise EXC[e]("injected")

        def finish(ctx, e, a):
            mine = set()

            def second(i, code, line):
                if (code, line) in mine:
                    return ()
                mine.add((code, line))
                return ("MemoryError",)

            res, n, a2 = sched.explore(ctx, do(op), OWN, second, at_point, lambda ctx, e, a: {"op": ans(a), "after": follow(ctx, kind, op, 1)})
            return {"viols": verdict(res, kind, op, ALONE, "twice"), "n": len(res), "again": ans(a2)}

        results, n, a = sched.explore(ctx, do(op), OWN, variants, at_point, finish, timeout=600)
        viols, total = [], 0
        for i, wh, e, res in results:
            if res[0] != "ok":
                viols.append(V(f"{kind}:{op}:twice:{wh}", f"{op} interrupted at {wh}, then again: {res}"))
                continue
            for v in res[1]["viols"]:
                v["what"] = f"{op} interrupted at {wh}, asked again: {v['what']}"
                viols.append(v)
            total += res[1]["n"]
        return viols, total, n, ans(a)

    return c17.result(process, item, kind, op)


FAIL = {
    "system": [
        ("look", "nosuch"), ("look", "broken"), ("look", "bad"), ("find", "khh"), ("unit", "m^^"), ("unit", "2 broken"), ("unit", "m (s @ 3)"), ("unit", "hour since 2000-01-01 lg("), ("unit", "K since 2000-01-01"), ("conv", "m", "s"),
        ("conv", "broken", "m"), ("conv", "s since 2000-01-01", "s"), ("eq", "hour", "nosuch"), ("eq", "broken", "bad"), ("unit", "m:s"),
    ],
    "units": [("converter", "u", "K"), ("converter", "d", "u"), ("converter", "d", "d"), ("converter", "N", "g"), ("dims", "d"), ("expanded", "d"), ("same", "d", "u")],
}
GOOD = {
    "system": [("find", "hour"), ("conv", "degC", "K"), ("unit", "k degC/x"), ("look", "cel"), ("eq", "N", "m/s2"), ("unit", "s since 2000-01-01")],
    "units": [("expanded", "u"), ("converter", "v", "K"), ("same", "u", "h"), ("dims", "N"), ("text", "d"), ("converter", "h", "u")],
}


def failing(item):
    """A sequence of queries on one system, most of them failing."""
    kind, ops = item
    ctx = CTX[kind]()
    for i, op in enumerate(ops):
        a = ans(obs(do(op), ctx))
        if a != ALONE[kind, op]:
            return [V(f"{kind}:{ops[:i + 1]}", f"after {list(ops[:i])}: {op} answers {a}, otherwise {ALONE[kind, op]}")], {}
    return [], {"queries": len(ops), "_states": {(kind, ops[:i]) for i in range(len(ops) + 1)}, "_edges": {(kind, ops[:i + 1]) for i in range(len(ops))}}


def between(item):
    """Failing queries between registrations (which may change what spellings denote)."""
    return c14.changing(item)


FUNCTIONS = {f.__name__: f for f in (interrupt, cold, twice, failing, between)}
COLD = ["m", "2 m", "lg(re m)", "s since 2000-1-1"]


def setup():
    sched.codes()
    ops = {(k, op) for d in (QUERIES, PROBES, FAIL, GOOD) for k, ps in d.items() for op in ps}
    ops |= {("parse", ("parse1", s)) for s in COLD}
    for o in sorted(ops, key=repr):
        ALONE[o] = alone(*o)


def main(run):
    setup()
    q = run.quick
    for k in list(ALONE)[:5]:
        run.sample(f"{k} alone answers {ALONE[k]}")
    items = []
    for kind, ops in QUERIES.items():
        for op in ops:
            R = 8 if q else 16
            if q:
                items += [(kind, op, OWN if kind != "parse" else KINDS, ("Interrupt",) if kind != "units" else ("Interrupt", "ValueError"), 2, r, R) for r in range(R)]
            else:
                items += [(kind, op, KINDS, ("Interrupt", "MemoryError", "ValueError"), 10**9, r, R) for r in range(R)]
    run.map("interrupt", items, chunk=1, timeout=3000)
    c = []
    for s in COLD:
        op = ("parse1", s)
        pts, total = sched.shared_changes(lambda: do(op)({}))
        run.sample(f"parse of {s!r}: {total} lines, {len(pts)} of them next to a change of the state parses share")
        if not q:
            # also the first visits of every line
            def firsts():
                p, _ = sched.points({}, do(op), ALL)
                seen = set()
                return [i for i, x in enumerate(p) if not (x in seen or seen.add(x))]

            r = sched.in_child(firsts)
            pts = sorted(set(pts) | set(r[1] if r[0] == "ok" else ()))
        c += [(op, e, tuple(pts[i::16])) for i in range(16) if pts[i::16] for e in (("Interrupt",) if q else ("Interrupt", "MemoryError"))]
    run.map("cold", c, chunk=1, timeout=3000)
    tw = [("units", ("expanded", "u")), ("units", ("text", "d"))] if q else [("units", ("expanded", "u")), ("units", ("expanded", "v")), ("units", ("converter", "v", "K")), ("units", ("same", "u", "h")), ("system", ("find", "x")), ("system", ("unit", "m^^"))]
    run.map("twice", [(k, op, r, 32) for k, op in tw for r in range(32)], chunk=1, timeout=3000)
    seqs = []
    for kind in FAIL:
        f, g = FAIL[kind], GOOD[kind]
        seqs += [(kind, (a, b)) for a in f + g for b in f + g]
        seqs += [(kind, (a, b, c)) for a in f for b in f for c in g]
        seqs += [(kind, (a,) * 20 + (b,)) for a in f for b in f + g]
        seqs += [(kind, (b, a, b, a, b)) for a in f for b in g]
        if not q:
            seqs += [(kind, (a, b, c, d)) for a in f for b in f for c in f for d in g]
    run.map("failing", seqs, timeout=120)
    sets = ["none", "fail"]
    run.map("between", c14.change_items(sets, ["fail"]) if q else c14.change_items(sets, sets, ["fail"]), timeout=60)
    return run.finish(
        note="an exception at every line event of " + str(sum(map(len, QUERIES.values()))) + " queries (quick: the first two visits of each line of the library's own code; thorough: every line event, generated parser included, three kinds of exceptions), then the query and the probes are asked; cold parses: an exception before and after every change of the state shared by parses (thorough: and at the first visit of every line of the ANTLR runtime); two interruptions at all pairs of distinct lines of 2 (thorough 6) queries; all sequences of up to 3 (thorough 4) failing queries with a succeeding one behind, 20 repetitions; all sequences of 2 and 3 (thorough 4) registrations that change what spellings denote with the failing queries asked before each",
        assumptions=["an interruption happens between source lines of the library", "the reference answer is the one of a fresh process"],
    )
