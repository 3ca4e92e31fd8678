"""C17: concurrent use gives the same answers as sequential use.

Two real threads of one process share a unit system, units, converters or just
the parser.  Thread A is stopped at a line of the library, thread B runs, A goes
on (one preemption, at every line); for some pairs B is stopped as well and ends
after A (two preemptions, at every pair of lines).
"""
import threading

from vlib import sched
from vlib.mc import V, obs
from . import c14


# -- what the threads do ------------------------------------------------------------


def ctx_system():
    return {"us": c14.build()["A"]}


def ctx_units():
    us = c14.build()["A"]
    return {"us": us, "u": us.unit("2 hours"), "v": us.unit("degC @ 5"), "w": us.unit("kcel"), "K": us.unit("K"), "N": us.unit_by_name_or_symbol("N"), "h": us.unit_by_name_or_symbol("hr"), "d": us.unit("hour since 2000-01-01"), "g": us.unit("decade")}


def ctx_converters():
    from pyudunits2 import Converter

    c = ctx_units()
    c["c1"] = Converter(c["v"], c["K"])
    c["c2"] = Converter(c["g"], c["us"].unit("x"))
    return c


def ctx_parse():
    return {}


CTX = {"system": ctx_system, "units": ctx_units, "converters": ctx_converters, "parse": ctx_parse}


def op_parse(ctx, s):
    from pyudunits2._grammar import parse

    return repr(parse(s)), str(parse(s))


def op_parse1(ctx, s):
    from pyudunits2._grammar import parse

    return repr(parse(s))


def op_look(ctx, s):
    return c14.look(ctx["us"], s)


def op_find(ctx, s):
    u = ctx["us"].unit_by_name_or_symbol(s)
    return str(u), type(u).__name__


def op_unit(ctx, s):
    return c14.unit(ctx["us"], s)


def op_conv(ctx, a, b):
    return c14.conv(ctx["us"], a, b)


def op_eq(ctx, a, b):
    return c14.eq(ctx["us"], a, b)


def op_text(ctx, k):
    return str(ctx[k]), ctx[k].expanded()


def op_expanded(ctx, k):
    return ctx[k].expanded()


def op_dims(ctx, k):
    u = ctx[k]
    return str(u.dimensionality()), u.is_dimensionless(), u.is_time_unit()


def op_same(ctx, a, b):
    return ctx[a] == ctx[b], ctx[a].is_convertible_to(ctx[b])


def op_converter(ctx, a, b):
    from pyudunits2 import Converter

    c = Converter(ctx[a], ctx[b])
    return str(c.expression), c.convert(3), c.convert(-2.5)


def op_value(ctx, c, v):
    import numpy as np

    x = ctx[c].convert(v if isinstance(v, (int, float)) else np.array(v))
    return repr(x), str(ctx[c].expression)


OPS = {k[3:]: f for k, f in list(globals().items()) if k.startswith("op_")}


def do(op):
    return lambda ctx: OPS[op[0]](ctx, *op[1:])


def ans(o):
    return c14.ans(o)


ALONE = {}


def alone(kind, op):
    """The answer in a process of its own."""
    r = sched.in_child(lambda: ans(obs(do(op), CTX[kind]())))
    if r[0] != "ok":
        raise RuntimeError(f"{op} alone: {r}")
    return r[1]


# -- schedules ----------------------------------------------------------------------


class Second:
    """Thread B: runs op to its end, or stops at its stop-th point until told to go on."""

    def __init__(self, ctx, op, stop=None, kinds=()):
        self.answer = None
        self.pause = threading.Event()  # B ended, waits for a lock or was stopped
        self.go = threading.Event()
        self.n = 0
        self.stopped = False
        self.thread = threading.Thread(target=self.run, args=(ctx, op), daemon=True)
        self.mon = None
        self.stop = stop
        if stop is not None:
            self.mon = sched.Monitor(kinds, self.cb)
        sched.blocked_hook = self.blocked
        self.thread.start()
        self.pause.wait(5)

    def blocked(self):
        if threading.current_thread() is self.thread:
            self.pause.set()
        elif not self.go.is_set():
            # A needs what the stopped B holds: B has to go on.
            self.go.set()

    def cb(self, code, line):
        if threading.current_thread() is not self.thread:
            return
        i = self.n
        self.n += 1
        if i == self.stop:
            self.stopped = True
            self.mon.stop()
            self.pause.set()
            self.go.wait()

    def run(self, ctx, op):
        o = obs(do(op), ctx)
        self.answer = ans(o)
        self.pause.set()

    def finish(self):
        self.go.set()
        self.thread.join(20)
        return self.answer if self.answer is not None else ("hang", "the second thread does not end")


def child_of(opA, opB, kinds):
    state = {}

    def at_point(ctx, q):
        state["b"] = Second(ctx, opB, q if q >= 0 else None, kinds)

    def finish(ctx, q, a):
        b = state["b"]
        res = {"A": ans(a), "B": b.finish()}
        if q >= 0:
            res["stop"] = not b.stopped
        res["A after"] = ans(obs(do(opA), ctx))
        res["B after"] = ans(obs(do(opB), ctx))
        return res

    return at_point, finish


def verdict(results, kind, opA, opB, tag):
    viols = []
    wantA, wantB = ALONE[kind, opA], ALONE[kind, opB]
    for n, wh, q, r in results:
        what = f"{opA} stopped at its line event {n}, {wh}, while {opB} runs" + (f" up to its line event {q}" if q >= 0 else "") + ", then goes on"
        key = f"{kind}:{opA}:{opB}:{tag}:{wh}"
        if r[0] != "ok":
            viols.append(V(key, f"{what}: {'no answer, a deadlock' if r[0] == 'hang' else f'the process ended with {r[1]}'}"))
            continue
        for who, want in (("A", wantA), ("B", wantB), ("A after", wantA), ("B after", wantB)):
            if r[1][who] != want:
                viols.append(V(key, f"{what}: {who} ({opA if who[0] == 'A' else opB}) answers {r[1][who]}, alone {want}"))
                break
    return viols


def one(item):
    """One preemption: every point p of A with p % R == r."""
    kind, opA, opB, mode, r, R = item
    kinds = OWN if mode == "own" else KINDS

    def process():
        at_point, finish = child_of(opA, opB, kinds)
        # parser and sympy have seen it all, the shared objects are new
        warm(kind, opA, opB)
        ctx = CTX[kind]()
        results, n, a = sched.explore(ctx, do(opA), kinds, lambda i, code, line: (-1,) if i % R == r else (), at_point, finish)
        return verdict(results, kind, opA, opB, mode), len(results), n, ans(a)

    return result(process, item, kind, opA)


def warm(kind, opA, opB):
    # n.b. on objects of its own
    c = CTX[kind]()
    for op in (opA, opB):
        obs(do(op), c)


OWN = ("own",)
KINDS = ("own", "parser")
ALL = ("own", "parser", "runtime")


def parsing(item):
    """Two parses (nothing parsed before): A is stopped just before or after it changes what parses share."""
    opA, opB, pts = item
    pts = set(pts)

    def process():
        at_point, finish = child_of(opA, opB, ALL)
        results, n, a = sched.explore({}, do(opA), ALL, lambda i, code, line: (-1,) if i in pts else (), at_point, finish)
        return verdict(results, "parse", opA, opB, "cold"), len(results), n, ans(a)

    return result(process, item, "parse", opA)


def two(item):
    """Two preemptions: A stopped at p, B at each of its points q; A ends, then B does."""
    kind, opA, opB, r, R, first = item

    def firsts(op):
        pts, _ = sched.points(CTX[kind](), do(op), OWN)
        return [i for i, x in enumerate(pts) if x not in pts[:i]]

    def process():
        warm(kind, opA, opB)
        qs = firsts(opB) if first else range(100000)
        ctx = CTX[kind]()
        at_point, finish = child_of(opA, opB, OWN)
        seen = set()
        k = 0

        def variants(i, code, line):
            nonlocal k
            if first:
                if (code, line) in seen:
                    return ()
                seen.add((code, line))
            k += 1
            return qs if k % R == r else ()

        results, n, a = sched.explore(ctx, do(opA), OWN, variants, at_point, finish)
        return verdict(results, kind, opA, opB, "two"), len(results), n, ans(a)

    return result(process, item, kind, opA)


def result(process, item, kind, opA):
    r = sched.in_child(process, 800)
    if r[0] != "ok":
        raise RuntimeError(f"{item}: exploration ended with {r}")
    viols, n, total, a = r[1]
    if a != ALONE[kind, opA]:
        viols.insert(0, V(f"{kind}:{opA}:undisturbed", f"{opA} answers {a} on a prepared system, alone {ALONE[kind, opA]}"))
    return viols[:3], {"_items": n, "schedules": n, "states": n, "transitions": n * 2}


FUNCTIONS = {"one": one, "parsing": parsing, "two": two}

PAIRS = {
    "system": [
        (("find", "hour"), ("find", "hour")), (("look", "hour"), ("conv", "hr", "minute")), (("conv", "degC", "K"), ("conv", "degC", "K")), (("unit", "2 hours"), ("look", "hour")),
        (("look", "kcel"), ("look", "cel")), (("look", "x"), ("look", "x")), (("look", "hh"), ("look", "hour")), (("eq", "N", "m/s2"), ("look", "N")),
        (("unit", "m^^"), ("unit", "2 hours")), (("look", "broken"), ("look", "broken")), (("unit", "s since 2000-01-01"), ("unit", "m (s @ 3)")), (("conv", "decade", "x"), ("conv", "m", "s")),
        (("look", "nosuch"), ("look", "mm")), (("unit", "k degC/x"), ("conv", "x/hour", "m/s")),
    ],
    "units": [
        (("expanded", "u"), ("expanded", "u")), (("expanded", "v"), ("converter", "v", "K")), (("converter", "v", "K"), ("converter", "K", "v")), (("converter", "u", "h"), ("converter", "u", "h")), (("same", "u", "h"), ("same", "h", "u")), (("dims", "N"), ("expanded", "N")),
        (("text", "d"), ("dims", "d")), (("converter", "u", "h"), ("same", "u", "h")), (("converter", "g", "N"), ("expanded", "g")),
    ],
    "converters": [(("value", "c1", 3), ("value", "c1", (1.0, 2.0))), (("value", "c2", 3), ("value", "c1", -1))],
    "parse": [(("parse", "2 m.s-1"), ("parse", "lg(re 1 mW)")), (("parse", "m^^"), ("parse", "s since 2000-01-01"))],
}
COLD = [("m", "m"), ("2 m", "s-1"), ("m", "lg(re m)"), ("s @ 3", "s since 2000-1-1"), ("m^^", "m"), ("", "m")]
MORE_COLD = [("lg(re m)", "m"), ("m2.s-1/K", "m"), ("m2.s-1/K", "(m.s)2"), ("s since 2000-1-1 1:2", "s @ 3"), ("m", "m^^"), ("2 m @ 3", "2 m @ 3")]

# (shared objects, A, B, only the distinct lines?)
TWO = [
    ("system", ("find", "x"), ("find", "x"), True), ("units", ("expanded", "u"), ("expanded", "u"), False), ("units", ("same", "u", "h"), ("same", "h", "u"), True),
]
MORE_TWO = [
    ("system", ("find", "hour"), ("find", "hour"), False), ("system", ("find", "hour"), ("look", "hh"), True), ("units", ("converter", "v", "K"), ("expanded", "v"), False), ("units", ("converter", "u", "h"), ("converter", "h", "u"), True),
    ("system", ("conv", "degC", "K"), ("conv", "degC", "K"), True), ("units", ("dims", "N"), ("dims", "N"), False),
]


def setup():
    sched.codes()
    # Parsers and sympy stay cold here: everything runs in processes of its own.
    ops = {(k, op) for k, ps in PAIRS.items() for p in ps for op in p}
    ops |= {(t[0], op) for t in TWO + MORE_TWO for op in t[1:3]}
    ops |= {("parse", ("parse1", s)) for p in COLD + MORE_COLD for s in p}
    import concurrent.futures as cf

    ops = sorted(ops, key=repr)
    with cf.ThreadPoolExecutor(1) as ex:
        for o, a in zip(ops, ex.map(lambda o: alone(*o), ops)):
            ALONE[o] = a


def main(run):
    setup()
    for k in list(ALONE)[:6]:
        run.sample(f"{k} alone answers {ALONE[k]}")
    q = run.quick
    items = []
    for kind, ps in PAIRS.items():
        for a, b in ps:
            for x, y in {(a, b), (b, a)}:
                R = 8
                mode = "own" if q and kind != "parse" and "find" not in (x[0], y[0]) else "warm"
                items += [(kind, x, y, mode, r, R) for r in range(R)]
    items.sort(key=repr)
    run.map("one", items, chunk=1, timeout=850)
    cold = []
    for a, b in COLD + ([] if q else MORE_COLD):
        oa, ob = ("parse1", a), ("parse1", b)
        pts, total = sched.shared_changes(lambda: do(oa)({}))
        if pts:
            run.sample(f"parse of {a!r}: {total} lines, {len(pts)} of them next to a change of the state parses share")
        k = 16 if len(pts) > 16 else 1
        cold += [(oa, ob, tuple(pts[i::k])) for i in range(k) if pts[i::k]]
    run.map("parsing", cold, chunk=1, timeout=850)
    for kind, a, b, first in TWO if q else TWO + MORE_TWO:
        run.map("two", [(kind, a, b, r, 32, first) for r in range(32)], chunk=1, timeout=3000)
    return run.finish(
        note=f"one preemption at every line of the library (ANTLR runtime, and in the quick tier mostly the generated parser, excluded) for {sum(map(len, PAIRS.values()))} pairs of operations in both orders, parsers warm and shared objects unused; cold parses: one preemption before and after each change of the state shared by parses, for {len(COLD)} pairs of strings (thorough {len(COLD) + len(MORE_COLD)}); two preemptions at all pairs of (distinct) lines for {len(TWO)} pairs (thorough {len(TWO) + len(MORE_TWO)}); afterwards both operations are asked again",
        assumptions=["calls into sympy, numpy and the interpreter are atomic", "registration is not concurrent with queries"],
    )
