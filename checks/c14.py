"""C14: what a unit means does not depend on what was asked before."""
import itertools
import os
import pickle

from vlib import refunits
from vlib.mc import V, obs, show
from vlib.refunits import U, P, System, code_unit, code_prefix
from . import systems

# Two systems alive in one process; the same spellings mean different things.
A_UNITS = [
    U("meter", "meters", ("m",), [("metre", None)]), U("second", "seconds", ("s",), time=True), U("kelvin", None, ("K",)), U("radian", None, ("rad",), dimensionless=True),
    U("minute", None, ("min",), definition="60 s"), U("hour", "hours", ("h",), [("hr", None)], definition="60 minute"), U("newtonish", None, ("N",), definition="m/s2"),
    U("celsius", None, ("degC",), [("cel", None)], ("°C",), definition="K @ 273.15"), U("decade", None, (), definition="lg(re 2 m)"), U("furlong", None, ("x",), [("cel", None)], definition="7 m"),
    U("angle", None, (), [], ("x",), definition="2 rad"), U("broken", None, (), definition="3 nosuch"), U("bad", None, (), definition="3 m ^ ^"),
]
B_UNITS = [
    U("meter", "meters", ("m",), definition="5 K"), U("kelvin", None, ("K",)), U("second", "seconds", ("s",)), U("minute", None, ("min",), definition="61 s", time=False), U("hour", "hours", ("h",), definition="10 K"),
    U("celsius", None, ("degC",), definition="2 K @ 1"), U("N", None, ("x",), definition="s"), U("radian", None, ("rad",), definition="3 s"), U("decade", None, (), definition="ln(re s)"),
]
A_PRE = [P("kilo", "1e3", ("k", "m")), P("centi", "1e-2", ("c", "h"))]
B_PRE = [P("kilo", "1024", ("k",)), P("milli", "1e-3", ("m", "c"))]


def build():
    return {"A": refunits.from_system(System(A_UNITS, A_PRE)), "B": refunits.from_system(System(B_UNITS, B_PRE))}


def ans(o):
    """A comparable answer."""
    if o[0] == "ok":
        return ("ok", repr(o[1]))
    e = o[3]
    if isinstance(e, SyntaxError):
        return ("exc", o[1], o[2], e.lineno, e.offset, e.text)
    return ("exc", o[1], o[2])


def conv(us, a, b):
    from pyudunits2 import Converter

    c = Converter(us.unit(a), us.unit(b))
    return str(c.expression), c.convert(3), c.convert(-2.5)


def look(us, s):
    u = us.unit_by_name_or_symbol(s)
    return str(u), u.expanded(), str(u.dimensionality()), type(u).__name__


def unit(us, s):
    u = us.unit(s)
    return str(u), u.expanded(), str(u.dimensionality()), u.is_dimensionless(), u.is_time_unit(), type(u).__name__


def eq(us, a, b):
    a, b = us.unit(a), us.unit(b)
    return a == b, b == a, a != b, a.is_convertible_to(b)


def held(us, a, b):
    """Two units held at the same time and asked alternately."""
    u, v = us.unit(a), us.unit(b)
    first = (u.expanded(), str(u.dimensionality()))
    v.expanded(), v.dimensionality(), u == v
    conv(us, a, b) if u.is_convertible_to(v) else None
    return first == (u.expanded(), str(u.dimensionality())), first, v.expanded()


OPS = {"look": look, "unit": unit, "conv": conv, "eq": eq, "held": held}
QUERIES = [
    ("A", "look", "hour"), ("A", "look", "x"), ("A", "look", "cel"), ("A", "look", "mm"), ("A", "look", "nosuch"), ("A", "look", "broken"), ("A", "look", "hh"), ("A", "look", "kcel"), ("A", "look", "bad"),
    ("A", "unit", "k degC/x"), ("A", "unit", "2 hours"), ("A", "unit", "m^^"), ("A", "unit", "s since 2000-01-01"), ("A", "unit", "m (s @ 3)"), ("A", "unit", "degC @ 5"), ("A", "unit", "furlong.m-1"), ("A", "unit", ""), ("A", "unit", "2 broken"),
    ("A", "conv", "degC", "K"), ("A", "conv", "hr", "minute"), ("A", "conv", "decade", "furlong"), ("A", "conv", "m", "s"), ("A", "conv", "angle/hour", "1/s"), ("A", "conv", "degC @ 5", "celsius"),
    ("A", "eq", "hour", "60 min"), ("A", "eq", "N", "m/s2"), ("A", "eq", "cel", "degC"), ("A", "held", "hour", "min"), ("A", "held", "degC", "K"),
    ("B", "look", "hour"), ("B", "look", "mm"), ("B", "look", "cm"), ("B", "unit", "k degC/x"), ("B", "unit", "s since 2000-01-01"), ("B", "conv", "degC", "K"), ("B", "conv", "m", "K"), ("B", "eq", "hour", "60 min"), ("B", "conv", "minute", "s"), ("B", "conv", "decade", "s"),
]


def ask(sy, q):
    return ans(obs(OPS[q[1]], sy[q[0]], *q[2:]))


def cold(q):
    """The answer in a process that was asked nothing before."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(ask(build(), q))
            os.write(w, data)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data)


COLD = {}


def history(item):
    """A sequence of queries; every answer must be the cold one."""
    sy = build()
    viols = []
    for i, k in enumerate(item):
        q = QUERIES[k]
        a = ask(sy, q)
        if a != COLD[k]:
            viols.append(V(f"history:{item[:i + 1]}", f"after {[QUERIES[j] for j in item[:i]]}: {q} answers {a}, asked first it answers {COLD[k]}"))
            break
    return viols, {"queries": len(item), "_edges": {(item[:i], item[i]) for i in range(len(item))}, "_states": {item[:i] for i in range(len(item) + 1)}}


# Registration order.
CHAIN = [
    U("base", "bases", ("b",)), U("u", "us", ("U",), definition="2 b"), U("v", None, ("V",), [("vv", None)], definition="3 us/c"), U("w", None, (), [], ("W",), definition="ku.vv"), U("c", None, ("C",)),
    P("kilo", "1e3", ("k",)),
]
NEEDS = {0: {0}, 1: {0, 1}, 2: {0, 1, 2, 4}, 3: {0, 1, 2, 3, 4, 5}, 4: {4}, 5: {5}}
ASK = [("bases", {0}), ("us", {0, 1}), ("vv", NEEDS[2]), ("W", NEEDS[3]), ("C", {4}), ("kb", {0, 5}), ("kW", NEEDS[3]), ("kV", NEEDS[2] | {5}), ("ku/V", NEEDS[2] | {5}), ("b @ 2", {0})]
CHAIN_SYS = System([u for u in CHAIN if isinstance(u, U)], [u for u in CHAIN if isinstance(u, P)])


def order(item):
    """Registrations in some order, with queries at some points."""
    perm, mask = item
    from pyudunits2 import UnitSystem
    from vlib import sem

    us = UnitSystem()
    have = set()
    n = 0
    for step, i in enumerate(perm):
        x = CHAIN[i]
        o = obs(us.add_prefix, code_prefix(x)) if isinstance(x, P) else obs(us.add_unit, code_unit(us, x))
        if o[0] != "ok":
            return [V(f"order:{item}", f"registering {perm[:step + 1]}: {show(o)}")], {}
        have.add(i)
        if not (mask >> step & 1) and step != len(perm) - 1:
            continue
        for s, need in ASK:
            for how in (us.unit, us.unit_by_name_or_symbol) if s.isalpha() else (us.unit,):
                n += 1
                o = obs(lambda: how(s).expanded())
                if not need <= have:
                    if o[0] == "ok" or o[1] != "UnresolvableUnitException":
                        return [V(f"order:{item}:{step}:{s}", f"registered {perm[:step + 1]} of CHAIN, queried after steps {mask:b}: {s!r} should not be resolvable yet, gave {show(o)}")], {}
                else:
                    m = obs(sem.expanded_meaning, o[1], CHAIN_SYS) if o[0] == "ok" else o
                    if m[0] != "ok" or m[1] != CHAIN_SYS.meaning(s):
                        return [V(f"order:{item}:{step}:{s}", f"registered {perm[:step + 1]} of CHAIN, queried after steps {mask:b}: {s!r} is {show(o)}, expected {CHAIN_SYS.meaning(s)}")], {}
    return [], {"queries": n, "_edges": {item}, "_states": {(frozenset(perm[:k + 1]), mask & ((1 << k + 1) - 1)) for k in range(len(perm))}}


def unrelated(item):
    """Registering something unrelated changes no answer."""
    k, = item
    q = QUERIES[k]
    viols = []
    for t in (0, 1):
        sy = build()
        if t:
            ask(sy, q)
        for s in sy.values():
            s.add_unit(code_unit(s, U("zork", "zorks", ("zk",), [("zork2", None)], ("zkk",), definition="9 K")))
            s.add_prefix(code_prefix(P("zetta", "1e21", ("Z",))))
            obs(s.add_unit, code_unit(s, U("kelvin", None, ("never",), [("nosuch", None)], definition="4 s")))
        a = ask(sy, q)
        if a != COLD[k]:
            viols.append(V(f"unrelated:{k}:{t}", f"{q} answers {a} after unrelated registrations, {COLD[k]} before"))
    return viols, {}


# Long histories: many different texts, each asked for again after a while.
PAD = ".".join(["m", "s", "K"] * 12)
PAD_B = {"m": "5·kelvin", "s": "second", "K": "kelvin"}
N_LONG = 1100


def padded(names):
    return "·".join(names[x] for x in PAD.split("."))


def long_query(k, which):
    """The k-th text, and what unit() has to make of it (str, expanded, dimensionality)."""
    n = 1000 + k
    m, t = ("meter", "second") if which == "A" else ("5·kelvin", "second")
    dim = (lambda d: {({"m": "meter", "s": "second", "K": "kelvin"} if which == "A" else {"m": "kelvin", "s": "second", "K": "kelvin"})[x]: e for x, e in d.items()})
    kind = k % 6
    if kind == 0:
        return f"{n} m", (f"{n}·m", f"{n}·{m}", dim({"m": 1}))
    if kind == 1:
        names = {"m": "meter", "s": "second", "K": "kelvin"} if which == "A" else PAD_B
        d = {"meter": 24, "second": 24, "kelvin": 24} if which == "A" else {"kelvin": 48, "second": 24}
        text = f"{PAD} {n} {PAD}"
        # (the brackets of the tree aren't written: products group to the left)
        return text, (PAD.replace(".", "·") + f"·{n}·" + PAD.replace(".", "·"), f"{padded(names)}·{n}·{padded(names)}", d)
    if kind == 2:
        return f"m^{n}", (f"m^{n}", f"meter^{n}" if which == "A" else f"(5·kelvin)^{n}", dim({"m": n}))
    if kind == 3:
        return f"K @ {n}", (f"(K @ {n})", f"(kelvin @ {n})", {"kelvin": 1})
    if kind == 4:
        return f"m/{n}", (f"m/{n}", f"{m}/{n}", dim({"m": 1}))
    return f"lg(re {n} s)", (f"(lg(re {n}·s))", f"(lg(re {n}·{t}))", {"second": 1})


def long(item):
    """Texts in order, each asked for again after `distance` others, of one system or of both."""
    distance, both, up = item
    sy = build()
    viols, n = [], 0
    # One fixed order of asking: all texts, the distant one in between.
    ks = range(N_LONG) if up else range(N_LONG - 1, -1, -1)
    for k in ks:
        for j, which in ((k, "A"), (k - distance if up else k + distance, "B" if both else "A")):
            if not 0 <= j < N_LONG:
                continue
            text, want = long_query(j, which)
            n += 1
            o = obs(lambda: (lambda u: (str(u), u.expanded(), {str(b): e for b, e in u.dimensionality().items()}))(sy[which].unit(text)))
            if o != ("ok", want):
                viols.append(V(f"long:{item}:{which}:{text[:40]}", f"after {n - 1} queries (all texts in order, each again after {distance}): {text!r} of system {which} is {show(o)}, expected {want}"))
                return viols, {}
        if k % 24 == 0:
            from pyudunits2 import Converter

            text = f"{1000 + k} m"
            n += 1
            o = obs(lambda: float(Converter(sy["A"].unit(text), sy["A"].unit("m")).convert(2)))
            if o != ("ok", 2.0 * (1000 + k)):
                return [V(f"long:{item}:conv:{text}", f"after {n - 1} queries: 2 {text!r} is {show(o)} m")], {}
    return viols, {"queries": n, "_edges": {item}, "_states": {item}}


# Registrations that change what spellings denote, between queries.
START = [
    U("base", "bases", ("b",)), U("c", None, ("C",)), U("u", "us", ("U",), definition="2 b"), U("v", None, ("V",), [("vv", None)], definition="3 us/c"), U("w", None, (), [], ("W",), definition="ku.vv"),
    U("x", None, definition="2 q"), U("y", None, definition="u z/v"),
    # (in what order the library looks at the names of a definition isn't specified)
    U("ya", None, definition="ea u"), U("yb", None, definition="u eb"), U("yc", None, definition="v2/ec"), U("yd", None, definition="ed/us"), P("kilo", "1e3", ("k",)),
]
CHANGES = {
    "u=5b": (True, U("u", "us", ("U",), definition="5 b")), "u=7c": (True, U("u", "us", ("U",), definition="7 c")), "v=11U": (True, U("v", None, ("V",), [("vv", None)], definition="11 U")), "c=13b": (True, U("c", None, ("C",), definition="13 b")),
    "b'": (True, U("base", "bases", ("b",), dimensionless=True)), "ku": (False, U("ku", None, definition="17 c")), "k": (False, P("kibi", "1024", ("k",))), "q": (False, U("q", None, definition="19 b")), "z": (False, U("z", None, ("ea", "eb"), [("ec", None), ("ed", None)])),
    "q=u": (True, U("q", None, definition="u")), "taken": (False, U("other", None, ("U",), [("vv", None)], ("W",), definition="23 b")),
}
ASKED = ["u", "us", "U", "v", "vv", "V", "w", "W", "ku", "kw", "2 w/v", "y", "x", "ya", "yb", "yc", "yd", "2 x.y", "u @ 3", "b", "c", "lg(re y)", "kb", "q", "z", "kx"]
SETS = {"none": [], "all": ASKED, "w": ["w"], "V": ["V"], "ku": ["ku"], "y": ["y", "ya"], "fail": None, "x.y": ["2 x.y", "lg(re y)"]}


def changing(item):
    """Queries and registrations taking turns; every answer is what the registrations so far make it."""
    from vlib import sem

    made = list(START)
    sysm = System([u for u in made if isinstance(u, U)], [u for u in made if isinstance(u, P)])
    us = refunits.from_system(sysm)
    held, n, bad, done = [], 0, [], []
    st, ed = set(), set()

    def meaning(s):
        try:
            return sysm.meaning(s)
        except refunits.Unresolvable:
            return None

    def query(words):
        nonlocal n
        for i, s in enumerate(words):
            want = meaning(s)
            n += 1
            o = obs(us.unit, s)
            if want is None:
                if o[0] == "ok" or o[1] != "UnresolvableUnitException":
                    bad.append((s, f"{show(o)}, expected UnresolvableUnitException"))
            elif o[0] != "ok":
                bad.append((s, f"{show(o)}, expected {want}"))
            else:
                held.append((s, o[1], want, sysm.copy(), tuple(done)))
                if i % 2 == len(done) % 2:  # the others are asked for their meaning at the end
                    test(held[-1])

    def test(h):
        s, u, want, at, _ = h
        m = obs(lambda: sem.expanded_meaning(u.expanded(), at))
        if m != ("ok", want):
            bad.append((s, f"{show(m)}, expected {want}"))
        else:
            d = obs(sem.dims_of, u)
            if d != ("ok", want.dims):
                bad.append((s, f"of dimensionality {show(d)}, expected {want.dims}"))

    def verdict():
        return [V(f"changing:{tuple(done)}:{s}", f"after {done or 'nothing'}: {s!r} is {what}") for s, what in bad[:2]]

    for which, change in item:
        if isinstance(which, tuple):  # a text asked for many times in a row
            words, times = [which[0]], which[1]
            for k in range(times):
                u = obs(us.unit, which[0])
                obs(us.unit_by_name_or_symbol, which[0])
                if u[0] == "ok":
                    obs(u[1].expanded), obs(u[1].dimensionality), obs(lambda: u[1] == us.unit("b"))
                    if k % 8 == 0:
                        obs(u[1].is_convertible_to, us.unit("2 b"))
            n += 2 * times
            which = f"{which[0]!r} {times} times"
        else:
            words = SETS[which]
        if words is None:
            words = [s for s in ASKED if meaning(s) is None]
        query(words)
        if words:
            done.append(f"asking for {which}")
        if bad:
            return verdict(), {}
        if change is None:
            continue
        replace, x = CHANGES[change]
        pre = tuple(done)
        if isinstance(x, P):
            sysm.add_prefix(x)
            o, want = obs(us.add_prefix, code_prefix(x)), True
        else:
            want = sysm.add(x, replace=replace)
            o = obs(us.add_unit, code_unit(us, x), replace=replace)
        done.append(f"registering {change}")
        st.add(tuple(done))
        ed.add((pre, change))
        if (o[0] == "ok") != want:
            return [V(f"changing:{tuple(done)}", f"after {done}: {show(o)}, expected {'no error' if want else 'ValueError'}")], {}
    query(ASKED)
    if not bad:
        for h in held:
            test(h)
            if bad:
                return [V(f"changing:{tuple(done)}:{h[0]}:held", f"{h[0]!r} obtained after {list(h[4]) or 'nothing'}, then {done[len(h[4]):]}: it is {bad[0][1]}")], {}
    return verdict(), {"queries": n, "_states": st, "_edges": ed}


def change_items(sets1, sets2, sets3=()):
    """One, two and three changes, with the given sets of queries before each."""
    ch = list(CHANGES)
    out = [((a, x),) for a in SETS for x in ch]
    out += [((a, x), (b, y)) for a in sets1 for b in sets1 for x in ch for y in ch]
    out += [((a, x), (b, y), (c, z)) for a in sets2 for b in sets2 for c in sets2 for x in ch for y in ch for z in ch]
    out += [((a, w), (b, x), (c, y), (d, z)) for a in sets3 for b in sets3 for c in sets3 for d in sets3 for w in ch for x in ch for y in ch for z in ch]
    return out


TIMES = (2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 129)


def hot_items(times, twice):
    """A text many times in a row, a registration, the same text as often again, another one."""
    return [(((s, t), x),) for s in ASKED for t in times for x in CHANGES] + [(((s, t), x), ((s, t), y)) for s in ASKED for t in twice for x in CHANGES for y in CHANGES]


LONG = (1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025)

FUNCTIONS = {"history": history, "order": order, "unrelated": unrelated, "long": long, "changing": changing}


def setup():
    for k, q in enumerate(QUERIES):
        COLD[k] = cold(q)


def main(run):
    setup()
    n = len(QUERIES)
    for k in range(n):
        run.sample(f"{QUERIES[k]} -> {COLD[k]}", 6)
    items = [(a, b, c) for a in range(n) for b in range(n) for c in range(n)]
    items += [(a, a, b, b) for a in range(n) for b in range(n)]
    # all orders of a full pass: every rotation and its reverse
    items += [tuple((i + r) % n for i in range(n)) for r in range(n)] + [tuple((r - i) % n for i in range(n)) for r in range(n)]
    run.map("history", items, timeout=120)
    run.map("order", [(p, m) for p in itertools.permutations(range(len(CHAIN))) for m in range(2 ** (len(CHAIN) - 1)) if not run.quick or bin(m).count('1') in (0, 1, len(CHAIN) - 1)], timeout=60)
    dist = LONG if run.quick else range(1, N_LONG)
    run.map("long", [(d, both, up) for d in dist for both, up in (((False, True), (True, True)) if run.quick else itertools.product((False, True), repeat=2))], timeout=600, chunk=1)
    run.map("changing", change_items(list(SETS), ["all"]) if run.quick else change_items(list(SETS), ["none", "all", "w", "y", "fail"], ["all"]), timeout=60)
    run.map("changing", hot_items(TIMES, ()) if run.quick else hot_items((*range(2, 40), 65, 129, 257, 1025), (2, 9, 33)), timeout=120)
    run.map("unrelated", [(k,) for k in range(n)])
    return run.finish(
        note=f"{n} queries on two systems in one process: all sequences of 3, rotations of all {n}; {N_LONG} different texts in order, each asked for again after {len(LONG)} distances up to 1025 (thorough: every distance), of one system or of the other; all sequences of 1 and 2 of {len(CHANGES)} registrations that change what spellings denote with one of {len(SETS)} sets of queries before each, and of 3 with all queries before each (thorough: 5 sets, and sequences of 4); each of {len(ASKED)} texts asked for {TIMES[0]} to {TIMES[-1]} times in a row before each registration; all {len(list(itertools.permutations(range(len(CHAIN)))))} orders of registering {len(CHAIN)} interdependent entries x all {2 ** (len(CHAIN) - 1)} choices of points to query at (quick: none, one or all)",
        assumptions=["the reference answer of a query is the one a freshly started process gives; C04-C11 decide whether that answer is right"],
    )
