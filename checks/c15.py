"""C15: registration: unique names, atomic refusal, fixed precedence."""
import itertools

from vlib import refunits
from vlib.mc import V, obs, isexc, show
from vlib.refunits import U, P, System, code_unit, code_prefix
from .c06 import judge

# Everything is defined by a number times b (never touched), so that a meaning names its unit.
POOL = {
    "u1": lambda: U("p", "ps", ("s",), definition="3 b"),
    "u2": lambda: U("q", "p", (), definition="5 b"),
    "u3": lambda: U("r", None, ("t", "s"), definition="7 b"),
    "u4": lambda: U("v", None, (), [("p", "x")], ("s",), definition="11 b"),
    "u5": lambda: U("w", "ws", (), [("x", None), ("p", "q")], ("t", "p"), definition="13 b"),
    "u6": lambda: U(None, None, ("t", "x"), definition="17 b"),
    "u7": lambda: U("x", "r", ("p",), definition="19 b"),
    "u8": lambda: U("y", "ys", ("s",)),
    "u9": lambda: U("kp", None, ("kb",), [("ps", None)], definition="23 b"),
    "u10": lambda: U("z", None, ("p",), [("q", "s")], ("y", "ps"), definition="29 b"),
    "u11": lambda: U("o", None, (), [("w", None)], ("y", "t", "ks"), definition="31 b"),
    "u12": lambda: U("o", "q", ("kb",), [("x", "ws")], ("y", "ks"), definition="37 b"),
}
PREFIXES = {
    "p1": P("k", "2e1", ("p",)),
    "p2": P("p", "3e1", ("k",)),
    "p3": P("k", "5e1"),
    "p4": P("s", "7e1", ("ks", "q")),
}
WORDS = ["p", "ps", "s", "q", "r", "t", "v", "x", "w", "ws", "y", "ys", "z", "kp", "kb", "b", "base", "pb", "pp", "ks", "kps", "ksb", "qb", "sb", "ss", "kks", "kt", "py", "kpy", "kkb", "k", "sx", "kx", "pbs", "o", "ko", "nope"]


def judge_all(sysm, us, key, what):
    viols = []
    for s in WORDS:
        v, r = judge(sysm, us, s, False, f"{key}:{s}")
        for x in v:
            x["what"] = f"{what}: {x['what']}"
        viols += v
    return viols


def apply(op, sysm, us):
    """One registration, in the model and in the code: a violation or None."""
    kind, name = op
    if kind == "prefix":
        sysm.add_prefix(PREFIXES[name])
        o = obs(us.add_prefix, code_prefix(PREFIXES[name]))
        if o[0] != "ok":
            return f"registering prefix {name} raised {show(o)}"
        return None
    u = POOL[name]()
    want = sysm.add(u, replace=kind == "replace")
    c = code_unit(us, u)
    o = obs(us.add_unit, c, replace=True) if kind == "replace" else obs(us.add_unit, c)
    if want and o[0] != "ok":
        return f"{kind} {name} ({u.spellings()}) raised {show(o)}"
    if not want and not isexc(o, "ValueError"):
        return f"{kind} {name} ({u.spellings()}) should raise ValueError, gave {show(o)}"
    return None


def history(item):
    """A sequence of registrations; look = also look everything up after each step."""
    ops, look = item
    sysm = System([U("base", "bases", ("b",))])
    us = refunits.from_system(sysm)
    st, ed = set(), set()
    for i, op in enumerate(ops):
        pre = state(sysm)
        bad = apply(op, sysm, us)
        post = state(sysm)
        st.add(post)
        ed.add((pre, op, post))
        if bad:
            return [V(f"{ops[:i + 1]}", f"after {ops[:i]}: {bad}")], {}
        if look or i == len(ops) - 1:
            sysm.__dict__.pop("_texts", None)
            viols = judge_all(sysm, us, f"{ops[:i + 1]}:{look}", f"after {ops[:i + 1]}{' (looked up after each step)' if look else ''}")
            if viols:
                return viols[:2], {}
    return [], {"lookups": len(WORDS) * (len(ops) if look else 1), "_states": st, "_edges": ed}


def state(sysm):
    return tuple(tuple(sorted((k, v.definition or v.ref) for k, v in d.items())) for d in (sysm.n, sysm.a, sysm.s, sysm.as_)) + tuple(tuple((k, v.value) for k, v in d.items()) for d in (sysm.pn, sysm.ps))


def word(k):
    return "".join("bcdfghjklmnpqrst"[(k >> sh) & 15] for sh in (8, 4, 0))


SIZE = 1100


def big(item):
    """A system that grows to more than a thousand entries; after each registration, look-ups of new and old ones."""
    style, dist, every = item
    sysm = System([U("base", "bases", ("b",))])
    us = refunits.from_system(sysm)
    n, fresh = 0, []
    for k in range(SIZE):
        w, old = word(k), word(max(k - dist, 0))
        replace, ref = False, ["base", "b", f"{old}i" if k > dist and style != "replace" else "bases"][k % 3]
        u = U(f"{w}i", f"{w}ies" if k % 2 else None, (w.upper(),), [(f"{w}o", None)] if k % 3 else [], (f"{w}U",) if k % 5 == 0 else (), definition=f"{k + 2} {ref}")
        if k >= dist and k % 3 == 2:
            if style == "taken":  # a primary name or symbol that is taken already
                u = U(f"{old}i" if k % 2 else f"{w}i", None, (old.upper(),), [(f"{w}o", None)], definition=f"{k + 2} base")
            elif style == "replace":
                u, replace = U(f"{old}i", None, (old.upper(),), [(f"{w}o", None)], definition=f"{k + 2} base"), True
            elif style == "alias":  # an alias that is taken already
                u = U(f"{w}i", None, (w.upper(),), [(f"{old}o", None), (f"{old}i", None)], (f"{old}U", old.upper()), definition=f"{k + 2} base")
        if k % 40 == 7:
            sysm.add_prefix(P(f"{w}e", str(k + 2), (f"{w}a",)))
            us.add_prefix(code_prefix(P(f"{w}e", str(k + 2), (f"{w}a",))))
        want, o = sysm.add(u, replace=replace), obs(us.add_unit, code_unit(us, u), replace=replace)
        if (o[0] == "ok") != want or not want and not isexc(o, "ValueError"):
            return [V(f"big:{item}:{k}", f"{style}: registering entry {k} ({u.spellings()}): {show(o)}, expected {'no error' if want else 'ValueError'}")], {}
        sysm.__dict__.pop("_texts", None)
        last = word(max(k - k % 40 + 7 if k % 40 >= 7 else 7, 7))
        words = [f"{w}i", w.upper(), f"{w}ies", f"{w}o", f"{w}U", f"{old}i", old.upper(), f"{old}o", f"{old}U", f"{last}e{old}i", f"{last}a{w.upper()}", f"{word(7)}ebase", f"{word(k + 1)}i"]
        if k % every == 0:
            words += [f"{word(j)}{e}" for j in range(0, k, 7) for e in "io"]
        for s in words:
            n += 1
            v, _ = judge(sysm, us, s, False, f"big:{item}:{s}")
            if v:
                v[0]["what"] = f"after {k + 1} registrations ({style}, {dist} apart): {v[0]['what']}"
                return v[:1], {}
    return [], {"lookups": n, "_states": {item, k}, "_edges": {item}}


FUNCTIONS = {"history": history, "big": big}


def main(run):
    q = run.quick
    ops = [("add", n) for n in POOL] + [("replace", n) for n in POOL] + [("prefix", n) for n in PREFIXES]
    items = []
    for d in (1, 2):
        for seq in itertools.product(ops, repeat=d):
            items += [(seq, True), (seq, False)]
    for seq in itertools.product(ops, repeat=3):
        items += [(seq, False), (seq, True)]
    run.map("history", items, timeout=60)
    run.map("big", list(itertools.product(("plain", "taken", "replace", "alias"), (1, 17, 100, 300) if q else (1, 2, 5, 17, 64, 100, 128, 300, 1000), (255, 300))), timeout=300, chunk=1)
    if not q:
        few = [("add", n) for n in ("u1", "u3", "u4", "u5", "u7", "u10")] + [("replace", n) for n in ("u1", "u2", "u4", "u7", "u8", "u10")] + [("prefix", n) for n in ("p1", "p2", "p4")]
        run.map("history", [(seq, True) for seq in itertools.product(few, repeat=4)], timeout=60)
    return run.finish(
        note=f"all sequences of up to 3 registrations (thorough also 4 of 15) among {len(ops)} (add, add with replace, add prefix) whose spellings collide in every role; systems growing to {SIZE} entries, look-ups of new and old ones after each registration; {len(WORDS)} words looked up at the end, or after every step, each compared with the model",
        assumptions=["a spelling with several one-prefix readings may denote any of them"],
    )
