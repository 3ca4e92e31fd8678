"""C28: answers are the same in every process, whatever its hash seed and environment.

The order in which a set (of identifiers, of prefix symbols) is walked is the one
choice Python leaves to chance: it follows from the hash seed of the process.  The
answers are compared over processes with different seeds, until every order of
every set of up to three identifiers has occurred.  The processes differ in the
other things a process inherits as well: the encoding of its locale, its time zone,
the optimisation level, the directory it runs in.
"""
import itertools
import json
import os
import subprocess
import sys

from vlib import boot, refunits
from vlib.mc import V, obs, show

ATOMS = ["m", "second", "km", "degC", "rad", "N", "hours", "g", "K"]
TWO = ["{a} {b}", "{a}/{b}", "{a}^2 {b}^-1 {a}", "({a} @ 3) {b}"]
THREE = ["{a} {b}/{c}", "({a}/{b})^2 {c}^-1"]
XML = """<unit-system>
<prefix><value>{v}</value><name>p</name>{syms}</prefix>
<unit><base/><name><singular>u</singular></name><symbol>U</symbol><aliases>{al}</aliases></unit>
<unit><def>7 u</def><name><singular>{w}</singular><noplural/></name><symbol>W</symbol></unit>
<unit><def>3 {w} u</def><name><singular>z</singular></name>{zs}</unit>
</unit-system>"""
DOCS = [
    dict(v="10", syms="".join(f"<symbol>{s}</symbol>" for s in p), al="".join(f"<symbol>{s}</symbol>" for s in q), w=w, zs="".join(f"<symbol>{s}</symbol>" for s in r))
    for p in (("d", "da"), ("da", "d"), ("d", "da", "dau"), ("x", "xx", "y"))
    for q in (("a", "xu"), ("au", "m"), ())
    for w in ("au", "m", "xu", "am")
    for r in ((), ("u1", "dm"), ("Z", "am2", "xa"))
]
DOC_QUERIES = ["u", "du", "dau", "dam", "dm", "xxu", "xu", "xm", "ddau", "yu", "dW", "daW", "xxW", "z", "pz", "dz", "am", "xam", "daam", "Z", "xxxu", "dU au", "W/u", "z2 u"]


def texts(quick):
    """(text, its identifiers)"""
    out = []
    for a, b in itertools.permutations(ATOMS, 2):
        out += [(t.format(a=a, b=b), (a, b)) for t in (TWO if not quick else TWO[1:3])]
    three = itertools.permutations(ATOMS, 3) if not quick else itertools.combinations(ATOMS, 3)
    for k, (a, b, c) in enumerate(three):
        out += [(t.format(a=a, b=b, c=c), (a, b, c)) for t in (THREE if not quick else THREE[:1])]
    out += [(f"{a} {b}", (a, b)) for a, b in (("nosuch", "m"), ("m", "nosuch"), ("nosuch", "other"), ("Bm", "m"))]
    out += [(f"lg(re {a}/{b})", (a, b)) for a, b in (("m", "K"), ("W", "mW"), ("g", "kg"))]
    out += [(f"({a}/{b}) since 2000-01-01", (a, b)) for a, b in (("s", "rad"), ("hours", "percent"), ("m", "m2"))]
    out += [(f"hours since 2000-0{m}-{d:02d}{t}", ("hours",)) for m, d in ((1, 1), (3, 12), (7, 4)) for t in ("", " 12:00", " 2:30 +1", "T02:30:00Z", " 2:30 -5:30")]
    out += [(s, ()) for s in ("µm", "Ω m²", "°C", "Å", "m·s⁻¹", "′")]
    return list(dict.fromkeys(out))


def battery(quick, part=None):
    """In the child: all answers, and the order in which the sets come."""
    from pyudunits2 import Converter
    from pyudunits2._expr.graph import Identifier
    from . import systems

    import pathlib
    import tempfile

    us = systems.fresh()[1]
    ans, orders = {}, {}
    for s, ids in texts(quick):
        o = obs(us.unit, s)
        if o[0] != "ok":
            ans[s] = o[1]
            continue
        u = o[1]
        r = [str(u), u.expanded(), obs(lambda: str(u.dimensionality()))[:2], obs(u.is_time_unit)[:2], obs(u.is_dimensionless)[:2], type(u).__name__]
        orders[s] = [i.name for i in {Identifier(x) for x in ids}]
        if hasattr(u, "reference_date"):
            ans[s] = r + [str(u.reference_date), str(u.unit)]
            try:
                day = us.unit("days since 2000-03-01 00:00 +1")
                c = Converter(u, day)
                ans[s] += [str(c.expression), str(c.convert(36)), str(Converter(day, u).convert(1.5))]
            except Exception as err:
                ans[s].append(type(err).__name__)
            continue
        if "lg(" not in s and "Bm" not in s:
            base = obs(lambda: us.unit("·".join(f"{k}^{v}" for k, v in sorted((str(k), v) for k, v in u.dimensionality().items())) or "1"))[1]
            for x, y in ((u, base), (base, u)):
                c = obs(Converter, x, y)
                r.append([str(c[1].expression)] + [repr(obs(c[1].convert, v)[:2]) for v in (2, -1.5)] if c[0] == "ok" else c[1])
            r.append([obs(lambda: u == base)[:2], obs(lambda: us.unit(f"({s}) 2") == u)[:2], obs(lambda: us.unit(f"1 ({s})") == u)[:2]])
        ans[s] = r
    with tempfile.TemporaryDirectory() as d:
        from pyudunits2._udunits2_xml_parser import UDUNITS2XMLParser

        for k, doc in enumerate(DOCS):
            p = pathlib.Path(d) / "x.xml"
            p.write_text(XML.format(**doc))
            o = obs(UDUNITS2XMLParser.parse_file, p)
            if o[0] != "ok":
                ans[f"doc {k}"] = o[1]
                continue
            for s in DOC_QUERIES:
                q = obs(lambda: (lambda u: (str(u), u.expanded(), str(u.dimensionality())))(o[1].unit(s)))
                ans[f"doc {k}: {s}"] = q[1] if q[0] != "ok" else list(q[1])
    if part is None:
        from pyudunits2 import UnitSystem
        from vlib import refdb

        db = UnitSystem.from_udunits2_xml()
        for u in refdb.load().units:
            for s in u.spellings():
                q = obs(lambda: (lambda u: (str(u), u.expanded(), str(u.dimensionality())))(db.unit(s)))
                ans[f"db: {s}"] = q[1] if q[0] != "ok" else list(q[1])
    return json.loads(json.dumps([ans, orders], default=str))


def environ(seed):
    """What the process with this hash seed inherits: (variables, options)."""
    if not seed:
        return {}, []
    zone = ("UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30")[seed % 3]
    locale = {} if seed % 2 else {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
    return {"TZ": zone, **locale}, ["-O"] if seed % 4 == 1 else []


def child(seed, quick):
    more, opts = environ(seed)
    env = {k: v for k, v in os.environ.items() if k not in ("LC_ALL", "LANG", "LC_CTYPE", "PYTHONUTF8", "PYTHONIOENCODING", "TZ", "PYTHONOPTIMIZE")}
    env.update(PYTHONHASHSEED=str(seed), LC_ALL="C.UTF-8")
    env.update(more)
    code = f"import sys, json; sys.path.insert(0, {boot.VERIF!r}); sys.dont_write_bytecode = True\nfrom vlib import boot; boot.boot()\nfrom checks import c28\nr = c28.battery({quick!r}); print('\\n@@@' + json.dumps(r))"
    p = subprocess.run([sys.executable, "-B", *opts, "-c", code], capture_output=True, text=True, env=env, cwd="/" if seed % 2 else boot.VERIF, timeout=500)
    if "@@@" not in p.stdout:
        raise RuntimeError(f"the process with hash seed {seed} ended with status {p.returncode}: {p.stderr[-600:]}")
    return json.loads(p.stdout.split("@@@", 1)[1])


BASE = {}


def base(quick):
    if quick not in BASE:
        BASE[quick] = child(0, quick)[0]
    return BASE[quick]


def describe(k):
    if k.startswith("doc "):
        n, s = k[4:].split(": ")
        return f"{s!r} in the document {DOCS[int(n)]}"
    return repr(k)


def seed(item):
    n, quick = item
    want = base(quick)
    got, orders = child(n, quick)
    viols = []
    for k in want:
        if got.get(k) != want[k]:
            viols.append(V(f"seed:{k}", f"{describe(k)} answers {got.get(k)} in the process with PYTHONHASHSEED={n} {environ(n)}, {want[k]} with PYTHONHASHSEED=0"))
    viols = viols[:3]
    return viols, {"_items": len(want), "_states": {(s, tuple(o)) for s, o in orders.items()}, "_edges": {(n, k) for k in want}}


FUNCTIONS = {"seed": seed}


def main(run):
    q = run.quick
    base(q)
    need = {(s, p) for s, ids in texts(q) for p in itertools.permutations(ids)}
    n, step = 1, 24
    while n < (97 if q else 257) and not run.unknown():
        run.map("seed", [(k, q) for k in range(n, n + step)], chunk=1, timeout=600)
        n += step
        open_ = [x for x in need if hash(x) not in run.states and (x[0] in base(q)) and not isinstance(base(q)[x[0]], str)]
        if not open_:
            break
    return run.finish(
        note=f"processes with hash seeds 0 to {n - 1}; {len(need)} (text, order of its identifiers) pairs, of which {len(open_) if not run.unknown() else '?'} did not occur; {len(DOCS)} documents whose prefixes have several symbols, {len(DOC_QUERIES)} queries each; every spelling of the bundled database",
        assumptions=["which of several unknown names an error mentions is left open"],
    )
