"""Freezes the UDUNITS-2 database as data (model/refdb.json) and cross-validates it with the C library.

Run by hand, on the base commit's XML; the checks only read the JSON."""
import json, os, subprocess, sys
from fractions import Fraction
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, "tools"))
from lxml import etree
from vlib import refunits as R
base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
xml = subprocess.check_output(["git", "-C", "/repo", "show", base + ":pyudunits2/udunits2_combined.xml"])
root = etree.fromstring(xml)
ln = lambda e: etree.QName(e).localname
kids = lambda e, n: [c for c in e if isinstance(c.tag, str) and ln(c) == n]
txt = lambda e: (e.text or "").strip()
us = [e for e in root.iter() if isinstance(e.tag, str) and ln(e) == "unit-system"][0]
def name(e):
    s = txt(kids(e, "singular")[0]); p = kids(e, "plural")
    return [s, txt(p[0]) if p else None if kids(e, "noplural") else R.plural_of(s)]
out = dict(prefixes=[], units=[])
for p in kids(us, "prefix"):
    out["prefixes"].append(dict(name=txt(kids(p, "name")[0]), value=txt(kids(p, "value")[0]), symbols=[txt(s) for s in kids(p, "symbol")]))
for u in kids(us, "unit"):
    n = kids(u, "name"); nm = name(n[0]) if n else [None, None]
    al = kids(u, "aliases"); a = al[0] if al else []
    d = kids(u, "def")
    out["units"].append(dict(name=nm[0], plural=nm[1], symbols=[txt(s) for s in kids(u, "symbol")],
        aliases=[name(x) for x in a if isinstance(x.tag, str) and ln(x) == "name"],
        alias_symbols=[txt(x) for x in a if isinstance(x.tag, str) and ln(x) == "symbol"],
        definition=txt(d[0]) if d else None, dimensionless=bool(kids(u, "dimensionless")), time=nm[0] == "second"))
# Definitions the grammar cannot read, rewritten for the model.
REWRITE = {"'/60": "arc_minute/60", "cm H2O": "cm conventional_water", "inch water_39F": "inch (gravity 999.972 kg/m^3)", "inch water_60F": "inch (gravity 999.001 kg/m^3)",
  "mm mercury_0C": "mm conventional_mercury", "inch mercury_32F": "inch conventional_mercury", "inch mercury_60F": "inch (gravity 13556.8 kg/m^3)"}
for u in out["units"]:
    if u["definition"] in REWRITE: u["model"] = REWRITE[u["definition"]]
import udlib
from vlib import refdb
sysm = refdb.build(out)
bad = []; nocmp = []; okc = 0
for u in sysm.units:
    for s in u.spellings():
        try: m = sysm.meaning(("id", s))
        except (R.Unresolvable, SyntaxError) as e: bad.append((s, type(e).__name__, str(e))); continue
        if m.odd: print("odd", s, m); continue
        b = " ".join(f"{k}{v}" for k, v in {**m.dims, **m.dless}.items()) or "1"
        z0, z1 = udlib.conv(s, b, 0.0), udlib.conv(s, b, 1.0)
        if not (isinstance(z0, float) and isinstance(z1, float)): nocmp.append((s, z0, b)); continue
        e0, e1 = float(R.convert(0, m, R.Meaning(dims=m.dims))) if m.plain() else None, None
        e0 = m.to_base(Fraction(0) if not m.logs else 0.0); e1 = m.to_base(Fraction(1) if not m.logs else 1.0)
        if abs(float(e1) - z1) > 1e-9 * max(abs(z1), abs(z0)) or abs(float(e0) - z0) > 1e-9 * max(1e-300, abs(z1), abs(z0)): bad.append((s, float(e0), z0, float(e1), z1))
        else: okc += 1
json.dump(out, open(os.path.join(ROOT, "model", "refdb.json"), "w"), ensure_ascii=False, indent=0)
print(len(out["prefixes"]), len(out["units"]), "agree with C:", okc)
print("BAD", len(bad)); [print("  ", x) for x in bad]
print("NOT COMPARABLE", len(nocmp)); [print("  ", x) for x in nocmp]
