"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
T = "explicit-state model checking: "
INFO = {
 "C01": (T + "bounded exhaustive enumeration of token/character sequences in an interpreter of the published grammar, every one replayed on the parser", "model_checking",
   "Exhaustive within the stated bounds; trusts the frozen grammar files and the 300-line ANTLR-semantics interpreter (itself validated by agreeing with the shipped parser on every string explored)."),
 "C02": (T + "bounded exhaustive enumeration of derivations of the grammar, trees and exact numbers compared with the parser's", "model_checking",
   "Exhaustive within the stated bounds; trusts the frozen grammar and the interpreter."),
 "C03": (T + "bounded exhaustive enumeration of sentences and expression trees; text re-parsed and compared in a canonical form", "model_checking",
   "Exhaustive within the stated bounds; canonical form = factors with net exponents."),
 "C22": (T + "exhaustive comparison of the grammar files (interpreted) with the generated lexer/parser over bounded strings: tokens, acceptance, structure", "model_checking",
   "Exhaustive within the stated bounds; trusts the interpreter's ANTLR semantics."),
}
EXTRA = os.path.join(HERE, "info.json")
if os.path.exists(EXTRA):
    for k, v in json.load(open(EXTRA)).items():
        INFO[k] = (T + v[0] if not v[0].startswith("!") else v[0][1:], v[1], v[2])
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in INFO and os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        t, lvl, note = INFO[i]
        cmd = f"/opt/venv/bin/python /verif/check.py {i}"
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick " + cmd, thorough_cmd="VERIF_TIER=thorough " + cmd,
                           evidence_file=f"evidence/{i}.json", technique=t, level=lvl, level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python /verif/tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks use public entry points and trace hooks of the interpreter.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not claimed")
