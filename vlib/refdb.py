"""The UDUNITS-2 database as data."""
import functools
import json
import os

from . import boot, refunits


def build(d):
    return refunits.System(
        [refunits.U(u["name"], u["plural"], u["symbols"], u["aliases"], u["alias_symbols"], u.get("model", u["definition"]), u["dimensionless"], u["time"]) for u in d["units"]],
        [refunits.P(p["name"], p["value"], p["symbols"]) for p in d["prefixes"]],
    )


@functools.lru_cache(None)
def load():
    with open(os.path.join(boot.VERIF, "model", "refdb.json"), encoding="utf-8") as f:
        return build(json.load(f))
