"""Puts the code under test (the working tree of /repo) on the path.

* the tree is imported from source: compiled files lying about in the tree are
  neither read nor written, so that a stale one can never hide an edit;
* `_version.py` is generated by the build and ignored by git: where it is
  missing a stand-in is used (no property is about the version number).
"""
import importlib.util
import os
import pathlib
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = str(pathlib.Path(__file__).resolve().parent.parent)


def deps():
    # Imported first, with their own compiled files.
    import lxml.etree  # noqa: F401
    import numpy  # noqa: F401
    import sympy  # noqa: F401
    import sympy.parsing.sympy_parser  # noqa: F401
    import sympy.core.expr  # noqa: F401
    import argparse, dataclasses, unicodedata, decimal, logging  # noqa: F401,E401


def memo_sympy():
    """sympy's pure functions remember their answers.

    The code under test simplifies the same few differences over and over (a
    basis unit compared with another); sympy is not what is checked here.
    """
    import functools
    import sympy

    for name in ("simplify", "expand", "solve"):
        orig = getattr(sympy, name)
        memo = functools.lru_cache(200_000, typed=True)(orig)

        def wrapper(*a, _orig=orig, _memo=memo, _copy=name == "solve", **kw):
            try:
                r = _memo(*a, **kw)
            except TypeError:
                return _orig(*a, **kw)
            return list(r) if _copy and isinstance(r, list) else r

        functools.update_wrapper(wrapper, orig)
        setattr(sympy, name, wrapper)


def boot(with_deps=True, coop_locks=False):
    if with_deps:
        deps()
        memo_sympy()
    if coop_locks:
        from . import sched

        sched.patch_locks()
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-verif-pycache"
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "pyudunits2", "_version.py")):
        m = types.ModuleType("pyudunits2._version")
        m.__version__ = version = "0.0.0"
        m.version = version
        m.__version_tuple__ = m.version_tuple = (0, 0, 0)
        sys.modules["pyudunits2._version"] = m
    import pyudunits2

    where = os.path.realpath(pyudunits2.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"pyudunits2 was imported from {where}, not from {REPO}")
    return pyudunits2
