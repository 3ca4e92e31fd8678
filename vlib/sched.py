"""Exploration of one execution's scheduling points, by forking at each of them.

An execution of the code under test is run with the interpreter's line
monitoring on.  At every line of the chosen code (a *point*) the process forks:
the child does something there (lets another thread run, raises an exception)
and then runs on to its end, where it is judged; the parent goes on to the next
point.  So every point of the execution is explored, from exactly the state in
which the execution is there.
"""
import gc
import importlib
import os
import pickle
import pkgutil
import select
import signal
import sys
import threading
import time
import types

from . import boot
from .mc import obs

TOOL = 4
PKG = os.path.join(os.path.realpath(boot.REPO), "pyudunits2") + os.sep
RUNTIME = PKG + os.path.join("_grammar", "_antlr4_runtime") + os.sep

_real_Lock, _real_RLock = threading.Lock, threading.RLock
blocked_hook = None  # called by a thread that is about to wait for a lock


class CoopLock:
    """A lock that tells the scheduler when a thread has to wait for it."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        if blocked_hook is not None:
            blocked_hook()
        return self._real.acquire(True, timeout)

    def release(self):
        self._real.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, k):
        return getattr(self._real, k)


def patch_locks():
    """Locks which the code under test creates are cooperative (call before importing it)."""

    def make(real):
        def factory(*a, **k):
            f = sys._getframe(1).f_code.co_filename
            lock = real(*a, **k)
            return CoopLock(lock) if f.startswith(PKG) or f == "<string>" else lock

        return factory

    threading.Lock, threading.RLock = make(_real_Lock), make(_real_RLock)


_codes = {}


def codes():
    """All code objects of the library -> 'own' | 'parser' (generated) | 'runtime' (ANTLR)."""
    if _codes:
        return _codes
    import pyudunits2

    for m in pkgutil.walk_packages(pyudunits2.__path__, "pyudunits2."):
        if ".tests" in m.name or m.name.endswith(("compile", "StdinStream", "FileStream")):
            continue
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass

    def walk(c):
        if c in _codes:
            return
        f = os.path.realpath(c.co_filename)
        if not f.startswith(PKG):
            return
        rel = f[len(PKG):]
        _codes[c] = "runtime" if f.startswith(RUNTIME) else "parser" if rel.startswith(os.path.join("_grammar", "parser")) else "own"
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            walk(o.__code__)
    return _codes


class Monitor:
    """Line events of the given kinds of code, on all threads."""

    def __init__(self, kinds, cb):
        m = sys.monitoring
        m.use_tool_id(TOOL, "verif") if m.get_tool(TOOL) is None else None
        m.register_callback(TOOL, m.events.LINE, cb)
        self.on = [c for c, k in codes().items() if k in kinds]
        for c in self.on:
            m.set_local_events(TOOL, c, m.events.LINE)

    def stop(self):
        m = sys.monitoring
        m.register_callback(TOOL, m.events.LINE, None)
        for c in self.on:
            m.set_local_events(TOOL, c, 0)


def where(code, line):
    return f"{os.path.relpath(code.co_filename, PKG)}:{line} ({code.co_name})"


def in_child(f, timeout=120.0):
    """f() in a forked process: ('ok', value) | ('dead', status) | ('hang',)"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            gc.disable()  # a collection would copy the pages shared with the parent
            send(w, f())
        except BaseException:
            import traceback

            traceback.print_exc()
            os._exit(3)
        os._exit(0)
    os.close(w)
    return receive(r, pid, timeout)


def send(w, value):
    data = pickle.dumps(value)
    while data:
        data = data[os.write(w, data):]
    os.close(w)


def receive(r, pid, timeout):
    data, t1 = b"", time.time() + timeout
    hang = False
    while True:
        left = t1 - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            hang = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if hang:
        return ("hang",)
    if st or not data:
        return ("dead", st)
    return ("ok", pickle.loads(data))


def explore(ctx, main, kinds, variants, at_point, finish, timeout=30.0):
    """Run main(ctx); at each point fork a child for each of variants(n, code, line),
    which calls at_point(ctx, variant) there (that may raise into the code) and, when
    main is over, gives finish(ctx, variant, observation of main).  A result with a
    true "stop" ends the variants of that point.
    -> ([(n, where, variant, result)], number of points, observation of main in the undisturbed run)
    """
    n = 0
    me = {"child": None, "busy": False}
    results = []

    def cb(code, line):
        nonlocal n
        if me["child"] is not None or me["busy"]:
            return
        i = n
        n += 1
        vs = variants(i, code, line)
        if not vs:
            return
        me["busy"] = True
        for v in vs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                me["child"] = w
                me["variant"] = v
                mon.stop()
                at_point(ctx, v)
                return
            os.close(w)
            got = receive(r, pid, timeout)
            results.append((i, where(code, line), v, got))
            if got[0] == "ok" and isinstance(got[1], dict) and got[1].get("stop"):
                break
        me["busy"] = False

    mon = Monitor(kinds, cb)
    a = obs(main, ctx)
    if me["child"] is not None:
        try:
            send(me["child"], finish(ctx, me["variant"], a))
        except BaseException:
            import traceback

            traceback.print_exc()
            os._exit(3)
        os._exit(0)
    mon.stop()
    return results, n, a


def points(ctx, main, kinds):
    """The points of one undisturbed execution: [(code, line)]."""
    out = []
    mon = Monitor(kinds, lambda code, line: out.append((code, line)))
    a = obs(main, ctx)
    mon.stop()
    return out, a


# -- the shared state of the ANTLR runtime ------------------------------------------


def parser_state():
    """A fingerprint of what parses share: the DFAs, the context caches, the ATN's memo."""
    out = []
    try:
        from pyudunits2 import _grammar as g

        classes = [getattr(g, n, None) for n in ("udunits2Lexer", "udunits2Parser")]
    except ImportError:
        return None
    for c in classes:
        if c is None:
            return None
        for d in getattr(c, "decisionsToDFA", ()):
            out.append(len(d._states) if hasattr(d, "_states") else len(d.states))
            s0 = getattr(d, "s0", None)
            out.append(id(s0))
            for s in list(d.states):
                e = s.edges
                out.append(0 if e is None else len(e) - e.count(None))
                out.append((s.isAcceptState, s.prediction, len(s.configs) if s.configs is not None else 0))
        cache = getattr(c, "sharedContextCache", None)
        if cache is not None:
            out.append(len(cache))
        out.append(sum(1 for s in c.atn.states if s is not None and getattr(s, "nextTokenWithinRule", None) is not None))
    return hash(tuple(out))


def shared_changes(main, step=150):
    """Numbers of the runtime lines before which, and after which, a parse changes what parses share.

    Found in two runs (each in its own process): every step-th line first, then
    every line of the stretches in which something changed.
    """

    def coarse():
        marks, n = [], 0

        def cb(code, line):
            nonlocal n
            if n % step == 0:
                marks.append(parser_state())
            n += 1

        mon = Monitor(("runtime", "parser", "own"), cb)
        obs(main)
        mon.stop()
        marks.append(parser_state())
        return marks, n

    if parser_state() is None:
        return [], 0
    got = in_child(coarse, 300)
    if got[0] != "ok":
        return [], 0
    marks, total = got[1]
    hot = {i for i in range(len(marks) - 1) if marks[i] != marks[i + 1]}

    def fine():
        out, n, last = [], 0, None

        def cb(code, line):
            nonlocal n, last
            if n // step in hot or (n % step == 0 and (n // step - 1) in hot):
                s = parser_state()
                if last is not None and s != last:
                    out.extend((n - 1, n))
                last = s
            else:
                last = None
            n += 1

        mon = Monitor(("runtime", "parser", "own"), cb)
        obs(main)
        mon.stop()
        return sorted(set(out))

    got = in_child(fine, 600)
    return (got[1] if got[0] == "ok" else []), total
