"""The engine: bounded exhaustive exploration, replay against the code, evidence.

A check module enumerates items (traces of its model) and a function that
replays one of them against the code under test and returns the differences
from the model.  The engine runs the function over all items in forked
processes.  Nothing is sampled; the seed only rotates the order of the items.
"""
import collections
import concurrent.futures as cf
import gc
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback

from . import boot

VERIF = boot.VERIF


class ItemTimeout(BaseException):
    pass


class HarnessError(Exception):
    """The harness itself is broken: not a verdict about the code."""


def V(key, what, **more):
    """A difference between the code and the model."""
    return dict(key=key, what=what, **more)


def obs(f, *args, **kw):
    """Run a piece of the code under test: ('ok', value) or ('exc', type name, message)."""
    try:
        return ("ok", f(*args, **kw))
    except (ItemTimeout, KeyboardInterrupt):
        raise
    except BaseException as e:  # SystemExit included
        return ("exc", type(e).__name__, str(e)[:160], e)


def isexc(o, *names):
    """Did the observation raise one of the named exception classes (or a subclass)?"""
    return o[0] == "exc" and any(c.__name__ in names for c in type(o[3]).__mro__)


def show(o):
    if o[0] == "ok":
        return f"{o[1]!s:.200}"
    return f"{o[1]}({o[2]})"


def _alarm(signum, frame):
    raise ItemTimeout()


_FN = None
ENOUGH = int(os.environ.get("VERIF_ENOUGH", "25"))  # stop exploring after so many violations


def _work(fname, chunk, timeout):
    fn = _FN[fname]
    out = []
    states = set()
    edges = set()
    counts = collections.Counter()
    signal.signal(signal.SIGALRM, _alarm)
    for item in chunk:
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            try:
                viols, c = fn(item)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except ItemTimeout:
            viols, c = [V(f"hang:{item!r}", f"no answer within {timeout} s on {item!r}")], {}
        except HarnessError:
            raise
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException:
            # The code gave something the replay could not even look at.
            tb = traceback.format_exc()
            viols, c = [V(f"unexpected:{item!r}", f"{item!r}: {tb[-700:]}")], {}
        for v in viols:
            v.setdefault("item", item)
            v["fn"] = fname
            out.append(v)
        c = dict(c)
        states |= c.pop("_states", set())
        edges |= c.pop("_edges", set())
        n_items = c.pop("_items", 1)
        counts.update(c)
        counts["_items"] += n_items
    return out, counts, {hash(x) for x in states}, {hash(x) for x in edges}


class Run:
    def __init__(self, pid, functions, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.counts = collections.Counter()
        self.extra = {}
        self.samples = []
        self.viols = []
        self.states = set()  # hashes of the distinct model states met
        self.edges = set()  # ... and of the transitions between them
        self.capped = None
        self.deadline = self.t0 + float(os.environ.get("VERIF_DEADLINE", "600" if self.quick else "7200"))
        self.findings = load_findings(pid)
        self.functions = functions
        self.nproc = int(os.environ.get("VERIF_PROCS", "0")) or max(1, min(8, os.cpu_count() or 1))

    # -- exploration -------------------------------------------------------
    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s if isinstance(s, str) else json.loads(json.dumps(s, default=str)))

    def unknown(self):
        return [v for v in self.viols if v["key"] not in self.findings]

    def map(self, fname, items, chunk=None, timeout=60.0, enough=ENOUGH, counter="traces_validated_against_impl"):
        """Replay every item with functions[fname]; collect the violations."""
        global _FN
        _FN = self.functions
        items = list(items)
        if not items or len(self.unknown()) >= enough:
            return
        t_map = time.time()
        if self.samples == [] or len(self.samples) < 12:
            for i in (0, len(items) // 2, len(items) - 1):
                self.sample(f"{fname}: {items[i]!r:.300}")
        if chunk is None:
            chunk = max(1, min(200, len(items) // (self.nproc * 8) or 1))
        # Interleave, so that expensive neighbours don't land in one chunk.
        n = (len(items) + chunk - 1) // chunk
        chunks = [items[i::n] for i in range(n)]
        r = self.seed % n
        chunks = chunks[r:] + chunks[:r]
        done = 0
        gc.collect()
        gc.freeze()
        sys.stdout.flush()
        sys.stderr.flush()
        if self.nproc == 1 or len(items) == 1:
            for c in chunks:
                self._merge(*_work(fname, c, timeout), counter)
                if len(self.unknown()) >= enough:
                    break
            self._timed(fname, t_map)
            return
        ctx = multiprocessing.get_context("fork")
        with cf.ProcessPoolExecutor(self.nproc, mp_context=ctx) as ex:
            todo = iter(chunks)
            live = set()
            stop = False
            while True:
                while not stop and len(live) < self.nproc * 3:
                    c = next(todo, None)
                    if c is None:
                        break
                    live.add(ex.submit(_work, fname, c, timeout))
                if not live:
                    break
                fin, live = cf.wait(live, return_when=cf.FIRST_COMPLETED)
                for f in fin:
                    v, k, *st = f.result()
                    done += k.get("_items", 0)
                    self._merge(v, k, *st, counter)
                if len(self.unknown()) >= enough:
                    stop = True
                if time.time() > self.deadline and not stop:
                    stop = True
                    self.capped = f"{fname}: time cap reached after {done} cases (of {len(items)} batches)"
        self._timed(fname, t_map)

    def _timed(self, fname, t):
        if os.environ.get("VERIF_TIMES"):
            print(f"  {fname}: {time.time() - t:.1f} s", flush=True)

    def _merge(self, v, k, states, edges, counter):
        self.viols += v
        self.states |= states
        self.edges |= edges
        k = dict(k)
        self.counts[counter] += k.pop("_items", 0)
        self.counts.update(k)

    def violation(self, key, what, **more):
        self.viols.append(V(key, what, **more))

    # -- verdict -----------------------------------------------------------
    def finish(self, states=None, transitions=None, assumptions=(), note=None):
        if states is not None:
            self.counts["states"] += states
        if self.states:
            self.counts["states"] += len(self.states)
        if transitions is not None:
            self.counts["transitions"] += transitions
        if self.edges:
            self.counts["transitions"] += len(self.edges)
        known, unknown, seen = {}, [], set()
        for v in self.viols:
            if v["key"] in self.findings:
                known[v["key"]] = v
            elif v["key"] not in seen:
                seen.add(v["key"])
                unknown.append(v)
        for key in known:
            print(f"KNOWN-FINDING: property={self.pid} {self.findings[key]}")
        rdir = os.path.join(VERIF, "replays")
        lines = []
        if unknown:
            os.makedirs(rdir, exist_ok=True)
            unknown.sort(key=lambda v: (len(str(v.get("item", ""))), len(str(v["what"])), v["key"]))
            for i, v in enumerate(unknown[:5]):
                path = os.path.join(rdir, f"{self.pid}-{i}.json")
                with open(path, "w") as f:
                    json.dump(dict(property=self.pid, **v), f, indent=1, ensure_ascii=False, default=str)
                lines.append(f"VIOLATION property={self.pid} replay={path}")
                print(f"  {v['key']}: {v['what']}"[:600])
        cov = {k: v for k, v in sorted(self.counts.items())}
        cov.setdefault("states", 0)
        cov.setdefault("transitions", 0)
        cov.setdefault("traces_validated_against_impl", 0)
        cov["samples"] = self.samples
        cov["exhaustive"] = self.capped is None and len(unknown) == 0
        if self.capped:
            cov["cap"] = self.capped
        if note:
            cov["bounds"] = note
        cov.update(self.extra)
        ev = dict(
            property=self.pid, tier=self.tier if self.tier in ("quick", "thorough") else "quick",
            seed=self.seed, level=self.level, coverage=cov, assumptions=list(assumptions),
            wall_s=round(time.time() - self.t0, 2), violations=len(unknown),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        print(
            f"{self.pid} {self.tier}: states={cov['states']} transitions={cov['transitions']} "
            f"traces={cov['traces_validated_against_impl']} known={len(known)} "
            f"violations={len(unknown)} {ev['wall_s']} s" + (f" CAPPED: {self.capped}" if self.capped else "")
        )
        for l in lines:
            print(l)
        sys.stdout.flush()
        return 1 if unknown else 0


def load_findings(pid):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(.*?) \| (.*)$", line.rstrip("\n"))
            if m and m.group(1) == pid:
                out[m.group(2)] = f"{m.group(3)}"
    return out
