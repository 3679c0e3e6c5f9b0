"""Runtime-monitoring core: scenarios, monitors, event accounting, verdicts, evidence.

A *scenario* drives the real code of /repo with one generated workload (a *case*).  While it runs,
the monitors of the property observe what the code did (return values, exceptions, mutated state,
recorded event logs) and evaluate the property's oracle on every observation.  A case is replayable:
its random generator is derived from (property, scenario, VERIF_SEED, case index).
"""
import logging
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

from vmon.shim import ShimMissing

logging.disable(logging.CRITICAL)
try:  # no progress bars in check output
    import functools

    import tqdm as _tqdm

    _tqdm.tqdm.__init__ = functools.partialmethod(_tqdm.tqdm.__init__, disable=True)
except Exception:
    pass
try:
    # PyPy aborts when pandas' C text reader is deallocated: keep every reader alive.
    from pandas._libs import parsers as _parsers

    _KEEP = []
    _TextReader = _parsers.TextReader

    def _kept_reader(*args, **kwargs):
        reader = _TextReader(*args, **kwargs)
        _KEEP.append(reader)
        return reader

    if sys.implementation.name == "pypy":
        _parsers.TextReader = _kept_reader
except Exception:
    pass
QUICK_SHARDS = 6  # processes of a quick run; each runs `quick` cases of every scenario
SCENARIOS = {}  # property -> list of Scenario
RULES = {}
ASSUMPTIONS = {}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Scenario:
    def __init__(self, prop, name, func, quick, thorough):
        self.prop, self.name, self.func = prop, name, func
        self.quick, self.thorough = quick, thorough


def scenario(prop, quick=1, thorough=None, name=None):
    """Register a scenario; quick/thorough are the numbers of cases."""

    def deco(func):
        SCENARIOS.setdefault(prop, []).append(
            Scenario(prop, name or func.__name__, func, quick, thorough or quick)
        )
        return func

    return deco


def rule(prop, text, assumptions=()):
    RULES[prop] = text
    ASSUMPTIONS[prop] = list(assumptions)


class Violation(Exception):
    """Raised to abandon the current case after a violation was recorded."""


class Hang(BaseException):
    """Raised by the watchdog inside a case that does not end."""


CASE_LIMIT = 180  # seconds; the slowest case takes a few
FAST = os.environ.get("VMON_FAST")  # self-tests: stop at the first violation
KNOWN = ()


def _on_alarm(signum, frame):
    raise Hang()


def _short(obj, n=600):
    try:
        s = obj if isinstance(obj, str) else repr(obj)
    except Exception as exc:  # e.g. an object the code left half-built
        s = f"<{type(obj).__name__} without repr: {type(exc).__name__}>"
    return s if len(s) <= n else s[: n - 3] + "..."


class Ctx:
    """One per property run: counts monitored events and collects violations."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cases = 0
        self.oracle_evaluations = 0
        self.events = {}
        self.distinct = set()
        self.samples = []
        self.violations = {}
        self.inconclusive = {}
        self.scn = None
        self.index = None
        self.rng = None
        self._scn_cases = {}

    # -- case bookkeeping -------------------------------------------------------------------
    def begin(self, scn, index):
        self.scn, self.index = scn, index
        self.rng = random.Random(f"{self.prop}|{scn.name}|{self.seed}|{index}")
        self.cases += 1
        self._scn_cases[scn.name] = self._scn_cases.get(scn.name, 0) + 1

    def ev(self, kind, n=1):
        """Count a monitored event."""
        self.events[kind] = self.events.get(kind, 0) + n

    def sig(self, *parts, sample=True):
        """Signature of a non-trivial observation; distinct ones are counted."""
        key = hashlib.blake2b(
            (self.scn.name + "|" + repr(parts)).encode(), digest_size=8
        ).digest()
        if key not in self.distinct:
            self.distinct.add(key)
            if sample:
                have = sum(1 for s in self.samples if s["scenario"] == self.scn.name)
                if have < 2:
                    self.samples.append(
                        {"scenario": self.scn.name, "case": self.index,
                         "observed": _short(parts if len(parts) > 1 else parts[0])}
                    )

    # -- oracle -----------------------------------------------------------------------------
    def fail(self, key, message, /, **detail):
        """Record a violation; `key` names the mechanism (stable, used for known findings)."""
        rec = self.violations.setdefault(key, {"count": 0})
        rec["count"] += 1
        if rec["count"] == 1:
            rec.update(
                key=key, message=message, scenario=self.scn.name, index=self.index,
                seed=self.seed, tier=self.tier,
                detail={k: _short(v) for k, v in detail.items()},
            )

    def check(self, cond, key, message, /, **detail):
        self.oracle_evaluations += 1
        if not cond:
            self.fail(key, message, **detail)
        return bool(cond)

    def require(self, cond, key, message, /, **detail):
        if not self.check(cond, key, message, **detail):
            raise Violation(key)

    def eq(self, got, want, key, message, /, **detail):
        self.oracle_evaluations += 1
        try:
            same = bool(got == want)
        except Exception:
            same = False
        if not same:
            self.fail(key, message, **dict(detail, got=got, want=want))
        return same

    def call(self, key, func, /, *args, **kwargs):
        """Call code that must not raise."""
        try:
            return func(*args, **kwargs)
        except (Violation, ShimMissing):
            raise
        except (Exception, SystemExit) as exc:  # noqa
            self.oracle_evaluations += 1
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-3:]
            self.fail(
                key, f"unexpected {type(exc).__name__}: {_short(str(exc), 200)}",
                where=where, args=args, kwargs=kwargs,
            )
            raise Violation(key)

    def raises(self, key, exc_types, func, /, *args, **kwargs):
        """Call code that must refuse with one of exc_types. Returns True if it did."""
        self.oracle_evaluations += 1
        try:
            got = func(*args, **kwargs)
        except ShimMissing:
            raise
        except exc_types:
            return True
        except (Exception, SystemExit) as exc:
            self.fail(key, f"wrong exception {type(exc).__name__}: {_short(str(exc), 200)}",
                      args=args, kwargs=kwargs, expected=exc_types)
            return False
        self.fail(key, "no error raised", got=got, args=args, kwargs=kwargs, expected=exc_types)
        return False


def run_scenarios(prop, tier, seed, shard=(0, 1), only=None, budget=None):
    ctx = Ctx(prop, tier, seed)
    start = time.time()
    k, n = shard
    scns = SCENARIOS.get(prop, [])
    signal.signal(signal.SIGALRM, _on_alarm)
    cases = []
    for order, scn in enumerate(scns):
        count = min(scn.thorough, scn.quick * QUICK_SHARDS) if tier == "quick" else scn.thorough
        cases += [(index / count, order, scn, index) for index in range(count)]
    cases.sort(key=lambda c: c[:2])
    for _, _, scn, index in cases:
        if only is not None and only != (scn.name, index):
            continue
        if only is None and index % n != k:
            continue
        if only is None and budget and time.time() - start > budget and index >= n:
            ctx.ev("budget_cut:" + scn.name)
            continue
        ctx.begin(scn, index)
        try:
            signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT, 5)
            try:
                scn.func(ctx, ctx.rng, index)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Violation:
            pass
        except Hang:
            signal.setitimer(signal.ITIMER_REAL, 0)
            tb = traceback.extract_tb(sys.exc_info()[2])
            ctx.fail(
                f"hang:{scn.name}", f"no result after {CASE_LIMIT} s",
                where=[f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-6:],
            )
            return ctx, time.time() - start
        except ShimMissing as exc:
            ctx.inconclusive[scn.name + ": " + _short(str(exc), 120)] = (
                ctx.inconclusive.get(scn.name + ": " + _short(str(exc), 120), 0) + 1
            )
        except (Exception, SystemExit) as exc:
            # An exception that reached the scenario. If its innermost frames lie in the code
            # under test it is a failure of the code on valid input, otherwise a harness bug.
            tb = traceback.extract_tb(sys.exc_info()[2])
            if any(is_repo_file(f.filename) for f in tb):
                fr = [f for f in tb if is_repo_file(f.filename)][-1]
                ctx.fail(
                    f"crash:{scn.name}:{type(exc).__name__}:{fr.name}",
                    f"unexpected {type(exc).__name__}: {_short(str(exc), 200)}",
                    where=[f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb][-4:],
                )
            elif isinstance(exc, AttributeError) and "module 'harmonic_inference" in str(exc):
                ctx.inconclusive[_short(str(exc), 120)] = 1
            elif os.environ.get("VMON_DEBUG"):
                raise
            else:
                # The oracle could not even interpret what the code returned.
                ctx.fail(
                    f"uninterpretable:{scn.name}:{type(exc).__name__}",
                    f"result cannot be interpreted: {type(exc).__name__}: {_short(str(exc), 200)}",
                    where=[f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb][-4:],
                )
        if len(ctx.violations) >= 12 or (FAST and set(ctx.violations) - set(KNOWN)):
            return ctx, time.time() - start
    return ctx, time.time() - start


def repo_dir():
    return os.environ.get("REPO_DIR", "/repo")


def is_repo_file(filename):
    return os.path.abspath(filename).startswith(repo_dir() + os.sep)
