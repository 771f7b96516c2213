"""The engine: registry of checks, generated search with Hypothesis, replay files, evidence.

A check is (property, strategy, function).  The strategy generates one *case*: plain JSON data.  The function runs the
code under test on the case and compares it with an oracle; it raises Violation if the property does not hold.  Because
a case is plain data, a shrunk failing case is the replay file, and replaying it needs no generator.
"""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import traceback
import warnings

import numpy as np

REPO = os.path.realpath(os.environ.get("VP_REPO", "/repo"))
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)


class Violation(Exception):
    """The property does not hold for the case."""


class HarnessError(Exception):
    """The check itself is broken: never reported as a violation."""


class Check:
    def __init__(self, prop, name, strategy, fn, quick, thorough, shards, rule):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.shards, self.rule = quick, thorough, shards, rule


REGISTRY = {}
RULES = {}


def check(prop, strategy, quick=400, thorough=None, shards=2, rule=""):
    """Register a check function.  rule: what makes a case non-trivial (the function calls ctx.nontrivial)."""
    def deco(fn):
        c = Check(prop, fn.__name__, strategy, fn, quick, thorough or quick * 20, shards, rule)
        REGISTRY.setdefault(prop, []).append(c)
        return fn
    return deco


class Ctx:
    """What a check function reports about a case."""

    def __init__(self):
        self.is_nontrivial = True
        self.labels = []

    def nontrivial(self, value=True):
        self.is_nontrivial = bool(value)

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


# --------------------------------------------------------------------------------------------- assertions

def fail(message):
    raise Violation(message)


def require(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


def short(x):
    try:
        s = np.array2string(np.asarray(x), precision=12, threshold=24) if not isinstance(x, (str, dict)) else repr(x)
    except Exception:
        s = repr(x)
    return s if len(s) < 600 else s[:600] + "..."


def close(got, want, tol, what, nan_ok=True):
    """got equals want (shape and values) within the absolute tolerance tol (scalar or array); nan has to match nan."""
    try:
        g = np.asarray(got, dtype=float)
    except Exception:
        raise Violation("%s: not numeric: %s" % (what, short(got)))
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation("%s: has shape %s, expected %s (got %s, expected %s)" % (what, g.shape, w.shape, short(g), short(w)))
    if g.size == 0:
        return
    gn, wn = np.isnan(g), np.isnan(w)
    if not np.array_equal(gn, wn):
        raise Violation("%s: nan entries differ: got %s, expected %s" % (what, short(g), short(w)))
    if wn.any() and not nan_ok:
        raise HarnessError("reference is nan: %s" % what)
    with np.errstate(all="ignore"):
        same_inf = np.isinf(w) & (g == w)
        bad = ~(gn | same_inf | (np.abs(g - w) <= tol))
    if bad.any():
        i = tuple(np.argwhere(bad)[0]) if bad.ndim else ()
        t = np.broadcast_to(np.asarray(tol, dtype=float), w.shape)[i]
        raise Violation("%s: differs at %s: got %r, expected %r, tolerance %g (got %s, expected %s)" % (
            what, list(map(int, i)), float(g[i]), float(w[i]), float(t), short(g), short(w)))


def layouts(fn, points, want, tol, what):
    """fn gives the same results for the points as lists of as many points as coordinates, and as grids (square and not square)"""
    points, want = np.asarray(points, dtype=float), np.asarray(want, dtype=float)
    tol = np.broadcast_to(np.asarray(tol, dtype=float), want.shape)
    d = points.shape[-1]
    for shape in ((d,), (2, 2), (d, d), (3, 2), (1, 2, 2)):
        n = int(np.prod(shape))
        if n <= len(points):
            close(fn(points[:n].reshape(shape + (d,)).copy()), want[:n].reshape(shape + want.shape[1:]), 2 * tol[:n].reshape(shape + want.shape[1:]), "%s, arranged as %s" % (what, shape))


def shape_is(x, shape, what):
    s = np.shape(x)
    require(tuple(s) == tuple(shape), "%s: has shape %s, expected %s", what, s, shape)


def raises(fn, what, *exceptions):
    """fn() has to raise (an exception of the types, by default any Exception)."""
    try:
        with quiet():
            result = fn()
    except (exceptions or (Exception,)):
        return
    except Exception as err:
        raise Violation("%s: raised %s instead of %s" % (what, type(err).__name__, exceptions))
    raise Violation("%s: was accepted, returned %s" % (what, short(result)))


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def arr(x):
    return np.array(x, dtype=float)


# --------------------------------------------------------------------------------------------- running one case

def _touches_repo(tb):
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


CASE_LIMIT = 90  # seconds; a case takes milliseconds, at most a few seconds


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def run_case(chk, case, ctx=None):
    """Run one case. Raises Violation or HarnessError."""
    ctx = ctx or Ctx()
    np.random.seed(12345)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        try:
            with quiet():
                chk.fn(case, ctx)
        finally:
            signal.alarm(0)
    except Hang:
        raise Violation("no result after %d seconds" % CASE_LIMIT)
    except (Violation, HarnessError):
        raise
    except Exception as err:
        # an exception that comes out of the code under test for an input it has to accept
        if _touches_repo(err.__traceback__):
            text = "".join(traceback.format_exception(type(err), err, err.__traceback__)[-6:])
            raise Violation("the code under test raised %s: %s\n%s" % (type(err).__name__, err, text))
        text = "".join(traceback.format_exception(type(err), err, err.__traceback__))
        if isinstance(err, (TypeError, ValueError, IndexError, KeyError, AttributeError)):
            # the check functions are total for well-formed results: the result has the wrong type or shape
            raise Violation("the result of the code under test has the wrong form: %s" % text)
        raise HarnessError(text)
    return ctx


def dumps(case):
    return json.dumps(case, sort_keys=True)


def search(chk, seed, examples, collect_samples=3):
    """Generated search with one check. Returns a dict with the counts and, maybe, the violation."""
    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck
    import hypothesis.internal.conjecture.engine as engine
    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = 40

    stats = dict(check=chk.name, evaluations=0, nontrivial_hashes=set(), labels={}, samples=[], history=[],
                 violation=None, error=None)
    last = {}

    def body(case):
        text = dumps(case)
        case = json.loads(text)
        stats["evaluations"] += 1
        if "case" not in last and len(stats["history"]) < 20000:
            stats["history"].append(text)
        ctx = Ctx()
        try:
            run_case(chk, case, ctx)
        except Violation as err:
            last.update(case=case, message=str(err))
            raise
        if "case" in last:
            return
        for l in ctx.labels:
            stats["labels"][l] = stats["labels"].get(l, 0) + 1
        if ctx.is_nontrivial:
            stats["nontrivial_hashes"].add(hashlib.blake2b(text.encode(), digest_size=8).digest())
            n = len(stats["nontrivial_hashes"])
            if n in (3, 20, 90) and len(stats["samples"]) < collect_samples:
                stats["samples"].append(case)

    test = given(chk.strategy)(body)
    test = settings(max_examples=examples, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.target) + (() if os.environ.get("VP_NOSHRINK") else (Phase.shrink,)), print_blob=False,
                    suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(seed)(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            test()
    except HarnessError as err:
        stats["error"] = str(err)
    except Violation:
        pass
    except BaseException as err:
        if isinstance(err, (KeyboardInterrupt, SystemExit)):
            raise
        # e.g. Flaky: the failure depends on the history of cases; it is a failure nevertheless
        if "case" not in last:
            stats["error"] = "".join(traceback.format_exception(type(err), err, err.__traceback__))
    if "case" in last and stats["error"] is None:
        stats["violation"] = dict(case=last["case"], message=last["message"], alone=True)
        try:
            run_case(chk, last["case"])
            stats["violation"]["alone"] = False
        except Violation as err:
            stats["violation"]["message"] = str(err)
        except HarnessError as err:
            stats["error"] = str(err)
    if not (stats["violation"] and not stats["violation"]["alone"]):
        stats["history"] = []
    return stats
