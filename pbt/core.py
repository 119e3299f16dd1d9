"""Facets (one generator + one oracle), oracle helpers, and the engine which runs a facet with Hypothesis.

A *facet* is a Hypothesis strategy which produces a JSON-able case, and a check function which runs the case against the
code in /repo and compares it with an explicit oracle.  A check function raises Violation when the property is broken, and
otherwise returns a label (a string) which classifies the case; an empty label marks a trivial case.
"""

import hashlib
import json
import os
import signal
import traceback
from collections import Counter

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")  # the environment variable is for development only; ./check clears it


class Violation(AssertionError):
    """The code under test broke the property on the current case."""


class Hang(BaseException):
    """A case did not finish within its budget of processor time."""


class Facet:
    def __init__(self, prop, name, fn, strategy=None, cases=None, n=200, shards=1, rule="", thorough=10):
        self.prop, self.name, self.fn = prop, name, fn
        self.strategy, self.cases = strategy, cases
        self.n, self.shards, self.rule, self.thorough = n, shards, rule, thorough


REGISTRY: dict[str, list[Facet]] = {}


def facet(prop, name, strategy=None, cases=None, n=200, shards=1, rule="", thorough=10):
    """Registers a facet.  strategy: function of no argument returning a Hypothesis strategy; or cases: function of tier
    returning a list of cases, which are all run (a systematic enumeration of generated cases)."""

    def wrap(fn):
        REGISTRY.setdefault(prop, []).append(Facet(prop, name, fn, strategy, cases, n, shards, rule, thorough))
        return fn

    return wrap


# ---------------------------------------------------------------------------------------------------------------------
# Oracle helpers.


def brief(x, limit=260):
    s = np.array2string(x, threshold=12, formatter=dict(float="{:.9g}".format)) if isinstance(x, np.ndarray) else repr(x)
    s = " ".join(s.split())
    return s if len(s) <= limit else s[:limit] + " ..."


def fail(msg):
    raise Violation(msg)


def ensure(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def arr(x, what="result"):
    try:
        a = np.asarray(x)
        if a.dtype == object:
            raise ValueError("object array")
    except Exception as ex:
        raise Violation(f"{what} is not a numeric array: {brief(x)} ({ex})") from None
    return a


def close(got, want, what, rtol=1e-9, scale=None, atol=0.0):
    """got equals want within rtol * scale (+ atol), where scale defaults to the largest magnitude of want (elementwise
    scales may be passed).  NaN and infinity never match anything but themselves."""
    g, w = arr(got, what), np.asarray(want)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape} expected {w.shape}; got {brief(g)} expected {brief(w)}")
    if not w.size:
        return
    if scale is None:
        m = np.abs(w[np.isfinite(w)]) if w.dtype.kind in "fc" else np.abs(w)
        scale = m.max() if m.size else 0.0
    tol = rtol * np.asarray(scale, float) + atol
    with np.errstate(all="ignore"):
        d = np.abs(g - w)
        bad = ~(d <= tol) & ~(g == w)
    if bad.any():
        ii = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation(
            f"{what}: element {ii if len(ii) != 1 else ii[0]} is {g[ii] if ii else g!r} expected {w[ii] if ii else w!r} "
            f"(tolerance {np.broadcast_to(tol, w.shape)[ii]:.3g}, {int(bad.sum())} of {w.size} differ); got {brief(g)} expected {brief(w)}"
        )


def same(got, want, what):
    """Bitwise-tolerant equality used where both sides are produced by the code under test."""
    close(got, want, what, rtol=1e-9)


def raises(exc, fn, what):
    """fn raises one of exc (and returns nothing)."""
    try:
        y = fn()
    except exc:
        return
    except Exception as ex:
        names = getattr(exc, "__name__", str(exc))
        raise Violation(f"{what}: raised {type(ex).__name__}: {ex} expected {names}") from None
    raise Violation(f"{what}: accepted (returned {brief(y)}) expected {getattr(exc, '__name__', exc)}")


def accepted(fn, what):
    try:
        return fn()
    except Exception as ex:
        raise Violation(f"{what}: raised {type(ex).__name__}: {ex}, expected it to be accepted") from None


# ---------------------------------------------------------------------------------------------------------------------
# Engine.


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


CPU_LIMIT_S = 120.0
QUICK = 3  # cases of the quick tier relative to the n of a facet


def _on_timer(signum, frame):
    raise Hang()


def evaluate(f, case):
    """Runs one case.  Returns a label; raises Violation (also for exceptions which escape the code under test, or which
    the oracle hits on a malformed result)."""
    signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_S)
    try:
        with np.errstate(all="ignore"):
            return f.fn(case) or ""
    except Violation:
        raise
    except (MemoryError, RecursionError, KeyboardInterrupt):
        raise
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = [t for t in tb if t.filename.startswith(REPO + "/")]
        at = f" at {where[-1].filename}:{where[-1].lineno}" if where else f" evaluating the result at {tb[-1].filename}:{tb[-1].lineno}"
        raise Violation(f"unexpected {type(ex).__name__}: {str(ex)[:300]}{at}") from ex
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0.0)


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()[:8], "big")


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.labels = Counter()
        self.hashes = set()
        self.samples = []

    def add(self, case, label):
        self.evaluations += 1
        self.labels[label or "trivial"] += 1
        if label:
            h = hashlib.sha1(canonical(case).encode()).digest()[:10]
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 40:
                    self.samples.append(case)


def run_task(task):
    """One shard of one facet.  Returns a plain dict (it crosses a process boundary)."""
    f, tier, seed, shard, shards = task
    import warnings

    warnings.simplefilter("ignore")
    st = Stats()
    out = dict(facet=f.name, failure=None, error=None)
    last = {}

    def one(case):
        try:
            label = evaluate(f, case)
        except (Violation, Hang) as ex:
            last["case"], last["msg"] = case, str(ex) or "no result after %.0f s of processor time" % CPU_LIMIT_S
            raise
        st.add(case, label)

    try:
        if f.cases is not None:
            for ii, case in enumerate(f.cases(tier)):
                if ii % shards == shard:
                    one(case)
        else:
            import hypothesis
            import hypothesis.internal.conjecture.engine as engine
            from hypothesis import HealthCheck, Phase, settings

            engine.MAX_SHRINKING_SECONDS = 40
            n = max(1, int(f.n * QUICK * (f.thorough if tier == "thorough" else 1)) // shards)

            @hypothesis.seed(seed_of(seed, f.prop, f.name, shard))
            @settings(
                max_examples=n,
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                print_blob=False,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.target, Phase.shrink),
                verbosity=hypothesis.Verbosity.quiet,
            )
            @hypothesis.given(f.strategy())
            def test(case):
                one(case)

            test()
    except Hang:
        out["failure"] = dict(last)
    except Violation:
        out["failure"] = dict(last)
    except BaseException as ex:
        name = type(ex).__name__
        if last and (name in ("Flaky", "FlakyFailure", "FlakyReplay", "ExceptionGroup", "BaseExceptionGroup")):
            out["failure"] = dict(case=last["case"], msg=last["msg"] + " (did not reproduce on every execution)")
        else:
            out["error"] = traceback.format_exc()[-4000:]
    out.update(evaluations=st.evaluations, labels=dict(st.labels), hashes=st.hashes, samples=st.samples)
    return out
