"""C09: integral filters."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import close, ensure, facet, raises

ASSUMPTIONS = ["The documented weights are those of the class documentation: 1; 1 1 / 2; 1 4 1 / 6; 1 3 3 1 / 8; 7 32 12 32 7 / 90."]
W = {0: ([1], 1), 1: ([1, 1], 2), 2: ([1, 4, 1], 6), 3: ([1, 3, 3, 1], 8), 4: ([7, 32, 12, 32, 7], 90)}


def weights(o):
    v, q = W[o]
    return np.array(v, float) / q


@st.composite
def cases(draw, hi=300):
    x = draw(gen.signals(1, hi, False))
    return dict(o=draw(st.integers(0, 4)), x=x, cuts=draw(gen.chunkings(x["n"])), spoil=draw(st.booleans()))


def run(case):
    o, x = case["o"], gen.sig(case["x"])
    other = db.IntegralFilter(o)
    a, b = np.array(other.a), np.array(other.b)
    if case["spoil"]:  # another filter of the same order, whose own coefficients are changed in place
        other.a[-1] += 0.5
        other.b[:] *= 3.0
        other.filter([1.0, 2.0])
    try:
        f = db.IntegralFilter(o)
    finally:
        other.a[:], other.b[:] = a, b
    y = np.concatenate([f.filter(v) for v in gen.chunks(x, case["cuts"])])
    w = weights(o)
    L = np.convolve(x.astype(np.longdouble), w.astype(np.longdouble))[: len(x)]
    want, mag = np.cumsum(L).astype(float), np.cumsum(np.convolve(np.abs(x), w)[: len(x)])
    # The state of a direct form accumulates the signal itself.
    mag = mag + np.cumsum(np.abs(x))
    close(y, want, f"integral order {o}", rtol=1e-13 * (8 + len(x) ** 0.5), scale=mag, atol=1e-300)
    if o == 0:
        close(np.diff(np.concatenate(([0.0], y))), x, "first difference of the integral", rtol=1e-13 * (8 + len(x)), scale=mag, atol=1e-300)
    return f"order {o}" if np.any(want) else ""


@facet("C09", "sum", cases, n=1500, shards=3, rule="order x signal x partition; non-trivial when the integral is not zero.")
def sum_(case):
    return run(case)


@facet("C09", "long", lambda: cases(20000), n=120, shards=4, rule="signals to 20000 samples, and some to 140000.")
def long(case):
    return run(case)


@st.composite
def impulses(draw):
    return dict(o=draw(st.integers(0, 4)), at=draw(st.integers(0, 20)), a=draw(st.sampled_from([1.0, -1.0, 3.0, 1e6, 1e-6, 0.1])), n=draw(gen.lengths(6, 1500)), cuts=draw(gen.chunkings()))


@facet("C09", "impulse", impulses, n=300, shards=3, rule="an impulse settles to the sum of the weights and holds; every case is non-trivial.")
def impulse(case):
    o, w = case["o"], weights(case["o"])
    x = np.zeros(case["at"] + o + 1 + case["n"])
    x[case["at"]] = case["a"]
    f = db.IntegralFilter(o)
    y = np.concatenate([f.filter(v) for v in gen.chunks(x, case["cuts"])])
    ensure(not np.any(y[: case["at"]]), "output precedes the impulse")
    want = np.zeros(len(x))
    for k in range(len(x) - case["at"]):
        want[case["at"] + k] = case["a"] * w[: k + 1].sum()
    close(y, want, f"integral order {o} of an impulse", rtol=1e-13)
    held = y[case["at"] + o :]
    ensure(np.all(held == held[0]), "the integral of an impulse drifts")
    return f"order {o}"


def enumerated(tier):
    return [dict(o=o) for o in list(range(-20, 60)) + [0.5, 1.5, 10**6, -(10**6)]]


@facet("C09", "domain", cases=enumerated, rule="orders 0 to 4 are accepted, others rejected; accepted orders are non-trivial.")
def domain(case):
    o = case["o"]
    if o not in W:
        raises(ValueError, lambda: db.IntegralFilter(o), f"IntegralFilter({o})")
        return ""
    f = db.IntegralFilter(order=o)
    close(np.asarray(f.b)[: o + 1], weights(o), "weights", rtol=1e-14)
    ensure(not np.any(np.asarray(f.b)[o + 1 :]), "weights beyond the order")
    return "documented"
