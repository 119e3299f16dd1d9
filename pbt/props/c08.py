"""C08: derivative filters."""

import math
from fractions import Fraction

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt.core import close, ensure, facet, raises

ASSUMPTIONS = ["The documented tables are those of the class documentation, transcribed here as exact fractions."]

TABLE = {
    (1, 1): ([1, -1], 1),
    (1, 2): ([1, 0, -1], 2),
    (1, 4): ([-1, 8, 0, -8, 1], 12),
    (2, 2): ([1, -2, 1], 1),
    (2, 4): ([1, 0, -2, 0, 1], 4),
    (2, 6): ([-1, 8, 1, -16, 1, 8, -1], 24),
    (2, 8): ([1, -16, 64, 16, -130, 16, 64, -16, 1], 144),
    (3, 4): ([1, -2, 0, 2, -1], 2),
    (3, 6): ([1, 0, -3, 0, 3, 0, -1], 8),
    (3, 8): ([-1, 8, 2, -24, 0, 24, -2, -8, 1], 48),
}
PAIRS = sorted(TABLE)


@st.composite
def polynomials(draw):
    d, o = draw(st.sampled_from(PAIRS))
    deg = max(0, d + 1 - draw(st.sampled_from([0, 0, 1, 1, 2, 3])))
    return dict(
        d=d,
        o=o,
        c=draw(st.lists(st.one_of(st.integers(-9, 9).map(float), st.floats(-3.0, 3.0, allow_subnormal=False)), min_size=deg, max_size=deg)) + [draw(st.one_of(st.sampled_from([1.0, -2.0, 3.0, 7.0]), st.floats(0.1, 3.0)))],
        t0=draw(st.sampled_from([0.0, -5.0, 3.5, 10.0])),
        n=draw(gen.lengths(1, 90)),
        cuts=draw(gen.chunkings()),
        twin=draw(st.booleans()),
    )


@facet("C08", "polynomial", polynomials, n=2000, shards=3, rule="pair x polynomial of degree at most D+1 x partition; non-trivial when samples follow the initial order samples and the derivative is not zero.")
def polynomial(case):
    d, o, c = case["d"], case["o"], case["c"]
    if case["twin"]:
        db.DerivativeFilter(d, o).filter(np.arange(9.0))
    f = db.DerivativeFilter(derivative=d, order=o)
    n = case["n"] + o
    t = case["t0"] + np.arange(n)
    x = sum(v * t**i for i, v in enumerate(c)) + 0.0 * t
    y = np.concatenate([f.filter(v) for v in gen.chunks(x, case["cuts"])])
    tau = t - o / 2.0
    want = sum((v * math.factorial(i) / math.factorial(i - d)) * tau ** (i - d) for i, v in enumerate(c) if i >= d) + 0.0 * t
    close(y[o:], want[o:], f"derivative {d} order {o} of a polynomial {c}", rtol=1e-11, scale=np.abs(x).max() * 8 + 1e-300)
    return f"D{d} degree {len(c) - 1}" if np.any(want[o:]) else ""


@st.composite
def signals(draw):
    d, o = draw(st.sampled_from(PAIRS))
    return dict(d=d, o=o, x=draw(gen.signals(1, 120, False, kinds=gen.KINDS + gen.WIDE)), cuts=draw(gen.chunkings()), spoil=draw(st.booleans()))


@facet("C08", "table", signals, n=900, shards=1, rule="pair x signal against a convolution with the documented table; non-trivial when the output is not zero.")
def table(case):
    v, q = TABLE[case["d"], case["o"]]
    b = np.array([float(Fraction(w, q)) for w in v])
    other = db.DerivativeFilter(case["d"], case["o"])
    kept = np.array(other.b)
    if case["spoil"]:  # another filter of the same order, whose own coefficients are changed in place
        other.b[:] *= 3.0
        other.filter([1.0, 2.0])
    try:
        f = db.DerivativeFilter(case["d"], case["o"])
        close(f.b, b, "coefficients", rtol=1e-14)
    finally:
        other.b[:] = kept
    x = gen.sig(case["x"])
    y = np.concatenate([f.filter(w) for w in gen.chunks(x, case["cuts"])])
    want, m = refs.fir(b, x)
    close(y, want, f"derivative {case['d']} order {case['o']}", rtol=1e-12, scale=m, atol=1e-300)
    return f"D{case['d']}O{case['o']}" if np.any(want) else ""


def enumerated(tier):
    out = [dict(d=d, o=o) for d in range(-3, 12) for o in range(-3, 70)]
    out += [dict(d=d, o=o) for d in (0.5, 1.5, 10**6) for o in (1, 2, 4)] + [dict(d=d, o=o) for d in (1, 2, 3) for o in (0.5, 2.5, 10**6)]
    return out


@facet("C08", "domain", cases=enumerated, rule="every pair of a grid: documented pairs are accepted, others rejected; documented pairs are non-trivial.")
def domain(case):
    d, o = case["d"], case["o"]
    if (d, o) not in TABLE:
        raises(ValueError, lambda: db.DerivativeFilter(d, o), f"DerivativeFilter({d}, {o})")
        return ""
    f = db.DerivativeFilter(d, o)
    ensure(len(f.b) == o + 1, "number of coefficients")
    # Exactness in rational arithmetic: the moments of the table.
    v, q = TABLE[d, o]
    close(np.asarray(f.b) * q, np.array(v, float), "documented coefficients", rtol=1e-14)
    f.filter(np.arange(7.0) ** 2)
    f.reset(3.25)
    ensure(np.abs(f.filter(np.full(2 * o + 3, 3.25))).max() < 1e-12, "a constant signal is not zero after reset")
    return "documented"


@st.composite
def streams(draw):
    d, o = draw(st.sampled_from(PAIRS))
    return dict(draw(gen.streams()), d=d, o=o, spoil=False)


@facet("C08", "long", streams, n=60, shards=2, rule="as table, with signals to 20000 samples, and some to 140000.")
def long(case):
    return table(case)
