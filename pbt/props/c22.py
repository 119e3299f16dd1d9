"""C22: Fourier transform against the direct sum."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import accepted, arr, close, ensure, facet, raises
from pbt.gen import coef, sig

ASSUMPTIONS = [
    "Window coefficients are exactly zero, or at least 1e-3 of the largest; a sample weighted by zero is not recoverable and not compared."
]


def axis(n):
    """Equally spaced by 2/n, increasing, in [-1, 1), including zero."""
    return (np.arange(n) - n // 2) * 2.0 / n


@st.composite
def windows(draw, hi=300):
    k = draw(st.integers(0, 4))
    if k == 0:
        n = draw(st.integers(1, 9))
        c = draw(st.booleans())
        e = st.sampled_from([1.0, 0.5, 2.0, -1.0, 0.25, 0.0, 3.0])
        e = st.tuples(e, e).map(list) if c else e
        v = draw(st.lists(e, min_size=n, max_size=n).filter(lambda v: np.any(v)))
        return dict(v=v, c=c)
    n = draw(gen.lengths(1, hi))
    if k == 1 and n > 2:
        return dict(style=draw(st.sampled_from(["Blackman", "Hamming", "Hann", "Kaiser"])), order=n - 1)
    if k == 2:
        return dict(ones=n)
    return dict(n=n, s=draw(st.integers(0, 9999)), c=draw(st.booleans()) and draw(st.booleans()), zeros=draw(st.integers(0, 4)))


def window(w):
    if "ones" in w:
        return np.ones(w["ones"])
    if "style" in w:
        b = db.WindowFilter(w["style"], w["order"]).b
        return np.where(np.abs(b) < 1e-3 * np.abs(b).max(), 0.0, b)
    if "v" in w:
        return coef(w)
    r = np.random.RandomState(w["s"])
    n = w["n"]
    b = r.uniform(0.1, 1.0, n) * r.choice([1.0, -1.0], n)
    if w["c"]:
        b = b * np.exp(1j * r.uniform(0, 6, n))
    for k in range(w["zeros"]):  # zeros at either end and inside
        if n > 3:
            b[[0, n - 1, r.randint(n), r.randint(n)][k]] = 0.0
    if not b.any():
        b[n // 2] = 1.0
    return b


def size(w):
    return w["ones"] if "ones" in w else w["order"] + 1 if "style" in w else w["n"] if "n" in w else len(w["v"])


@st.composite
def cases(draw, hi=300):
    w = draw(windows(hi))
    n = size(w) + draw(st.sampled_from([0, 0, 0, 1, 2, 7, 64]))
    return dict(w=w, x=draw(gen.fixed_signal(n, draw(st.booleans()), gen.SCALES)), how=draw(st.sampled_from(["", "", "list", "tuple", "strided"])))


def direct(b, x, f):
    n = np.arange(len(b))
    return np.exp(-1j * np.pi * np.outer(f, n)) @ (b * x[: len(b)]) / len(b)


def label(n):
    return ("odd" if n % 2 else "even") + (" long" if n > 32 else "")


@facet("C22", "forward", cases, n=500, shards=4, rule="window x signal x representation; non-trivial when the windowed signal is not zero.")
def forward(case):
    b, x = window(case["w"]), sig(case["x"])
    n = len(b)
    rx, rb = gen.represent(x, case["how"]), gen.represent(b, case["how"])
    y, f = db.FourierTransform.transform(rx, rb)
    ensure(np.array_equal(rb, b) and np.array_equal(rx, x), "forward transform modified its arguments")
    f = arr(f, "frequency")
    close(f, axis(n), f"frequencies of length {n}", rtol=0.0, atol=1e-12)
    m = np.abs(b * x[:n]).sum() / n
    close(y, direct(b, x, axis(n)), "transform", scale=m, rtol=1e-10, atol=0.0)
    z, g = db.FourierTransform.transform(x, b, False)
    close(z, arr(y), "explicit forward transform", scale=m, rtol=1e-12)
    return label(n) if m else ""


@facet("C22", "inverse", cases, n=500, shards=4, rule="arbitrary spectrum x window: the inverse is the direct inverse sum over the window; non-trivial when the spectrum is not zero.")
def inverse(case):
    b, y = window(case["w"]), sig(case["x"])
    n = len(b)
    with np.errstate(all="ignore"):
        ry, rb = gen.represent(y, case["how"]), gen.represent(b, case["how"])
        z, f = db.FourierTransform.transform(ry, rb, True)
    ensure(np.array_equal(rb, b) and np.array_equal(ry, y), "inverse transform modified its arguments")
    z = arr(z, "inverse")
    close(f, np.arange(n, dtype=float), "indices", rtol=0.0, atol=1e-9)
    ensure(z.shape == (n,), lambda: f"inverse has shape {z.shape} expected {(n,)}")
    k = b != 0
    want = (np.exp(1j * np.pi * np.outer(np.arange(n), axis(n))) @ y[:n])[k] / b[k]
    m = np.abs(y[:n]).sum() / np.abs(b[k])
    close(z[k], want, "inverse of a spectrum", scale=m, rtol=1e-10)
    return label(n) if np.any(y[:n]) else ""


@facet("C22", "round", cases, n=500, shards=4, rule="forward then inverse with the same window recovers samples of non-zero weight; non-trivial when such samples exist and are not all zero.")
def round_(case):
    b, x = window(case["w"]), sig(case["x"])
    n, k = len(b), b != 0
    with np.errstate(all="ignore"):
        y, _ = db.FourierTransform.transform(x, b)
        z = arr(db.FourierTransform.transform(y, b, True)[0], "inverse")
    ensure(z.shape == (n,), lambda: f"inverse has shape {z.shape} expected {(n,)}")
    m = np.abs(b * x[:n]).max() / np.abs(b[k])
    close(z[k], x[:n][k], "recovered signal", scale=m, rtol=1e-10)
    return label(n) + (" zeros" if not k.all() else "") if np.any(x[:n][k]) else ""


@st.composite
def invalid(draw):
    return dict(
        kind=draw(st.sampled_from(["empty", "zero", "long", "none"])),
        n=draw(st.integers(1, 40)),
        more=draw(st.integers(1, 5)),
        inverse=draw(st.booleans()),
        how=draw(st.sampled_from(["", "list", "tuple"])),
        s=draw(st.integers(0, 999)),
    )


@facet("C22", "reject", invalid, n=200, rule="empty signal, all-zero, empty or too long window in either direction; every case is non-trivial.")
def reject(case):
    r = np.random.RandomState(case["s"])
    n, k = case["n"], case["kind"]
    x = r.uniform(-1, 1, 0 if k == "empty" else n)
    b = np.zeros(n) if k == "zero" else np.zeros(0) if k == "none" else np.ones(n + case["more"] if k == "long" else n)
    rep = lambda v: gen.represent(v, case["how"])  # noqa: E731
    raises(ValueError, lambda: db.FourierTransform.transform(rep(x), rep(b), case["inverse"]), f"signal of {len(x)} with {k} window of {len(b)}")
    accepted(lambda: db.FourierTransform.transform(rep(np.ones(n)), rep(np.ones(n)), case["inverse"]), "signal and window of equal length")
    return k


@st.composite
def streams(draw):
    n = draw(gen.vast(300, 20000))
    return dict(n=n, s=draw(st.integers(0, 9999)), c=draw(st.booleans()), wc=draw(st.booleans()), more=draw(st.sampled_from([0, 0, 1, 1000])), ones=draw(st.booleans()))


@facet("C22", "long", streams, n=60, shards=4, rule="windows of hundreds to 20000 samples, and some to 140000: sampled frequencies against the direct sum, all of them against numpy.fft, and the round trip; every case is non-trivial.")
def long(case):
    r, n = np.random.RandomState(case["s"]), case["n"]
    x = r.uniform(-1, 1, n + case["more"]) + (1j * r.uniform(-1, 1, n + case["more"]) if case["c"] else 0.0)
    b = np.ones(n) if case["ones"] else r.uniform(0.1, 1.0, n) * (np.exp(1j * r.uniform(0, 6, n)) if case["wc"] else 1.0)
    y, f = db.FourierTransform.transform(x, b)
    close(f, axis(n), f"frequencies of length {n}", rtol=0.0, atol=1e-12)
    y = arr(y, "transform")
    ensure(y.shape == (n,), f"transform has shape {y.shape}")
    k = np.unique(np.concatenate(([0, 1, n // 2, n - 1], r.randint(0, n, 24))))
    close(y[k], direct(b, x, axis(n)[k]), "transform", rtol=1e-9, scale=1.0)
    close(y, np.roll(np.fft.fft(b * x[:n]) / n, n // 2), "transform against numpy.fft", rtol=1e-11, scale=1.0)
    z, i = db.FourierTransform.transform(y, b, True)
    close(z, x[:n], "recovered signal", rtol=1e-10, scale=2.0)
    close(i, np.arange(n, dtype=float), "indices", rtol=0.0, atol=1e-9)
    return label(n)
