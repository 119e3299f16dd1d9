"""C23: PSD transform against the direct sum."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import accepted, arr, close, ensure, facet, raises
from pbt.gen import sig
from pbt.props.c22 import size, window, windows

ASSUMPTIONS = ["The stride is an integer."]


@st.composite
def cases(draw, hi=130):
    w = draw(windows(hi))
    n = size(w)
    index = draw(st.one_of(st.integers(1, max(1, n)), st.sampled_from([1, max(1, n // 2), n, n + 1, 2 * n, 1000])))
    extra = draw(st.one_of(st.integers(0, 3), st.integers(0, 3 * n), st.integers(1, 6).map(lambda k: k * index), st.integers(1, 6).map(lambda k: max(0, k * index - 1)), st.sampled_from([0, 200])))
    extra = min(extra, 1500)
    return dict(
        w=w, x=draw(gen.fixed_signal(n + extra, draw(st.booleans()), gen.SCALES)), index=index,
        how=draw(st.sampled_from(["", "", "list", "tuple", "strided"])), g=draw(st.sampled_from([2.0, -3.0, 0.5, 1e-3, 7.0])),
    )  # fmt: skip


@st.composite
def long(draw):
    """Many rows."""
    w = draw(windows(12))
    index = draw(st.integers(1, 3))
    rows = draw(gen.lengths(200, 5000))
    return dict(w=w, x=draw(gen.fixed_signal(size(w) + rows * index - draw(st.integers(0, 1)), draw(st.booleans()), kinds=("noise", "ints", "sparse", "ramp", "step"))), index=index, how="", g=2.0)


def direct(b, x, index):
    n = len(b)
    t = np.exp(-1j * np.pi * np.outer(2.0 * np.arange(n // 2) / n, np.arange(n)))
    rows = []
    for ii in range(0, len(x) - n + 1, index):
        rows.append(np.abs(t @ (b * x[ii : ii + n]) / n) ** 2)
    return np.array(rows).reshape(len(rows), n // 2)


@facet("C23", "direct", cases, n=700, shards=6, rule="window x signal x stride: PSD and spectrogram; non-trivial when the signal is not zero and there is a frequency.")
def direct_(case):
    return check(case)


@facet("C23", "long", long, n=100, shards=2, rule="as direct, with hundreds to thousands of rows.")
def long_(case):
    return check(case)


def check(case):
    b, x, index = window(case["w"]), sig(case["x"]), case["index"]
    n = len(b)
    rep = lambda v: gen.represent(v, case["how"])  # noqa: E731
    y, f = db.PsdTransform.transform(rep(x), rep(b), index, True)
    z, g = db.PsdTransform.transform(rep(x), rep(b), index)
    want = direct(b, x, index)
    for v in (f, g):
        close(v, 2.0 * np.arange(n // 2) / n, f"frequencies of length {n}", rtol=0.0, atol=1e-12)
    m = (np.abs(b).sum() / n * np.abs(x).max()) ** 2
    y, z = arr(y, "spectrogram"), arr(z, "PSD")
    ensure(y.dtype.kind == "f" and z.dtype.kind == "f", f"types {y.dtype} and {z.dtype} are not real")
    close(y, want, "spectrogram", scale=m, rtol=1e-9)
    close(z, want.mean(0), "PSD", scale=m, rtol=1e-9)
    ensure(np.all(y >= 0) and np.all(z >= 0), "negative power")
    u = arr(db.PsdTransform.transform(x * case["g"], b, index)[0])
    close(u, z * case["g"] ** 2, f"PSD of the signal times {case['g']}", scale=m * case["g"] ** 2, rtol=1e-9)
    rows = min(len(want), 3)
    return f"{'odd' if n % 2 else 'even'} {rows}{'+' if rows == 3 else ''} rows" if m and n > 1 else ""


@st.composite
def invalid(draw):
    return dict(
        kind=draw(st.sampled_from(["empty", "zero", "short", "none", "stride"])), n=draw(st.integers(1, 40)), more=draw(st.integers(1, 5)),
        index=draw(st.integers(1, 50)), bad=draw(st.sampled_from([0, -1, -2, -40])), spectrogram=draw(st.booleans()), how=draw(st.sampled_from(["", "list", "tuple"])), s=draw(st.integers(0, 999)),
    )  # fmt: skip


@facet("C23", "reject", invalid, n=200, rule="empty or short signal, all-zero or empty window, zero or negative stride; every case is non-trivial.")
def reject(case):
    r = np.random.RandomState(case["s"])
    n, k = case["n"], case["kind"]
    x = r.uniform(-1, 1, 0 if k == "empty" else n)
    b = np.zeros(n) if k == "zero" else np.zeros(0) if k == "none" else np.ones(n + case["more"] if k == "short" else n)
    rep = lambda v: gen.represent(v, case["how"])  # noqa: E731
    index = case["bad"] if k == "stride" else case["index"]
    if k == "stride":
        x = r.uniform(-1, 1, n + case["more"] * 3)
    raises(ValueError, lambda: db.PsdTransform.transform(rep(x), rep(b), index, case["spectrogram"]), f"stride {index} and signal of {len(x)} with {k} window of {len(b)}")
    accepted(lambda: db.PsdTransform.transform(rep(np.ones(n)), rep(np.ones(n)), case["index"], case["spectrogram"]), "signal and window of equal length")
    return k


@st.composite
def streams(draw):
    n = draw(gen.vast(130, 8192))
    index = draw(st.one_of(gen.sizes(1, 2 * n), st.sampled_from([n, n // 2, 3 * n])))
    rows = draw(st.integers(1, max(1, min(12, 60000 // index))))
    return dict(n=n, index=index, extra=(rows - 1) * index + draw(st.sampled_from([0, 0, 1, index - 1])), s=draw(st.integers(0, 9999)), c=draw(st.booleans()), ones=draw(st.booleans()))


@facet("C23", "wide", streams, n=60, shards=4, rule="windows of hundreds to 8192 samples: sampled frequencies against the direct sum, and all against numpy.fft; every case is non-trivial.")
def wide(case):
    r, n, index = np.random.RandomState(case["s"]), case["n"], case["index"]
    m = n + case["extra"]
    x = r.uniform(-1, 1, m) + (1j * r.uniform(-1, 1, m) if case["c"] else 0.0)
    b = np.ones(n) if case["ones"] else r.uniform(0.1, 1.0, n)
    y, f = db.PsdTransform.transform(x, b, index, True)
    z, _ = db.PsdTransform.transform(x, b, index)
    y = arr(y, "spectrogram")
    starts = range(0, m - n + 1, index)
    ensure(y.shape == (len(starts), n // 2), lambda: f"spectrogram has shape {y.shape} expected {(len(starts), n // 2)}")
    close(f, 2.0 * np.arange(n // 2) / n, f"frequencies of length {n}", rtol=0.0, atol=1e-12)
    k = np.unique(np.concatenate(([0, 1, n // 2 - 1], r.randint(0, n // 2, 12))))
    t = np.exp(-1j * np.pi * np.outer(2.0 * k / n, np.arange(n)))
    for row, ii in enumerate(starts):
        v = b * x[ii : ii + n]
        close(y[row, k], np.abs(t @ v / n) ** 2, f"row {row}", rtol=1e-9, scale=1e-3)
        close(y[row], np.abs(np.fft.fft(v)[: n // 2] / n) ** 2, f"row {row} against numpy.fft", rtol=1e-10, scale=1e-3)
    close(z, y.mean(0), "PSD", rtol=1e-10, scale=1e-3)
    return f"{min(len(starts), 3)} rows"
