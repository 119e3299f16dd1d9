"""C15: polynomial rate filter."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import arr, close, ensure, facet, raises

ASSUMPTIONS = [
    "Orders 1 to 3: a polynomial of four points has degree at most three.",
    "The number of samples may differ by one where length * rate is within 1e-6 of a half.",
    "At positions within 1e-7 of a sample instant either neighbouring interval is accepted (order 2 is a least squares fit and is not continuous there).",
]


@st.composite
def rates(draw):
    return draw(
        st.one_of(
            st.sampled_from([0.1, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 7.0, 1 / 3, 2 / 3, np.pi, 1 / np.pi]),
            gen.reals(0.02, 6.0),
            st.tuples(st.integers(1, 30), st.integers(1, 30)).map(lambda t: t[0] / t[1]),
            st.sampled_from([0.0, 1.0, 1e-3, 1e-9, 29.0]),
        )
    )


@st.composite
def cases(draw, hi=120):
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 7))
        if k == 0:
            ops.append(["order", draw(st.integers(1, 3))])
        elif k == 1:
            ops.append(["rate", float(draw(rates()))])
        ops.append(["run", draw(gen.signals(2, hi, False)), draw(st.sampled_from(["", "", "list", "int", "strided"]))])
    return dict(rate=float(draw(rates())), order=draw(st.sampled_from([None, 1, 2, 3, 3])), ops=ops, single=draw(st.integers(0, 5)) == 0)


def sizes(n, rate):
    v = n * rate
    return sorted({int(np.round(v)), int(np.round(v - 1e-6)), int(np.round(v + 1e-6))})


def padded(x):
    return np.concatenate(([2.0 * x[0] - x[1]], x, [2.0 * x[-1] - x[-2], 3.0 * x[-1] - 2.0 * x[-2], 4.0 * x[-1] - 3.0 * x[-2]]))


def linear(x, t):
    n = np.minimum(np.floor(t).astype(int), len(x) - 2)
    u = t - n
    return x[n] * (1.0 - u) + x[n + 1] * u


def fits(x, t, order):
    """Estimates at times t from each admissible interval: arrays of shape (3, len(t))."""
    p, out = padded(x), []
    A = np.vander(np.arange(-1.0, 3.0), order + 1)
    for eps in (0.0, -1e-7, 1e-7):
        n = np.clip(np.floor(t + eps).astype(int), 0, len(x) - 1)
        u = t - n
        c = np.linalg.lstsq(A, np.array([p[n + k] for k in range(4)]), rcond=None)[0]
        out.append(sum(c[k] * u ** (order - k) for k in range(order + 1)))
    return np.array(out)


def expected(x, y, rate, order):
    if not rate:
        return
    t = np.arange(len(y)) / rate
    scale = np.abs(x).max() * 8.0
    if order == 1:
        close(y, linear(x, t), f"order 1 rate {rate}", rtol=1e-9, scale=scale, atol=1e-300)
        return
    # The positions are accumulated, so their rounding error grows with the length.
    w = fits(x, t, order)
    d = np.abs(w - y).min(axis=0)
    bad = d > 1e-8 * scale + 1e-300
    ensure(not bad.any(), lambda: f"order {order} rate {rate}: sample {np.argmax(bad)} is {y[np.argmax(bad)]} expected {w[0][np.argmax(bad)]} of {len(y)}")


@facet("C15", "estimate", cases, n=1200, shards=5, rule="rate x order x history of calls and assignments against interpolation at j / rate; non-trivial when the output has samples and is not zero.")
def estimate(case):
    kind = np.float32 if case["single"] else float
    rate = kind(case["rate"])
    f = db.PolynomialRateFilter(rate) if case["order"] is None else db.PolynomialRateFilter(rate=rate, order=case["order"])
    order, rate, some = case["order"] or 1, float(rate), set()
    for op in case["ops"]:
        if op[0] == "order":
            f.order = order = op[1]
        elif op[0] == "rate":
            f.rate = kind(op[1])
            rate = float(kind(op[1]))
        else:
            x = gen.sig(op[1])
            if op[2] == "int":
                x = np.round(x * 8.0) if np.abs(x).max() < 1e12 else np.zeros(len(x))
            y = arr(f.filter(gen.represent(x, op[2])))
            ensure(y.ndim == 1 and len(y) in sizes(len(x), rate), lambda: f"{len(y)} samples expected {sizes(len(x), rate)}: length {len(x)} rate {rate} order {order}")
            expected(x, y, rate, order)
            if np.any(y):
                some.add(order)
        ensure(f.order == order and f.rate == rate, "properties do not read back")
    return "order " + ",".join(str(v) for v in sorted(some)) if some else ""


@st.composite
def exact(draw):
    order = draw(st.sampled_from([1, 2, 3]))
    deg = draw(st.integers(0, order))
    return dict(order=order, rate=float(draw(rates())), c=draw(st.lists(st.floats(-2.0, 2.0, allow_subnormal=False), min_size=deg + 1, max_size=deg + 1)), n=draw(gen.lengths(4, 150)))


@facet("C15", "polynomials", exact, n=1000, shards=3, rule="lines are exact everywhere, polynomials of the order are exact in the interior; non-trivial when an interior sample exists.")
def polynomials(case):
    n, order, rate, c = case["n"], case["order"], case["rate"], case["c"]
    p = lambda t: sum(v * (t / n) ** i for i, v in enumerate(c)) + 0.0 * t  # noqa: E731
    x = p(np.arange(float(n)))
    y = arr(db.PolynomialRateFilter(rate, order).filter(x))
    if not rate:
        ensure(len(y) == 0, lambda: f"{len(y)} samples at rate zero")
        return ""
    t = np.arange(len(y)) / rate
    inside = np.ones(len(t), bool) if len(c) <= 2 else (t >= 1.0 + 1e-6) & (t <= n - 2.0 - 1e-6)
    close(y[inside], p(t)[inside], f"degree {len(c) - 1} polynomial, order {order}, rate {rate}", rtol=1e-8, scale=max(1e-300, np.abs(c).max() * 4.0))
    return f"order {order} degree {len(c) - 1}" if inside.any() and any(c) else ""


@st.composite
def integral(draw):
    return dict(order=draw(st.sampled_from([1, 3])), rate=draw(st.integers(1, 9)), x=draw(gen.signals(2, 60, False)))


@facet("C15", "integer", integral, n=500, shards=2, rule="integer rates reproduce the samples at their instants; non-trivial when the signal is not zero.")
def integer(case):
    x, r = gen.sig(case["x"]), case["rate"]
    y = arr(db.PolynomialRateFilter(float(r), case["order"]).filter(x))
    ensure(len(y) == len(x) * r, f"{len(y)} samples expected {len(x) * r}")
    close(y[::r], x, f"samples, rate {r}, order {case['order']}", rtol=1e-8, scale=8.0 * np.abs(x).max(), atol=1e-300)
    return f"order {case['order']}" if np.any(x) else ""


@st.composite
def wrong(draw):
    return dict(rate=float(draw(rates())), order=draw(st.integers(1, 3)), shape=draw(st.sampled_from([[0], [1], [1, 4], [4, 1], [3, 3], [2, 2, 2]])), x=draw(gen.signals(2, 20, False)))


@facet("C15", "reject", wrong, n=200, shards=1, rule="signals of fewer than two samples or of other dimensions are rejected; every case is non-trivial.")
def reject(case):
    f = db.PolynomialRateFilter(case["rate"], case["order"])
    raises(ValueError, lambda: f.filter(np.ones(case["shape"])), f"filter of shape {case['shape']}")
    x = gen.sig(case["x"])
    close(f.filter(x), db.PolynomialRateFilter(case["rate"], case["order"]).filter(x), "output after a rejected signal")
    return str(case["shape"])


@st.composite
def streams(draw):
    order = draw(st.integers(1, 3))
    rate = draw(st.one_of(rates(), st.sampled_from([0.01, 0.001, 1 / 300, 16.0, 100.0, 44.1 / 48.0, 48.0 / 44.1, 63.7]), st.floats(6.0, 120.0)))
    n = draw(gen.vast(120, 20000) if order == 1 else gen.vast(120, 4000, 66000))
    n = max(2, min(n, int((60000 if n < 30000 else 140000) / max(rate, 1.0))))
    if draw(st.booleans()):
        rate = np.float32(rate)
    return dict(order=order, rate=float(rate), x=draw(gen.fixed_signal(n, False, (1.0, 1e-3, 1e6), gen.STREAM_KINDS)))


@facet("C15", "long", streams, n=50, shards=6, rule="rates to 120 and signals to 20000 samples, and some to 140000; non-trivial when the output has samples and is not zero.")
def long(case):
    x, rate, order = gen.sig(case["x"]), case["rate"], case["order"]
    y = arr(db.PolynomialRateFilter(rate=np.float32(rate) if rate == float(np.float32(rate)) else rate, order=order).filter(x))
    ensure(y.ndim == 1 and len(y) in sizes(len(x), rate), lambda: f"{len(y)} samples expected {sizes(len(x), rate)}: length {len(x)} rate {rate} order {order}")
    expected(x, y, rate, order)
    return f"order {order}" if np.any(y) else ""
