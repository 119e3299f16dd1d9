"""C24: wavelet analysis and synthesis against a reference cascade, and perfect reconstruction."""

from math import comb

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.components import ALL
from pbt.core import accepted, arr, close, ensure, facet, raises
from pbt.gen import sig

ASSUMPTIONS = [
    "Signals are real.",
    "Published wavelet coefficients carry 12 digits or more: reconstruction is compared within 1e-7, orthogonality within 2e-8.",
]
TABLE = ALL["WaveletTransform"].TABLE
PAIRS = [(s, o) for s, v in TABLE.items() for o in v]
HOW = ["", "", "list", "tuple", "int", "intlist", "strided", "readonly", "fortran"]


def present(x, how):
    if how in ("int", "intlist"):
        x = np.round(x * 5.0)
    return gen.represent(x, how), x


def styled(draw, style):
    return draw(st.sampled_from([style, style, style.lower(), style.upper()]))


@st.composite
def shaped(draw, count, hi=160, two=None):
    """A one or two dimensional signal whose lengths are unity or a multiple of 2**count."""
    unit = 2**count
    size = lambda h: draw(st.integers(1, max(1, h // unit))) * unit  # noqa: E731
    k = draw(st.integers(0, 3)) if two is None else (1 if two else 0)
    if k != 1:
        return draw(gen.fixed_signal(size(hi), False, gen.SCALES))
    rows, cols = draw(st.sampled_from([(0, 0), (0, 0), (0, 0), (1, 0), (0, 1)]))
    rows, cols = rows or size(40), cols or size(40)
    return dict(draw(gen.fixed_signal(rows * cols, False, gen.SCALES)), shape=[rows, cols])


def expand(s):
    x = sig(s)
    return x.reshape(s["shape"]) if "shape" in s else x


# ---------------------------------------------------------------------------------------------------------------------
# Reference cascade.


def down(x, b):
    n = len(x)
    return np.concatenate([np.convolve(x, h)[:n][1::2] for h in b])


def up(y, b):
    n = len(y)
    z = np.zeros(n)
    for k in range(2):
        u = np.zeros(n)
        u[::2] = y[k * (n // 2) : (k + 1) * (n // 2)]
        z += 2.0 * np.convolve(u, b[k])[:n]
    return z


def analyse(x, b, count):
    y = np.array(x, float)
    r, c = y.shape
    if c > 1:
        y = np.array([down(v, b) for v in y])
    if r > 1:
        y = np.array([down(v, b) for v in y.T]).T
    if count > 1:
        i, j = max(r // 2, 1), max(c // 2, 1)
        y[:i, :j] = analyse(y[:i, :j], b, count - 1)
    return y


def synthesise(y, b, count):
    x = np.array(y, float)
    r, c = x.shape
    if count > 1:
        i, j = max(r // 2, 1), max(c // 2, 1)
        x[:i, :j] = synthesise(x[:i, :j], b, count - 1)
    if r > 1:
        x = np.array([up(v, b) for v in x.T]).T
    if c > 1:
        x = np.array([up(v, b) for v in x])
    return x


def delayed(x, d):
    """x delayed by d samples in each dimension which is longer than one."""
    y = np.array(x)
    for axis in range(y.ndim):
        if y.shape[axis] > 1:
            n = y.shape[axis]
            z = np.zeros_like(y)
            if d < n:
                u, v = [slice(None)] * y.ndim, [slice(None)] * y.ndim
                u[axis], v[axis] = slice(d, n), slice(0, n - d)
                z[tuple(u)] = y[tuple(v)]
            y = z
    return y


# ---------------------------------------------------------------------------------------------------------------------


@st.composite
def rebuild_cases(draw):
    style, order = draw(st.sampled_from(PAIRS + [("Haar", 1)] * 6))
    count = draw(st.integers(1, 5)) if style == "Haar" else 1
    return dict(style=styled(draw, style), order=order, count=count, x=draw(shaped(count)), how=draw(st.sampled_from(HOW)))


@facet("C24", "rebuild", rebuild_cases, n=900, shards=6, rule="style x order x count (Haar) x shape x representation: synthesis of the analysis is the delayed signal; non-trivial when the signal, less the delay, is not zero.")
def rebuild(case):
    v, x = present(expand(case["x"]), case["how"])
    w = db.WaveletTransform(case["style"], case["order"])
    y = w.transform(v, case["count"])
    ensure(arr(y).shape == x.shape, lambda: f"analysis has shape {arr(y).shape}")
    z = w.transform(y, case["count"], True)
    haar = case["order"] == 1
    want = x if haar else delayed(x, case["order"] - 1)
    close(z, want, f"reconstruction by {case['style']} {case['order']}", rtol=1e-12 if haar else 1e-7, scale=np.abs(x).max())
    return f"{case['style'].title()} {x.ndim}D" if np.any(want) else ""


@facet("C24", "multilevel", cases=lambda tier: [], rule="replays a known finding; generates nothing.")
def multilevel(case):
    x = expand(case["x"])
    w = db.WaveletTransform(case["style"], case["order"])
    z = arr(w.transform(w.transform(x, case["count"]), case["count"], True))
    scale = np.abs(x).max()
    errors = [np.abs(z - delayed(x, d)).max() for d in range(len(x))]
    ensure(min(errors) <= 1e-6 * scale, f"no delay reconstructs the signal: smallest error {min(errors):.3g}")
    return "known"


@st.composite
def cascade_cases(draw):
    style, order = draw(st.sampled_from(PAIRS))
    count = draw(st.integers(1, 4))
    return dict(style=styled(draw, style), order=order, count=count, x=draw(shaped(count)), u=draw(st.integers(0, 9999)), how=draw(st.sampled_from(HOW)), inverse=draw(st.booleans()))


@facet("C24", "cascade", cascade_cases, n=800, shards=6, rule="style x order x count x shape x direction: output equals the reference cascade, and is linear; non-trivial when the signal is not zero.")
def cascade(case):
    v, x = present(expand(case["x"]), case["how"])
    w = db.WaveletTransform(case["style"], case["order"])
    count, inverse = case["count"], case["inverse"]
    b = w.b[inverse]
    y = w.transform(v, count, inverse)
    u = np.atleast_2d(x)
    want = (synthesise if inverse else analyse)(u, b, count).reshape(x.shape)
    m = np.abs(x).max() * 4.0**count
    close(y, want, f"{'synthesis' if inverse else 'analysis'} of shape {x.shape}", rtol=1e-12, scale=m)
    o = np.random.RandomState(case["u"]).uniform(-1, 1, x.shape) * (np.abs(x).max() or 1.0)
    close(w.transform(2.0 * x - 3.0 * o, count, inverse), 2.0 * arr(y) - 3.0 * arr(w.transform(o, count, inverse)), "linear combination", rtol=1e-11, scale=(np.abs(x).max() or 1.0) * 4.0**count)
    return f"{'synthesis' if inverse else 'analysis'} {x.ndim}D" if np.any(x) else ""


@facet("C24", "filters", cases=lambda tier: [dict(style=s, order=o) for s, o in PAIRS], rule="every documented style and order; every case is non-trivial.")
def filters(case):
    style, order = case["style"], case["order"]
    w = db.WaveletTransform(style, order)
    (h, g), (p, q) = [[arr(v, "filter") for v in u] for u in w.b]
    n = order + 1
    for v in (h, g, p, q):
        ensure(v.shape == (n,), f"filter of shape {v.shape} expected {(n,)}")
    r = [v * 2.0**0.5 for v in (h, g, p, q)]
    for v in r:
        c = np.correlate(v, v, "full")[n - 1 :][::2]
        close(c, np.eye(1, len(c))[0], "even shift autocorrelation", rtol=2e-8)
    for u, v in ((r[0], r[1]), (r[2], r[3])):
        c = np.correlate(u, v, "full")
        close(c[(n - 1) % 2 :: 2], np.zeros(len(c[(n - 1) % 2 :: 2])), "even shift cross correlation", atol=2e-8)
    ensure(abs(h.sum() - 1.0) < 1e-12 and abs(g.sum()) < 1e-9, f"gains at zero frequency {h.sum()} and {g.sum()}")
    if style in ("Daubechies", "Symmlet"):  # maximum number of vanishing moments: the half band response is maximally flat
        k = n // 2
        y, flat = np.array([-0.25, 0.5, -0.25]), np.zeros(1)
        for i in range(k):
            e = np.ones(1)
            for _ in range(i):
                e = np.convolve(e, y)
            flat = np.polyadd(flat, comb(k - 1 + i, i) * np.concatenate((e, np.zeros(k - 1 - i))))
        e = np.ones(1)
        for _ in range(k):
            e = np.convolve(e, [0.25, 0.5, 0.25])
        e = np.convolve(e, flat)
        close(np.correlate(h, h, "full"), e / e.sum(), "autocorrelation of the low pass filter", atol=1e-9)
    if style == "Coiflet":
        t = (np.arange(n) - order / 2.0) / n
        for i in range(2 * (n // 6)):
            m = abs((g * t**i).sum())
            ensure(m < 1e-8, f"moment {i} of the high pass filter is {m}")
    return style


@st.composite
def invalid(draw):
    return dict(
        kind=draw(st.sampled_from(["style", "order", "count", "rows", "cols", "empty", "dim"])),
        pair=draw(st.sampled_from(PAIRS)),
        name=draw(st.one_of(st.sampled_from(["", "Haar ", "Db", "Coif", "Daubechie", "Morlet"]), st.text(max_size=6))),
        order=draw(st.integers(-3, 40)),
        count=draw(st.integers(1, 4)),
        none=draw(st.integers(-3, 0)),
        n=draw(st.integers(2, 60)),
        inverse=draw(st.booleans()),
    )


@facet("C24", "reject", invalid, n=400, shards=2, rule="style, order, count, length or dimension outside of the documented domain; trivial when the drawn value is inside.")
def reject(case):
    style, order = case["pair"]
    k, inv = case["kind"], case["inverse"]
    if k == "style":
        if case["name"].title() in TABLE:
            return ""
        raises(ValueError, lambda: db.WaveletTransform(case["name"], order), f"style {case['name']!r}")
        return k
    if k == "order":
        if case["order"] in TABLE[style]:
            return ""
        raises(ValueError, lambda: db.WaveletTransform(style, case["order"]), f"{style} order {case['order']}")
        return k
    w = db.WaveletTransform(style, order)
    unit = 2 ** case["count"]
    if k == "count":
        raises(ValueError, lambda: w.transform(np.ones(16), case["none"], inv), f"count {case['none']}")
    elif k == "empty":
        raises(ValueError, lambda: w.transform([], case["count"], inv), "empty signal")
    elif k == "dim":
        raises(ValueError, lambda: w.transform(np.ones((unit, unit, 2)), case["count"], inv), "three dimensions")
    else:
        n = case["n"]
        if n % unit == 0:
            return ""
        x = [np.ones(n), np.ones((unit, n)), np.ones((n, unit)), np.ones((n, 1))]
        x = x[2 + inv] if k == "rows" else x[0 + inv]
        raises(ValueError, lambda: w.transform(x, case["count"], inv), f"shape {x.shape} with count {case['count']}")
    accepted(lambda: w.transform(np.ones((unit, 1)), case["count"], inv), f"shape {(unit, 1)}")
    return k


@st.composite
def streams(draw):
    style, order = draw(st.sampled_from(PAIRS + [("Haar", 1)] * 4))
    count = draw(st.integers(1, 8))
    unit = 2**count
    if draw(st.booleans()):
        shape = [max(1, draw(gen.vast(unit, 8192, 70000)) // unit) * unit]
    else:
        count = min(count, 6)
        unit = 2**count
        shape = [max(1, draw(gen.sizes(unit, 300)) // unit) * unit, max(1, draw(gen.sizes(unit, 300)) // unit) * unit]
        while shape[0] * shape[1] > 20000:
            shape[int(shape[1] > shape[0])] = max(unit, shape[int(shape[1] > shape[0])] // (2 * unit) * unit)
            if shape == [unit, unit]:
                break
    return dict(style=style, order=order, count=count, shape=shape, s=draw(st.integers(0, 9999)), inverse=draw(st.booleans()))


@facet("C24", "long", streams, n=36, shards=6, rule="as cascade and rebuild, with lengths to 8192, images of 20000 elements and counts to 8; every case is non-trivial.")
def long(case):
    x = np.random.RandomState(case["s"]).uniform(-1, 1, case["shape"])
    w, count = db.WaveletTransform(case["style"], case["order"]), case["count"]
    y = arr(w.transform(x, count, case["inverse"]))
    want = (synthesise if case["inverse"] else analyse)(np.atleast_2d(x), w.b[case["inverse"]], count).reshape(x.shape)
    close(y, want, f"{'synthesis' if case['inverse'] else 'analysis'} of shape {x.shape}", rtol=1e-12, scale=4.0**count)
    if not case["inverse"] and (case["order"] == 1 or count == 1):
        close(w.transform(y, count, True), x if case["order"] == 1 else delayed(x, case["order"] - 1), "reconstruction", rtol=1e-7, scale=1.0)
    return f"{x.ndim}D"


@facet("C24", "powers", cases=lambda tier: [dict(k=k, odd=m, rows=r) for k in range(0, 19) for m in (1, 3) for r in (False, True) if k or m > 1], rule="lengths of 1 to 2^18 times an odd factor: counts to the exponent are accepted, and greater counts are rejected; every case is non-trivial.")
def powers(case):
    n, w = case["odd"] * 2 ** case["k"], db.WaveletTransform("Haar", 1)
    x = np.ones((n, 1) if case["rows"] else n)
    for count in [*range(case["k"] + 1, 26), 31, 32, 33, 63, 64, 65, 100]:
        for inverse in (False, True):
            raises(ValueError, lambda c=count, i=inverse: w.transform(x, c, i), f"length {n} with count {count}")
    if 0 < case["k"] <= 11:
        y = arr(accepted(lambda: w.transform(x, case["k"]), f"length {n} with count {case['k']}"))
        ensure(y.shape == x.shape, f"shape {y.shape}")
    return "length"
