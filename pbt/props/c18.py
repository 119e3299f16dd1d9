"""C18: window filter."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st
from scipy.special import i0

from pbt import gen
from pbt.core import arr, close, ensure, facet, raises

ASSUMPTIONS = ["Order 1 Hann and Blackman windows are zero, so that their normal form is not defined, and is not generated."]
STYLES = ("Blackman", "Hamming", "Hann", "Kaiser")
CASES = (str, str.lower, str.upper, str.swapcase)


def window(style, n):
    if n == 0:
        return np.ones(1)
    k = np.arange(n + 1)
    if style == "Hann":
        return 0.5 - 0.5 * np.cos(2 * np.pi * k / n)
    if style == "Hamming":
        return 0.54 - 0.46 * np.cos(2 * np.pi * k / n)
    if style == "Blackman":
        return 0.42 - 0.5 * np.cos(2 * np.pi * k / n) + 0.08 * np.cos(4 * np.pi * k / n)
    return i0(7.0 * np.sqrt(np.maximum(0.0, 1.0 - (2.0 * k / n - 1.0) ** 2))) / i0(7.0)


def check(style, order, normal, name, x=None, how="", default=False):
    f = db.WindowFilter(style=name, order=order) if default else db.WindowFilter(style=name, order=order, normal=normal)
    w = window(style, order)
    if normal:
        w = w * ((order + 1) / np.abs(w).sum())
    b = arr(f.b)
    close(b, w, f"{name} window of order {order}, normal {normal}", rtol=1e-9)
    close(b[::-1], b, "symmetry", rtol=1e-12)
    if normal:
        close(np.abs(b).sum(), order + 1.0, "sum of magnitudes", rtol=1e-10)
    if x is not None:
        close(f.filter(gen.represent(x, how)), b * x, "filter", rtol=1e-14, scale=np.abs(b * x), atol=1e-300)
        close(f.filter(x), w * x, "filter", rtol=1e-9, scale=np.abs(x).max(), atol=1e-300)
        close(f.b, w, "coefficients after filter", rtol=1e-9)
    return f


@st.composite
def cases(draw):
    o = draw(st.one_of(gen.lengths(0, 600), gen.lengths(0, 600), gen.lengths(0, 600), gen.lengths(600, 5000)))
    normal = draw(st.booleans())
    if normal and o == 1:
        o = 2
    return dict(style=draw(st.sampled_from(STYLES)), order=o, normal=normal, case=draw(st.integers(0, 3)), x=draw(gen.fixed_signal(o + 1, draw(st.booleans()), scales=gen.SCALES)), how=draw(st.sampled_from(["", "nplist", "strided", "readonly"])), default=normal and draw(st.booleans()))


@facet("C18", "window", cases, n=1400, shards=2, rule="style x order x normal x signal; non-trivial for order above zero.")
def window_(case):
    check(case["style"], case["order"], case["normal"], CASES[case["case"]](case["style"]), gen.sig(case["x"]), case["how"], case["default"])
    return case["style"] + (" normal" if case["normal"] else "") if case["order"] else ""


def enumerated(tier):
    top = 260 if tier == "quick" else 1100
    return [dict(style=s, order=o, normal=m) for s in STYLES for o in list(range(0, top)) + [511, 512, 1023, 1024, 4096] for m in (False, True) if not (m and o == 1)]


@facet("C18", "orders", cases=enumerated, shards=2, rule="every style, every order of a range, and normal; order above zero is non-trivial.")
def orders_(case):
    check(case["style"], case["order"], case["normal"], case["style"])
    return case["style"] if case["order"] else ""


@st.composite
def invalid(draw):
    k = draw(st.sampled_from(["order", "style", "length", "shape"]))
    o = draw(st.integers(2, 40))
    case = dict(kind=k, style=draw(st.sampled_from(STYLES)), order=o)
    if k == "order":
        case["bad"] = draw(st.integers(-50, -1))
    elif k == "style":
        case["bad"] = draw(st.sampled_from(["", "Han", "Boxcar", "Hanning", "Kaiserr", "Rectangular", "Blackmanharris", " Hann", "Hann ", "Bartlett", "Tukey"]))
    elif k == "length":
        case["bad"] = draw(st.sampled_from([0, 1, o, o + 2, 2 * (o + 1), o - 1]))
    else:
        case["bad"] = draw(st.sampled_from([[1, o + 1], [o + 1, 1], [o + 1, o + 1], [1, 1, o + 1], [o + 1, 2]]))
    return case


@facet("C18", "reject", invalid, n=500, shards=1, rule="negative orders, unknown styles, and signals of other lengths or dimensions are rejected; every case is non-trivial.")
def reject(case):
    k, s, o, bad = case["kind"], case["style"], case["order"], case["bad"]
    if k == "order":
        raises(ValueError, lambda: db.WindowFilter(s, bad), f"WindowFilter({s}, {bad})")
        return k
    if k == "style":
        raises(ValueError, lambda: db.WindowFilter(bad, o), f"WindowFilter({bad!r}, {o})")
        return k
    f = check(s, o, True, s)
    raises(ValueError, lambda: f.filter(np.ones(bad)), f"filter of shape {bad}, order {o}")
    close(f.filter(np.ones(o + 1)), f.b, "filter of ones after a rejected signal", rtol=1e-14)
    return k
