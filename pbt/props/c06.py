"""C06: IIR design against independent prototypes."""

import math

import diamondback as db
import numpy as np
from hypothesis import strategies as st
from scipy import signal

from pbt import gen
from pbt.core import close, ensure, facet

ASSUMPTIONS = [
    "Well conditioned domain: Butterworth and Chebyshev order 1 to 6 with f in [0.02, 0.95], 7 and 8 in [0.06, 0.95], 9 in [0.1, 0.95], and 10 to 12 in [0.2, 0.9]; Bessel order 1 to 9 and f in [0.02, 0.95]; count 1 to 6.",
    "The magnitude at the specified frequency is checked where some prototype frequency reaches it (an impulse invariant Bessel prototype does not above a frequency which falls with count and order), with a tolerance of 1e-5, and of 2e-3 for an order above 9 (the polynomial form loses digits).",
]
CASES = (str, str.lower, str.upper, str.swapcase)


def prototype(style, n):
    """Poles of the analog prototype of order n."""
    k = np.arange(n)
    if style == "Butterworth":
        return np.exp(1j * np.pi * (2 * k + n + 1) / (2 * n))
    if style == "Chebyshev":
        e = math.sqrt(10.0**0.0125 - 1.0)
        v, th = math.asinh(1.0 / e) / n, np.pi * (2 * k + 1) / (2 * n)
        return (-math.sinh(v) * np.sin(th) + 1j * math.cosh(v) * np.cos(th)) * 2.0 * np.pi
    c = [math.factorial(2 * n - i) / (2 ** (n - i) * math.factorial(i) * math.factorial(n - i)) for i in range(n, -1, -1)]
    return np.roots(c)


def poles(style, n, w):
    """Discrete poles at prototype frequencies w (an array adds a leading axis)."""
    h = 0.5 * np.pi * np.multiply.outer(w, prototype(style, n))
    return np.exp(2.0 * h) if style == "Bessel" else (1.0 + h) / (1.0 - h)


def family(style, n, w):
    A = np.poly(poles(style, n, w)).real
    b = np.poly(-np.ones(n))
    return A, b * (A.sum() / b.sum())


def mag(A, b, f):
    z = np.exp(1j * np.pi * f)
    return abs(np.polyval(b, z) / np.polyval(A, z))


def solutions(style, n, f, target):
    """Prototype scales for which the magnitude at f crosses the target."""
    z = np.exp(1j * np.pi * f)

    def g(s):
        p = poles(style, n, np.exp(s) * f)
        return (abs(z + 1.0) / 2.0) ** n * np.prod(np.abs(1.0 - p) / np.abs(z - p), axis=-1) - target

    s = np.linspace(math.log(0.02), math.log(20.0), 400)
    v = g(s)
    k = np.where((v[:-1] < 0) & (v[1:] >= 0))[0]
    lo, hi = s[k], s[k + 1]
    for _ in range(60):
        m = 0.5 * (lo + hi)
        low = g(m) < 0
        lo, hi = np.where(low, m, lo), np.where(low, hi, m)
    return np.exp(0.5 * (lo + hi))


@st.composite
def designs(draw):
    style = draw(st.sampled_from(["Butterworth", "Chebyshev", "Butterworth", "Chebyshev", "Bessel"]))
    order = draw(st.one_of(st.integers(1, 6), st.integers(1, 9 if style == "Bessel" else 12)))
    lo = 0.02 if order <= 6 or style == "Bessel" else 0.06 if order <= 8 else 0.1 if order <= 9 else 0.2
    hi = 0.95 if order <= 9 else 0.9
    case = dict(style=style, order=order, f=draw(st.one_of(gen.reals(lo, 0.2 if style == "Bessel" else 0.5), gen.reals(lo, hi))))
    c = draw(st.one_of(st.just(1), st.integers(1, 6)))
    if c != 1:
        case["count"] = c
    if draw(st.booleans()):
        case["complement"] = True
    g = draw(st.sampled_from([1.0, 1.0, 2.0, -1.0, 0.125, 10.0]))
    if g != 1.0:
        case["gain"] = g
    case["case"] = draw(st.integers(0, 3))
    case["other"] = draw(st.sampled_from([0.0, 3.0, -1e-9, 1e9, 5, -1, 0.5]))
    return case


def build(case, **kw):
    a = dict(style=CASES[case.get("case", 0)](case["style"]), order=case["order"])
    for k in ("count", "complement", "gain"):
        if k in case:
            a[k] = case[k]
    a["frequency"] = 1.0 - case["f"] if case.get("complement") else case["f"]
    a.update(kw)
    return db.IirFilter(**a)


def parts(f, case):
    """Denominator and numerator, mirrored to the low pass and without gain."""
    a, b = np.array(f.a, float), np.array(f.b, float)
    ensure(np.all(np.isfinite(a)) and np.all(np.isfinite(b)), "coefficients are not finite")
    ensure(a[0] == 0.0, f"a[0] is {a[0]} expected 0")
    ensure(len(a) == len(b) == case["order"] + 1, f"{len(a)} and {len(b)} coefficients for order {case['order']}")
    A = np.concatenate(([1.0], -a[1:]))
    if case.get("complement"):
        alt = (-1.0) ** np.arange(len(A))
        A, b = A * alt, b * alt
    return A, b / case.get("gain", 1.0)


@facet("C06", "design", designs, n=420, shards=8, rule="style x order x frequency x count x complement x gain; every case is non-trivial.")
def design(case):
    f = build(case)
    A, b = parts(f, case)
    n, style, count = case["order"], case["style"], case.get("count", 1)
    p = np.roots(A)
    ensure(np.abs(p).max() < 1.0, f"pole of magnitude {np.abs(p).max()}")
    close(b.sum() / A.sum(), 1.0, "response at zero frequency (Nyquist with complement) relative to gain", rtol=1e-6 if n <= 6 else 1e-5)
    z = np.poly(-np.ones(n))
    close(b, z * (b.sum() / z.sum()), "forward coefficients against zeros at Nyquist (zero with complement)", rtol=1e-9)
    fr = 1.0 - (1.0 - case["f"]) if case.get("complement") else case["f"]
    note = ""
    target = 2.0 ** (-0.5 / count)
    if len(solutions(style, n, fr, target)) and len(solutions(style, n, fr, target + 1e-3)):
        tol = 2e-3 if n > 9 else 1e-5
        close(mag(A, b, fr) ** count, 2.0**-0.5, f"cascaded magnitude at the specified frequency relative to gain, count {count}", rtol=tol, scale=1.0)
    else:
        ensure(style == "Bessel", "no prototype reaches the magnitude")
        note = " unreachable"
    best, s = np.inf, solutions(style, n, fr, mag(A, b, fr))
    for w in s:
        best = min(best, np.abs(A - family(style, n, w * fr)[0]).max() / np.abs(A).max())
    ensure(best < (1e-2 if n > 9 else 1e-5) or note, lambda: f"recursive coefficients {f.a} differ by {best} from every {style} prototype with the magnitude of the design (scales {s})")
    # scipy's own designs of the same prototypes, at the -3 dB frequency of the design.
    if style == "Butterworth" and count == 1 and n <= 9:
        bb, aa = signal.butter(n, fr)
        close(A, aa, "recursive coefficients against scipy.signal.butter", rtol=1e-4)
        close(b, bb, "forward coefficients against scipy.signal.butter", rtol=1e-3)
    ensure(not np.any(np.asarray(f.s)), "initial state is not zero")
    return style + (" complement" if case.get("complement") else "") + (" cascade" if count > 1 else "") + note


@facet("C06", "relations", designs, n=120, shards=6, rule="linearity of gain, mirror image of complement, and case of style; every case is non-trivial.")
def relations(case):
    f2 = 1.0 - (1.0 - case["f"])
    base = build(case, complement=False, gain=1.0, frequency=f2, style=case["style"])
    g = case["other"]
    other = build(case, complement=False, gain=g, frequency=f2)
    close(other.a, base.a, f"recursive coefficients with gain {g}", rtol=1e-12)
    close(other.b, g * np.asarray(base.b), f"forward coefficients with gain {g}", rtol=1e-12)
    mirror = build(case, complement=True, gain=1.0, frequency=1.0 - case["f"])
    alt = (-1.0) ** np.arange(case["order"] + 1)
    close(mirror.a, alt * base.a, "recursive coefficients of the complement", rtol=1e-9)
    close(mirror.b, alt * base.b, "forward coefficients of the complement", rtol=1e-6)
    return case["style"]
