"""C05: FIR design against an independent windowed sinc."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st
from scipy.special import i0

from pbt import gen
from pbt.core import close, ensure, facet

ASSUMPTIONS = [
    "Low pass frequency (the frequency, or one less the frequency with complement) f of at most 0.99, with order * f >= 4 for an even order and order * f >= 7 and a cutoff of at most 0.95 for an odd order, where some windowed sinc of the style has the magnitude; a magnitude tolerance of 1e-4 at the specified frequency. Otherwise the search is not finished after its 500 iterations (an existing test pins such coefficients); there unity response, symmetry and membership in the family are still checked.",
    "The Hann window of order 1 is identically zero and is not generated.",
]

STYLES = ("Blackman", "Hamming", "Hann", "Kaiser")
CASES = (str, str.lower, str.upper, str.swapcase)


def window(style, n):
    k = np.arange(n + 1)
    if style == "Hann":
        return 0.5 - 0.5 * np.cos(2 * np.pi * k / n)
    if style == "Hamming":
        return 0.54 - 0.46 * np.cos(2 * np.pi * k / n)
    if style == "Blackman":
        return 0.42 - 0.5 * np.cos(2 * np.pi * k / n) + 0.08 * np.cos(4 * np.pi * k / n)
    return i0(7.0 * np.sqrt(np.maximum(0.0, 1.0 - (2.0 * k / n - 1.0) ** 2))) / i0(7.0)


def lowpass(style, n, cut):
    k = np.arange(n + 1) - n / 2
    h = cut * np.sinc(cut * k) * window(style, n)
    return h / h.sum()


def mag(b, f):
    return abs(np.polyval(b, np.exp(1j * np.pi * f)))


def solve(style, n, f, target):
    """The cutoff of the windowed sinc which has the target magnitude at f."""
    lo, hi = 1e-9, 1.0 - 1e-12
    if not (mag(lowpass(style, n, lo), f) <= target <= mag(lowpass(style, n, hi), f)):
        return None
    for _ in range(70):
        m = 0.5 * (lo + hi)
        if mag(lowpass(style, n, m), f) < target:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


@st.composite
def designs(draw, hi=100):
    order = 2 * draw(gen.orders(2, hi))
    f = draw(st.one_of(gen.reals(0.02, 0.99), gen.reals(0.9, 0.99)))
    if draw(st.integers(0, 3)) == 0:
        order += 1
    if draw(st.integers(0, 9)) and order * f < low(order):
        order = 2 * int(np.ceil(0.5 * (low(order) + 1) / f)) + (order & 1)
    case = dict(style=draw(st.sampled_from(STYLES)), order=order, f=f)
    c = draw(st.one_of(st.just(1), st.integers(1, 8)))
    if c != 1:
        case["count"] = c
    if draw(st.booleans()):
        case["complement"] = True
    g = draw(st.sampled_from([1.0, 1.0, 2.0, -1.0, 0.125, 10.0, -3.7, 1e-3]))
    if g != 1.0:
        case["gain"] = g
    case["case"] = draw(st.integers(0, 3))
    return case


def low(order):
    """Least product of order and frequency for which the search finishes."""
    return 7.0 if order & 1 else 4.0


def build(case, **kw):
    a = dict(style=CASES[case.get("case", 0)](case["style"]), order=case["order"])
    for k in ("count", "complement", "gain"):
        if k in case:
            a[k] = case[k]
    a["frequency"] = 1.0 - case["f"] if case.get("complement") else case["f"]
    a.update(kw)
    return db.FirFilter(**a)


@facet("C05", "design", designs, n=560, shards=8, rule="style x order x frequency x count x complement x gain; every case is non-trivial.")
def design(case):
    f = build(case)
    b = np.array(f.b, float)
    n, style, count = case["order"], case["style"], case.get("count", 1)
    ensure(len(b) == n + 1, f"{len(b)} coefficients for order {n}")
    ensure(np.all(np.isfinite(b)), "coefficients are not finite")
    u = b / case.get("gain", 1.0)
    if case.get("complement"):
        u = u * (-1.0) ** np.arange(n + 1)
    where = "Nyquist" if case.get("complement") else "zero"
    close(u.sum(), 1.0, f"response at {where} frequency relative to gain", rtol=1e-9, scale=1.0)
    close(u[::-1], u, "reversed coefficients (symmetry)", rtol=1e-9)
    # The specified frequency mirrors with complement.
    fr = 1.0 - (1.0 - case["f"]) if case.get("complement") else case["f"]
    note = ""
    cut = solve(style, n, fr, 2.0 ** (-0.5 / count))
    if cut is None:
        note = " unreachable"
    elif n * fr < low(n) or (n & 1 and cut > 0.95):
        note = " slow"
    else:
        close(mag(u, fr) ** count, 2.0**-0.5, f"cascaded magnitude at the specified frequency relative to gain, count {count}", rtol=1e-4, scale=1.0)
        close(u, lowpass(style, n, cut), f"coefficients against a windowed sinc, {style}", rtol=1e-4)
    cut = solve(style, n, fr, mag(u, fr))
    if not note:
        ensure(cut is not None, "no windowed sinc has the magnitude of the design")
    if cut is not None:
        close(u, lowpass(style, n, cut), f"coefficients against the {style} windowed sinc of equal magnitude", rtol=1e-6)
    ensure(not np.any(np.asarray(f.s)), "initial state is not zero")
    ensure(len(f.s) == len(b), "state length")
    return style + (" complement" if case.get("complement") else "") + (" cascade" if count > 1 else "") + (" odd" if n & 1 else "") + note


@st.composite
def anyorder(draw):
    return dict(style=draw(st.sampled_from(STYLES)), order=draw(gen.orders(2, 70)), f=draw(gen.reals(0.02, 0.98)), count=draw(st.integers(1, 4)), complement=draw(st.booleans()), gain=draw(st.sampled_from([2.0, -3.0, 0.5, 1e-3, 7.0, 0.0, 1e-9, -1e9, 3, -1])))


@facet("C05", "relations", anyorder, n=180, shards=6, rule="any order (odd included): linearity of gain, mirror image of complement, symmetry, and case of style; every case is non-trivial.")
def relations(case):
    base = build(case, complement=False, gain=1.0, frequency=case["f"]).b
    n = case["order"]
    ensure(len(base) == n + 1, f"{len(base)} coefficients for order {n}")
    close(base[::-1], base, "reversed coefficients (symmetry)", rtol=1e-9)
    close(base.sum(), 1.0, "response at zero frequency", rtol=1e-9)
    close(build(case, complement=False, frequency=case["f"], style=case["style"].upper()).b, case["gain"] * base, f"coefficients with gain {case['gain']}", rtol=1e-12)
    alt = (-1.0) ** np.arange(n + 1)
    other = build(case, complement=True, gain=1.0, frequency=1.0 - case["f"], style=case["style"].lower()).b
    f2 = 1.0 - (1.0 - case["f"])
    if f2 != case["f"]:
        base = build(case, complement=False, gain=1.0, frequency=f2).b
    close(other, alt * base, "coefficients of the complement", rtol=1e-9)
    return case["style"] + (" odd" if n & 1 else " even")
