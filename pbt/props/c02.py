"""C02: IIR difference equation."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt.components import acoef, stable_a
from pbt.core import close, ensure, facet
from pbt.gen import chunkings, chunks, coef, coefs, sig, signals

ASSUMPTIONS = [
    "a and b of integer, float or complex128 kind; a complex signal is filtered only when a or b is complex.",
    "Tolerance is a rigorous rounding error bound of a direct form II evaluation (times 64); cases whose bound exceeds 1e-3 of the output are counted as trivial.",
]

EPS = float(np.finfo(float).eps)


@st.composite
def cases(draw, hi=160, lo=1):
    c = draw(st.sampled_from([False, False, True]))
    kind = draw(st.integers(0, 5))
    ac = c and draw(st.booleans())
    if kind <= 2:
        a, n = draw(stable_a(ac)), hi
    elif kind == 3:
        a, n = draw(coefs(1, 5, ac, 8, shapes=3)), 24
    elif kind == 4:
        a, n = dict(v=[], c=False), hi
    else:
        a, n = dict(v=[draw(st.sampled_from([1.0, -1.0, 2.0, 0.5]))] + [0.0] * draw(st.integers(0, 3)), c=False), 40
    b = draw(coefs(1, 9, c and not ac or (c and draw(st.booleans())), 24, shapes=4))
    if kind == 4 and draw(st.booleans()):
        a = None
    case = dict(b=b, x=draw(signals(min(lo, n), n, c and draw(st.booleans()), kinds=gen.KINDS + gen.WIDE)))
    if a is not None:
        case["a"] = a
    if draw(st.booleans()):
        case["cuts"] = draw(chunkings(case["x"]["n"]))
    case["how"] = draw(st.sampled_from(["", "", "list", "int"]))
    if ac and a and draw(st.integers(0, 3)) == 0:
        case["faint"] = draw(st.sampled_from([0, 3, 6, 8, 9, 10, 12]))
    if draw(st.integers(0, 4)) == 0:
        case["extra"] = draw(st.integers(0, 30))
    return case


def run(case):
    a = acoef(case["a"]) if "a" in case else np.zeros(0)
    b, x = coef(case["b"]), sig(case["x"])
    if "faint" in case:  # imaginary parts which are relatively small, or zero
        a = a.real + 1j * a.imag * (10.0 ** -case["faint"] if case["faint"] else 0.0)
        if not np.all(np.abs(np.roots(np.concatenate(([1.0], -a[1:])))) < 1.0):
            x = x[:24]
    if case["x"]["c"] and not (np.iscomplexobj(a) or np.iscomplexobj(b)):
        x = x.real
    how = case["how"]
    if how == "int":
        if np.iscomplexobj(b) or np.iscomplexobj(a):
            how = ""
        else:
            b = np.round(b * 3.0)
            a = np.round(a) if "p" not in case.get("a", {}) else a
    kw = dict(b=gen.represent(b, how))
    if len(a):
        kw["a"] = gen.represent(a, how if (how != "int" or np.array_equal(a, np.round(a))) else "")
    if "extra" in case:
        kw["s"] = np.zeros(case["extra"], complex if np.iscomplexobj(a) or np.iscomplexobj(b) else float)
    f = db.IirFilter(**kw)
    got = np.concatenate([f.filter(v) for v in (chunks(x, case["cuts"]) if "cuts" in case else [x])])
    want, bound = refs.iir(a if len(a) else np.zeros(1), b, x)
    tol = 64.0 * EPS * bound
    close(got, want, "IirFilter.filter", rtol=0.0, scale=0.0, atol=tol + 1e-300)
    m = np.abs(want).max()
    if not m or tol.max() > 1e-3 * m:
        return ""
    return ("complex" if np.iscomplexobj(want) else "real") + (" calls" if "cuts" in case else "") + (
        " a>b" if len(a) > len(b) else " a<b" if len(a) < len(b) else ""
    )


@facet("C02", "equation", cases, n=2400, shards=6, rule="recursive and forward coefficients x signal x partition; non-trivial when the output is not zero and well conditioned.")
def equation(case):
    return run(case)


@facet("C02", "long", lambda: cases(hi=20000, lo=200), n=64, shards=8, rule="as equation with signals to 20000 samples, and some to 140000.")
def long(case):
    return run(case)


@st.composite
def slow(draw):
    """Poles close to the unit circle, driven by signals which remain constant for thousands of samples."""
    p = lambda: [1.0 - draw(st.sampled_from([1.0, 0.5, 0.1])) * 10.0 ** -draw(st.integers(2, 12)), draw(st.sampled_from([0.0, 0.0, 0.0, 1.0, 0.5, 0.25]))]  # noqa: E731
    n = draw(gen.vast(3000, 20000))
    case = dict(a=dict(p=[p()] + ([[draw(st.integers(0, 19)) / 20.0, 0.0]] if draw(st.booleans()) else []), c=False, pad=0), b=draw(coefs(1, 3, False, 4)), how="", x=dict(n=n, c=False, re=draw(gen._real(n, ("const", "const", "step", "impulse", "ramp", "ties", "sparse", "burst")))))
    if draw(st.booleans()):
        case["cuts"] = draw(st.sampled_from([[n // 2, n], [n - 1, 1], [1, n], [4096], [1000, 1]]))
    return case


@facet("C02", "slow", slow, n=40, shards=8, rule="as equation with a pole within 1e-2 to 1e-13 of the unit circle and 3000 samples or more, often constant.")
def slow_(case):
    return run(case)


@st.composite
def changes(draw):
    c = draw(st.sampled_from([False, False, True]))
    n = draw(st.integers(2, 7))
    ab = lambda: [dict(p=[[draw(st.integers(0, 19)) / 20.0, draw(st.integers(0, 16)) / 16.0] for _ in range((n - 1) // (1 if c else 2))], c=c, pad=0), draw(coefs(n, n, c, n))]  # noqa: E731
    return dict(n=n, c=c, ab=[ab() for _ in range(draw(st.integers(2, 4)))], x=draw(signals(1, 60, c)), how=draw(st.sampled_from(["assign", "inplace", "construct"])), rest=draw(st.sampled_from(["assign", "inplace"])), cuts=draw(chunkings()))


@facet("C02", "changes", changes, n=500, shards=2, rule="a and b assigned or changed in place and the state cleared between runs, or the filter continued by another constructed with its a, b and s; the equation holds with the new values.")
def changes_(case):
    f, n, x = None, case["n"], sig(case["x"])
    for k, (a, b) in enumerate(case["ab"]):
        a, b = acoef(a)[:n], coef(b)
        a = np.concatenate((a, np.zeros(n - len(a))))
        if case["c"]:
            a, b = a.astype(complex), b.astype(complex)
        if f is None:
            f = db.IirFilter(a=a, b=b)
        else:
            if case["how"] == "inplace":
                f.a[:], f.b[:] = a, b
            else:
                f.a, f.b = np.array(a), np.array(b)
            if case["rest"] == "inplace":
                f.s[:] = 0.0
            else:
                f.s = np.zeros_like(f.s)
        want, bound = refs.iir(a, b, x)
        got = []
        for v in chunks(x, case["cuts"]):
            got.append(np.array(f.filter(v)))
            if case["how"] == "construct":
                f = db.IirFilter(a=f.a, b=f.b, s=f.s)
        close(np.concatenate(got), want, f"filter with coefficients {k}", rtol=0.0, scale=0.0, atol=64.0 * EPS * bound + 1e-300)
    return case["how"] if np.any(want) else ""


def enumerated(tier):
    out = []
    for na in range(0, 14):
        for nb in range(1, 15):
            r = (na * 7 + nb) % 5
            a = dict(p=[[0.1 * ((3 * i + r) % 9), ((5 * i + nb) % 16) / 16.0] for i in range((na + 1) // 2)], c=False, pad=na & 1)
            out.append(dict(a=a, b=dict(n=nb, s=na, c=False, z=0), x=dict(n=40, c=False, re=dict(k="noise", s=na + 99 * nb)), how=""))
    return out


@facet("C02", "orders", cases=enumerated, rule="every pair of coefficient lengths to 14.")
def orders_(case):
    return run(case)


@st.composite
def designed(draw):
    style, lo, hi = draw(st.sampled_from([("Butterworth", 2, 6), ("Chebyshev", 1, 6), ("Bessel", 1, 6)]))
    return dict(style=style, order=draw(st.integers(lo, hi)), frequency=draw(st.sampled_from([0.05, 0.1, 0.2, 0.3])), complement=draw(st.booleans()), x=draw(signals(1, 160, False)), cuts=draw(chunkings()))


@facet("C02", "designed", designed, n=60, shards=4, rule="designed filters; the equation holds with the coefficients the filter reports.")
def designed_(case):
    f = db.IirFilter(style=case["style"], order=case["order"], frequency=1.0 - case["frequency"] if case["complement"] else case["frequency"], complement=case["complement"])
    a, b = np.array(f.a), np.array(f.b)
    ensure(a[0] == 0.0, "a[0] is not zero")
    x = sig(case["x"])
    got = np.concatenate([f.filter(v) for v in chunks(x, case["cuts"])])
    want, bound = refs.iir(a, b, x)
    tol = 64.0 * EPS * bound
    close(got, want, "designed IirFilter.filter", rtol=0.0, scale=0.0, atol=tol + 1e-300)
    return case["style"] if np.any(want) and tol.max() < 1e-3 * np.abs(want).max() else ""
