"""C07: response, delay and roots."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.components import ALL, acoef, apply, stable_a
from pbt.core import arr, close, ensure, facet, raises
from pbt.gen import coef, coefs

ASSUMPTIONS = [
    "Frequencies at which the denominator or the numerator is relatively close to zero are not compared (the transfer function or group delay is not well conditioned there).",
    "The delay of bin 0 (FIR) and the first and last six bins (IIR) are smoothed by the code and are excluded.",
]


@st.composite
def filters(draw, kinds=("fir", "iir", "derivative", "integral", "designed"), complex_=True):
    kind = draw(st.sampled_from(kinds))
    c = complex_ and draw(st.sampled_from([False, False, True]))
    if kind == "fir":
        return dict(kind=kind, b=draw(coefs(1, 9, c, 32, shapes=4)))
    if kind == "iir":
        return dict(kind=kind, a=draw(stable_a(c and draw(st.booleans()))), b=draw(coefs(1, 6, c, 10, shapes=4)))
    if kind == "derivative":
        return dict(kind=kind, **draw(ALL["DerivativeFilter"].config()))
    if kind == "integral":
        return dict(kind=kind, o=draw(st.integers(0, 4)))
    return dict(kind=kind, f=draw(st.sampled_from([0.1, 0.2, 0.3])), order=draw(st.integers(2, 4)), iir=draw(st.booleans()))


def build(spec):
    k = spec["kind"]
    if k == "fir":
        return db.FirFilter(b=coef(spec["b"]))
    if k == "iir":
        return db.IirFilter(a=acoef(spec["a"]), b=coef(spec["b"]))
    if k == "derivative":
        return db.DerivativeFilter(spec["d"], spec["o"])
    if k == "integral":
        return db.IntegralFilter(spec["o"])
    if spec["iir"]:
        return db.IirFilter(style="Butterworth", frequency=spec["f"], order=spec["order"])
    return db.FirFilter(style="Hamming", frequency=max(spec["f"], 0.25), order=8 * spec["order"])


def coefficients(f):
    """Denominator and numerator of negative powers of z."""
    b = np.array(f.b)
    A = np.concatenate(([1.0], -np.array(f.a)[1:])) if isinstance(f, db.IirFilter) else np.ones(1)
    return A, b


def axis(length):
    """Equally spaced increasing frequencies in [-1, 1), zero included."""
    return (np.arange(length) - length // 2) * 2.0 / length


def at(c, w):
    return np.exp(-1j * np.outer(w, np.arange(len(c)))) @ c


def state(f):
    return [np.array(f.s), np.array(f.b)] + ([np.array(f.a)] if hasattr(f, "a") else [])


def unchanged(f, before, what):
    for u, v in zip(state(f), before):
        ensure(u.shape == v.shape and np.array_equal(u, v), f"{what} changed the filter: {u} was {v}")


@st.composite
def cases(draw):
    return dict(
        f=draw(filters()),
        length=draw(st.one_of(gen.lengths(1, 300), st.sampled_from([1, 2, 3, 5, 6, 7, 8, 15, 64, 129, 8192]))),
        count=draw(st.one_of(st.just(1), st.integers(1, 5))),
        x=draw(gen.signals(1, 12, False, scales=(1.0,))),
        default=draw(st.integers(0, 9)) == 0,
    )


def call(method, case):
    if case["default"]:
        y, f = method()
        return y, f, 8192, 1
    y, f = method(case["length"], case["count"])
    return y, f, case["length"], case["count"]


@facet("C07", "response", cases, n=1100, shards=3, rule="filter x length x count; non-trivial when the response is not identically zero.")
def response(case):
    f = build(case["f"])
    f.filter(gen.sig(case["x"]))
    before = state(f)
    y, fr, length, count = call(f.response, case)
    unchanged(f, before, "response")
    if not check_response(f, y, fr, length, count):
        return ""
    return case["f"]["kind"] + (" odd" if length & 1 else " even") + (" cascade" if count > 1 else "")


def check_response(f, y, fr, length, count):
    close(fr, axis(length), "response frequency", rtol=1e-12, scale=1.0)
    ensure(fr.min() >= -1.0 and fr.max() < 1.0, "frequency range")
    A, b = coefficients(f)
    w = np.pi * axis(length)
    den, num = at(A, w), at(b, w)
    ok = np.abs(den) > 1e-5 * np.abs(A).sum()
    y = arr(y)
    ensure(y.shape == (length,), f"response shape {y.shape}")
    h = num / den
    scale = (np.abs(b).sum() / np.abs(den)) ** count
    close(y[ok], h[ok] ** count, f"response, length {length}, count {count}", rtol=1e-8, scale=scale[ok], atol=1e-300)
    return bool(np.any(num))


@facet("C07", "delay", cases, n=1100, shards=3, rule="filter x length x count; non-trivial when the delay is compared at one frequency or more.")
def delay(case):
    f = build(case["f"])
    f.filter(gen.sig(case["x"]))
    before = state(f)
    y, fr, length, count = call(f.delay, case)
    unchanged(f, before, "delay")
    if not check_delay(f, y, fr, length, count):
        return ""
    return case["f"]["kind"] + (" odd" if length & 1 else " even") + (" cascade" if count > 1 else "")


def check_delay(f, y, fr, length, count):
    close(fr, axis(length), "delay frequency", rtol=1e-12, scale=1.0)
    A, b = coefficients(f)
    w = np.pi * axis(length)
    den, num = at(A, w), at(b, w)
    ok = (np.abs(den) > 1e-4 * np.abs(A).sum()) & (np.abs(num) > 1e-4 * np.abs(b).sum())
    if isinstance(f, db.IirFilter):
        if length > 6:
            ok[:6] = ok[-6:] = False
    elif length > 2:
        ok[0] = False
    y = arr(y)
    ensure(y.shape == (length,), f"delay shape {y.shape}")
    with np.errstate(all="ignore"):
        d = (at(b * np.arange(len(b)), w) / num).real - (at(A * np.arange(len(A)), w) / den).real
    close(y[ok], count * d[ok], f"delay, length {length}, count {count}", rtol=1e-6, scale=count * (len(A) + len(b)) * 1e2)
    return bool(ok.any())


@st.composite
def rooted(draw):
    f = draw(filters())
    return dict(f=f, count=draw(st.integers(1, 4)), default=draw(st.integers(0, 5)) == 0)


def infinite(c):
    """Whether a root is effectively infinite."""
    return bool(np.any((c != 0) & (np.abs(c) < 1e-9 * np.abs(c).max(initial=0.0))))


def check_roots(z, c, count, what):
    """z are the roots of the polynomial c, each repeated count times, in ascending order of magnitude."""
    c = np.trim_zeros(np.asarray(c), "f")
    z = np.asarray(z)
    n = max(len(c) - 1, 0)
    if infinite(c):
        return
    ensure(z.shape == (count * n,), lambda: f"{what}: {z.shape} roots expected {count * n}")
    if not n:
        return
    m = np.abs(z)
    ensure(np.all(np.diff(m) >= -1e-9 * (1.0 + m[1:])), f"{what}: not in ascending order of magnitude {m}")
    size = np.array([np.polyval(np.abs(c), abs(v)) for v in z])
    res = np.array([abs(np.polyval(c, v)) for v in z])
    ensure(np.all(res <= 1e-8 * size), lambda: f"{what}: {z[np.argmax(res / size)]} is not a root of {c} (residual {np.max(res / size)})")
    # Multiplicity: with every root repeated count times, each root has at least count neighbours (itself included).
    near = np.array([np.sum(np.abs(z - v) <= 1e-6 * (1.0 + abs(v))) for v in z])
    ensure(np.all(near >= count), lambda: f"{what}: root {z[np.argmin(near)]} occurs {near.min()} times expected {count}")
    if n <= 6:
        # One representative of each repetition reconstructs the polynomial; matched against numpy's own roots.
        ref = list(np.tile(np.roots(c), count))
        for v in z:
            k = int(np.argmin([abs(v - r) for r in ref]))
            ensure(abs(v - ref[k]) <= 1e-5 * (1.0 + abs(v)), lambda: f"{what}: {v} is not among the remaining roots {ref}")
            ref.pop(k)


@facet("C07", "roots", rooted, n=1100, shards=2, rule="filter x count; non-trivial with one root or more.")
def roots(case):
    f = build(case["f"])
    before = state(f)
    large = any(infinite(c) for c in coefficients(f))
    count = 1 if case["default"] else case["count"]
    p, z = f.roots() if case["default"] else f.roots(count)
    unchanged(f, before, "roots")
    if large:
        return ""
    check_both(f, p, z, count)
    return case["f"]["kind"] + (" cascade" if count > 1 else "") if len(f.b) > 1 else ""


def check_both(f, p, z, count):
    A, b = coefficients(f)
    check_roots(z, b, count, "zeros")
    if isinstance(f, db.IirFilter):
        check_roots(p, A, count, "poles")
    else:
        ensure(np.asarray(p).shape == (count * (len(b) - 1),) and not np.any(p), f"poles of an FIR filter {p}")


@st.composite
def changing(draw):
    """A filter whose coefficients change between queries, two of which may have equal arguments."""
    lengths = draw(st.lists(st.integers(1, 40), min_size=1, max_size=2))
    query = st.tuples(st.sampled_from(["response", "delay", "roots"]), st.sampled_from(lengths), st.integers(1, 2))
    change = st.tuples(st.sampled_from(["inplace", "scale", "assign", "filter"]), st.integers(0, 8), st.sampled_from([0.5, -0.25, 2.0]))
    ops = draw(st.lists(query, max_size=2)) + [draw(change)] + draw(st.lists(st.one_of(query, change), max_size=4)) + [draw(query)]
    return dict(f=draw(filters()), ops=ops, other=draw(filters()), spoil=draw(st.booleans()))


@facet("C07", "changing", changing, n=600, shards=2, rule="history of queries and changes of the coefficients: every query describes the present coefficients; non-trivial with a query after a change.")
def changing_(case):
    f, other = build(case["f"]), build(case["other"])
    changed = tested = False
    for name, u, v in case["ops"]:
        if name in ("inplace", "scale", "assign", "filter"):
            if name == "filter":
                f.filter([v, 1.0])
                continue
            b = f.b if name != "assign" else np.array(f.b)
            if name == "inplace":
                b[u % len(b)] += v
            else:
                b *= v if u & 1 else -v
            if name == "assign":
                f.b = b
            if hasattr(f, "a") and len(f.a) > 1 and u & 2:
                a = np.array(f.a)
                a[1:] *= 0.5
                if u & 4:
                    f.a[:] = a
                else:
                    f.a = a
            changed = True
            continue
        tested = tested or changed
        for g in (other, f):  # another filter is queried with equal arguments before
            if name == "roots":
                if any(infinite(c) for c in coefficients(g)):
                    continue
                r = g.roots(v)
                check_both(g, *r, v)
            else:
                r = getattr(g, name)(u, v)
                (check_response if name == "response" else check_delay)(g, *r, u, v)
            if case["spoil"]:
                for w in r:
                    w[...] = 7.0
    return case["f"]["kind"] if tested else ""


@st.composite
def invalid(draw):
    bad = draw(st.one_of(st.integers(-40, 0), st.just(0)))
    good = draw(st.integers(1, 20))
    return dict(f=draw(filters()), args=draw(st.sampled_from([[bad, good], [good, bad], [bad, bad]])), method=draw(st.sampled_from(["response", "delay"])))


@facet("C07", "reject", invalid, n=300, shards=1, rule="length or count which is not positive is rejected; every case is non-trivial.")
def reject(case):
    f = build(case["f"])
    before = state(f)
    raises(ValueError, lambda: getattr(f, case["method"])(*case["args"]), f"{case['method']}{tuple(case['args'])}")
    unchanged(f, before, case["method"])
    return case["method"]


@st.composite
def measured(draw):
    return dict(f=draw(filters(("fir", "iir", "derivative"))), length=draw(st.integers(2, 24)), k=draw(st.integers(0, 23)))


@facet("C07", "measured", measured, n=400, shards=2, rule="the response predicts the steady state amplitude of a filtered exponential; non-trivial when the filter is settled.")
def measured_(case):
    f = build(case["f"])
    y, fr = f.response(case["length"], 1)
    k = case["k"] % case["length"]
    A, b = coefficients(f)
    r = np.abs(np.roots(A)).max() if len(A) > 1 else 0.0
    n = len(b) + len(A) + (int(np.ceil(np.log(1e-10) / np.log(r))) if r > 1e-3 else 12)
    if n > 700:
        return ""
    g = db.IirFilter(a=np.array(f.a, complex), b=np.array(f.b, complex)) if hasattr(f, "a") else db.FirFilter(b=np.array(f.b, complex))
    x = np.exp(1j * np.pi * fr[k] * np.arange(n))
    v = g.filter(x)
    scale = np.abs(b).sum() / max(1e-300, np.abs(at(A, np.array([np.pi * fr[k]]))[0])) + np.abs(v).max()
    close(v[-1], y[k] * x[-1], f"settled output of exp(j pi {fr[k]} n)", rtol=1e-5, scale=scale)
    return case["f"]["kind"] if np.any(b) else ""
