"""C26: Z transform of rational functions of known poles and zeros."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import arr, close, ensure, facet, raises

ASSUMPTIONS = [
    "Poles and zeros are distinct, more than 1e-4 of their magnitude apart and of magnitudes within a factor of 1e3, and differ from zero and from the singular point 2t of the bilinear map.",
    "Impulse invariance is claimed of strictly proper functions whose discrete sum of residues is not negligible.",
]
REAL = [-0.25, -0.5, -1.0, -1.5, -2.0, -2.75, -3.5, -4.5, -6.0, -8.0]


@st.composite
def roots(draw, lo, hi, unstable=False):
    """Real roots, and pairs of complex roots, which are distinct."""
    out, n = [], draw(st.integers(lo, hi))
    reals_ = draw(st.permutations(REAL + ([0.5, 1.25, 3.0] if unstable else [])))
    pairs = draw(st.permutations([(-a, b) for a in (0.0, 0.25, 0.75, 1.5, 3.0) for b in (0.5, 1.0, 2.0, 3.25)] + ([(0.5, 1.0), (1.0, 2.5)] if unstable else [])))
    i = j = 0
    while len(out) < n:
        if n - len(out) >= 2 and draw(st.booleans()):
            out += [[pairs[i][0], pairs[i][1]], [pairs[i][0], -pairs[i][1]]]
            i += 1
        else:
            out.append([reals_[j], 0.0])
            j += 1
    return out


def complexes(v):
    return np.array([complex(*e) for e in v], complex)


@st.composite
def cases(draw):
    bilinear = draw(st.booleans())
    p = draw(roots(1, 6, draw(st.booleans())))
    z = draw(roots(0, len(p) if bilinear else len(p) - 1, True))
    return dict(
        bilinear=bilinear, p=p, z=z,
        f=draw(st.one_of(st.sampled_from([0.1, 0.05, 0.25, 0.5, 1.0, 0.01, 2.0]), st.floats(0.01, 1.0), st.integers(-40, 40 if bilinear else 12).map(lambda k: 10.0 ** (k / 10.0)))),
        scale=draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, 3.7] if not bilinear else [1.0, 1.0, 0.5, 2.0, 100.0, 0.01])),
        gu=draw(st.sampled_from([1.0, 1.0, -2.0, 0.1, 1e6, 1e-6, 1e-12, 1e-40, 1e30])), gv=draw(st.sampled_from([1.0, 1.0, 3.0, -0.5, 1e4, 1e-4, 1e-12, 1e-40, 1e30])),
        pad=[draw(st.integers(0, 3)), draw(st.integers(0, 3))], how=draw(st.sampled_from(["", "list", "tuple", "readonly", "strided"])),
    )  # fmt: skip


def expected(case):
    """(poles, zeros or forward polynomial, singular) in the z-domain."""
    t = 1.0 / (np.pi * case["f"])
    p, z = complexes(case["p"]) * case["scale"], complexes(case["z"]) * case["scale"]
    if case["bilinear"]:
        near = min(abs(1.0 - v / (2.0 * t)) for v in np.concatenate((p, z)))
        if near < 0.05:
            return None
        m = lambda s: (1.0 + s / (2.0 * t)) / (1.0 - s / (2.0 * t))  # noqa: E731
        b = np.poly(m(z)) if len(z) else np.ones(1)
        return m(p), b.real, max(abs(m(np.concatenate((p, z)))))
    q = np.exp(p / t)
    b, size = np.zeros(len(p), complex), 0.0
    for k in range(len(p)):
        o = np.delete(p, k)
        r = np.prod(p[k] - z) / np.prod(p[k] - o)
        c = np.poly(np.delete(q, k)) if len(o) else np.ones(1)
        b += r * c
        size += abs(r) * np.abs(c).sum()
    if abs(b.sum()) < 1e-3 * size:
        return None
    return q, b.real, max(abs(q))


def signal(case, u=None, v=None):
    p, z = complexes(case["p"]) * case["scale"], complexes(case["z"]) * case["scale"]
    u = np.poly(p).real * case["gu"]
    v = (np.poly(z).real if len(z) else np.ones(1)) * case["gv"]
    return np.concatenate((np.zeros(case["pad"][0]), u)), np.concatenate((np.zeros(case["pad"][1]), v))


def padded(b, n):
    b = np.asarray(b)
    return np.concatenate((b, np.zeros(max(0, n - len(b)))))


@facet("C26", "map", cases, n=1500, shards=4, rule="poles x zeros x frequency x method x scaling x padding x representation: discrete poles, zeros, a[0] = 0 and unity gain; trivial near a singularity.")
def map_(case):
    e = expected(case)
    if e is None or e[2] > 50.0:
        return ""
    q, wb, _ = e
    u, v = signal(case)
    un, vn = np.array(u), np.array(v)
    ru, rv = gen.represent(u, case["how"]), gen.represent(v, case["how"])
    a, b = db.ZTransform.transform(ru, rv, case["f"], case["bilinear"])
    a, b = arr(a, "a"), arr(b, "b")
    ensure(np.array_equal(np.asarray(ru), un) and np.array_equal(np.asarray(rv), vn), "arguments were modified")
    ensure(a.dtype.kind == "f" and b.dtype.kind == "f", f"types {a.dtype}, {b.dtype}")
    ensure(a[0] == 0.0, f"a[0] = {a[0]}")
    want = -np.poly(q).real
    want[0] = 0.0
    size = np.prod(1.0 + np.abs(q))
    close(a, want, "recursive coefficients of the mapped poles", scale=size, rtol=1e-7)
    d = np.prod(1.0 - q).real
    wb = wb * d / wb.sum()
    n = max(len(a), len(b), len(wb))
    if abs(d) < 1e-8 * size:  # the gain at zero frequency is that of cancelled rounding errors
        return ""
    close(padded(b, n), padded(wb, n), "forward coefficients", scale=np.abs(wb).max() * max(1.0, size / max(abs(d), 1e-9)), rtol=1e-7)
    ensure(abs(b.sum() - (1.0 - a.sum())) <= 1e-9 * (np.abs(a).sum() + np.abs(b).sum() + 1.0), lambda: f"gain at zero frequency {b.sum() / (1.0 - a.sum())}")
    apart = min(np.prod(np.abs(np.delete(q, k) - q[k])) for k in range(len(q)))
    if np.all(complexes(case["p"]).real < 0) and size < 1e6 * apart:
        r = np.roots(np.concatenate(([1.0], -a[1:])))
        ensure(np.all(np.abs(r) < 1.0 + 1e-4), lambda: f"stable poles became {r}")
    if case["bilinear"]:
        a2, b2 = db.ZTransform.transform(un, vn, case["f"])
        close(a2, a, "default method", rtol=1e-12)
    a2, b2 = db.ZTransform.transform(u=un, v=vn * -7.0, frequency=case["f"], bilinear=case["bilinear"])
    close(b2, b, "forward coefficients of a scaled numerator", scale=np.abs(wb).max() * max(1.0, size / max(abs(d), 1e-9)), rtol=1e-7)
    return f"{'bilinear' if case['bilinear'] else 'impulse'} {len(q)}"


@st.composite
def neighbours(draw):
    """Two distinct poles which are close, and others which are not."""
    far = draw(st.sampled_from([[], [], [[-4.0, 0.0]], [[-0.5, 0.0], [-5.0, 0.0]], [[-1.0, 2.0], [-1.0, -2.0]]]))
    d = 10.0 ** draw(st.floats(-3.7 if not far else -2.5, -0.7))
    bilinear = draw(st.sampled_from([False, False, True]))
    p = [[-2.0, 0.0], [-2.0 * (1.0 + draw(st.sampled_from([1.0, -1.0])) * d), 0.0]] + far
    return dict(
        bilinear=bilinear, p=p, z=draw(st.sampled_from([[], [[-3.0, 0.0]]])), f=draw(st.sampled_from([0.1, 0.05, 0.2, 0.02, 0.5])), d=d,
        scale=10.0 ** draw(st.one_of(st.sampled_from([0.0, 0.0]), st.integers(-24, 24).map(lambda k: k / 4.0))), gu=draw(st.sampled_from([1.0, 1.0, -3.0])),
    )  # fmt: skip


@facet("C26", "close", neighbours, n=500, rule="distinct poles which are 0.02 to 20 percent apart, of any magnitude in proportion to the frequency: mapped poles, forward coefficients and unity gain; every case is non-trivial.")
def close_(case):
    k = case["scale"]
    e = expected(dict(case, scale=1.0))
    if e is None:
        return ""
    q, wb, _ = e
    p, z = complexes(case["p"]) * k, complexes(case["z"]) * k
    v = (np.poly(z).real if len(z) else np.ones(1)) * case["gu"]
    a, b = db.ZTransform.transform(np.poly(p).real * case["gu"], v, case["f"] / k, case["bilinear"])
    want = -np.poly(q).real
    want[0] = 0.0
    ensure(a[0] == 0.0 and len(a) == len(want), lambda: f"recursive coefficients {a} expected {want}")
    close(a, want, "recursive coefficients of the mapped poles", rtol=1e-9 / case["d"] ** 2, scale=1e-2)
    wb = wb * np.prod(1.0 - q).real / wb.sum()
    n = max(len(a), len(b), len(wb))
    close(padded(b, n), padded(wb, n), "forward coefficients", scale=np.abs(wb).max(), rtol=max(1e-6, 1e-11 / case["d"] ** (2 if len(q) > 2 else 1.5)))
    ensure(abs(b.sum() - (1.0 - a.sum())) <= 1e-9 * (np.abs(a).sum() + np.abs(b).sum() + 1.0), lambda: f"gain at zero frequency {b.sum() / (1.0 - a.sum())}")
    return f"{'bilinear' if case['bilinear'] else 'impulse'} {len(q)}"


@st.composite
def integers(draw):
    """Integer coefficients; poles from small integers."""
    p = draw(st.lists(st.sampled_from([-1, -2, -3, -4]), min_size=1, max_size=3, unique=True))
    z = draw(st.lists(st.sampled_from([-5, -6, 7]), max_size=len(p) - 1, unique=True))
    return dict(p=p, z=z, g=draw(st.sampled_from([1, 2, -3])), f=draw(st.sampled_from([0.1, 0.05, 0.2])), bilinear=draw(st.booleans()), how=draw(st.sampled_from(["int", "int32", "intlist", "tuple"])))


@facet("C26", "integers", integers, n=300, rule="integer coefficient arrays and lists equal their float equivalents; every case is non-trivial.")
def integers_(case):
    u, v = np.round(np.poly(case["p"])) * case["g"], np.round(np.poly(case["z"]) if case["z"] else np.ones(1))
    a, b = db.ZTransform.transform(u.copy(), v.copy(), case["f"], case["bilinear"])
    ru, rv = gen.represent(u, case["how"]), gen.represent(v, case["how"])
    c, d = db.ZTransform.transform(ru, rv, case["f"], case["bilinear"])
    close(c, a, f"recursive coefficients of {case['how']} arguments", rtol=1e-9)
    close(d, b, f"forward coefficients of {case['how']} arguments", rtol=1e-9)
    ensure(np.array_equal(np.asarray(ru), u) and np.array_equal(np.asarray(rv), v), "arguments were modified")
    return case["how"]


@st.composite
def invalid(draw):
    return dict(
        kind=draw(st.sampled_from(["u empty", "u zero", "v empty", "v zero", "frequency"])), n=draw(st.integers(1, 5)),
        f=draw(st.one_of(st.sampled_from([0.0, -0.0, -1e-12, -1.0]), st.floats(-100.0, 0.0))), bilinear=draw(st.booleans()), how=draw(st.sampled_from(["", "list", "tuple"])),
    )  # fmt: skip


@facet("C26", "reject", invalid, n=200, rule="empty or all-zero coefficients, or frequency not above zero; every case is non-trivial.")
def reject(case):
    u, v, f = np.array([1.0, 3.0, 2.0]), np.ones(1), 0.1
    bad = np.zeros(0 if "empty" in case["kind"] else case["n"])
    if case["kind"][0] == "u":
        u = bad
    elif case["kind"][0] == "v":
        v = bad
    else:
        f = case["f"]
    raises(ValueError, lambda: db.ZTransform.transform(gen.represent(u, case["how"]), gen.represent(v, case["how"]), f, case["bilinear"]), case["kind"])
    return case["kind"]
