"""Generators of JSON-able specifications of signals, chunkings and numbers, and their expansion to arrays.

Every random choice is drawn by Hypothesis; long signals are expanded deterministically from a drawn specification."""

import ast
import functools
import math
import os

import numpy as np
from hypothesis import strategies as st

# ---------------------------------------------------------------------------------------------------------------------
# Constants mined from the source under test: numbers which appear in /repo are interesting boundaries for lengths, orders
# and frequencies.  Coefficient tables (files with very many distinct floats) contribute integers only.


@functools.lru_cache(None)
def mined():
    ints, floats = set(), set()
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "diamondback")
    for base, _, files in sorted(os.walk(root)):
        for name in sorted(files):
            if not name.endswith(".py"):
                continue
            try:
                with open(os.path.join(base, name), encoding="utf-8") as fin:
                    tree = ast.parse(fin.read())
            except (SyntaxError, OSError, ValueError):
                continue
            local = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and type(node.value) in (int, float):
                    v = node.value
                    if isinstance(v, int):
                        if 2 <= v <= 140000:
                            ints.add(v)
                    elif v == v and abs(v) < 1e9:
                        local.add(v)
                        if v == int(v) and 2 <= v <= 140000:
                            ints.add(int(v))
            if len(local) < 60:
                floats |= local
    return tuple(sorted(ints)), tuple(sorted(floats))


@functools.lru_cache(None)
def mined_ints(lo, hi):
    s = set()
    for v in mined()[0]:
        for w in (v - 1, v, v + 1):
            if lo <= w <= hi:
                s.add(w)
    return sorted(s)


@functools.lru_cache(None)
def mined_floats(lo, hi):
    s = set()
    for v in mined()[1]:
        for w in (v, -v, v * (1 + 1e-6), v * (1 - 1e-6), 1.0 - v):
            if lo <= w <= hi:
                s.add(float(w))
    return sorted(s)


# ---------------------------------------------------------------------------------------------------------------------
# Integers (lengths, orders, counts).


@functools.lru_cache(None)
def lengths(lo=1, hi=600):
    """Lengths: mostly small, with powers of two, mined boundaries, and uniformly spread larger values."""
    edge = sorted({w for p in range(0, 13) for w in ((1 << p) - 1, 1 << p, (1 << p) + 1) if lo <= w <= hi} | set(mined_ints(lo, hi)))
    opts = [st.integers(lo, min(hi, lo + 8)), st.integers(lo, min(hi, max(lo, 48)))]
    if hi > 48:
        opts.append(st.integers(lo, hi))
    if edge:
        opts.append(st.sampled_from(edge))
    return st.one_of(*opts)


@functools.lru_cache(None)
def orders(lo, hi):
    e = mined_ints(lo, hi)
    base = [st.integers(lo, hi), st.integers(lo, min(hi, lo + 6))]
    return st.one_of(*(base + ([st.sampled_from(e)] if e else [])))


# ---------------------------------------------------------------------------------------------------------------------
# Real numbers.


@functools.lru_cache(None)
def reals(lo, hi, open_lo=False, open_hi=False, grid=True):
    """Real numbers of an interval: round values, mined values, near-boundary values, and arbitrary floats."""
    opts = []
    span = hi - lo
    g = [lo + span * k / 64.0 for k in range(0, 65)]
    g += [k / 10.0 for k in range(math.ceil(lo * 10), math.floor(hi * 10) + 1)] if span < 100 else []
    ok = lambda v: (v > lo or (not open_lo and v == lo)) and (v < hi or (not open_hi and v == hi))  # noqa: E731
    g = [v for v in g if ok(v)]
    if grid and g:
        opts.append(st.sampled_from(g))
    m = [v for v in mined_floats(lo, hi) if ok(v)]
    if m:
        opts.append(st.sampled_from(m))
    opts.append(st.floats(lo, hi, allow_nan=False, exclude_min=open_lo, exclude_max=open_hi, allow_subnormal=False))
    opts.append(st.integers(1, 9999).map(lambda k: lo + span * k / 10000.0))
    return st.one_of(*opts)


SCALES = (1.0, 1.0, 1.0, 1.0, 1.0, 1e-9, 1e-4, 1e3, 1e9, 1e-18, 1e18)


@functools.lru_cache(None)
def values():
    return st.one_of(
        st.integers(-9, 9).map(float),
        st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.1, 1e-3, 100.0]),
        st.floats(-10.0, 10.0, allow_nan=False, allow_subnormal=False).map(lambda v: v if abs(v) > 1e-100 else 0.0),  # products stay normal
    )


@functools.lru_cache(None)
def cvalues():
    return st.one_of(
        st.tuples(values(), values()).map(list),
        values().map(lambda v: [v, 0.0]),
        values().map(lambda v: [0.0, v]),
    )


# ---------------------------------------------------------------------------------------------------------------------
# Signals.


@st.composite
def signals(draw, lo=1, hi=600, complex_=None, scales=SCALES, kinds=None):
    """A specification of a signal.  complex_: True, False, or None (either)."""
    n = draw(vast(lo, hi, 140000, lengths) if hi >= 20000 else lengths(lo, hi))
    c = draw(st.booleans()) if complex_ is None else complex_
    spec = dict(n=n, c=bool(c), re=draw(_real(n, kinds)))
    if c:
        spec["im"] = draw(st.one_of(_real(n, kinds), st.just(dict(k="const", a=0.0))))
    a = draw(st.sampled_from(scales))
    if a != 1.0:
        spec["a"] = a
    return spec


@st.composite
def fixed_signal(draw, n, complex_=False, scales=(1.0,), kinds=None):
    spec = dict(n=n, c=bool(complex_), re=draw(_real(n, kinds)))
    if complex_:
        spec["im"] = draw(_real(n, kinds))
    a = draw(st.sampled_from(scales))
    if a != 1.0:
        spec["a"] = a
    return spec


WIDE = ("burst", "burst")  # in addition to KINDS, where samples which differ by many orders of magnitude are judged each on its own
KINDS = ("noise", "list", "noise", "ints", "rests", "tone", "noise", "const", "impulse", "ramp", "step", "sparse", "ties", "poly")


@st.composite
def _real(draw, n, kinds=None):
    k = draw(st.sampled_from(kinds or KINDS))
    if k == "list":
        if n > 40:
            k = "noise"
        else:
            return dict(k="list", v=draw(st.lists(values(), min_size=n, max_size=n)))
    s = dict(k=k)
    if k in ("noise", "ints", "sparse", "ties", "burst", "rests"):
        s["s"] = draw(st.integers(0, 2**20))
    elif k == "tone":
        s["f"], s["p"] = draw(reals(-1.0, 1.0)), draw(st.integers(0, 15)) / 8.0
    elif k == "const":
        s["a"] = draw(values())
    elif k == "impulse":
        s["at"], s["a"] = draw(st.integers(0, n - 1)), draw(st.sampled_from([1.0, -1.0, 2.5]))
    elif k == "ramp":
        s["a"], s["b"] = draw(values()), draw(values())
    elif k == "step":
        s["at"], s["a"], s["b"] = draw(st.integers(0, n - 1)), draw(values()), draw(values())
    elif k == "poly":
        s["v"] = draw(st.lists(st.integers(-3, 3), min_size=1, max_size=4))
    return s


def _expand(s, n):
    k = s["k"]
    t = np.arange(n, dtype=float)
    if k == "list":
        return np.array(s["v"], float)
    if k == "noise":
        return np.random.RandomState(s["s"]).uniform(-1.0, 1.0, n)
    if k == "ints":
        return np.random.RandomState(s["s"]).randint(-9, 10, n).astype(float)
    if k == "sparse":
        r = np.random.RandomState(s["s"])
        return np.where(r.uniform(size=n) < 0.8, 0.0, r.uniform(-1.0, 1.0, n))
    if k == "ties":
        return np.random.RandomState(s["s"]).choice([-1.0, 0.0, 1.0, 2.0, -2.0], n)
    if k == "burst":  # runs of samples, each zero, faint, ordinary or loud; often silent at the end
        r = np.random.RandomState(s["s"])
        size = np.repeat(r.choice([0.0, 0.0, 1e-250, 1e-30, 1e-14, 1e-9, 1e-4, 1.0, 1.0, 1e3, 1e7], n), 1 + r.randint(0, 1 + 2 ** r.randint(0, 7), n))[:n]
        if n > 2 and s["s"] & 1:
            size[-1 - r.randint(0, min(n - 1, 12)) :] = 0.0
        return size * r.uniform(0.1, 1.0, n) * r.choice([-1.0, 1.0], n)
    if k == "rests":  # a few samples at a time between runs of zeros
        r = np.random.RandomState(s["s"])
        w = np.repeat(np.arange(n) % 2, np.where(np.arange(n) % 2, 1 + r.randint(0, 3, n), 1 + r.randint(0, 1 + 2 ** r.randint(1, 7), n)))[:n]
        return np.where(w == s["s"] % 2, r.uniform(-1.0, 1.0, n), 0.0)
    if k == "tone":
        return np.cos(np.pi * (s["f"] * t + s["p"]))
    if k == "const":
        return np.full(n, float(s["a"]))
    if k == "impulse":
        y = np.zeros(n)
        y[s["at"]] = s["a"]
        return y
    if k == "ramp":
        return s["a"] + s["b"] * t
    if k == "step":
        return np.where(t < s["at"], s["a"], s["b"]).astype(float)
    if k == "poly":
        u = t / max(n, 1)
        return sum(c * u**i for i, c in enumerate(s["v"])) + 0.0 * u
    raise KeyError(k)


def sig(spec):
    """Expands a specification to a fresh float or complex array."""
    y = _expand(spec["re"], spec["n"])
    if spec["c"]:
        y = y + 1j * _expand(spec["im"], spec["n"])
    return y * spec["a"] if "a" in spec else y


def trivial(x):
    """A signal without information: all samples zero."""
    return not np.any(x)


@functools.lru_cache(None)
def sizes(lo, hi):
    """Large sizes: powers of two and round numbers with their neighbours, mined boundaries, and any."""
    edge = {w for p in range(0, 16) for w in ((1 << p) - 1, 1 << p, (1 << p) + 1)} | {d * 10**k + e for k in (2, 3, 4) for d in (1, 2, 5) for e in (-1, 0, 1)}
    mine = mined_ints(lo, hi)
    edge = sorted(w for w in edge if lo <= w <= hi)
    return st.one_of(*([st.sampled_from(v) for v in (edge, mine) if v] + [st.integers(lo, hi)]))


@functools.lru_cache(None)
def vast(lo, hi, most=140000, base=sizes):
    """As sizes, and one in twelve is far larger, about a power of two or mined boundary."""
    top = [w for w in (32769, 50001, 65535, 65536, 65537, 70001, 100001, 131073) if hi < w <= most] + mined_ints(hi + 1, most)
    return st.integers(0, 11).flatmap(lambda k: st.sampled_from(top) if top and k == 7 else base(lo, hi))


STREAM_KINDS = ("noise", "rests", "ints", "sparse", "tone", "ramp", "step", "ties", "const")


@st.composite
def streams(draw, hi=20000, lo=600, complex_=False, kinds=STREAM_KINDS):
    """A long signal and its partition into calls: dict(x, cuts)."""
    n = draw(vast(lo, hi) if hi >= 20000 else sizes(lo, hi))
    c = draw(st.booleans()) if complex_ is None else complex_
    x = dict(n=n, c=bool(c), re=draw(_real(n, kinds)))
    if c:
        x["im"] = draw(_real(n, kinds))
    cuts = draw(st.one_of(st.just([n]), st.just([n]), st.lists(sizes(max(1, n // 4000), max(2, n)), min_size=1, max_size=3), st.sampled_from([[n - 1, 1], [1, n], [n // 2, n], [64], [100, 1], [1] if n <= 5000 else [3, 5, 2] if n <= 20000 else [500, 1]])))
    return dict(x=x, cuts=cuts)


# ---------------------------------------------------------------------------------------------------------------------
# Partitions of a signal into consecutive calls.


@st.composite
def chunkings(draw, n=0):
    """A specification of a partition: a list of piece lengths used cyclically; the last piece is truncated.  The length n of
    the signal, when it is passed, also gives one long piece before or after a short one, and pieces of similar length."""
    if n > 2 and draw(st.integers(0, 2 if n < 1000 else 1)) == 0:
        k = draw(st.integers(1, min(n - 1, 24)))
        return draw(st.sampled_from([[n - k, k], [k, n], [n - k, 1], [n // 2, n], [max(1, n // 3), k]]))
    return draw(
        st.one_of(
            st.lists(st.integers(1, 9), min_size=1, max_size=6),
            st.lists(st.integers(1, 5), min_size=1, max_size=3),
            st.lists(st.integers(1, 200), min_size=1, max_size=4),
            st.lists(lengths(1, 3000), min_size=1, max_size=3),
            st.sampled_from([[1], [2], [3], [7], [16], [1, 1000], [5, 1, 1], [1, 2, 4, 8, 16]]),
        )
    )


def pieces(n, cuts):
    out, ii, k = [], 0, 0
    while ii < n:
        w = cuts[k % len(cuts)]
        out.append((ii, min(n, ii + w)))
        ii += w
        k += 1
    return out


def chunks(x, cuts):
    return [x[u:v] for u, v in pieces(len(x), cuts)]


# ---------------------------------------------------------------------------------------------------------------------
# Coefficients.


@st.composite
def coefs(draw, lo=1, hi=12, complex_=False, big=40, shapes=0):
    """Coefficient arrays: short explicit lists, or long arrays expanded from a seed.  One in shapes (if any) has a structure
    which a shortcut may recognise: exactly or nearly symmetric or equal, or elements which are relatively very small."""
    n = draw(st.one_of(st.integers(lo, hi), orders(lo, max(big, hi))))
    if shapes and draw(st.integers(0, shapes - 1)) == shapes - 1:
        return dict(n=n, s=draw(st.integers(0, 2**20)), c=complex_, z=draw(st.integers(4, 9)), e=draw(st.sampled_from([0, 0, 1, 4, 6, 7, 8, 9, 10, 12])))
    if n <= 12 and draw(st.booleans()):
        v = draw(st.lists(cvalues() if complex_ else values(), min_size=n, max_size=n))
        return dict(v=v, c=complex_)
    return dict(n=n, s=draw(st.integers(0, 2**20)), c=complex_, z=draw(st.integers(0, 3)))


def coef(spec):
    if "v" in spec:
        return np.array([complex(*v) for v in spec["v"]]) if spec["c"] else np.array(spec["v"], float)
    r = np.random.RandomState(spec["s"])
    y = r.uniform(-1.0, 1.0, spec["n"])
    if spec["c"]:
        y = y + 1j * r.uniform(-1.0, 1.0, spec["n"])
    if spec.get("z") == 1:  # sparse
        y = np.where(r.uniform(size=spec["n"]) < 0.5, 0.0, y)
    elif spec.get("z") == 2:  # small integers
        y = np.round(y.real * 4.0) + (1j * np.round(y.imag * 4.0) if spec["c"] else 0.0)
    elif spec.get("z", 0) >= 4:
        z, n = spec["z"], len(y)
        tiny = 10.0 ** -spec["e"] if spec["e"] else 0.0
        if z in (4, 5):  # palindrome, or antisymmetric, up to a relative difference
            y = np.where(np.arange(n) < (n + 1) // 2, y, (y if z == 4 else -y)[::-1])
            y[r.randint(0, n)] *= 1.0 + tiny
        elif z == 6:  # all equal, up to a relative difference
            y = y[0] * np.ones(n)
            y[r.randint(0, n)] *= 1.0 + tiny
        elif z == 7:  # one leading or trailing run is tiny
            k = r.randint(0, n)
            y[:k] *= tiny if r.randint(0, 2) else 1.0
            y[k:] *= tiny if r.randint(0, 2) else 1.0
        elif z == 8:  # any elements are tiny
            y = y * np.where(r.uniform(size=n) < 0.5, 1.0, tiny)
        else:  # a complex array which is nearly real or imaginary
            y = (y.real + 1j * tiny * y.imag if r.randint(0, 2) else tiny * y.real + 1j * y.imag) if spec["c"] else y * (tiny or 1.0)
    return y


# ---------------------------------------------------------------------------------------------------------------------
# Representations of the same values.


def represent(x, how):
    """The values of a 1-D (or 2-D) array in another container, dtype or memory layout."""
    x = np.asarray(x)
    if how == "list":
        return x.tolist()
    if how == "tuple":
        return tuple(x.tolist())
    if how == "nplist":
        return list(x)
    if how in ("int", "int32", "intlist") and x.size and np.abs(x.real).max() >= (2.0**31 if how == "int32" else 2.0**62):
        return np.trunc(x.real)  # does not fit
    if how == "int":
        return x.real.astype(np.int64)
    if how == "int32":
        return x.real.astype(np.int32)
    if how == "intlist":
        return x.real.astype(np.int64).tolist()
    if how == "f4":
        return x.astype(np.complex64 if np.iscomplexobj(x) else np.float32)
    if how == "strided":
        y = np.zeros(tuple(2 * d for d in x.shape), x.dtype)
        y[tuple(slice(None, None, 2) for _ in x.shape)] = x
        return y[tuple(slice(None, None, 2) for _ in x.shape)]
    if how == "reversed":
        return x[::-1].copy()[::-1]
    if how == "readonly":
        y = np.array(x)
        y.flags.writeable = False
        return y
    if how == "fortran":
        return np.array(x, order="F")
    if how == "bigendian":
        return x.astype(x.dtype.newbyteorder(">"))
    return np.array(x)


def cx(v):
    return complex(v[0], v[1]) if isinstance(v, (list, tuple)) else v
