"""C20: Gaussian model."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import arr, close, ensure, facet, raises

ASSUMPTIONS = [
    "Classes whose distances agree within rounding (relative 1e-7) may be ranked in either order.",
    "Without regularisation, every class has more than twice as many rows as dimensions in general position.",
]
LABELS = [[0, 1, 2, 3, 4, 5], [1, 2, 3, 4, 5, 6], [-3, -1, 0, 7, 100, 1000], [5, 9, 10, 11, 12, 200], [10, 2, 33, 4, 1, 7]]


@st.composite
def labellings(draw):
    """Distinct labels and an integer type which holds them: near to each other at a large magnitude, equal in their low bits, or
    extremes of the type."""
    kind = draw(st.sampled_from(["near", "bits", "edge", "any"]))
    if kind == "near":
        base = draw(st.sampled_from([0, 2**7 - 3, 2**8 - 3, 2**15 - 3, 2**16 - 2, 2**24, 2**31 - 3, 2**32 - 2, 2**53, 2**53 + 2**20, 2**62, 2**63 - 6, -(2**24) - 5, -(2**31) - 2, -(2**53) - 6, -(2**63)]))
        v = [base + k for k in range(6)]
    elif kind == "bits":
        base, step = draw(st.integers(-5, 5)), 2 ** draw(st.sampled_from([7, 8, 15, 16, 24, 31, 32, 53]))
        v = [base + k * step for k in range(6)]
    elif kind == "edge":
        i = np.iinfo(draw(st.sampled_from(INTEGERS)))
        v = sorted({int(i.min), int(i.max), int(i.max) - 1, 0, 1, int(i.max) // 2, int(i.min) + 1})[-6:]
        v = v if len(v) == 6 else v + [2, 3][: 6 - len(v)]
    else:
        v = draw(st.lists(st.integers(-(2**63), 2**63 - 1), min_size=6, max_size=6, unique=True))
    v = draw(st.permutations(v))
    fits = [t for t in INTEGERS if np.iinfo(t).min <= min(v) and max(v) <= np.iinfo(t).max]
    return [int(w) for w in v], draw(st.sampled_from(fits))


INTEGERS = ("int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64")


@st.composite
def data(draw, most=5, extra=10, plain=False):
    """A training set: classes, rows, dimensions, and a layout."""
    labels, dtype = (draw(st.sampled_from(LABELS)), draw(st.sampled_from(["int64", "int32", "int16"]))) if plain or draw(st.booleans()) else draw(labellings())
    dim, k = draw(st.integers(1, 4)), min(most, draw(st.sampled_from([2, 3, 4, 5, 2, 3, 1])))
    reg = draw(st.sampled_from([None, 0.1, 1.0, 1e-3, 10.0, 0.0, 0.5, 100.0]))
    lo = 2 * dim + 1 if reg == 0.0 else 1
    return dict(
        dim=dim,
        reg=reg,
        sizes=[draw(st.integers(lo, lo + extra)) for _ in range(k)],
        labels=labels[:k],
        dtype=dtype,
        seed=draw(st.integers(0, 2**20)),
        spread=draw(st.sampled_from([1.0, 0.1, 5.0])),
        shape=draw(st.sampled_from(["iso", "iso", "skew", "offset", "units", "units"] if reg == 0.0 else ["iso", "skew", "offset", "int"])),
    )


def expand(d):
    r = np.random.RandomState(d["seed"])
    x, y = [], []
    for n, label in zip(d["sizes"], d["labels"]):
        c = r.uniform(-3.0, 3.0, d["dim"])
        z = r.normal(size=(n, d["dim"])) * d["spread"]
        if d["shape"] == "skew":
            z = z @ r.uniform(-1.0, 1.0, (d["dim"], d["dim"]))
        x.append(z + c + (1000.0 if d["shape"] == "offset" else 0.0))
        y += [label] * n
    x, y = np.concatenate(x), np.array(y, d["dtype"])
    if d["shape"] == "int":
        x = np.round(x * 4.0)
    if d["shape"] == "units":
        x = x * 10.0 ** r.randint(-9, 10, d["dim"])
    p = r.permutation(len(x))
    return x[p], y[p]


def mahalanobis(x, y, reg, q):
    """Distances (query, class) with classes in ascending label order, and a bound of their relative rounding error."""
    out, cond = [], []
    if not reg:  # a distance does not depend on units
        unit = x.std(0)
        x, q = x / unit, q / unit
    for label in sorted(set(y.tolist())):
        z = x[y == label]
        u = z.mean(0)
        c = (z - u).T @ (z - u) / len(z) + reg * np.eye(x.shape[1])
        d = q - u
        out.append(np.einsum("ij,ij->i", d, np.linalg.solve(c, d.T).T))
        cond.append(np.linalg.cond(c))
    return np.array(out).T, max(cond)


def queries(d, x, seed):
    r = np.random.RandomState(seed)
    unit = x.std(0) if d["shape"] == "units" else 1.0
    q = np.concatenate((x[r.randint(0, len(x), 4)], x[r.randint(0, len(x), 4)] + r.normal(size=(4, x.shape[1])) * unit, r.normal(size=(3, x.shape[1])) * 100.0 * unit))
    return np.round(q) if d["shape"] == "int" else q


def ranked(v, d, what, tol):
    """v ranks every row of distances d in ascending order."""
    v = arr(v, "predictions")
    ensure(v.shape == d.shape, lambda: f"{what}: predictions of shape {v.shape} expected {d.shape}")
    ensure(np.issubdtype(v.dtype, np.integer), f"{what}: predictions of type {v.dtype}")
    for k in range(len(v)):
        ensure(sorted(v[k].tolist()) == list(range(d.shape[1])), lambda: f"{what}: row {k} {v[k]} is not a permutation of class ordinals")
        w = d[k][v[k]]
        ensure(np.all(np.diff(w) >= -tol * (np.abs(w[1:]) + np.abs(w[:-1]) + 1e-9)), lambda: f"{what}: row {k} is ranked {v[k]}, with distances {w}")


def decided(d, tol):
    s = np.sort(d, axis=1)
    return np.all(np.diff(s, axis=1) > 4 * tol * (s[:, 1:] + 1e-6), axis=1)


def model(reg):
    return db.GaussianModel() if reg is None else db.GaussianModel(regularize=reg)


@st.composite
def cases(draw):
    d = draw(data())
    prior = draw(st.one_of(st.none(), data(3, 4)))
    if prior and draw(st.booleans()):
        prior["dim"] = d["dim"]
        prior["sizes"] = [max(n, 2 * d["dim"] + 1) for n in prior["sizes"]]
    return dict(d=d, prior=prior, pr=draw(st.sampled_from([None, 0.2, 1e3, 1e-2])), q=draw(st.integers(0, 9999)), assign=draw(st.booleans()), how=draw(st.sampled_from(["", "fortran", "strided", "readonly"])), integer=draw(st.sampled_from([None, "int64", "int32", "int16"])))


@facet("C20", "rank", cases, n=1000, shards=3, rule="training set x previous fit x query; non-trivial with two classes or more.")
def rank(case):
    d = case["d"]
    x, y = expand(d)
    q = queries(d, x, case["q"])
    if case["assign"] and d["reg"] is not None:
        m = db.GaussianModel()
        m.regularize = d["reg"]
    else:
        m = model(d["reg"])
    reg = 0.1 if d["reg"] is None else d["reg"]
    ensure(m.regularize == reg, f"regularize reads {m.regularize}")
    if case["prior"]:
        u, v = expand(case["prior"])
        if case["prior"]["reg"] != 0.0 and reg == 0.0:
            u, v = x, y
        if case.get("pr") is not None:  # the previous fit has another regularisation
            m.regularize = case["pr"]
        m.fit(u, v)
        m.predict(u)
        m.regularize = reg
    m.fit(gen.represent(x, case["how"]), y)
    ensure(tuple(m.shape) == (d["dim"],), f"shape {m.shape}")
    want, cond = mahalanobis(x, y, reg, q)
    if cond > 1e7:
        return ""
    if case.get("integer") and d["shape"] == "int":
        m.fit(x.astype(case["integer"]), y)
        ranked(m.predict(q), want, "predict after integer observations", 1e-8 + 1e-13 * cond)
        q = q.astype(case["integer"])
    tol = 1e-8 + 1e-13 * cond * (1e6 if d["shape"] == "offset" else 1.0)
    ranked(m.predict(gen.represent(q, case["how"])), want, "predict", tol)
    ranked(m.predict(q), want, "second predict", tol)
    return f"{len(d['sizes'])} classes" + (" refit" if case["prior"] else "") if len(d["sizes"]) > 1 else ""


@st.composite
def relations(draw):
    return dict(d=draw(data()), q=draw(st.integers(0, 9999)), times=draw(st.integers(2, 4)), p=draw(st.integers(0, 9999)))


@facet("C20", "relations", relations, n=600, shards=2, rule="row order, duplication of the training data, batch composition and label values do not change predictions; non-trivial with two classes or more.")
def relations_(case):
    d = case["d"]
    x, y = expand(d)
    q = queries(d, x, case["q"])
    reg = 0.1 if d["reg"] is None else d["reg"]
    want, cond = mahalanobis(x, y, reg, q)
    if cond > 1e7:
        return ""
    ok = decided(want, 1e-8 + 1e-13 * cond * (1e6 if d["shape"] == "offset" else 1.0))
    m = model(d["reg"])
    m.fit(x, y)
    base = arr(m.predict(q))

    def agree(v, what):
        ensure(np.array_equal(arr(v)[ok], base[ok]), lambda: f"{what} changed predictions from {base[ok]} to {arr(v)[ok]}")

    p = np.random.RandomState(case["p"]).permutation(len(x))
    other = model(d["reg"])
    other.fit(x[p], y[p])
    agree(other.predict(q), "training row order")
    other.fit(np.concatenate([x] * case["times"]), np.concatenate([y] * case["times"]))
    agree(other.predict(q), f"training data repeated {case['times']} times")
    agree(np.concatenate([arr(m.predict(r.reshape(1, -1))) for r in q]), "prediction of single rows")
    agree(arr(m.predict(q[::-1]))[::-1], "order of the query")
    names = sorted(set(y.tolist()))
    z = np.array([3 * names.index(v) - 50 for v in y.tolist()])
    other.fit(x, z)
    agree(other.predict(q), "label values in the same order")
    return f"{len(d['sizes'])} classes" if len(d["sizes"]) > 1 else ""


BAD = ("x1d", "x3d", "xempty", "xnone", "ylen", "yfloat", "ybool", "ystr")


@st.composite
def invalid(draw):
    return dict(kind=draw(st.sampled_from(["before", "fit", "predict", "regularize"])), bad=draw(st.sampled_from(BAD)), d=draw(data(3, 4)), v=draw(st.one_of(st.sampled_from([-1e-9, -1.0, -100.0]), st.floats(-1e3, -1e-9))), fitted=draw(st.booleans()))


def rejects(m, case, x, y, q):
    """Rejected operations of either model."""
    dim = x.shape[1]
    if case["kind"] == "before":
        raises(ValueError, lambda: m.predict(q), "predict before fit")
        return
    before = None
    if case["fitted"] or case["kind"] == "predict":
        m.fit(x, y)
        before = arr(m.predict(q))
    if case["kind"] == "fit":
        b = case["bad"]
        bx = dict(x1d=np.ones(len(y)), x3d=np.ones((len(y), dim, 1)), xempty=np.ones((0, dim)), xnone=np.ones((len(y), 0))).get(b, x + 1.0)
        by = dict(ylen=y[:-1] if len(y) > 1 else np.zeros(3, int), yfloat=y.astype(float), ybool=y > 0, ystr=y.astype(str), xempty=y[:0]).get(b, y)
        raises(TypeError if b in ("yfloat", "ybool", "ystr") else ValueError, lambda: m.fit(bx, by), f"fit of {b}")
    elif case["kind"] == "predict":
        for bad in (np.ones(dim), np.ones((2, dim + 1)), np.ones((0, dim)), np.ones((2, dim, 1)), np.ones((3, 0))):
            raises(ValueError, lambda: m.predict(bad), f"predict of shape {bad.shape} after a fit of {dim} dimensions")
    else:
        was = m.regularize
        raises(ValueError, lambda: setattr(m, "regularize", case["v"]), f"regularize = {case['v']}")
        raises(ValueError, lambda: type(m)(regularize=case["v"]), f"{type(m).__name__}(regularize={case['v']})")
        ensure(m.regularize == was, "regularize changed by a rejected assignment")
    if before is None:
        raises(ValueError, lambda: m.predict(q), "predict before fit")
    else:
        ensure(np.array_equal(arr(m.predict(q)), before), "a rejected operation changed predictions")


@facet("C20", "reject", invalid, n=500, shards=2, rule="operation before fit or with invalid arguments, in a new or fitted model; every case is non-trivial.")
def reject(case):
    d = dict(case["d"], reg=0.1)
    x, y = expand(d)
    rejects(db.GaussianModel(0.1), case, x, y, queries(d, x, 1))
    return case["kind"] + " " + (case["bad"] if case["kind"] == "fit" else "")


@st.composite
def larger(draw):
    d = draw(data())
    d["dim"] = draw(st.one_of(st.integers(1, 4), st.integers(5, 24)))
    k = draw(st.one_of(st.integers(1, 5), st.integers(6, 60)))
    lo = 2 * d["dim"] + 1 if d["reg"] == 0.0 else 1
    r = np.random.RandomState(d["seed"])
    d["sizes"] = [int(v) for v in r.randint(lo, lo + draw(st.sampled_from([2, 10, 300])), k)]
    d["labels"], d["dtype"] = [int(v) for v in r.permutation(1000)[:k] - draw(st.sampled_from([0, 500]))], "int64"
    return dict(d=d, n=draw(st.sampled_from([1, 30, 500])), q=draw(st.integers(0, 9999)))


@facet("C20", "large", larger, n=60, shards=3, rule="to 60 classes, 24 dimensions, hundreds of rows of a class, and hundreds of queries; non-trivial with two classes or more.")
def large(case):
    d = case["d"]
    x, y = expand(d)
    q = np.concatenate([queries(d, x, case["q"] + k) for k in range(case["n"] // 11 + 1)])
    m = model(d["reg"])
    m.fit(x, y)
    want, cond = mahalanobis(x, y, 0.1 if d["reg"] is None else d["reg"], q)
    if cond > 1e7:
        return ""
    ranked(m.predict(q), want, "predict", 1e-8 + 1e-13 * cond)
    return "many classes" if len(d["sizes"]) > 5 else "classes" if len(d["sizes"]) > 1 else ""
