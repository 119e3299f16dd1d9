"""C21: Gaussian mixture model."""

import diamondback as db
import numpy as np
import sklearn.mixture
from hypothesis import strategies as st
from scipy.special import logsumexp

from pbt import gen
from pbt.core import arr, ensure, facet, raises
from pbt.props.c20 import BAD, data, decided, expand, mahalanobis, queries, ranked, rejects

ASSUMPTIONS = [
    "Mixtures are fitted by scikit-learn; a mixture of several components is taken as scikit-learn fitted it, and the ranking is compared with the weighted kernels of those mixtures.",
    "Classes whose scores agree within rounding may be ranked in either order.",
]


def mixtures(m):
    """The fitted scikit-learn mixtures held by a model, in class order."""
    found = []

    def visit(v):
        if isinstance(v, sklearn.mixture.GaussianMixture):
            found.append(v)
        elif isinstance(v, (list, tuple)):
            for u in v:
                visit(u)
        elif isinstance(v, dict):
            for u in v.values():
                visit(u)

    for v in vars(m).values():
        visit(v)
    return found


def scores(ms, q):
    """Negative logarithm of sum of weight * exp(-d**2 / 2) for each row and class."""
    out = []
    for g in ms:
        t = []
        for k in range(len(g.weights_)):
            d = q - g.means_[k]
            t.append(np.log(g.weights_[k]) - 0.5 * np.maximum(np.einsum("ij,ij->i", d, np.linalg.solve(g.covariances_[k], d.T).T), 0.0))
        out.append(-logsumexp(np.array(t), axis=0))
    return np.array(out).T


@st.composite
def single(draw):
    d = draw(data(4, 8))
    d["reg"] = draw(st.sampled_from([0.1, 1.0, 1e-2, 10.0, 0.5]))
    d["sizes"] = [max(2, n) for n in d["sizes"]]
    d["shape"] = draw(st.sampled_from(["iso", "skew", "int"]))
    return dict(d=d, q=draw(st.integers(0, 9999)), far=draw(st.sampled_from([1.0, 1e3, 1e6])), prior=draw(st.booleans()), pr=draw(st.sampled_from([None, 0.2, 1e3])), index=draw(st.sampled_from([1, 5, 100])))


@facet("C21", "single", single, n=220, shards=8, rule="one component per class: the ranking is the ascending regularised Mahalanobis distance, however far; non-trivial with two classes or more.")
def single_(case):
    d = case["d"]
    x, y = expand(d)
    q = np.concatenate((queries(d, x, case["q"]), queries(d, x, case["q"] + 1) * case["far"]))
    m = db.GaussianMixtureModel(order=1, index=case["index"], regularize=d["reg"])
    if case["prior"]:
        if case["pr"] is not None:  # the previous fit has another regularisation
            m.regularize = case["pr"]
        m.fit(x[::-1] * 2.0 + 1.0, y[::-1])
        m.predict(q)
        m.regularize = d["reg"]
    m.fit(x, y)
    want, cond = mahalanobis(x, y, d["reg"], q)
    if cond > 1e6:
        return ""
    v = arr(m.predict(q))
    ranked(v, want, "predict", 1e-8 + 1e-12 * cond)
    for k in (0, len(q) - 1):
        if decided(want[k : k + 1], 1e-8 + 1e-12 * cond)[0]:
            ensure(np.array_equal(arr(m.predict(q[k : k + 1]))[0], v[k]), "prediction of a single row differs")
    return f"{len(d['sizes'])} classes" if len(d["sizes"]) > 1 else ""


@st.composite
def several(draw):
    d = draw(data(4, 8))
    order = draw(st.sampled_from([2, 3, 4, 2, 3, 5, 6, 8, 10, 12]))
    d["reg"] = draw(st.sampled_from([0.1, 1.0, 1e-2]))
    d["sizes"] = [n + 2 * order for n in d["sizes"]]
    d["shape"] = draw(st.sampled_from(["iso", "skew"]))
    return dict(d=d, order=order, index=draw(st.sampled_from([1, 20, 100])), q=draw(st.integers(0, 9999)), far=draw(st.sampled_from([1.0, 1e3, 1e6])), rng=draw(st.integers(0, 9999)))


@facet("C21", "several", several, n=200, shards=8, rule="several components per class: the ranking is by descending weighted kernel of the fitted mixtures; non-trivial with two classes or more.")
def several_(case):
    d = case["d"]
    x, y = expand(d)
    q = np.concatenate((queries(d, x, case["q"]), queries(d, x, case["q"] + 1) * case["far"]))
    np.random.seed(case["rng"])
    m = db.GaussianMixtureModel(order=case["order"], index=case["index"], regularize=d["reg"])
    m.fit(x, y)
    v = arr(m.predict(q))
    k = len(set(y.tolist()))
    ensure(v.shape == (len(q), k), f"predictions of shape {v.shape}")
    for r in v:
        ensure(sorted(r.tolist()) == list(range(k)), f"{r} is not a permutation of class ordinals")
    ensure(np.array_equal(v, arr(m.predict(q))), "predictions are not repeatable")
    ms = mixtures(m)
    if len(ms) == k and all(hasattr(g, "covariances_") for g in ms):
        s = scores(ms, q)
        ensure(all(len(g.weights_) == case["order"] for g in ms), "number of components")
        ranked(v, s, "predict", 1e-9)
        ok = decided(s - s.min(), 1e-9)
        single = np.concatenate([arr(m.predict(r.reshape(1, -1))) for r in q])
        ensure(np.array_equal(single[ok], v[ok]), "prediction of single rows differs")
        # The mixtures describe their classes: means within the range of each class, in ascending label order.
        for g, label in zip(ms, sorted(set(y.tolist()))):
            z = x[y == label]
            span = np.ptp(z, axis=0) + 1e-9
            ensure(np.all(g.means_ >= z.min(0) - 1e-6 * span) and np.all(g.means_ <= z.max(0) + 1e-6 * span), f"mixture of class {label} is not that of its rows")
    elif k > 1:
        return "" 
    return f"{k} classes order {case['order']}" if k > 1 else ""


@st.composite
def separated(draw):
    k = draw(st.integers(2, 5))
    order = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 6, 11]))
    labels = draw(st.sampled_from([[0, 1, 2, 3, 4], [7, 3, 11, -2, 100], [5, 4, 3, 2, 1]]))[:k]
    return dict(k=k, dim=draw(st.integers(1, 3)), order=order, labels=labels, n=3 * order + draw(st.integers(0, 12)), seed=draw(st.integers(0, 9999)), gap=draw(st.sampled_from([30.0, 300.0])), default=draw(st.integers(0, 7)) == 0)


@facet("C21", "separated", separated, n=160, shards=8, rule="well separated classes rank first at their own training rows; every case is non-trivial.")
def separated_(case):
    r = np.random.RandomState(case["seed"])
    n, k = max(case["n"], 12 if case["default"] else 0), case["k"]
    centers = (r.permutation(k)[:, None] * case["gap"]) * np.ones((1, case["dim"]))
    x = np.concatenate([c + r.normal(size=(n, case["dim"])) for c in centers])
    y = np.repeat(case["labels"], n)
    p = r.permutation(len(x))
    x, y = x[p], y[p]
    m = db.GaussianMixtureModel() if case["default"] else db.GaussianMixtureModel(order=case["order"])
    np.random.seed(case["seed"])
    m.fit(x, y)
    v = arr(m.predict(x))
    names = sorted(set(y.tolist()))
    want = np.array([names.index(t) for t in y.tolist()])
    ensure(np.array_equal(v[:, 0], want), lambda: f"{int((v[:, 0] != want).sum())} of {len(want)} training rows of separated classes are not ranked first")
    return "default" if case["default"] else f"order {case['order']}"


@st.composite
def invalid(draw):
    return dict(kind=draw(st.sampled_from(["before", "fit", "predict", "regularize", "order", "index"])), bad=draw(st.sampled_from(BAD)), d=draw(data(3, 4)), v=draw(st.one_of(st.sampled_from([-1e-9, -1.0]), st.floats(-1e3, -1e-9))), n=draw(st.integers(-5, 0)), fitted=draw(st.booleans()))


@facet("C21", "reject", invalid, n=200, shards=4, rule="operation before fit or with invalid arguments, in a new or fitted model; every case is non-trivial.")
def reject(case):
    d = dict(case["d"], reg=0.1, shape="iso")
    d["sizes"] = [max(3, n) for n in d["sizes"]]
    x, y = expand(d)
    m = db.GaussianMixtureModel(order=1, index=20, regularize=0.1)
    if case["kind"] == "order":
        raises(ValueError, lambda: db.GaussianMixtureModel(order=case["n"]), f"order = {case['n']}")
    elif case["kind"] == "index":
        raises(ValueError, lambda: db.GaussianMixtureModel(index=case["n"]), f"index = {case['n']}")
        raises(ValueError, lambda: setattr(m, "index", case["n"]), f"index = {case['n']}")
        ensure(m.index == 20, "index changed by a rejected assignment")
        m.index = 7
        ensure(m.index == 7 and m.order == 1, "properties do not read back")
    else:
        rejects(m, case, x, y, queries(d, x, 1))
    return case["kind"]


@st.composite
def larger(draw):
    d = draw(data(4, 8))
    d["reg"] = draw(st.sampled_from([0.1, 1.0, 0.5]))
    d["shape"] = draw(st.sampled_from(["iso", "skew"]))
    d["dim"] = draw(st.one_of(st.integers(1, 4), st.integers(5, 16)))
    k = draw(st.one_of(st.integers(2, 5), st.integers(6, 24)))
    order = draw(st.sampled_from([1, 1, 2, 3]))
    r = np.random.RandomState(d["seed"])
    d["sizes"] = [int(v) for v in r.randint(2 * order + 1, 2 * order + 20, k)]
    d["labels"], d["dtype"] = [int(v) for v in r.permutation(1000)[:k] - 300], "int64"
    return dict(d=d, order=order, n=draw(st.sampled_from([1, 30, 200])), q=draw(st.integers(0, 9999)))


@facet("C21", "large", larger, n=24, shards=8, rule="to 24 classes, 16 dimensions and hundreds of queries; every case is non-trivial.")
def large(case):
    d = case["d"]
    x, y = expand(d)
    q = np.concatenate([queries(d, x, case["q"] + k) for k in range(case["n"] // 11 + 1)])
    m = db.GaussianMixtureModel(order=case["order"], index=20, regularize=d["reg"])
    m.fit(x, y)
    ms = mixtures(m)
    if len(ms) != len(d["sizes"]):
        return ""
    want = scores(ms, q)
    # Negative logarithms are shifted to be positive for a relative comparison.
    ranked(m.predict(q), want - min(0.0, want.min()), "predict", 1e-8)
    if case["order"] == 1:
        exact, cond = mahalanobis(x, y, d["reg"], q)
        if cond < 1e6:
            ranked(m.predict(q), exact, "predict against distances", 1e-8 + 1e-12 * cond)
    return "several" if case["order"] > 1 else "single"
