"""C33: invalid arguments are rejected with ValueError and leave no trace."""

import math

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.components import ALL, apply, expand, histories
from pbt.core import accepted, arr, close, ensure, facet, raises
from pbt.props.c20 import data as training
from pbt.props.c20 import expand as trained
from pbt.props.c20 import queries

POLYPHASE = True
ASSUMPTIONS = [
    "A range is the range documented by the parameter, with the boundaries documented by its brackets; NaN and non-numbers are not part of it.",
    "Designs are accepted for frequencies in [0.02, 0.98] and orders which their window or prototype supports; C05 and C06 specify the designs.",
]

INF = math.inf

# ---------------------------------------------------------------------------------------------------------------------
# Ranges of numbers.  (lowest, highest, whether the lowest is included, whether the highest is included, function)

GMM = db.GaussianMixtureModel
REALS = {
    "FirFilter(frequency)": (0.0, 1.0, False, False, lambda v: db.FirFilter("Hann", v, 4)),
    "FirFilter(frequency, complement)": (0.0, 1.0, False, False, lambda v: db.FirFilter("Kaiser", v, 6, 1, True)),
    "IirFilter(frequency)": (0.0, 1.0, False, False, lambda v: db.IirFilter("Butterworth", v, 2)),
    "IirFilter(frequency, Chebyshev)": (0.0, 1.0, False, False, lambda v: db.IirFilter("Chebyshev", v, 1)),
    "ComplexBandpassFilter(frequency)": (-1.0, 1.0, True, True, lambda v: db.ComplexBandpassFilter(v, 0.1)),
    "ComplexBandpassFilter(rate)": (0.0, 1.0, True, True, lambda v: db.ComplexBandpassFilter(0.1, v)),
    "ComplexFrequencyFilter(frequency)": (-1.0, 1.0, True, True, lambda v: db.ComplexFrequencyFilter(v, 0.1)),
    "ComplexFrequencyFilter(rate)": (0.0, 1.0, True, True, lambda v: db.ComplexFrequencyFilter(0.1, v)),
    "ComplexExponentialFilter(phase)": (-1.0, 1.0, True, True, lambda v: db.ComplexExponentialFilter(v)),
    "ComplexExponentialFilter.filter": (-1.0, 1.0, True, True, lambda v: db.ComplexExponentialFilter(0.0).filter([0.5, v, 0.0])),
    "GoertzelFilter(frequency)": (-1.0, 1.0, True, True, lambda v: db.GoertzelFilter([1.0, 2.0], v)),
    "PolyphaseRateFilter(rate)": (0.0, 256.0, True, True, lambda v: db.PolyphaseRateFilter(v)),
    "PolynomialRateFilter(rate)": (0.0, INF, True, False, lambda v: db.PolynomialRateFilter(v)),
    "GaussianModel(regularize)": (0.0, INF, True, False, lambda v: db.GaussianModel(v)),
    "GaussianMixtureModel(regularize)": (0.0, INF, True, False, lambda v: GMM(2, 10, v)),
    "ZTransform(frequency)": (0.0, INF, False, False, lambda v: db.ZTransform.transform([2.0, 1.0], [1.0], v)),
}


def setter(make, name):
    def assign(v):
        obj = make()
        setattr(obj, name, v)
        ensure(getattr(obj, name) == v, lambda: f"{name} is {getattr(obj, name)} after {v} was assigned")

    return assign


for _t, _n, _make in (
    ("ComplexBandpassFilter(frequency)", "frequency", lambda: db.ComplexBandpassFilter(0.3, 0.2)),
    ("ComplexBandpassFilter(rate)", "rate", lambda: db.ComplexBandpassFilter(0.3, 0.2)),
    ("ComplexFrequencyFilter(frequency)", "frequency", lambda: db.ComplexFrequencyFilter(0.3, 0.2)),
    ("ComplexFrequencyFilter(rate)", "rate", lambda: db.ComplexFrequencyFilter(0.3, 0.2)),
    ("ComplexExponentialFilter(phase)", "phase", lambda: db.ComplexExponentialFilter(0.3)),
    ("GoertzelFilter(frequency)", "frequency", lambda: db.GoertzelFilter([1.0, 2.0], 0.3)),
    ("PolyphaseRateFilter(rate)", "rate", lambda: db.PolyphaseRateFilter(0.3)),
    ("PolynomialRateFilter(rate)", "rate", lambda: db.PolynomialRateFilter(0.3)),
    ("GaussianModel(regularize)", "regularize", lambda: db.GaussianModel(0.3)),
    ("GaussianMixtureModel(regularize)", "regularize", lambda: GMM(2, 10, 0.3)),
):
    REALS[_t.replace("(", ".").replace(")", "")] = (*REALS[_t][:4], setter(_make, _n))
REALS["PidFilter.limit"] = (0.0, INF, True, False, setter(lambda: db.PidFilter([1.0, 1.0, 1.0]), "limit"))

DESIGN = ("FirFilter(f", "IirFilter(f")


@st.composite
def real_cases(draw):
    name = draw(st.sampled_from(sorted(REALS)))
    lo, hi, inlo, inhi, _ = REALS[name]
    inside = draw(st.booleans())
    top = hi if hi < INF else 1e6
    if inside and name.startswith(DESIGN):
        v = draw(gen.reals(0.02, 0.98))
    elif inside:
        edge = ([lo] if inlo else []) + ([hi] if inhi else []) + [np.nextafter(lo, INF), lo + 1e-9, (lo + top) / 2.0]
        edge += [np.nextafter(hi, -INF), hi - 1e-9] if hi < INF else [1e6]
        edge += [v for v in (0.0, -0.0) if lo < v < hi or (v == lo and inlo)]
        v = draw(st.one_of(st.sampled_from(edge), gen.reals(lo, top, not inlo, not inhi)))
        if name == "ZTransform(frequency)":
            v = max(v, 1e-6)
    else:
        edge = [np.nextafter(lo, -INF), lo - 1e-9, lo - 1e-4, lo - 0.5, -INF, -1e300, lo - 1.0, lo - 2.0] + ([] if inlo else [lo, -0.0] if lo == 0.0 else [lo])
        if hi < INF:
            edge += [np.nextafter(hi, INF), hi + 1e-9, hi + 1e-4, hi + 0.5, INF, 1e300, hi + 1.0, hi * 2.0] + ([] if inhi else [hi])
        far = [st.floats(-1e6, lo, exclude_max=True)] + ([st.floats(hi, 1e6, exclude_min=True)] if hi < INF else [])
        v = draw(st.one_of(st.sampled_from(edge), *far))
    return dict(name=name, inside=inside, v=v)


@facet("C33", "numbers", real_cases, n=2200, shards=3, rule="parameter or property with a range x number inside (accepted) or outside (rejected), boundaries and their neighbours included; every case is non-trivial.")
def numbers(case):
    v, f = case["v"], REALS[case["name"]][4]
    if case["inside"]:
        accepted(lambda: f(v), f"{case['name']} of {v!r}")
    else:
        raises(ValueError, lambda: f(v), f"{case['name']} of {v!r}")
    return ("inside " if case["inside"] else "outside ") + case["name"].split("(")[0].split(".")[0]


# Integers: (lowest, highest to try, function).

INTEGERS = {
    "FirFilter(order)": (1, 12, lambda v: db.FirFilter("Hamming", 0.4, v)),
    "FirFilter(count)": (1, 3, lambda v: db.FirFilter("Hamming", 0.4, 4, v)),
    "IirFilter(order)": (1, 8, lambda v: db.IirFilter("Butterworth", 0.4, v)),
    "IirFilter(count)": (1, 3, lambda v: db.IirFilter("Butterworth", 0.4, 2, v)),
    "PolynomialRateFilter(order)": (1, 20, lambda v: db.PolynomialRateFilter(2.0, v)),
    "PolynomialRateFilter.order": (1, 20, setter(lambda: db.PolynomialRateFilter(0.3), "order")),
    "WindowFilter(order)": (0, 300, lambda v: db.WindowFilter("Hamming", v)),
    "DiversityModel(order)": (0, 300, lambda v: db.DiversityModel("Euclidean", v)),
    "GaussianMixtureModel(order)": (1, 300, lambda v: GMM(v)),
    "GaussianMixtureModel(index)": (1, 300, lambda v: GMM(2, v)),
    "GaussianMixtureModel.index": (1, 300, setter(lambda: GMM(2, 7), "index")),
    "FirFilter.response(length)": (1, 64, lambda v: db.FirFilter(b=[1.0, 2.0]).response(v)),
    "FirFilter.delay(length)": (1, 64, lambda v: db.FirFilter(b=[1.0, 2.0]).delay(v)),
    "FirFilter.response(count)": (1, 9, lambda v: db.FirFilter(b=[1.0, 2.0]).response(8, v)),
    "FirFilter.delay(count)": (1, 9, lambda v: db.FirFilter(b=[1.0, 2.0]).delay(8, v)),
    "IirFilter.response(length)": (1, 64, lambda v: db.IirFilter(a=[0.0, 0.5], b=[1.0, 2.0]).response(v)),
    "IirFilter.delay(length)": (1, 64, lambda v: db.IirFilter(a=[0.0, 0.5], b=[1.0, 2.0]).delay(v)),
    "IirFilter.response(count)": (1, 9, lambda v: db.IirFilter(a=[0.0, 0.5], b=[1.0, 2.0]).response(8, v)),
    "IirFilter.delay(count)": (1, 9, lambda v: db.IirFilter(a=[0.0, 0.5], b=[1.0, 2.0]).delay(8, v)),
    "WaveletTransform.transform(count)": (1, 5, lambda v: db.WaveletTransform("Haar", 1).transform(np.ones(64), v)),
    "WaveletTransform.transform(count, inverse)": (1, 5, lambda v: db.WaveletTransform("Haar", 1).transform(np.ones(64), v, True)),
    "RankFilter(index, order 5)": (0, 5, lambda v: db.RankFilter(v, 5)),
    "RankFilter.index of order 5": (0, 5, setter(lambda: db.RankFilter(2, 5), "index")),
    "RankFilter(index, order 0)": (0, 0, lambda v: db.RankFilter(v, 0)),
    "RankFilter.index of order 0": (0, 0, setter(lambda: db.RankFilter(0, 0), "index")),
}
CAPPED = ("RankFilter",)


@st.composite
def integer_cases(draw):
    name = draw(st.sampled_from(sorted(INTEGERS)))
    lo, hi, _ = INTEGERS[name]
    inside = draw(st.booleans())
    if inside:
        v = draw(st.one_of(st.sampled_from([lo, hi]), st.integers(lo, hi)))
    else:
        low = st.one_of(st.sampled_from([lo - 1, lo - 2, -(2**31), -(2**63)]), st.integers(-400, lo - 1))
        v = draw(st.one_of(low, low, st.integers(hi + 1, hi + 40)) if name.startswith(CAPPED) else low)
    return dict(name=name, inside=inside, v=v)


@facet("C33", "integers", integer_cases, n=1600, shards=4, rule="integer parameter x value inside (accepted) or outside (rejected); every case is non-trivial.")
def integers(case):
    v, f = case["v"], INTEGERS[case["name"]][2]
    if case["inside"]:
        accepted(lambda: f(v), f"{case['name']} of {v!r}")
    else:
        raises(ValueError, lambda: f(v), f"{case['name']} of {v!r}")
    return ("inside " if case["inside"] else "outside ") + case["name"].split("(")[0].split(".")[0]


# Styles and tables.

STYLES = {
    "FirFilter": (["Blackman", "Hamming", "Hann", "Kaiser"], lambda s: db.FirFilter(s, 0.4, 4)),
    "IirFilter": (["Bessel", "Butterworth", "Chebyshev"], lambda s: db.IirFilter(s, 0.4, 2)),
    "WindowFilter": (["Blackman", "Hamming", "Hann", "Kaiser"], lambda s: db.WindowFilter(s, 4)),
    "WaveletTransform": (["Coiflet", "Daubechies", "Haar", "Symmlet"], lambda s: db.WaveletTransform(s, dict(c=5, d=3, h=1, s=7).get(s[:1].lower(), 1))),
    "DiversityModel": (["Chebyshev", "Euclidean", "Geometric", "Manhattan"], lambda s: db.DiversityModel(s, 2)),
}
OTHERS = ["", " ", "Rectangular", "boxcar", "bartlett", "flattop", "nuttall", "tukey", "Elliptic", "Cauer", "Chebyshev2", "Gaussian", "Minkowski", "Cosine", "Symlet", "Biorthogonal", "None", "style"]


@st.composite
def style_cases(draw):
    name = draw(st.sampled_from(sorted(STYLES)))
    styles = STYLES[name][0]
    inside = draw(st.booleans())
    s = draw(st.sampled_from(styles))
    if inside:
        s = "".join(c.upper() if draw(st.booleans()) else c.lower() for c in s)
    else:
        s = draw(st.one_of(
            st.sampled_from(OTHERS), st.sampled_from([s + " ", " " + s, s[:-1], s[1:], s + "s", s + s, s[::-1], s[:3], s + "\n", s.replace("e", "3").replace("a", "@")]),
            st.sampled_from(sorted({v for u in STYLES.values() for v in u[0]})), st.text(max_size=9),
        ))  # fmt: skip
        if s.title() in styles:
            inside = True
    return dict(name=name, inside=inside, v=s)


@facet("C33", "styles", style_cases, n=900, shards=3, rule="style in any capitalization (accepted) or another text (rejected); every case is non-trivial.")
def styles(case):
    f, v = STYLES[case["name"]][1], case["v"]
    if case["inside"]:
        accepted(lambda: f(v), f"{case['name']}({v!r})")
    else:
        raises(ValueError, lambda: f(v), f"{case['name']}({v!r})")
    return "inside" if case["inside"] else "outside"


DOCUMENTED = {
    "DerivativeFilter": {1: (1, 2, 4), 2: (2, 4, 6, 8), 3: (4, 6, 8)},
    "IntegralFilter": (0, 1, 2, 3, 4),
    "WaveletTransform": {
        "Coiflet": (5, 11, 17, 23, 29), "Daubechies": (3, 5, 7, 9, 11, 13, 15, 17, 19), "Haar": (1,), "Symmlet": (7, 9, 11, 13, 15, 17, 19),
    },
}  # fmt: skip


def table_cases(tier):
    out = []
    for d in range(-2, 7):
        for o in range(-2, 13):
            out.append(dict(name="DerivativeFilter", args=[d, o], inside=o in DOCUMENTED["DerivativeFilter"].get(d, ())))
    for o in range(-3, 12):
        out.append(dict(name="IntegralFilter", args=[o], inside=o in DOCUMENTED["IntegralFilter"]))
    for s, v in DOCUMENTED["WaveletTransform"].items():
        for o in range(-2, 41):
            out.append(dict(name="WaveletTransform", args=[s, o], inside=o in v))
    return out


@facet("C33", "tables", cases=table_cases, rule="every pair near the documented tables is accepted or rejected; every case is non-trivial.")
def documented(case):
    f = lambda: getattr(db, case["name"])(*case["args"])  # noqa: E731
    if case["inside"]:
        accepted(f, f"{case['name']}{tuple(case['args'])}")
    else:
        raises(ValueError, f, f"{case['name']}{tuple(case['args'])}")
    return "inside" if case["inside"] else "outside"


# ---------------------------------------------------------------------------------------------------------------------
# Arrays.


def array_cases(tier):
    """Calls with arrays whose shape or content is not documented."""
    empties = ["list", "tuple", "float", "complex", "int", "columns"]
    out = [dict(call=c, how=h) for c in sorted(EMPTY) for h in empties if h != "columns" or c in TWO]
    out += [dict(call=c, how="") for c in sorted(WRONG)]
    return out


EMPTY = {f"{k}.filter": (lambda k: lambda x: ALL[k].build(SMALL[k]).filter(x))(k) for k in ALL if k not in ("WaveletTransform", "DiversityModel")}
SMALL = {
    "FirFilter": dict(b=dict(v=[1.0, 2.0], c=False)), "IirFilter": dict(a=dict(p=[[0.5, 0.0]], c=False, pad=0), b=dict(v=[1.0, 2.0], c=False)),
    "DerivativeFilter": dict(d=1, o=1), "IntegralFilter": dict(o=1), "PidFilter": dict(b=[1.0, 1.0, 1.0]), "ComplexExponentialFilter": dict(phase=0.0),
    "ComplexBandpassFilter": dict(frequency=0.1, rate=0.1), "ComplexFrequencyFilter": dict(frequency=0.1, rate=0.1), "GoertzelFilter": dict(b=dict(v=[1.0, 2.0], c=False), frequency=0.1),
    "PolyphaseRateFilter": dict(rate=0.7), "PolynomialRateFilter": dict(rate=0.7, order=2), "RankFilter": dict(index=1, order=2), "WindowFilter": dict(style="Hann", order=4, normal=True),
}  # fmt: skip
EMPTY.update(
    {
        "FourierTransform.transform": lambda x: db.FourierTransform.transform(x, [1.0]),
        "FourierTransform.transform inverse": lambda x: db.FourierTransform.transform(x, [1.0], True),
        "FourierTransform.transform window": lambda x: db.FourierTransform.transform([1.0], x),
        "PsdTransform.transform": lambda x: db.PsdTransform.transform(x, [1.0], 1),
        "PsdTransform.transform window": lambda x: db.PsdTransform.transform([1.0], x, 1),
        "ComplexTransform.transform": lambda x: db.ComplexTransform.transform(x),
        "ComplexTransform.transform without neutral": lambda x: db.ComplexTransform.transform(x, False),
        "WaveletTransform.transform": lambda x: db.WaveletTransform("Haar", 1).transform(x, 1),
        "WaveletTransform.transform inverse": lambda x: db.WaveletTransform("Haar", 1).transform(x, 1, True),
        "ZTransform.transform recursive": lambda x: db.ZTransform.transform(x, [1.0], 0.1),
        "ZTransform.transform forward": lambda x: db.ZTransform.transform([1.0], x, 0.1),
        "DiversityModel.fit": lambda x: db.DiversityModel("Manhattan", 2).fit(x),
        "GoertzelFilter": lambda x: db.GoertzelFilter(x, 0.1),
        "FirFilter": lambda x: db.FirFilter(b=x),
        "IirFilter": lambda x: db.IirFilter(a=x, b=x),
        "PidFilter": lambda x: db.PidFilter(x),
    }
)
TWO = ("ComplexTransform.transform", "ComplexTransform.transform without neutral", "WaveletTransform.transform", "WaveletTransform.transform inverse", "DiversityModel.fit", "PolynomialRateFilter.filter")
WRONG = {
    "FirFilter.reset(list)": lambda: db.FirFilter(b=[1.0, 2.0]).reset([1.0]),
    "FirFilter.reset(array)": lambda: db.FirFilter(b=[1.0, 2.0]).reset(np.ones(2)),
    "IirFilter.reset(list)": lambda: db.IirFilter(a=[0.0, 0.5], b=[1.0, 2.0]).reset([1.0]),
    "RankFilter.reset(array)": lambda: db.RankFilter(1, 2).reset(np.ones(3)),
    "PolyphaseRateFilter.reset(array)": lambda: db.PolyphaseRateFilter(0.7).reset(np.ones(15)),
    "ComplexFrequencyFilter.reset(list)": lambda: db.ComplexFrequencyFilter(0.1, 0.1).reset([1.0]),
    "IirFilter(a[0] = 1)": lambda: db.IirFilter(a=[1.0, 0.5], b=[1.0, 2.0]),
    "IirFilter(a[0] = 1j)": lambda: db.IirFilter(a=[1j, 0.5], b=[1.0, 2.0]),
    "IirFilter(a[0] tiny)": lambda: db.IirFilter(a=[1e-300, 0.5], b=[1.0, 2.0]),
    "GoertzelFilter(zeros)": lambda: db.GoertzelFilter(np.zeros(5), 0.1),
    "GoertzelFilter(list of zeros)": lambda: db.GoertzelFilter([0, 0], 0.1),
    "FourierTransform(zeros)": lambda: db.FourierTransform.transform(np.ones(5), np.zeros(5)),
    "FourierTransform(inverse, zeros)": lambda: db.FourierTransform.transform(np.ones(5), np.zeros(3), True),
    "FourierTransform(long window)": lambda: db.FourierTransform.transform(np.ones(5), np.ones(6)),
    "PsdTransform(zeros)": lambda: db.PsdTransform.transform(np.ones(5), np.zeros(5), 1),
    "PsdTransform(long window)": lambda: db.PsdTransform.transform(np.ones(5), np.ones(6), 1),
    "PsdTransform(stride 0)": lambda: db.PsdTransform.transform(np.ones(5), np.ones(4), 0),
    "ZTransform(zeros)": lambda: db.ZTransform.transform(np.zeros(2), np.ones(1), 0.1),
    "ZTransform(forward zeros)": lambda: db.ZTransform.transform(np.ones(2), np.zeros(1), 0.1),
    "WaveletTransform(3 dimensions)": lambda: db.WaveletTransform("Haar", 1).transform(np.ones((2, 2, 2)), 1),
    "ComplexTransform(3 dimensions)": lambda: db.ComplexTransform.transform(np.ones((3, 2, 2))),
    "ComplexTransform(2 rows)": lambda: db.ComplexTransform.transform(np.ones((2, 4))),
    "ComplexTransform(4 rows)": lambda: db.ComplexTransform.transform(np.ones((4, 4))),
    "PolynomialRateFilter(1 sample)": lambda: db.PolynomialRateFilter(2.0).filter([1.0]),
    "PolynomialRateFilter(2 dimensions)": lambda: db.PolynomialRateFilter(2.0).filter(np.ones((2, 2))),
    "ComplexExponentialFilter.filter(int8 -128)": lambda: db.ComplexExponentialFilter().filter(np.array([0, -128], np.int8)),
    "ComplexExponentialFilter.filter(int64 least)": lambda: db.ComplexExponentialFilter().filter(np.array([-(2**63)], np.int64)),
    "WindowFilter(2 dimensions)": lambda: db.WindowFilter("Hann", 2).filter(np.ones((3, 3))),
    "DiversityModel(1 dimension)": lambda: db.DiversityModel("Manhattan", 2).fit(np.ones(4)),
    "DiversityModel(3 dimensions)": lambda: db.DiversityModel("Manhattan", 2).fit(np.ones((2, 2, 2))),
    "GaussianModel(1 dimension)": lambda: db.GaussianModel().fit(np.ones(4), np.ones(4, int)),
    "GaussianModel(no rows)": lambda: db.GaussianModel().fit(np.ones((0, 2)), np.ones(0, int)),
    "GaussianModel(no columns)": lambda: db.GaussianModel().fit(np.ones((2, 0)), np.ones(2, int)),
    "GaussianMixtureModel(1 dimension)": lambda: GMM().fit(np.ones(4), np.ones(4, int)),
    "GaussianMixtureModel(no rows)": lambda: GMM().fit(np.ones((0, 2)), np.ones(0, int)),
    "GaussianModel(predict before fit)": lambda: db.GaussianModel().predict(np.ones((2, 2))),
    "GaussianMixtureModel(predict before fit)": lambda: GMM().predict(np.ones((2, 2))),
    "PidFilter(2 gains)": lambda: db.PidFilter([1.0, 2.0]),
    "PidFilter(4 gains)": lambda: db.PidFilter(np.ones(4)),
}


@facet("C33", "arrays", cases=array_cases, shards=2, rule="empty or malformed array passed to every filter, transform and model is rejected; every case is non-trivial.")
def arrays(case):
    if case["how"]:
        x = dict(list=[], tuple=(), float=np.zeros(0), complex=np.zeros(0, complex), int=np.zeros(0, int), columns=np.zeros((3, 0)))[case["how"]]
        tries = [x, np.zeros((1, 0)), np.zeros((2, 0)), np.zeros((0, 3))] if case["how"] == "columns" else [x]
        for v in tries:
            raises(ValueError, lambda v=v: EMPTY[case["call"]](v), f"{case['call']} of an empty {case['how']} of shape {np.shape(v)}")
    else:
        raises(ValueError, WRONG[case["call"]], case["call"])
    return case["call"].split(".")[0].split("(")[0]


# ---------------------------------------------------------------------------------------------------------------------
# Rejections leave no trace.

NOT_SCALAR = {"list": [0.5], "array": np.ones(3), "empty": []}


def bad_calls(name, cfg):
    """Rejected operations: label -> function of the component."""
    ad = ALL[name]
    run = "transform" if name == "WaveletTransform" else "fit" if name == "DiversityModel" else "filter"
    assign = lambda k, *v: {f"{k} = {u}": (lambda u: lambda o: setattr(o, k, u))(u) for u in v}  # noqa: E731
    if run == "transform":
        out = {f"transform({what})": (lambda x, c, i: lambda o: o.transform(x, c, i))(x, c, i) for what, x, c, i in (
            ("empty", [], 1, False), ("count 0", np.ones(8), 0, False), ("count -1", np.ones(8), -1, True), ("length 6 count 2", np.ones(6), 2, False), ("length 12 count 3", np.ones(12), 3, True),
            ("3 dimensions", np.ones((2, 2, 2)), 1, False), ("3 rows", np.ones((3, 8)), 1, True), ("columns", np.ones((2, 0)), 1, False),
        )}  # fmt: skip
    else:
        out = {f"{run}(empty {k})": (lambda x: lambda o: getattr(o, run)(x))(x) for k, x in (("list", []), ("array", np.zeros(0)))}
    if ad.resettable and name not in ("ComplexBandpassFilter",):
        out.update({f"reset({k})": (lambda x: lambda o: o.reset(x))(x) for k, x in NOT_SCALAR.items()})
    if name in ("FirFilter", "IirFilter", "DerivativeFilter", "IntegralFilter", "GoertzelFilter"):
        for m in ("response", "delay"):
            out.update({f"{m}{v}": (lambda m, v: lambda o: getattr(o, m)(*v))(m, v) for v in ((0, 1), (-5, 1), (8, 0), (8, -1))})
    if name == "RankFilter":
        out.update(assign("index", -1, cfg["order"] + 1, cfg["order"] + 100, -1000))
    if name == "PidFilter":
        out.update(assign("limit", -1e-9, -1.0, -np.inf))
    if name == "ComplexExponentialFilter":
        out.update(assign("phase", -1.5, 1.0000001, 3.0, -np.inf))
        for k, x in (("late", [0.25, 0.5, 1.5]), ("early", [-1.01, 0.3]), ("complex", [0.1, 0.2j]), ("infinite", [0.3, np.inf])):
            out[f"filter({k})"] = (lambda x: lambda o: o.filter(x))(x)
    if name in ("ComplexBandpassFilter", "ComplexFrequencyFilter"):
        out.update(assign("frequency", -1.5, 1.0000001, 3.0, -np.inf))
        out.update(assign("rate", -1e-9, 1.0000001, 2.0, np.inf))
    if name == "GoertzelFilter":
        out.update(assign("frequency", -1.5, 1.0000001, 3.0, np.inf))
    if name == "PolyphaseRateFilter":
        out.update(assign("rate", -1e-9, 256.001, 1000.0, -np.inf))
    if name == "PolynomialRateFilter":
        out.update(assign("rate", -1e-9, -1.0, -np.inf))
        out.update(assign("order", 0, -1))
        out["filter(one sample)"] = lambda o: o.filter([1.0])
        out["filter(2 dimensions)"] = lambda o: o.filter(np.ones((2, 3)))
    if name == "WindowFilter":
        n = cfg["order"] + 1
        for v in (n - 1, n + 1, 2 * n):
            out[f"filter({v} samples)"] = (lambda v: lambda o: o.filter(np.ones(v)))(v)
        out["filter(2 dimensions)"] = lambda o: o.filter(np.ones((n, 2)))
    if name == "DiversityModel":
        d = cfg["dim"]
        out["fit(1 dimension)"] = lambda o: o.fit(np.ones(d))
        out["fit(3 dimensions)"] = lambda o: o.fit(np.ones((2, d, 1)))
        out["fit(no columns)"] = lambda o: o.fit(np.ones((2, 0)))
        out["fit(wider)"] = lambda o: o.fit(np.ones((3, d + 1)))
    return out


@st.composite
def trace_cases(draw, name):
    ad = ALL[name]
    cfg = draw(ad.sized())
    ops = draw(histories(ad, cfg, 2, 6, maxlen=24))
    labels = list(bad_calls(name, cfg))
    bad = draw(st.lists(st.tuples(st.integers(0, len(ops)), st.sampled_from(labels)).map(list), min_size=1, max_size=4))
    return dict(comp=name, cfg=cfg, ops=ops, bad=bad)


def observe(ad, obj):
    return {k: np.array(v) for k, v in ad.props(obj).items()}


def trace(case):
    name, cfg = case["comp"], case["cfg"]
    ad = ALL[name]
    bad = bad_calls(name, cfg)
    obj, control = ad.build(cfg), ad.build(cfg)
    ran = some = False

    def reject(at):
        for k, what in case["bad"]:
            if k == at:
                if what == "fit(wider)" and not ran:
                    continue  # no dimension is established
                before = observe(ad, obj)
                raises(ValueError, lambda what=what: bad[what](obj), f"{name}: {what}")
                for p, v in observe(ad, obj).items():
                    ensure(np.array_equal(v, before[p], equal_nan=True), lambda p=p, what=what: f"{name}.{p} changed by rejected {what}")

    for n, op in enumerate(case["ops"]):
        reject(n)
        got, want = apply(ad, obj, op), apply(ad, control, op)
        ran = ran or op[0] == "run"
        for k, (u, v) in enumerate(zip(got, want)):
            close(u, v, f"{name} output {k} of operation {n} with rejected operations {case['bad']}", rtol=1e-9)
            some = some or bool(np.any(v))
    reject(len(case["ops"]))
    for p, v in observe(ad, control).items():
        close(observe(ad, obj)[p], v, f"{name}.{p} with rejected operations {case['bad']}", rtol=1e-9)
    return "trace" if some else ""


for _name in ALL:
    _slow = _name in ("DiversityModel", "PolyphaseRateFilter")
    facet(
        "C33", _name, (lambda name: lambda: trace_cases(name))(_name), n=140, shards=2 if _slow else 1,
        rule="history with rejected operations compared with the same history without; non-trivial with a non-zero output.",
    )(trace)  # fmt: skip


@st.composite
def model_cases(draw):
    d = draw(training(3, 6))
    d["reg"] = draw(st.sampled_from([0.1, 1.0]))
    d["sizes"] = [n + 3 for n in d["sizes"]]
    bad = ["rows", "float labels", "1 dimension", "empty", "no columns", "wide", "narrow", "predict 1 dimension", "predict empty", "regularize", "index", "object labels", "few rows", "nan", "singular"]
    return dict(d=d, mixture=draw(st.booleans()), q=draw(st.integers(0, 999)), bad=draw(st.lists(st.sampled_from(bad), min_size=1, max_size=4)))


@facet("C33", "models", model_cases, n=240, shards=4, rule="fitted Gaussian model with rejected operations predicts as before; non-trivial with two classes or more.")
def models(case):
    d = case["d"]
    x, y = trained(d)
    q = queries(d, x, case["q"])
    w = x.shape[1]
    m = GMM(1, 20, d["reg"]) if case["mixture"] else db.GaussianModel(d["reg"])
    m.fit(x, y)
    want = np.array(arr(m.predict(q)))
    bad = {
        "rows": (ValueError, lambda: m.fit(x, y[:-1])), "float labels": (TypeError, lambda: m.fit(x * 2.0, y.astype(float))), "1 dimension": (ValueError, lambda: m.fit(x[:, 0], y)),
        "empty": (ValueError, lambda: m.fit(x[:0], y[:0])), "no columns": (ValueError, lambda: m.fit(x[:, :0], y)), "wide": (ValueError, lambda: m.predict(np.ones((2, w + 1)))),
        "narrow": (ValueError, lambda: m.predict(np.ones((2, w - 1)))), "predict 1 dimension": (ValueError, lambda: m.predict(q[0])), "predict empty": (ValueError, lambda: m.predict(q[:0])),
        "regularize": (ValueError, lambda: setattr(m, "regularize", -0.5)), "index": (ValueError, lambda: setattr(m, "index", 0)), "object labels": (TypeError, lambda: m.fit(x, y.astype(str))),
    }  # fmt: skip
    if case["mixture"]:  # rejected by the estimation of the last class
        k = y.max()
        xx = np.concatenate([x, x], 1) if case["q"] % 2 else x
        few = (y != k) | (np.arange(len(y)) == np.argmax(y))
        bad["few rows"] = (ValueError, lambda: m.fit(xx[few], y[few]))
        bad["nan"] = (ValueError, lambda: m.fit(np.where(np.arange(len(x))[:, None] == np.argmax(y), np.nan, x), y))
    else:  # a class of identical rows has no inverse covariance without regularization
        def singular():
            m.regularize = 0.0
            try:
                z = np.array(x, float)
                z[y == max(y.tolist())] = 1.0
                m.fit(np.concatenate([z, z], 1) if case["q"] % 2 else z, y)
            finally:
                m.regularize = d["reg"]
        bad["singular"] = (ValueError, singular)
    for what in case["bad"]:
        if what not in bad or (what == "index" and not case["mixture"]):
            continue
        raises(*bad[what], f"{type(m).__name__}: {what}")
        ensure(m.regularize == d["reg"], f"regularize changed by rejected {what}")
        close(m.predict(q), want, f"predictions after rejected {what}", rtol=0.0)
    m.fit(x, y)
    if not case["mixture"]:
        close(m.predict(q), want, "predictions after rejections and a repeated fit", rtol=0.0)
    return ("mixture" if case["mixture"] else "gaussian") if len(set(y.tolist())) > 1 else ""
