"""C32: equal signals give equal results whatever container or dtype carries them."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.components import ALL, apply, expand, histories
from pbt.core import accepted, arr, close, ensure, facet
from pbt.props.c20 import data as training
from pbt.props.c20 import expand as trained
from pbt.props.c20 import queries

POLYPHASE = True
ASSUMPTIONS = [
    "A signal which is carried by float32 or complex64 has values which are exact in it, and results are compared within 2e-5 of the larger of results and signal.",
    "Gaussian models are documented to accept arrays only.",
    "A complex array with zero imaginary part is equal to a real array only where complex does not change the meaning (Fourier, PSD, and Z transforms, and filters with complex coefficients).",
]

LAYOUT = ["list", "tuple", "nplist", "mixed", "strided", "reversed", "readonly", "fortran", "bigendian", "step3"]
INTEGER = ["int", "int32", "int16", "int8", "uint8", "intlist", "inttuple", "bigint", "uint64", "int8full", "uint8full", "int16full", "int32full"]
FULL = dict(int8full=np.int8, uint8full=np.uint8, int16full=np.int16, int32full=np.int32)  # the whole range of the type
NARROW = ["f4", "f4any"]  # multiples of 1/64, and values of full precision

# Components whose outputs do not depend discontinuously on rounding.
SMOOTH = {"FirFilter", "DerivativeFilter", "IntegralFilter", "PolynomialRateFilter", "WindowFilter", "WaveletTransform", "GoertzelFilter", "RankFilter", "PidFilter"}


# Components which carry signals of any precision in double precision.
HALF = {"DerivativeFilter", "IntegralFilter", "RankFilter", "PolyphaseRateFilter", "DiversityModel", "WindowFilter"}

EXACT = {"PidFilter"}  # compares its state with a limit


def rounded(x, how, gain=5.0):
    """The float (or complex) values which the representation carries."""
    if how in FULL and not np.iscomplexobj(x):
        i = np.iinfo(FULL[how])
        return np.clip(np.round(x * i.max * 1.25), i.min, i.max) + 0.0
    if how in INTEGER and not np.iscomplexobj(x):
        y = np.round(np.clip(x * gain, -100.0, 100.0))
        return np.abs(y) if how in ("uint8", "uint64") else y + 0.0
    if how == "f4any":
        return x.astype(np.complex64 if np.iscomplexobj(x) else np.float32).astype(complex if np.iscomplexobj(x) else float)
    if how in NARROW:
        return np.round(x * 64.0) / 64.0
    if how == "f2":
        return np.round(np.clip(x, -16.0, 16.0) * 32.0) / 32.0
    return np.array(x)


def carry(x, how):
    """The values in the representation."""
    if how == "f4any":
        return gen.represent(x, "f4")
    if how == "f2":  # numpy has no complex numbers of half precision
        return np.array(x) if np.iscomplexobj(x) else x.astype(np.float16)
    if how in INTEGER:
        if np.iscomplexobj(x):
            return np.array(x)
        if how in ("int", "int32", "intlist"):
            return gen.represent(x, how)
        if how in FULL:
            return x.astype(FULL[how])
        if how == "inttuple":
            return tuple(gen.represent(x, "intlist"))
        return x.astype(dict(int16=np.int16, int8=np.int8, uint8=np.uint8, bigint=np.dtype(">i4"), uint64=np.uint64)[how])
    if how == "mixed":
        keep = bool(np.any(np.imag(x)))  # a signal without a complex number is real
        f = lambda v: [f(u) for u in v] if isinstance(v, list) else (v.real if isinstance(v, complex) and v.imag == 0.0 and keep else v)  # noqa: E731
        g = lambda v: [g(u) for u in v] if isinstance(v, list) else (int(v) if not isinstance(v, complex) and v == int(v) else v)  # noqa: E731
        return g(f(x.tolist()))
    if how == "step3":
        y = np.full(x.shape[:-1] + (3 * x.shape[-1] + 1,), 9.0, x.dtype)
        y[..., 1::3] = x
        return y[..., 1::3]
    return gen.represent(x, how)


def number(v, how):
    """A scalar argument in another type."""
    if isinstance(v, (bool, str, list, complex)):
        return v
    if isinstance(v, int):
        return np.int64(v) if how & 1 else np.int32(v) if how & 2 else v
    if how & 1:
        return np.float64(v)
    return int(v) if v == int(v) else v


@st.composite
def component_cases(draw, name):
    ad = ALL[name]
    cfg = draw(ad.config())
    hows = LAYOUT + INTEGER + INTEGER + (NARROW[: 1 if name in EXACT else 2] if name in SMOOTH else [])
    xhows = hows + (["f2"] if name in HALF else [])
    return dict(
        comp=name, cfg=cfg, ops=draw(histories(ad, cfg, 1, 5, maxlen=30)), how=draw(st.sampled_from(hows)),
        xhow=draw(st.lists(st.sampled_from(xhows), min_size=1, max_size=3)), number=draw(st.integers(0, 3)),
    )  # fmt: skip


def components(case):
    ad, how, name = ALL[case["comp"]], case["how"], case["comp"]
    kw, other = ad.args(case["cfg"]), ad.args(case["cfg"])
    for k, v in kw.items():
        if isinstance(v, np.ndarray):
            gain = 2.0 if name == "IirFilter" and k == "a" else 3.0
            u = rounded(v, how, gain)
            if name == "GoertzelFilter" and not u.any():
                u = np.array(v)
                how = "list"
            kw[k], other[k] = u, carry(u, how)
        else:
            other[k] = number(v, case["number"])
    control = ad.make(kw)
    obj = accepted(lambda: ad.make(other), f"{name}({', '.join(f'{k}={v!r}' for k, v in other.items())}) with {how} arguments")
    if "limit" in case["cfg"]:
        control.limit = case["cfg"]["limit"]
        obj.limit = number(case["cfg"]["limit"], case["number"])
    narrow = how in NARROW or any(h in NARROW for h in case["xhow"])
    some, r = False, 0
    for n, op in enumerate(case["ops"]):
        if op[0] != "run":
            apply(ad, control, op)
            apply(ad, obj, [op[0], *op[1:-1], number(op[-1], case["number"])])
            continue
        h = case["xhow"][r % len(case["xhow"])]
        r += 1
        x = rounded(expand(op[1]), h)
        if name == "ComplexExponentialFilter":
            x = np.clip(x, -1.0, 1.0)
        want = [arr(v) for v in ad.run(control, np.array(x))]
        got = accepted(lambda x=x, h=h: ad.run(obj, carry(x, h)), f"{name} with a {h} signal {x.tolist()[:8]}")
        ensure(len(got) == len(want), "number of outputs")
        for k, (u, v) in enumerate(zip(got, want)):
            what = f"{name} with {how} arguments, output {k} of a {h} signal (operation {n})"
            ensure(np.iscomplexobj(u) == np.iscomplexobj(v) or narrow, lambda u=u, v=v, what=what: f"{what}: type {arr(u).dtype} expected {v.dtype}")
            if v.size and np.isfinite(v).all():
                close(u, v, what, rtol=2e-5 if narrow else 1e-9, atol=2e-5 * float(np.abs(x).max()) if narrow else 1e-300)
            else:
                ensure(arr(u).shape == v.shape, f"{what}: shape")
            some = some or bool(np.any(v))
    return case["xhow"][0] if some else ""


for _name in ALL:
    _slow = _name in ("DiversityModel", "PolyphaseRateFilter")
    facet(
        "C32", _name, (lambda name: lambda: component_cases(name))(_name), n=220, shards=2 if _slow else 1,
        rule="configuration x history x representation of every argument, signal and number, compared with float arrays; non-trivial with a non-zero output.",
    )(components)  # fmt: skip


# ---------------------------------------------------------------------------------------------------------------------
# Complex signals which are real.


@st.composite
def zero_cases(draw):
    kind = draw(st.sampled_from(["fourier", "inverse", "psd", "psd-rows", "fir", "iir", "complex"]))
    return dict(kind=kind, n=draw(st.integers(2, 24)), s=draw(st.integers(0, 9999)), extra=draw(st.integers(0, 9)), neutral=draw(st.booleans()), carrier=draw(st.sampled_from(["c16", "c8", "list", "complexlist"])), onb=draw(st.booleans()))


@facet("C32", "zero-imaginary", zero_cases, n=400, rule="a real signal (or window) as a complex array with zero imaginary part; every case is non-trivial.")
def zero(case):
    r = np.random.RandomState(case["s"])
    n = case["n"]
    x = r.randint(-64, 65, n + case["extra"]) / 32.0
    b = r.randint(1, 9, n) / 4.0
    def c(v):
        if case["carrier"] == "c8":
            return v.astype(np.complex64)
        if case["carrier"] == "c16":
            return v.astype(complex)
        return [complex(u) for u in v] if case["carrier"] == "complexlist" else [*[complex(v[0])], *v[1:].tolist()]

    k = case["kind"]
    w = c(b) if case["onb"] else b
    if k in ("fourier", "inverse"):
        f = lambda u, v: db.FourierTransform.transform(u, v, k == "inverse")  # noqa: E731
        got, want = f(c(x), w), f(x, b)
    elif k in ("psd", "psd-rows"):
        f = lambda u, v: db.PsdTransform.transform(u, v, 1 + case["s"] % 5, k == "psd-rows")  # noqa: E731
        got, want = f(c(x), w), f(x, b)
    elif k in ("fir", "iir"):
        g = b * np.exp(1j * np.arange(n))
        make = (lambda: db.FirFilter(b=g)) if k == "fir" else (lambda: db.IirFilter(a=np.array([0.0, 0.5j]), b=g))
        got, want = (make().filter(c(x)),), (make().filter(x),)
    else:
        got, want = (db.ComplexTransform.transform(c(x), case["neutral"]),), (db.ComplexTransform.transform(x, case["neutral"]),)
    for i, (u, v) in enumerate(zip(got, want)):
        close(u, v, f"{k} result {i} of a complex signal with zero imaginary part", rtol=1e-5 if case["carrier"] == "c8" else 1e-9, atol=1e-12)
    return k


# ---------------------------------------------------------------------------------------------------------------------
# Transforms.


@st.composite
def transform_cases(draw):
    hows = LAYOUT + INTEGER + NARROW
    n = draw(st.sampled_from([2, 4, 5, 8, 12]))
    return dict(
        kind=draw(st.sampled_from(["fourier", "inverse", "psd", "bilinear", "impulse", "complex", "phases", "row", "wavelet", "wavelet2"])), n=n, s=draw(st.integers(0, 9999)), c=draw(st.booleans()),
        extra=draw(st.integers(0, 9)), how=draw(st.sampled_from(hows)), bhow=draw(st.sampled_from(hows)), flag=draw(st.booleans()), large=draw(st.booleans()), number=draw(st.integers(0, 3)),
    )  # fmt: skip


@facet("C32", "transforms", transform_cases, n=1600, shards=4, rule="transform x representation of signal and coefficients, compared with float arrays; every case is non-trivial.")
def transforms(case):
    r = np.random.RandomState(case["s"])
    n, k, flag = case["n"], case["kind"], case["flag"]
    num = lambda v: number(v, case["number"])  # noqa: E731
    m = dict(complex=n, phases=3 * n, row=n, wavelet=4 * n, wavelet2=16 * n).get(k, n + case["extra"])
    x = r.uniform(-1.0, 1.0, m) * (20.0 if case["large"] else 1.0)
    if case["c"] and k in ("fourier", "inverse", "psd", "complex", "row"):
        x = x + 1j * r.uniform(-1.0, 1.0, m)
    x = rounded(x, case["how"])
    b = rounded(r.uniform(0.3, 4.0 if case["large"] else 1.0, n), case["bhow"], 25.0)
    if k == "phases":
        x = x.reshape(3, n)
    elif k == "row":
        x = x.reshape(1, n)
    elif k == "wavelet2":
        x = x.reshape(4, 4 * n)
    if k in ("bilinear", "impulse"):
        # Real distinct poles and one real zero, with integer coefficients when the representation has integers.
        p = r.permutation(6)[:3] + 1.0
        x = np.poly(-p) if case["how"] not in ("int8", "uint8") else np.poly(-p[:2])
        b = np.array([1.0, 7.0]) if case["bhow"] in INTEGER else np.array([0.5, 7.25])
        if case["how"] in NARROW or case["bhow"] in NARROW:
            x, b = np.array([2.0, 1.0]), np.array([2.0])
    calls = dict(
        fourier=lambda u, v, q: db.FourierTransform.transform(u, v), inverse=lambda u, v, q: db.FourierTransform.transform(u, v, True),
        psd=lambda u, v, q: db.PsdTransform.transform(u, v, q(1 + case["s"] % 4), flag), bilinear=lambda u, v, q: db.ZTransform.transform(u, v, q(1.0) if flag else q(0.3)),
        impulse=lambda u, v, q: db.ZTransform.transform(u, v, q(1.0) if flag else q(0.3), False), complex=lambda u, v, q: db.ComplexTransform.transform(u, flag),
        phases=lambda u, v, q: db.ComplexTransform.transform(u, flag), row=lambda u, v, q: db.ComplexTransform.transform(u, flag),
        wavelet=lambda u, v, q: db.WaveletTransform("Daubechies", q(3)).transform(u, q(2), flag), wavelet2=lambda u, v, q: db.WaveletTransform("Haar", q(1)).transform(u, q(2), flag),
    )  # fmt: skip
    if k in ("complex", "phases", "row") and case["s"] % 5 == 0:
        x = rounded(x, "f2")
        case = dict(case, how="f2")
    f = calls[k]
    flatten = lambda t: [arr(e) for e in (t if isinstance(t, tuple) else (t,))]  # noqa: E731
    want = flatten(f(np.array(x), np.array(b), lambda v: v))
    got = flatten(accepted(lambda: f(carry(x, case["how"]), carry(b, case["bhow"]), num), f"{k} with a {case['how']} signal and {case['bhow']} coefficients"))
    narrow = case["how"] in NARROW or case["bhow"] in NARROW
    ensure(len(got) == len(want), "number of results")
    for i, (u, v) in enumerate(zip(got, want)):
        close(u, v, f"{k} result {i} with a {case['how']} signal {x.tolist()} and {case['bhow']} coefficients {b.tolist()}", rtol=2e-5 if narrow else 1e-9, atol=1e-6 if narrow else 1e-12)
    return k


# ---------------------------------------------------------------------------------------------------------------------
# Models.


@st.composite
def model_cases(draw):
    d = draw(training(3, 6, plain=True))
    d["reg"] = draw(st.sampled_from([0.1, 1.0]))
    d["sizes"] = [n + 3 for n in d["sizes"]]
    hows = ["strided", "reversed", "readonly", "fortran", "bigendian", "step3", "int", "int32", "int16", "int8", "uint8"]
    return dict(
        d=d, mixture=draw(st.booleans()), q=draw(st.integers(0, 999)), how=draw(st.sampled_from(hows)), qhow=draw(st.sampled_from(hows)),
        yhow=draw(st.sampled_from(["int", "int32", "int16", "int8", "uint8", "uint64", "strided", "reversed", "readonly", "bigint"])), number=draw(st.integers(0, 3)),
    )  # fmt: skip


@facet("C32", "models", model_cases, n=320, shards=4, rule="Gaussian models: representation of training data, labels and queries, compared with float arrays; non-trivial with two classes or more.")
def models(case):
    d = case["d"]
    x, y = trained(d)
    how, qhow = case["how"], case["qhow"]
    x = rounded(x, how, 10.0)
    q = rounded(queries(d, x, case["q"]), qhow, 10.0)
    num = lambda v: number(v, case["number"])  # noqa: E731
    make = lambda f: db.GaussianMixtureModel(f(1), f(20), f(d["reg"])) if case["mixture"] else db.GaussianModel(f(d["reg"]))  # noqa: E731
    y = np.abs(y) % 100 if case["yhow"] in ("uint8", "uint64", "int8") else y
    labels = y.astype(dict(int32=np.int32, int16=np.int16, int8=np.int8, uint8=np.uint8, uint64=np.uint64, bigint=np.dtype(">i4"))[case["yhow"]]) if case["yhow"] in ("int32", "int16", "int8", "uint8", "uint64", "bigint") else gen.represent(y, case["yhow"])
    a, b = make(lambda v: v), make(num)
    a.fit(np.array(x), np.array(y))
    accepted(lambda: b.fit(carry(x, how), labels), f"fit with {how} data and {case['yhow']} labels")
    want = arr(a.predict(np.array(q)))
    got = arr(accepted(lambda: b.predict(carry(q, qhow)), f"predict with {qhow} data"))
    # A memory layout may change the order of a summation, hence rows with nearly equal ranks are not compared.
    close(got.shape, want.shape, "shape")
    far = margin(x, y, q, d["reg"])
    for i in range(len(q)):
        if far[i]:
            ensure(np.array_equal(got[i], want[i]), lambda i=i: f"row {i}: {got[i].tolist()} expected {want[i].tolist()} with {how} data, {case['yhow']} labels and {qhow} queries")
    return ("mixture" if case["mixture"] else "gaussian") if len(set(y.tolist())) > 1 and any(far) else ""


def margin(x, y, q, reg):
    """Rows for which the distances to the classes differ clearly."""
    v = []
    for c in sorted(set(y.tolist())):
        z = x[y == c]
        u = z.mean(0)
        i = np.linalg.inv((z - u).T @ (z - u) / len(z) + reg * np.eye(x.shape[1]))
        v.append(np.einsum("ij,jk,ik->i", q - u, i, q - u))
    v = np.sort(np.array(v), axis=0)
    return np.all(np.diff(v, axis=0) > 1e-6 * (1.0 + np.abs(v[:-1])), axis=0)
