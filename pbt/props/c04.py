"""C04: reset places a filter in steady state."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.components import ALL, acoef, apply, histories, stable_a
from pbt.core import close, ensure, facet, raises
from pbt.gen import coef, coefs, cx

POLYPHASE = True
ASSUMPTIONS = [
    "The unity gain of a recursive filter is judged at zero frequency; b[0] is at least 0.02 away from one, and the reset state is well conditioned.",
    "A reset value is a number; zero dimensional arrays are not generated.",
]

LEVELS = lambda: st.one_of(gen.values(), st.sampled_from([1e-6, 1e6, -1e3, 7.25]))  # noqa: E731


EXTREME = st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from([float("nan"), float("inf"), float("-inf"), 1e300, -1e300, 1e20, 1e-300]), min_size=1, max_size=3))


def disturb(f, values):
    """A history of samples which are not finite, or very large or small: reset places any state."""
    if values:
        with np.errstate(all="ignore"):
            f.filter(np.array(values))


def adapter(name, n=60):
    ad = ALL[name]

    @st.composite
    def cases(draw):
        cfg = draw(ad.sized())
        cplx = ad.is_complex(cfg)
        return dict(comp=name, cfg=cfg, pre=draw(histories(ad, cfg, 0, 4, maxlen=30)), v=draw(gen.cvalues() if cplx else LEVELS()), n=draw(gen.lengths(1, n)), int=draw(st.booleans()), extreme=draw(EXTREME))

    return cases


def constant(v, n, as_int):
    v = cx(v)
    if as_int and not isinstance(v, complex) and v == round(v) and abs(v) < 1e6:
        return np.full(n, int(v))
    return np.full(n, v)


def steady(case, want):
    ad = ALL[case["comp"]]
    obj = ad.build(case["cfg"])
    for op in case["pre"]:
        apply(ad, obj, op)
    v = cx(case["v"])
    disturb(obj, case["extreme"])
    obj.reset(v)
    n = case["n"]
    level, scale = want(obj, case["cfg"], v)
    y = obj.filter(constant(case["v"], n, case["int"]))
    if case["comp"] == "PolyphaseRateFilter":
        n = len(y)
    close(y, np.full(n, level), f"{case['comp']} output of a constant signal after reset({v})", rtol=1e-9, scale=scale, atol=1e-300)
    ensure(np.all(np.isfinite(y)), "output is not finite")
    return "history" if any(op[0] == "run" for op in case["pre"]) and v else "initial" if v else ""


RULE = "configuration x earlier operations x reset value x length; non-trivial when the reset value is not zero."


@facet("C04", "fir", adapter("FirFilter"), n=900, shards=1, rule=RULE)
def fir(case):
    return steady(case, lambda o, c, v: (v * np.asarray(o.b).sum(), abs(v) * np.abs(o.b).sum()))


@facet("C04", "derivative", adapter("DerivativeFilter"), n=400, shards=1, rule=RULE)
def derivative(case):
    return steady(case, lambda o, c, v: (0.0, abs(v) * 10.0))


@facet("C04", "rank", adapter("RankFilter"), n=500, shards=1, rule=RULE)
def rank(case):
    return steady(case, lambda o, c, v: (v, abs(v)))


@facet("C04", "polyphase", adapter("PolyphaseRateFilter", 40), n=240, shards=3, rule=RULE)
def polyphase(case):
    return steady(case, lambda o, c, v: (v, abs(v)))


@st.composite
def recursive(draw):
    cplx = draw(st.booleans())
    a = draw(stable_a(cplx))
    a["p"] = [[min(r, 0.8), t] for r, t in a["p"][:3]]
    return dict(a=a, b=draw(coefs(1, 6, False, 8)), pre=draw(st.lists(gen.signals(1, 20, False, scales=(1.0,)), max_size=2)), v=draw(LEVELS()), v0=draw(st.lists(gen.values(), max_size=2)), n=draw(gen.lengths(1, 90)), extreme=draw(EXTREME))


@facet("C04", "iir", recursive, n=900, shards=2, rule="explicit stable recursive filters normalised to unity gain; non-trivial when well conditioned and the reset value is not zero.")
def iir(case):
    a, b = acoef(case["a"]), coef(case["b"])
    m = 1.0 - a.sum()
    if abs(b.sum()) < 1e-2 * np.abs(b).sum() or not b.any():
        return ""
    b = b * (m / b.sum())
    n = max(len(a), len(b))
    A, B = np.zeros(n, a.dtype), np.zeros(n, b.dtype)
    A[: len(a)], B[: len(b)] = a, b
    c = np.abs(A * B[0] + B).sum()
    if abs(1.0 - B[0]) < 0.02 or abs(m) < 1e-3 or c / abs(m) > 1e4:
        return ""
    f = db.IirFilter(a=a, b=b)
    for k, s in enumerate(case["pre"]):
        f.filter(gen.sig(s))
        if k < len(case["v0"]):
            f.reset(case["v0"][k])
    v = case["v"]
    disturb(f, case["extreme"])
    f.reset(v)
    y = f.filter(np.full(case["n"], v))
    close(y, np.full(case["n"], v), f"IirFilter output of a constant signal after reset({v})", rtol=1e-7 * (1.0 + c / abs(m)), scale=abs(v), atol=1e-300)
    return ("complex" if np.iscomplexobj(a) else "real") if v else ""


@st.composite
def designed(draw):
    kind = draw(st.sampled_from(["fir", "iir"]))
    case = dict(kind=kind, pre=draw(st.lists(gen.signals(1, 30, False, scales=(1.0,)), max_size=2)), v=draw(LEVELS()), n=draw(gen.lengths(1, 200)), extreme=draw(EXTREME))
    if kind == "fir":
        case.update(style=draw(st.sampled_from(["Blackman", "Hamming", "Hann", "Kaiser"])), order=2 * draw(st.integers(4, 32)), frequency=draw(gen.reals(0.5, 0.9)), gain=draw(st.sampled_from([1.0, 2.0, -0.5])))
    else:
        style, lo, hi = draw(st.sampled_from([("Bessel", 1, 6), ("Butterworth", 2, 6), ("Chebyshev", 1, 5)]))
        case.update(style=style, order=draw(st.integers(lo, hi)), frequency=draw(st.sampled_from([0.1, 0.15, 0.2])), gain=1.0)
    return case


@facet("C04", "designed", designed, n=120, shards=6, rule="designed FIR and IIR low pass filters; non-trivial when the reset value is not zero.")
def designed_(case):
    kw = dict(style=case["style"], order=case["order"], frequency=case["frequency"], gain=case["gain"])
    f = (db.FirFilter if case["kind"] == "fir" else db.IirFilter)(**kw)
    for s in case["pre"]:
        f.filter(gen.sig(s))
    v = case["v"]
    disturb(f, case["extreme"])
    f.reset(v)
    y = f.filter(np.full(case["n"], v))
    # The rounding error of a recursive filter is amplified by its narrow bandwidth.
    close(y, np.full(case["n"], v * case["gain"]), f"{case['style']} output of a constant signal after reset({v})", rtol=1e-6 if case["kind"] == "iir" else 1e-9, scale=abs(v), atol=1e-300)
    return case["style"] if v else ""


NOT_SCALAR = dict(list=[1.0], tuple=(1.0, 2.0), array=np.array([1.0]), pair=np.array([1.0, 2.0]), matrix=np.ones((2, 2)), none=None, empty=[], dict={})
RESETS = [n for n, a in ALL.items() if a.resettable]


def rejects(name):
    ad = ALL[name]

    @st.composite
    def cases(draw):
        cfg = draw(ad.sized())
        return dict(comp=name, cfg=cfg, pre=draw(histories(ad, cfg, 0, 3, maxlen=20)), how=draw(st.sampled_from(sorted(NOT_SCALAR))), x=draw(ad.signals(cfg, 1, 30)))

    return cases


@facet("C04", "reject", lambda: st.sampled_from(RESETS).flatmap(lambda n: rejects(n)()), n=700, shards=2, rule="reset of a value which is not a scalar is rejected and the following outputs equal those of a twin without the attempt.")
def reject(case):
    ad = ALL[case["comp"]]
    one, two = ad.build(case["cfg"]), ad.build(case["cfg"])
    for op in case["pre"]:
        apply(ad, one, op)
        apply(ad, two, op)
    raises(ValueError, lambda: one.reset(NOT_SCALAR[case["how"]]), f"{case['comp']}.reset({case['how']})")
    for u, v in zip(ad.run(one, gen.sig(case["x"])), ad.run(two, gen.sig(case["x"]))):
        close(u, v, f"{case['comp']} output after a rejected reset")
    return case["comp"]
