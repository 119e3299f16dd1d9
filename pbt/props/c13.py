"""C13: complex frequency filter (normalised LMS recursion)."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt.core import arr, close, ensure, facet
from pbt.props.c12 import present

ASSUMPTIONS = [
    "Samples are zero (which are left as zero) or of magnitude at least 1e-6; magnitudes below 1e-8 are treated as zero by the code.",
    "The angle of a coefficient is compared modulo a whole turn with the returned coefficient.",
]


class Model:
    def __init__(self, frequency, rate):
        self.rate, self.s = rate, 1.0 + 0j
        self.b = np.exp(1j * np.pi * frequency)

    @property
    def frequency(self):
        return None

    @frequency.setter
    def frequency(self, v):
        self.b = np.exp(1j * np.pi * v)

    def reset(self, v):
        self.s = v / abs(v) if v else 1.0 + 0j

    def filter(self, d):
        m = np.abs(d)
        x = d / np.where(m == 0.0, 1.0, m)
        e, b = np.zeros(len(x), complex), np.zeros(len(x), complex)
        for k in range(len(x)):
            b[k], e[k] = self.b, x[k] - self.b * self.s
            self.b = self.b + self.rate * e[k] * np.conj(self.s)
            self.s = x[k]
        return e, b


@st.composite
def cases(draw, hi=90):
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 11))
        if k == 0:
            ops.append(["frequency", draw(gen.reals(-1.0, 1.0))])
        elif k == 1:
            ops.append(["rate", draw(gen.reals(0.0, 1.0))])
        elif k == 2:
            ops.append(["reset", draw(gen.cvalues())])
        else:
            ops.append(["run", draw(gen.signals(1, hi, None, scales=(1.0, 1.0, 1e3, 1e-2))), draw(st.sampled_from(["", "", "list", "int", "strided"]))])
    return dict(f=draw(gen.reals(-1.0, 1.0)), r=draw(gen.reals(0.0, 1.0)), ops=ops)


def angles(y, b, what):
    y, b = arr(y), arr(b)
    ensure(y.shape == b.shape and not np.iscomplexobj(y), f"{what}: estimate is not a real array of the length of the signal")
    ensure(np.all(np.abs(y) <= 1.0), f"{what}: estimate outside [-1, 1]")
    t = (y - np.angle(b) / np.pi) / 2.0
    ensure(np.all(np.abs(t - np.round(t)) < 1e-12), lambda: f"{what}: estimate {y} is not the angle of the coefficient {np.angle(b) / np.pi}")


@facet("C13", "recursion", cases, n=2000, shards=4, rule="frequency x rate x history of calls, resets and assignments; non-trivial when the signal is not zero.")
def recursion(case):
    f, m, some, kinds = db.ComplexFrequencyFilter(frequency=case["f"], rate=case["r"]), Model(case["f"], case["r"]), False, set()
    for op in case["ops"]:
        if op[0] == "reset":
            v = gen.cx(op[1])
            if 0 < abs(v) < 1e-6:
                v = 0.0
            f.reset(complex(v))
            m.reset(complex(v))
            continue
        if op[0] != "run":
            setattr(f, op[0], op[1])
            setattr(m, op[0], op[1])
            ensure(getattr(f, op[0]) == op[1], f"{op[0]} reads {getattr(f, op[0])} after assignment of {op[1]}")
            continue
        v, x = present(gen.sig(op[1]), op[2])
        d = x if np.iscomplexobj(x) else refs.analytic(x)
        a = np.abs(d)
        if np.any((a > 0.0) & (a < max(1e-6, 0.0 if np.iscomplexobj(x) else 1e-4 * a.max()))):
            return ""  # the direction of a sample is not well conditioned
        kinds.add("complex" if np.iscomplexobj(x) else "real")
        y, e, b = f.filter(v)
        we, wb = m.filter(d)
        tol = 1e-10 if np.iscomplexobj(x) else 1e-8
        close(e, we, "e", rtol=tol, scale=1.0)
        close(b, wb, "b", rtol=tol, scale=1.0)
        angles(y, b, "y")
        some |= bool(np.any(d))
    return "+".join(sorted(kinds)) if some else ""


@st.composite
def tones(draw):
    return dict(
        f0=draw(gen.reals(-1.0, 1.0)), f=draw(gen.reals(-1.0, 1.0)), r=draw(gen.reals(0.0, 1.0)), a=draw(st.sampled_from([1.0, 7.0, 1e-3, 1e3])),
        p=draw(gen.reals(-1.0, 1.0)), n=draw(gen.lengths(2, 200)), cuts=draw(gen.chunkings()), exact=draw(st.booleans()), reset=draw(st.booleans()),
    )


@facet("C13", "tone", tones, n=900, shards=2, rule="the coefficient converges geometrically to that of a tone, and an exact initial frequency and state stay exact; non-trivial for rate above zero.")
def tone(case):
    n = np.arange(case["n"])
    d = case["a"] * np.exp(1j * np.pi * (case["p"] + case["f"] * n))
    f0 = case["f"] if case["exact"] else case["f0"]
    f = db.ComplexFrequencyFilter(frequency=f0, rate=case["r"])
    prior = np.exp(1j * np.pi * (case["p"] - case["f"]))
    if case["reset"]:
        f.reset(3.0 * prior)
    out = [f.filter(v) for v in gen.chunks(d, case["cuts"])]
    y, e, b = (np.concatenate([arr(o[k]) for o in out]) for k in range(3))
    goal = np.exp(1j * np.pi * case["f"])
    close(b[0], np.exp(1j * np.pi * f0), "initial coefficient", rtol=1e-12)
    k0 = 0 if case["reset"] else 1
    decay = (1.0 - case["r"]) ** (n[k0:] - k0)
    close(b[k0:] - goal, (b[k0] - goal) * decay, "convergence of the coefficient", rtol=1e-10, scale=1.0)
    angles(y, b, "y")
    if case["reset"] and case["exact"]:
        t = (y - case["f"]) / 2.0
        ensure(np.all(np.abs(t - np.round(t)) < 1e-10), f"estimate of an exact start is {y} expected {case['f']}")
        close(e, np.zeros(len(e)), "error of an exact start", rtol=0.0, atol=1e-10)
    return ("exact" if case["exact"] else "converges") if case["r"] else ""


@st.composite
def amplitudes(draw):
    return dict(f=draw(gen.reals(-1.0, 1.0)), r=draw(gen.reals(0.0, 1.0)), x=draw(gen.signals(1, 80, True, scales=(1.0,))), s=draw(st.integers(0, 9999)), a=draw(st.sampled_from([1e-2, 0.5, 30.0, 1e6])), wide=draw(st.sampled_from([0, 0, 6, 14])))


@facet("C13", "amplitude", amplitudes, n=500, shards=1, rule="outputs are independent of a constant or per sample amplitude; non-trivial when the signal is not zero.")
def amplitude(case):
    x = gen.sig(case["x"])
    if np.any((np.abs(x) > 0) & (np.abs(x) < 1e-4)):
        return ""
    m = np.random.RandomState(case["s"]).uniform(0.1, 10.0, len(x)) * case["a"]
    one = db.ComplexFrequencyFilter(case["f"], case["r"]).filter(x)
    if case["wide"]:  # a wide dynamic range within a signal
        m = 10.0 ** np.random.RandomState(case["s"]).uniform(-1.0, case["wide"], len(x))
    for g in (case["a"], m):
        for u, v, name in zip(db.ComplexFrequencyFilter(case["f"], case["r"]).filter(x * g), one, "yeb"):
            if name == "y":
                t = (np.asarray(u) - v) / 2.0
                ok = np.abs(one[2]) > 1e-6
                ensure(np.all(np.abs(t - np.round(t))[ok] < 1e-9 / np.abs(one[2])[ok]), "y depends on amplitude")
            else:
                close(u, v, f"{name} with another amplitude", rtol=1e-10, scale=1.0)
    return "amplitude" if np.any(x) else ""


@st.composite
def streams(draw):
    return dict(draw(gen.streams(complex_=True)), f=draw(gen.reals(-1.0, 1.0)), r=draw(gen.reals(0.0, 1.0)))


@facet("C13", "long", streams, n=50, shards=4, rule="as recursion, with complex signals to 20000 samples, and some to 140000; non-trivial when the signal is not zero.")
def long(case):
    f, m, x = db.ComplexFrequencyFilter(case["f"], case["r"]), Model(case["f"], case["r"]), gen.sig(case["x"])
    x = np.where(np.abs(x) < 1e-4, 0.0, x)
    for v in gen.chunks(x, case["cuts"]):
        y, e, b = f.filter(v)
        we, wb = m.filter(v)
        close(e, we, "e", rtol=1e-9, scale=1.0)
        close(b, wb, "b", rtol=1e-9, scale=1.0)
        angles(y, b, "y")
    return "long" if np.any(x) else ""
