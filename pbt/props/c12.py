"""C12: complex bandpass filter (LMS recursion)."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt.core import arr, close, ensure, facet

ASSUMPTIONS = ["The initial coefficient is zero to within 1e-12.", "The analytic signal of a real signal is that of one call (scipy.signal.hilbert), here from the definition by DFT."]


class Model:
    def __init__(self, frequency, rate):
        self.frequency, self.rate, self.b, self.phase = frequency, rate, 0j, 0.0

    def filter(self, d):
        x = np.exp(1j * np.pi * (self.phase + self.frequency * np.arange(len(d))))
        self.phase = float(np.fmod(self.phase + self.frequency * len(d), 2.0))
        y, e, b = (np.zeros(len(d), complex) for _ in range(3))
        for k in range(len(d)):
            b[k], y[k] = self.b, self.b * x[k]
            e[k] = d[k] - y[k]
            self.b = self.b + self.rate * e[k] * np.conj(x[k])
        return y, e, b


@st.composite
def cases(draw, hi=90):
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 9))
        if k == 0:
            ops.append(["frequency", draw(gen.reals(-1.0, 1.0))])
        elif k == 1:
            ops.append(["rate", draw(gen.reals(0.0, 1.0))])
        else:
            ops.append(["run", draw(gen.signals(1, hi, None)), draw(st.sampled_from(["", "", "list", "int", "f4", "strided"]))])
    return dict(f=draw(gen.reals(-1.0, 1.0)), r=draw(gen.reals(0.0, 1.0)), ops=ops)


def present(x, how):
    """The signal in a representation, and its values."""
    if how == "int":
        x = np.round(x * 8.0) if np.iscomplexobj(x) else np.round(x * 8.0)
        return (x if np.iscomplexobj(x) else gen.represent(x, "int")), x
    if how == "f4":
        x = x.astype(np.complex64 if np.iscomplexobj(x) else np.float32)
        return x, x.astype(complex if np.iscomplexobj(x) else float)
    if how == "list" and np.iscomplexobj(x):
        return list(x), x
    return gen.represent(x, how), x


@facet("C12", "recursion", cases, n=2000, shards=4, rule="frequency x rate x history of calls (real and complex signals) and assignments; non-trivial when the reference signal is not zero.")
def recursion(case):
    f, m, some, kinds = db.ComplexBandpassFilter(frequency=case["f"], rate=case["r"]), Model(case["f"], case["r"]), False, set()
    top, rtol = 1e-300, 1e-11
    for op in case["ops"]:
        if op[0] != "run":
            setattr(f, op[0], op[1])
            setattr(m, op[0], op[1])
            ensure(getattr(f, op[0]) == op[1], f"{op[0]} reads {getattr(f, op[0])} after assignment of {op[1]}")
            continue
        v, x = present(gen.sig(op[1]), op[2])
        d = x if np.iscomplexobj(x) else refs.analytic(x)
        kinds.add("complex" if np.iscomplexobj(x) else "real")
        got = f.filter(v)
        ensure(len(got) == 3, "filter does not return y, e, b")
        top = max(top, np.abs(d).max())
        if op[2] == "f4" and not np.iscomplexobj(x):
            rtol = 1e-5  # the analytic signal is evaluated in single precision
        for name, g, w in zip("yeb", got, m.filter(d)):
            close(g, w, f"{name} of a {'complex' if np.iscomplexobj(x) else 'real'} signal", rtol=rtol, scale=top, atol=1e-12)
            some |= name == "y" and bool(np.any(w))
    return "+".join(sorted(kinds)) if some else ""


@st.composite
def tones(draw):
    return dict(f=draw(gen.reals(-1.0, 1.0)), r=draw(gen.reals(0.0, 1.0)), a=draw(st.sampled_from([1.0, 2.0, 1e-3, 50.0])), p=draw(gen.reals(-1.0, 1.0)), n=draw(gen.lengths(1, 200)), cuts=draw(gen.chunkings()))


@facet("C12", "tone", tones, n=600, shards=2, rule="on a tone at the filter frequency the error is a (1 - rate)**n; non-trivial for 0 < rate.")
def tone(case):
    n = np.arange(case["n"])
    d = case["a"] * np.exp(1j * np.pi * (case["p"] + case["f"] * n))
    f = db.ComplexBandpassFilter(case["f"], case["r"])
    out = [f.filter(v) for v in gen.chunks(d, case["cuts"])]
    y, e, b = (np.concatenate([arr(o[k]) for o in out]) for k in range(3))
    decay = (1.0 - case["r"]) ** n
    close(np.abs(e), case["a"] * decay, "error magnitude", rtol=1e-10, scale=case["a"], atol=1e-11)
    close(y + e, d, "reference plus error", rtol=1e-12)
    close(b, case["a"] * np.exp(1j * np.pi * case["p"]) * (1.0 - decay), "coefficient", rtol=1e-10, scale=case["a"], atol=1e-11)
    return "adapts" if case["r"] else ""


@st.composite
def streams(draw):
    return dict(draw(gen.streams(complex_=None)), f=draw(gen.reals(-1.0, 1.0)), r=draw(gen.reals(0.0, 1.0)))


@facet("C12", "long", streams, n=50, shards=4, rule="as recursion, with signals to 20000 samples, and some to 140000; non-trivial when the reference signal is not zero.")
def long(case):
    f, m, some = db.ComplexBandpassFilter(case["f"], case["r"]), Model(case["f"], case["r"]), False
    x = gen.sig(case["x"])
    rtol = 1e-8 + 1e-16 * len(x) ** 2  # the rounding error of the accumulated phase
    for v in gen.chunks(x, case["cuts"]):
        d = v if np.iscomplexobj(v) else refs.analytic(v)
        for name, g, w in zip("yeb", f.filter(v), m.filter(d)):
            close(g, w, name, rtol=rtol, scale=max(np.abs(x).max(), np.abs(d).max()), atol=1e-12)
            some |= name == "y" and bool(np.any(w))
    return "long" if some else ""
