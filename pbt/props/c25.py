"""C25: complex and three-phase representations."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import arr, close, ensure, facet, raises
from pbt.gen import sig

ASSUMPTIONS = ["Signals are finite."]
T = db.ComplexTransform.transform
HOW = ["", "", "list", "tuple", "strided", "readonly", "fortran", "int"]


def present(x, how):
    """x in a representation, and its values."""
    if how == "int":
        if np.iscomplexobj(x):
            return x, x
        x = np.round(x * 5.0)
    return gen.represent(x, how), x


@st.composite
def planes(draw):
    return dict(
        x=draw(gen.signals(1, 300, complex_=None)), y=draw(st.integers(0, 9999)), g=[draw(gen.values()), draw(gen.values())],
        neutral=draw(st.booleans()), how=draw(st.sampled_from(HOW)), row=draw(st.booleans()),
    )  # fmt: skip


def phases(x, neutral):
    """The three phases of a complex signal, by projection on axes at 0, -120 and +120 degrees."""
    u = np.asarray(x, complex)
    if not neutral:
        u = u * 3.0**0.5 * np.exp(1j * np.pi / 6.0)
    return np.array([(u * np.exp(-2j * np.pi * k / 3.0)).real for k in range(3)])


def plane(x, neutral):
    u = sum(x[k] * np.exp(2j * np.pi * k / 3.0) for k in range(3)) * (2.0 / 3.0)
    return u if neutral else u * np.exp(-1j * np.pi / 6.0) / 3.0**0.5


@facet("C25", "complex", planes, n=900, shards=4, rule="complex (or real) signal x neutral x shape x representation: three phases by projection, zero sum, identity, linearity; non-trivial when the signal is not zero.")
def complex_(case):
    v, x = present(sig(case["x"]), case["how"])
    if case["row"] and not isinstance(v, tuple):
        v = [v] if isinstance(v, list) else v.reshape(1, -1)
    n = case["neutral"]
    y = arr(T(v, n), "phases")
    m = np.abs(x).max() * (1.0 if n else 3.0**0.5)
    close(y, phases(x, n), "three phases", scale=m, rtol=1e-12)
    close(y.sum(0), np.zeros(len(x)), "sum of phases", scale=m, rtol=1e-12)
    close(T(y, neutral=n), x.astype(complex), "complex to three-phase and back", scale=np.abs(x).max(), rtol=1e-12)
    if n:
        close(T(v), y, "default neutral", rtol=0.0)
    o = np.random.RandomState(case["y"]).uniform(-1, 1, len(x)) * (np.abs(x).max() or 1.0) * (1 - 1j)
    a, b = case["g"]
    close(T(a * x + b * o, n), a * y + b * arr(T(o, n)), "linear combination", scale=(abs(a) + 2 * abs(b)) * (np.abs(x).max() or 1.0) * 2, rtol=1e-12)
    return f"{'complex' if case['x']['c'] else 'real'} {n}" if np.any(x) else ""


@st.composite
def triples(draw):
    n = draw(gen.lengths(1, 200))
    return dict(
        x=draw(gen.fixed_signal(3 * n, False, gen.SCALES)), y=draw(st.integers(0, 9999)), g=[draw(gen.values()), draw(gen.values())],
        neutral=draw(st.booleans()), how=draw(st.sampled_from(HOW)),
    )  # fmt: skip


@facet("C25", "phases", triples, n=900, shards=4, rule="three-phase signal x neutral x representation: complex signal, removal of the mean over phases, linearity; non-trivial when the phases differ.")
def phases_(case):
    v, x = present(sig(case["x"]).reshape(3, -1), case["how"])
    n = case["neutral"]
    y = arr(T(v, n), "complex")
    m = np.abs(x).max()
    close(y, plane(x, n), "complex signal", scale=m, rtol=1e-12)
    close(T(y, n), x - x.mean(0), "three-phase to complex and back", scale=m, rtol=1e-12)
    o = np.random.RandomState(case["y"]).uniform(-1, 1, x.shape) * (m or 1.0)
    a, b = case["g"]
    close(T(a * x + b * o, n), a * y + b * arr(T(o, n)), "linear combination", scale=(abs(a) + abs(b)) * (m or 1.0) * 2, rtol=1e-12)
    return str(n) if np.any(x - x.mean(0)) else ""


@st.composite
def balanced(draw):
    return dict(a=draw(st.one_of(st.sampled_from([1.0, 0.5, 120.0]), st.floats(1e-3, 1e4))), f=draw(gen.reals(-1.0, 1.0)), p=draw(gen.reals(-1.0, 1.0)), n=draw(gen.lengths(1, 100)), neutral=draw(st.booleans()), common=draw(gen.values()))


@facet("C25", "balanced", balanced, n=400, shards=2, rule="balanced set of an amplitude, frequency and phase with a common offset; every case is non-trivial.")
def balanced_(case):
    t = np.pi * (case["f"] * np.arange(case["n"]) + case["p"])
    a = case["a"]
    x = np.array([a * np.cos(t - 2.0 * np.pi * k / 3.0) for k in range(3)]) + case["common"]
    y = arr(T(x, case["neutral"]))
    want = a * np.exp(1j * t) if case["neutral"] else a / 3.0**0.5 * np.exp(1j * (t - np.pi / 6.0))
    close(y, want, "complex signal of a balanced set", scale=a + abs(case["common"]), rtol=1e-11)
    return str(case["neutral"])


@st.composite
def invalid(draw):
    return dict(rows=draw(st.one_of(st.sampled_from([0, 2, 4]), st.integers(0, 12))), n=draw(st.integers(0, 9)), deep=draw(st.integers(0, 5)) == 0, neutral=draw(st.booleans()), c=draw(st.booleans()), how=draw(st.sampled_from(["", "list"])))


@facet("C25", "reject", invalid, n=300, rule="row counts other than one and three, no columns, or more than two dimensions; trivial when the drawn shape is admissible.")
def reject(case):
    shape = (case["rows"], case["n"]) + ((2,) if case["deep"] else ())
    if case["rows"] in (1, 3) and case["n"] > 0 and not case["deep"]:
        return ""
    x = np.ones(shape, complex if case["c"] else float)
    raises(ValueError, lambda: T(gen.represent(x, case["how"]), case["neutral"]), f"shape {shape}")
    raises(ValueError, lambda: T(gen.represent(np.ones(0), case["how"]), case["neutral"]), "empty signal")
    return "deep" if case["deep"] else "rows"


@st.composite
def streams(draw):
    n = draw(gen.vast(300, 20000))
    return dict(n=n, s=draw(st.integers(0, 9999)), neutral=draw(st.booleans()), c=draw(st.booleans()))


@facet("C25", "long", streams, n=60, shards=1, rule="signals to 20000 samples, and some to 140000, in both directions; every case is non-trivial.")
def long(case):
    r, n, neutral = np.random.RandomState(case["s"]), case["n"], case["neutral"]
    x = r.uniform(-1, 1, n) + (1j * r.uniform(-1, 1, n) if case["c"] else 0.0)
    y = arr(T(x, neutral), "phases")
    close(y, phases(x, neutral), "three phases", scale=2.0, rtol=1e-12)
    close(T(y, neutral), x.astype(complex), "complex to three-phase and back", scale=2.0, rtol=1e-12)
    v = r.uniform(-1, 1, (3, n))
    z = T(v, neutral)
    close(z, plane(v, neutral), "complex signal", scale=2.0, rtol=1e-12)
    close(T(z, neutral), v - v.mean(0), "three-phase to complex and back", scale=2.0, rtol=1e-12)
    return f"{neutral}"
