"""C11: complex exponential filter."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import arr, close, ensure, facet, raises

ASSUMPTIONS = ["The phase of a long history is compared within the rounding error of its accumulation."]


@st.composite
def frequencies(draw, hi=120):
    n = draw(gen.lengths(1, hi))
    k = draw(st.integers(0, 5))
    if k == 0 and n <= 30:
        return dict(v=draw(st.lists(gen.reals(-1.0, 1.0), min_size=n, max_size=n)))
    if k <= 2:
        return dict(n=n, f=draw(gen.reals(-1.0, 1.0)))
    if k == 3:
        return dict(n=n, f=draw(st.sampled_from([1.0, -1.0, 0.5, -0.5, 0.99, -0.75])))
    return dict(n=n, s=draw(st.integers(0, 2**20)), hi=draw(st.sampled_from([1.0, 0.1])))


def expand(s):
    if "v" in s:
        return np.array(s["v"], float)
    if "f" in s:
        return np.full(s["n"], s["f"])
    return np.random.RandomState(s["s"]).uniform(-s["hi"], s["hi"], s["n"])


CARRIER = dict(single=np.float32, singles=np.float32, half=np.float16, zero=complex)
BADX = ("above", "below", "complex", "empty", "inf", "least")


@st.composite
def cases(draw, hi=120, most=5):
    ops = []
    for _ in range(draw(st.integers(1, most))):
        k = draw(st.integers(0, 9))
        if k == 0:
            ops.append(["phase", draw(gen.reals(-1.0, 1.0))])
        elif k == 1:
            ops.append(["badphase", draw(st.one_of(st.sampled_from([1.0000001, -1.0000001, 2.0, -2.0, 1e9]), st.floats(1.001, 100.0), st.floats(-100.0, -1.001)))])
        elif k == 2:
            ops.append(["badx", draw(st.sampled_from(BADX)), draw(st.integers(0, 9)), draw(st.sampled_from([1.0000001, 1.5, 2.0, 100.0]))])
        else:
            ops.append(["run", draw(frequencies(hi)), draw(st.sampled_from(["", "", "list", "readonly", "strided", "int", "single", "singles", "half", "zero"]))])
    return dict(phase=draw(st.one_of(st.none(), gen.reals(-1.0, 1.0))), ops=ops)


def inside(f, what):
    p = f.phase
    ensure(-1.0 <= p <= 1.0, f"{what}: phase {p} is outside [-1, 1]")
    return float(p)


def run(case):
    p0 = case["phase"]
    f = db.ComplexExponentialFilter() if p0 is None else db.ComplexExponentialFilter(phase=p0)
    ref, total, some = np.longdouble(p0 or 0.0), 0.0, False
    for op in case["ops"]:
        if op[0] == "phase":
            f.phase = op[1]
            ref = np.longdouble(op[1])
            ensure(f.phase == op[1], f"phase reads {f.phase} after assignment of {op[1]}")
        elif op[0] == "badphase":
            before = f.phase
            raises(ValueError, lambda: setattr(f, "phase", op[1]), f"phase = {op[1]}")
            raises(ValueError, lambda: db.ComplexExponentialFilter(op[1]), f"ComplexExponentialFilter({op[1]})")
            ensure(f.phase == before, "a rejected phase changed the phase")
        elif op[0] == "badx":
            before = f.phase
            x = np.random.RandomState(op[2]).uniform(-1, 1, op[2] + 1)
            if op[1] == "empty":
                x = np.zeros(0)
            elif op[1] == "complex":
                x = x.astype(complex)
                x[op[2] // 2] += 0.25j
            elif op[1] == "least":  # the magnitude of the most negative integer exceeds the type
                d = (np.int8, np.int16, np.int32, np.int64)[op[2] % 4]
                x = np.round(x).astype(d)
                x[op[2] // 2] = np.iinfo(d).min
            else:
                x[op[2] // 2] = dict(above=op[3], below=-op[3], inf=np.inf)[op[1]]
            raises(ValueError, lambda: f.filter(x), f"filter of {op[1]} frequencies {x}")
            ensure(f.phase == before, f"rejected frequencies changed the phase from {before} to {f.phase}")
        else:
            x = expand(op[1])
            if op[2] == "int":
                x = np.round(x)
            if op[2] in CARRIER:
                v = x.astype(CARRIER[op[2]])
                x = v.real.astype(float)
                v = list(v) if op[2] == "singles" else v
            else:
                v = gen.represent(x, op[2])
            y = arr(f.filter(v), "output")
            c = np.concatenate(([np.longdouble(0.0)], np.cumsum(x.astype(np.longdouble)))) + ref
            total += 1e-15 * (20 + len(x)) ** 2  # the rounding error of the accumulated phase
            w = np.fmod(c[:-1], 2).astype(float)
            close(y, np.exp(1j * np.pi * w), "output", rtol=0.0, atol=4.0 * total, scale=1.0)
            close(np.abs(y), np.ones(len(x)), "magnitude of the output", rtol=1e-12)
            ref = np.fmod(c[-1], 2)
            d = (inside(f, "after filter") - float(ref)) / 2.0
            ensure(abs(d - round(d)) < 4.0 * total, f"phase {f.phase} is not congruent to the accumulated phase {float(ref)}")
            some |= bool(np.any(x))
        inside(f, op[0])
    return ("calls" if sum(o[0] == "run" for o in case["ops"]) > 1 else "call") if some else ""


@facet("C11", "contiguous", cases, n=2400, shards=4, rule="initial phase x history of calls, assignments and rejected arguments; non-trivial when a frequency is not zero.")
def contiguous(case):
    return run(case)


@facet("C11", "long", lambda: cases(1500, 12), n=120, shards=4, rule="as contiguous with longer signals and histories.")
def long(case):
    return run(case)


@st.composite
def constants(draw):
    return dict(f=draw(gen.reals(-1.0, 1.0)), p=draw(gen.reals(-1.0, 1.0)), n=draw(gen.lengths(1, 400)))


@facet("C11", "tone", constants, n=500, shards=2, rule="a constant frequency yields a pure tone with the initial phase; non-trivial when the frequency is not zero.")
def tone(case):
    n = np.arange(case["n"])
    y = db.ComplexExponentialFilter(phase=case["p"]).filter(np.full(case["n"], case["f"]))
    close(y, np.exp(1j * np.pi * (case["p"] + case["f"] * n)), "tone", rtol=0.0, atol=1e-15 * (20 + len(n)) ** 2, scale=1.0)
    return "tone" if case["f"] else ""


@st.composite
def streams(draw):
    d = draw(gen.streams(kinds=("noise", "noise", "sparse", "tone", "const", "ties", "step")))
    return dict(d, how=draw(st.sampled_from(["", "", "single", "half"])), p=draw(gen.reals(-1.0, 1.0)), g=draw(st.sampled_from([1.0, 1.0, 0.1, 1e-3])))


@facet("C11", "endless", streams, n=60, shards=4, rule="signals to 20000 samples, and some to 140000, in any number of calls; non-trivial when a frequency is not zero.")
def endless(case):
    x = np.clip(gen.sig(case["x"]), -1.0, 1.0) * case["g"]
    v = x.astype(CARRIER.get(case["how"], float))
    x = v.astype(float)
    f = db.ComplexExponentialFilter(case["p"])
    y = np.concatenate([f.filter(v) for v in gen.chunks(v, case["cuts"])])
    c = np.concatenate(([np.longdouble(0.0)], np.cumsum(x.astype(np.longdouble)))) + np.longdouble(case["p"])
    tol = 1e-15 * (20 + len(x)) ** 2
    close(y, np.exp(1j * np.pi * np.fmod(c[:-1], 2).astype(float)), "output", rtol=0.0, atol=tol, scale=1.0)
    close(np.abs(y), np.ones(len(x)), "magnitude of the output", rtol=1e-12)
    d = (inside(f, "after filter") - float(np.fmod(c[-1], 2))) / 2.0
    ensure(abs(d - round(d)) < tol, f"phase {f.phase} is not congruent to the accumulated phase {float(c[-1])}")
    return "long" if np.any(x) else ""
