"""C16: polyphase rate filter."""

import math

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.components import ALL
from pbt.core import close, ensure, facet, raises

POLYPHASE = True
ASSUMPTIONS = [
    "Where j / rate precedes a sample instant by less than 5e-7 of a branch, it is that instant, and by less than 2e-6 of a branch, either side is accepted; where the fractional part is within rounding error between two branches, either is accepted.",
    "The content of the bank is judged by symmetry, unity gain and its low pass response, not by particular coefficients.",
]


class Model:
    """Outputs admitted for a stream, from the definition: output j at time j / rate."""

    def __init__(self, bank, rate):
        self.bank, self.rate = bank, rate
        self.past = np.zeros(bank.shape[1])  # newest last
        self.base = 0  # samples consumed before the current phase origin
        self.x, self.j, self.n = [], 0, 0

    def push(self, x):
        self.past = np.concatenate((self.past, x))
        self.n += len(x)

    def window(self, n):
        """The 15 samples which end at sample n of the current origin, newest first."""
        end = len(self.past) - (self.n - n) + 1
        return self.past[end - self.bank.shape[1] : end][::-1]

    def instants(self, t):
        """Times admitted for an output at time t: those within rounding error before a sample instant are that instant."""
        n = math.floor(t)
        gap = (n + 1 - t) * self.bank.shape[0]
        return [float(n + 1)] if gap < 5e-7 else [t, float(n + 1)] if gap < 2e-6 else [t]

    def restart(self, rate=None):
        if rate is not None:
            self.rate = rate
        self.past = self.past[-self.bank.shape[1] :]
        self.n = self.j = 0

    def check(self, y, what):
        """Consumes outputs and verifies their values and number."""
        rr = self.bank.shape[0]
        top = np.abs(self.past).max() + 1e-300
        for k, v in enumerate(np.asarray(y)):
            t = self.j / self.rate
            near = []
            for u in self.instants(t):
                n = math.floor(u)
                kk = (u - n) * rr
                for b in {min(int(np.round(kk)), rr - 1), min(int(math.floor(kk + 0.5 + 1e-7)), rr - 1), min(int(math.ceil(kk - 0.5 - 1e-7)), rr - 1)}:
                    if 0 <= n < self.n:
                        near.append(float(self.bank[b].dot(self.window(n))))
            ensure(near, f"{what}: output {k} (output {self.j} of the stream at time {t}) precedes its input ({self.n} samples consumed)")
            ensure(
                min(abs(v - w) for w in near) <= 1e-10 * top,
                f"{what}: output {k} (output {self.j} of the stream at time {t}) is {v} expected {near}",
            )
            self.j += 1
        lo, hi = (math.ceil((self.n - d / rr) * self.rate) for d in (2e-6, 5e-7))
        ensure(lo <= self.j <= hi, f"{what}: {self.j} outputs of {self.n} samples at rate {self.rate}, expected {lo} to {hi}")


def rates():
    return st.one_of(ALL["PolyphaseRateFilter"].rates(), ALL["PolyphaseRateFilter"].rates(), st.sampled_from([10.0, 16.0, 31.5, 100.0, 256.0, 255.5, 0.011, 1 / 256, 1.0 / 255.0, 128.0]))


@st.composite
def cases(draw, hi=60, most=5):
    ops, rate = [], float(draw(rates()))
    first = rate
    for _ in range(draw(st.integers(1, most))):
        k = draw(st.integers(0, 11))
        if k == 0:
            near = float(rate * (1.0 + draw(st.sampled_from([1e-2, -1e-3, 2e-4, 5e-5]))))
            rate = near if draw(st.integers(0, 2)) == 0 and near <= 256.0 else float(draw(rates()))
            ops.append(["rate", rate])
        elif k == 1:
            ops.append(["same"])
        elif k == 2:
            ops.append(["reset", draw(gen.values())])
        elif k == 3:
            ops.append(["run", dict(n=draw(st.integers(1, 40 if rate < 10.0 else 2)), c=False, re=dict(k="const", a=0.0))])
        else:
            ops.append(["run", draw(gen.signals(1, max(2, int(min(hi, 400.0 / max(rate, 1e-3)))), False, kinds=gen.KINDS + gen.WIDE))])
    return dict(rate=first, ops=ops, single=draw(st.integers(0, 5)) == 0)


def run(case):
    kind = np.float32 if case["single"] else float
    f = db.PolyphaseRateFilter(rate=kind(case["rate"]))
    m = Model(np.array(f.b), float(kind(case["rate"])))
    outputs = 0
    for k, op in enumerate(case["ops"]):
        if op[0] == "rate":
            if not np.isclose(m.rate, float(kind(op[1]))):
                m.restart(float(kind(op[1])))
                f.rate = kind(op[1])
        elif op[0] == "same":
            f.rate = m.rate
        elif op[0] == "reset":
            f.reset(op[1])
            m.past[:] = op[1]
        else:
            x = gen.sig(op[1])
            m.push(x)
            y = f.filter(x)
            m.check(y, f"operation {k} at rate {m.rate}")
            outputs += len(y)
        ensure(np.isclose(f.rate, m.rate), "rate does not read back")
    return ("up" if case["rate"] > 1 else "down" if case["rate"] < 1 else "unity") if outputs else ""


@facet("C16", "stream", cases, n=1100, shards=6, rule="rate x history of calls, resets and rate changes against the definition; non-trivial when the stream has outputs.")
def stream(case):
    return run(case)


@facet("C16", "long", lambda: cases(900, 8), n=60, shards=4, rule="as stream with longer signals.")
def long(case):
    return run(case)


@facet("C16", "bank", cases=lambda tier: [dict(k=k) for k in range(256)], rule="every branch: unity gain, symmetry with the mirrored branch; every case is non-trivial.")
def bank(case):
    b = np.array(db.PolyphaseRateFilter(1.0).b)
    ensure(b.shape == (256, 15), f"bank of shape {b.shape}")
    k = case["k"]
    close(b[k].sum(), 1.0, f"gain of branch {k} at zero frequency", rtol=1e-10)
    close(b[k], b[255 - k][::-1], f"branch {k} against the mirrored branch {255 - k}", rtol=1e-8)
    return "branch"


@facet("C16", "response", cases=lambda tier: [dict(f=k / 40.0) for k in range(0, 121)], rule="the interleaved bank is a low pass response; every case is non-trivial.")
def response(case):
    h = np.array(db.PolyphaseRateFilter(1.0).b).ravel("F") / 256.0
    g = abs(np.exp(-1j * np.pi * case["f"] / 256.0 * np.arange(len(h))) @ h)
    f = case["f"]
    ensure(np.all(np.abs(np.diff(h)) < 0.02 * np.abs(h).max()), "the interleaved bank is not smooth")
    if f <= 0.6:
        ensure(abs(g - 1.0) < 0.05, f"pass band gain {g} at {f}")
    elif f >= 1.15:
        ensure(g < 0.03, f"stop band gain {g} at {f}")
    ensure(g < 1.05, f"gain {g} at {f}")
    return "pass" if f <= 0.6 else "stop" if f >= 1.15 else "transition"


@st.composite
def tones(draw):
    return dict(rate=float(draw(st.one_of(st.sampled_from([0.5, 1.0, 1.5, 2.0, 3.0, np.pi, 1 / 3, 0.75]), gen.reals(0.25, 5.0)))), f=draw(gen.reals(0.0, 0.4)), p=draw(gen.reals(0.0, 2.0)), n=draw(st.integers(40, 90)), cuts=draw(gen.chunkings()))


@facet("C16", "tone", tones, n=240, shards=4, rule="a resampled tone is the tone at times j / rate less the delay of the symmetric bank; every case is non-trivial.")
def tone(case):
    x = np.cos(np.pi * (case["f"] * np.arange(case["n"]) + case["p"]))
    f = db.PolyphaseRateFilter(case["rate"])
    y = np.concatenate([f.filter(v) for v in gen.chunks(x, case["cuts"])])
    t = np.arange(len(y)) / case["rate"] - (256 * 15 - 1) / 512.0
    want = np.cos(np.pi * (case["f"] * t + case["p"]))
    ok = t >= 9.0
    close(y[ok], want[ok], f"tone of frequency {case['f']} at rate {case['rate']}", rtol=0.0, atol=0.03)
    return "tone"


@st.composite
def invalid(draw):
    return dict(rate=float(draw(rates())), bad=draw(st.one_of(st.sampled_from([-1.0, -1e-9, 256.0001, 257.0, 1e9]), st.floats(256.01, 1e6), st.floats(-1e6, -1e-6))), x=draw(gen.signals(1, 20, False)))


@facet("C16", "reject", invalid, n=200, shards=1, rule="rates outside [0, 256] are rejected without effect; every case is non-trivial.")
def reject(case):
    f, g = db.PolyphaseRateFilter(case["rate"]), db.PolyphaseRateFilter(case["rate"])
    raises(ValueError, lambda: db.PolyphaseRateFilter(case["bad"]), f"PolyphaseRateFilter({case['bad']})")
    x = gen.sig(case["x"])
    x = x[: max(1, int(300 / case["rate"]))] if case["rate"] > 4 else x
    close(f.filter(x), g.filter(x), "output")
    raises(ValueError, lambda: setattr(f, "rate", case["bad"]), f"rate = {case['bad']}")
    ensure(f.rate == case["rate"], "rate changed by a rejected assignment")
    close(f.filter(x), g.filter(x), "output after a rejected rate")
    return "reject"


@st.composite
def streams(draw):
    rate = float(draw(rates()))
    d = draw(gen.streams(hi=max(40, min(20000, int(8000 / max(rate, 1e-3)))), lo=10))
    return dict(d, rate=float(np.float32(rate)) if draw(st.booleans()) else rate)


@facet("C16", "endless", streams, n=40, shards=4, rule="signals to 20000 samples, and some to 140000, in any number of calls; non-trivial when the stream has outputs.")
def endless(case):
    f = db.PolyphaseRateFilter(np.float32(case["rate"]) if case["rate"] == float(np.float32(case["rate"])) else case["rate"])
    m, total = Model(np.array(f.b), case["rate"]), 0
    for k, v in enumerate(gen.chunks(gen.sig(case["x"]), case["cuts"])):
        m.push(v)
        y = f.filter(v)
        m.check(y, f"call {k} at rate {case['rate']}")
        total += len(y)
    return "long" if total else ""
