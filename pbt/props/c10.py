"""C10: PID filter against its model."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import close, ensure, facet, raises

ASSUMPTIONS = [
    "Sums which are within a relative 1e-9 of the limit without being exactly representable are not generated on purpose; the reference uses the same double precision accumulation order, which is the order of the samples.",
]


class Model:
    def __init__(self, b):
        self.b, self.last, self.total, self.limit = b, 0.0, 0.0, np.inf
        self.tie = False

    def filter(self, x):
        out = np.zeros(len(x))
        for k, v in enumerate(x):
            v = float(v)
            t = self.total + v
            if np.isfinite(self.limit) and 0.0 < abs(abs(t) - self.limit) < 1e-9 * max(1.0, self.limit):
                self.tie = True
            if abs(t) < self.limit:
                self.total = t
            out[k] = self.b[0] * v + self.b[1] * self.total + self.b[2] * (v - self.last)
            self.last = v
        return out


LIMITS = lambda: st.one_of(st.sampled_from([0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 5.0, float("inf")]), st.integers(0, 12).map(float), st.floats(0.0, 20.0, allow_subnormal=False))  # noqa: E731
BAD = lambda: st.one_of(st.sampled_from([-1.0, -1e-9, -5e-324, -100.0, float("-inf"), -0.5]), st.floats(-1e6, -1e-12))  # noqa: E731


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 9))
        if k < 3:
            ops.append(["limit", draw(LIMITS())])
        elif k == 3:
            ops.append(["bad", draw(BAD())])
        else:
            ops.append(["run", draw(gen.signals(1, 60, False, scales=(1.0, 1.0, 1e-3, 1e3), kinds=("noise", "list", "ints", "const", "ramp", "step", "tone", "ties", "burst")))])
    if not any(o[0] == "run" for o in ops):
        ops.append(["run", draw(gen.signals(1, 60, False, scales=(1.0,)))])
    return dict(b=draw(st.one_of(st.lists(gen.values(), min_size=3, max_size=3), st.sampled_from([[0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [1.0, 1.0, 1.0]]))), how=draw(st.sampled_from(["", "list", "int", "tuple"])), ops=ops)


@facet("C10", "model", cases, n=2600, shards=4, rule="gains x history of calls, limits and rejected limits; non-trivial when the output is not zero.")
def model(case):
    b = np.array(case["b"], float)
    if case["how"] == "int":
        b = np.round(b)
    f, m = db.PidFilter(b=gen.represent(b, case["how"])), Model(b)
    ensure(f.limit == np.inf, f"initial limit {f.limit}")
    some = held = False
    for op in case["ops"]:
        if op[0] == "limit":
            f.limit = m.limit = op[1]
            ensure(f.limit == op[1], f"limit reads {f.limit} after assignment of {op[1]}")
        elif op[0] == "bad":
            raises(ValueError, lambda: setattr(f, "limit", op[1]), f"limit = {op[1]}")
            ensure(f.limit == m.limit, f"limit reads {f.limit} after a rejected assignment, was {m.limit}")
        else:
            x = gen.sig(op[1])
            before, last = m.total, abs(m.last)
            want = m.filter(x)
            if m.tie:
                return ""
            scale = np.abs(b).sum() * (2 * np.abs(x).max() + last + max(abs(before), abs(m.total)) + np.abs(np.cumsum(x)).max())
            close(f.filter(x), want, "PidFilter.filter", rtol=1e-12, scale=scale, atol=1e-300)
            some |= bool(np.any(want))
            held |= bool(abs(m.total - (before + x.sum())) > 1e-6)
    return ("held" if held else "accumulated") if some else ""


@st.composite
def bounded(draw):
    return dict(limit=draw(LIMITS().filter(lambda v: v < 1e6)), x=draw(gen.signals(1, 200, False, scales=(1.0,), kinds=("noise", "ints", "const", "ramp", "step", "tone"))), cuts=draw(gen.chunkings()))


@facet("C10", "bounded", bounded, n=700, shards=1, rule="with gains 0, 1, 0 the output is the integral, whose magnitude never exceeds the limit; non-trivial when the unlimited sum exceeds it.")
def bounded_(case):
    f = db.PidFilter([0.0, 1.0, 0.0])
    f.limit = case["limit"]
    x = gen.sig(case["x"])
    y = np.concatenate([f.filter(v) for v in gen.chunks(x, case["cuts"])])
    ensure(np.all(np.abs(y) <= case["limit"]), f"integral {np.abs(y).max()} exceeds limit {case['limit']}")
    step = np.diff(np.concatenate(([0.0], y)))
    ok = np.isclose(step, x, rtol=0, atol=1e-9 * (1 + np.abs(y).max() + np.abs(x).max())) | (step == 0.0)
    ensure(ok.all(), "the integral neither holds nor adds the sample")
    return "saturated" if np.abs(np.cumsum(x)).max() >= case["limit"] else ""


def enumerated(tier):
    return [dict(n=n, how=h) for n in range(0, 12) for h in ("", "list", "tuple")]


@facet("C10", "domain", cases=enumerated, rule="only three gains are accepted; accepted cases are non-trivial.")
def domain(case):
    b = gen.represent(np.arange(1.0, case["n"] + 1.0), case["how"])
    if case["n"] != 3:
        raises(ValueError, lambda: db.PidFilter(b), f"PidFilter with {case['n']} gains")
        return ""
    close(db.PidFilter(b=b).filter([1.0, 1.0]), np.array([1.0 + 2.0 + 3.0, 1.0 + 4.0]), "output")
    return "accepted"


@st.composite
def streams(draw):
    return dict(draw(gen.streams()), b=draw(st.sampled_from([[0.0, 1.0, 0.0], [1.0, 0.5, 0.25], [2.0, -0.125, 3.0]])), limit=draw(st.one_of(st.none(), st.sampled_from([1.0, 3.0, 100.0, 5000.0]), st.floats(0.5, 300.0))), at=draw(st.integers(0, 40)))


@facet("C10", "long", streams, n=60, shards=2, rule="signals to 20000 samples, and some to 140000, with a limit which is assigned between calls; non-trivial when the output is not zero.")
def long(case):
    x, b = gen.sig(case["x"]), np.array(case["b"])
    f, m = db.PidFilter(b), Model(b)
    y, w = [], []
    for k, v in enumerate(gen.chunks(x, case["cuts"])):
        if k == case["at"] and case["limit"] is not None:
            f.limit = m.limit = case["limit"]
        y.append(f.filter(v))
        w.append(m.filter(v))
    if m.tie:
        return ""
    y, w = np.concatenate(y), np.concatenate(w)
    close(y, w, "PidFilter.filter", rtol=1e-12, scale=np.abs(b).sum() * (np.abs(x).sum() + 1e-300))
    return "long" if np.any(w) else ""
