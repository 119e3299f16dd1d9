"""C19: diversity model."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import arr, close, ensure, facet, raises
from pbt.gen import sig

ASSUMPTIONS = ["Distances which agree to a relative 1e-9 are a tie, of which either outcome is accepted."]
STYLES = ("Chebyshev", "Euclidean", "Geometric", "Manhattan")
CASES = (str, str.lower, str.upper, str.swapcase)


def distance(style, x, y):
    d = np.abs(x - y)
    if style == "Chebyshev":
        return d.max()
    if style == "Euclidean":
        return np.sqrt((d * d).sum())
    if style == "Geometric":
        return float(np.prod(d)) ** (1.0 / len(d))
    return d.sum()


def diversity(style, s):
    return min(distance(style, s[u], s[v]) for u in range(len(s)) for v in range(u + 1, len(s)))


def rows_of(m):
    return arr(m.s, "state")


class Follower:
    """Follows a model one observation at a time and verifies every transition from its observed state."""

    def __init__(self, style, order):
        self.style, self.order, self.seen, self.last = style, order, [], None
        self.replaced = self.kept = 0

    def clear(self):
        self.seen, self.last = [], None

    def step(self, m, x):
        n = self.order + 1
        before = rows_of(m).copy() if self.seen else None
        y = arr(m.fit(x.reshape(1, -1)), "diversity")
        ensure(y.shape == (1,), f"diversity shape {y.shape}")
        after = rows_of(m)
        ensure(after.shape == (n, len(x)), f"state shape {after.shape}")
        k = len(self.seen)
        self.seen.append(x)
        if k < n:
            want = sorted(map(tuple, self.seen))
            got = sorted(tuple(r) for r in after if not np.isclose(r[0], np.finfo(float).max))
            ensure(got == want, lambda: f"state {got} after {k + 1} observations expected {want}")
            return
        ensure(len(before) == n, "state")
        d0 = diversity(self.style, before)
        options = []
        for j in range(n):
            s = before.copy()
            s[j] = x
            options.append(diversity(self.style, s))
        best = max(options)
        tol = 1e-9 * max(best, d0)
        d1 = diversity(self.style, after)
        ensure(d1 >= d0 - tol, f"minimum distance decreased from {d0} to {d1}")
        close(y[0], d1, "returned diversity against the minimum distance of the state", rtol=1e-9, scale=max(d1, d0))
        changed = [j for j in range(n) if not np.array_equal(before[j], after[j])]
        if best > d0 + tol:
            ensure(changed or any(np.array_equal(before[j], x) for j in range(n)), lambda: f"{x} does not replace a member although the minimum distance increases from {d0} to {best}")
            ensure(len(changed) <= 1, lambda: f"{len(changed)} members replaced by one observation")
            ensure(d1 >= best - tol, lambda: f"member {changed} replaced: minimum distance {d1}, the best replacement yields {best} of {options}")
            ensure(all(np.array_equal(after[j], x) for j in changed), "replacement is not the observation")
            self.replaced += 1
        elif best < d0 - tol:
            ensure(not changed, lambda: f"{x} replaces member {changed} although no replacement increases the minimum distance {d0} (best {best})")
            self.kept += 1
        else:
            ensure(all(np.array_equal(after[j], x) for j in changed) and len(changed) <= 1, "replacement is not the observation")


@st.composite
def cases(draw, top=5, most=14):
    order = draw(st.integers(1, top))
    dim = draw(st.integers(1, 4))
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        n = draw(st.integers(1, order + most))
        ops.append(["fit", dict(draw(gen.fixed_signal(n * dim, scales=(1.0, 1.0, 1e3, 1e-3, 1e9, 1e15, 1e30, 1e-12), kinds=("noise", "noise", "ints", "ties", "ramp"))), rows=n)])
        k = draw(st.integers(0, 7))
        if k == 0:
            ops.append(["clear", draw(st.integers(1, 4))])
            dim = ops[-1][1]
        elif k == 1:
            ops.append(["bad", draw(st.sampled_from(["dim", "1d", "empty", "3d"]))])
    return dict(style=draw(st.sampled_from(STYLES)), case=draw(st.integers(0, 3)), order=order, ops=ops)


@facet("C19", "history", cases, n=900, shards=7, rule="style x order x history of observations, clears and rejected arrays, observation by observation; non-trivial when an observation follows filling.")
def history(case):
    style, order = case["style"], case["order"]
    m, f, dim, steps = db.DiversityModel(style=CASES[case["case"]](style), order=order), Follower(style, order), None, 0
    for op in case["ops"]:
        if op[0] == "fit":
            x = sig(op[1]).reshape(op[1]["rows"], -1)
            dim = x.shape[1]
            for r in x:
                f.step(m, r)
        elif op[0] == "clear":
            steps += len(f.seen)
            m.clear()
            f.clear()
        elif dim:
            bad = dict(dim=np.ones((2, dim + 1)), empty=np.ones((0, dim)))
            bad["1d"], bad["3d"] = np.ones(dim), np.ones((1, dim, 1))
            before = rows_of(m).copy()
            if op[1] != "dim" or f.seen:
                raises(ValueError, lambda: m.fit(bad[op[1]]), f"fit of shape {bad[op[1]].shape} where observations have {dim} elements")
                ensure(np.array_equal(before, rows_of(m)), "a rejected array changed the state")
    return ("replaced" if f.replaced else "") + ("+kept" if f.kept else "")


@st.composite
def batches(draw):
    case = draw(cases(4, 10))
    case["ops"] = [op for op in case["ops"] if op[0] != "bad"]
    return case


@facet("C19", "batch", batches, n=400, shards=4, rule="arrays of observations (and lists) agree with single observations; members are observations; clear restores a new model; non-trivial when an observation follows filling.")
def batch(case):
    style, order = case["style"], case["order"]
    one, two = db.DiversityModel(style, order), db.DiversityModel(style, order)
    filled, seen = False, []
    for k, op in enumerate(case["ops"]):
        if op[0] == "clear":
            one.clear()
            two = db.DiversityModel(style, order)
            seen = []
            continue
        x = sig(op[1]).reshape(op[1]["rows"], -1)
        seen += [tuple(r) for r in x]
        y = arr(one.fit(list(x) if k & 1 else x))
        z = np.concatenate([arr(two.fit(r.reshape(1, -1))) for r in x])
        ensure(y.shape == (len(x),), f"diversity shape {y.shape}")
        close(y, z, "diversity of a batch against single observations", rtol=1e-12)
        ensure(np.array_equal(rows_of(one), rows_of(two)), "state of a batch against single observations")
        ensure(all(tuple(r) in seen for r in rows_of(one)[: len(seen)]), "a member is not an observation")
        tail = y[max(0, order + 1 - (len(seen) - len(x))) :]
        ensure(np.all(np.diff(tail) >= 0.0), f"diversity decreases {y}")
        filled |= len(seen) > order + 1
    return style if filled else ""


@facet("C19", "long", lambda: cases(8, 40), n=64, shards=8, rule="orders to 8 and longer histories.")
def long(case):
    return history(case)


@st.composite
def streams(draw):
    order, dim = draw(st.integers(1, 3)), draw(st.one_of(st.integers(1, 4), gen.sizes(5, 300)))
    n = draw(gen.sizes(50, 600))
    return dict(style=draw(st.sampled_from(STYLES)), order=order, dim=dim, n=n, s=draw(st.integers(0, 9999)), grow=draw(st.booleans()), cuts=draw(st.sampled_from([[1], [n], [7, 1], [100]])))


@facet("C19", "endless", streams, n=40, shards=8, rule="histories of hundreds of observations of to 300 elements, which may diverge slowly; non-trivial when an observation replaces a member.")
def endless(case):
    r = np.random.RandomState(case["s"])
    x = r.uniform(-1.0, 1.0, (case["n"], case["dim"]))
    if case["grow"]:
        x *= 1.0 + np.arange(case["n"])[:, None] / 20.0
    m, one = db.DiversityModel(case["style"], case["order"]), db.DiversityModel(case["style"], case["order"])
    f = Follower(case["style"], case["order"])
    y = []
    for v in x:
        f.step(one, v)
    for u, v in gen.pieces(len(x), case["cuts"]):
        y.append(arr(m.fit(x[u:v])))
    ensure(np.array_equal(rows_of(one), rows_of(m)), "state of a batch against single observations")
    y = np.concatenate(y)[case["order"] + 1 :]
    ensure(np.all(np.diff(y) >= 0.0), "diversity decreases")
    close(y[-1], diversity(case["style"], rows_of(m)), "last diversity", rtol=1e-9)
    return "replaced" if f.replaced else ""
