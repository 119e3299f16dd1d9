"""C17: rank filter."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import arr, close, ensure, facet, raises

ASSUMPTIONS = ["Signals are real; among samples of equal magnitude either sign may be selected.", "The data type of a signal does not change within a history which mixes integers and fractions."]


@st.composite
def cases(draw, hi=90, top=14):
    order = draw(gen.orders(0, top))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 11))
        if k == 0:
            ops.append(["index", draw(st.integers(0, order))])
        elif k == 1:
            ops.append(["bad", draw(st.one_of(st.integers(-3, -1), st.integers(order + 1, order + 4)))])
        elif k == 2:
            ops.append(["reset", draw(gen.values())])
        else:
            ops.append(["run", draw(gen.signals(1, hi, False, kinds=("noise", "burst", "ties", "ints", "list", "sparse", "tone", "ramp", "impulse"))), draw(st.sampled_from(["", "", "list", "int", "strided"]))])
    if not any(op[0] == "run" for op in ops):
        ops.append(["run", draw(gen.signals(1, hi, False, kinds=gen.KINDS + gen.WIDE)), ""])
    return dict(order=order, index=draw(st.sampled_from([0, order, order // 2, draw(st.integers(0, order))])), ops=ops)


def run(case):
    order, index = case["order"], case["index"]
    f, past, some = db.RankFilter(index=index, order=order), np.zeros(order + 1), False
    for k, op in enumerate(case["ops"]):
        if op[0] == "index":
            f.index = index = op[1]
        elif op[0] == "bad":
            raises(ValueError, lambda: setattr(f, "index", op[1]), f"index = {op[1]}, order {order}")
            raises(ValueError, lambda: db.RankFilter(op[1], order), f"RankFilter({op[1]}, {order})")
        elif op[0] == "reset":
            f.reset(op[1])
            past[:] = op[1]
        else:
            x = gen.sig(op[1])
            if op[2] == "int":
                x = np.round(x * 8.0) if np.abs(x).max() < 1e12 else np.zeros(len(x))
                if np.any(past != np.round(past)):
                    op = [op[0], op[1], ""]
            y = arr(f.filter(gen.represent(x, op[2])))
            ensure(y.shape == x.shape, f"{y.shape} samples expected {x.shape}")
            full = np.concatenate((past, x))
            for n in range(len(x)):
                w = full[n + 1 : n + order + 2]
                want = np.sort(np.abs(w))[index]
                ensure(np.any(w == y[n]), lambda: f"operation {k}: output {n} is {y[n]}, not an element of the window {w}")
                ensure(abs(y[n]) == want, lambda: f"operation {k}: output {n} has magnitude {abs(y[n])} expected rank {index} of the window {w}, which is {want}")
            past = full[len(full) - order - 1 :]
            some |= bool(np.any(x))
        ensure(f.index == index, f"index reads {f.index} expected {index}")
    return ("even" if order & 1 else "odd") + (" first" if index == 0 else " last" if index == order else " inner") if some and order else ""


@facet("C17", "rank", cases, n=2200, shards=5, rule="order x index x history of calls, resets, index changes and rejected indices; non-trivial for order above zero and a signal which is not zero.")
def rank(case):
    return run(case)


@facet("C17", "long", lambda: cases(500, 64), n=160, shards=4, rule="orders to 64 and signals to 500 samples.")
def long(case):
    return run(case)


@st.composite
def metamorphic(draw):
    order = draw(st.integers(0, 12))
    return dict(order=order, x=draw(gen.signals(1, 80, False, kinds=("noise", "tone", "ties"))), g=draw(st.sampled_from([2.0, -1.0, 0.25, -8.0])))


@facet("C17", "relations", metamorphic, n=500, shards=2, rule="all indices of one order sort the magnitudes, and power of two gains commute; non-trivial for order above zero.")
def relations(case):
    x, o = gen.sig(case["x"]), case["order"]
    rows = np.array([db.RankFilter(i, o).filter(x) for i in range(o + 1)])
    ensure(np.all(np.diff(np.abs(rows), axis=0) >= 0.0), "magnitudes are not ascending in index")
    full = np.concatenate((np.zeros(o + 1), x))
    for n in range(len(x)):
        ensure(np.array_equal(np.sort(np.abs(rows[:, n])), np.sort(np.abs(full[n + 1 : n + o + 2]))), f"indices do not enumerate the window at {n}")
    close(np.abs(db.RankFilter(o // 2, o).filter(case["g"] * x)), np.abs(case["g"] * rows[o // 2]), "scaled signal", rtol=0.0, atol=0.0)
    return "relations" if o else ""


@st.composite
def streams(draw):
    order = draw(st.one_of(st.integers(0, 12), gen.sizes(12, 600)))
    return dict(draw(gen.streams(hi=max(800, min(20000, 400000 // (order + 1))))), order=order, index=draw(st.sampled_from([0, order, order // 2, draw(st.integers(0, order))])))


@facet("C17", "endless", streams, n=60, shards=4, rule="orders to 600 and signals to 20000 samples, and some to 140000; non-trivial for order above zero and a signal which is not zero.")
def endless(case):
    x, order, index = gen.sig(case["x"]), case["order"], case["index"]
    f = db.RankFilter(index, order)
    y = np.concatenate([arr(f.filter(v)) for v in gen.chunks(x, case["cuts"])])
    w = np.lib.stride_tricks.sliding_window_view(np.concatenate((np.zeros(order), x)), order + 1)
    want = np.sort(np.abs(w), axis=1)[:, index]
    ensure(y.shape == x.shape, f"{y.shape} samples expected {x.shape}")
    bad = (np.abs(y) != want) | ~np.any(w == y[:, None], axis=1)
    ensure(not bad.any(), lambda: f"output {np.argmax(bad)} is {y[np.argmax(bad)]}, expected an element of magnitude {want[np.argmax(bad)]}: order {order}, index {index}")
    return "long" if order and np.any(x) else ""
