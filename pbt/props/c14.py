"""C14: Goertzel filter against the direct sum."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import close, ensure, facet
from pbt.gen import coef

ASSUMPTIONS = ["A stream is real or complex throughout.", "The value of a block during which the frequency is changed is not compared."]


@st.composite
def windows(draw, hi=160):
    k = draw(st.integers(0, 3))
    if k == 0:
        n = draw(st.integers(1, 9))
        return dict(v=draw(st.lists(st.sampled_from([1.0, 0.5, 2.0, -1.0, 0.25, 0.0]), min_size=n, max_size=n).filter(any)), c=False)
    if k == 1:
        return dict(style=draw(st.sampled_from(["Blackman", "Hamming", "Hann", "Kaiser"])), order=draw(gen.lengths(2, hi)))
    if k == 2:
        return dict(ones=draw(gen.lengths(1, hi)))
    return dict(n=draw(gen.lengths(1, hi)), s=draw(st.integers(0, 9999)), c=False, z=0)


def expand(w):
    if "ones" in w:
        return np.ones(w["ones"])
    if "style" in w:
        return db.WindowFilter(w["style"], w["order"]).b
    return coef(w)


def size(w):
    return w["ones"] if "ones" in w else w["order"] + 1 if "style" in w else w["n"] if "n" in w else len(w["v"])


@st.composite
def cases(draw, hi=160):
    w = draw(windows(hi))
    n = size(w)
    c = draw(st.booleans())
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        if draw(st.integers(0, 4)) == 0:
            ops.append(["frequency", draw(gen.reals(-1.0, 1.0))])
        else:
            m = draw(st.one_of(st.just(n), st.integers(1, 2 * n + 3), st.integers(1, 9)))
            ops.append(["run", draw(gen.fixed_signal(m, c, scales=gen.SCALES)), draw(st.sampled_from(["", "", "list", "int", "f4", "strided"]))])
    return dict(w=w, f=draw(st.one_of(gen.reals(-1.0, 1.0), st.integers(-n, n).map(lambda k: k / n))), c=c, ops=ops, how=draw(st.sampled_from(["", "list", "tuple"])))


def present(x, how):
    if how == "int" and not np.iscomplexobj(x) and np.abs(x).max() < 2.0**60:
        x = np.round(x * 4.0)
        return x.astype(np.int64), x
    if how == "f4":
        x = x.astype(np.complex64 if np.iscomplexobj(x) else np.float32)
        return x, x.astype(complex if np.iscomplexobj(x) else float)
    if how == "list" and np.iscomplexobj(x):
        return list(x), x
    return gen.represent(x, "" if how == "int" else how), x


@facet("C14", "bin", cases, n=1500, shards=6, rule="window x frequency x history of calls and frequency changes; non-trivial when a complete block has a non-zero value.")
def bin_(case):
    w = np.array(expand(case["w"]), float)
    N, f = len(w), db.GoertzelFilter(b=gen.represent(w, case["how"]), frequency=case["f"])
    freq, queue, mixed, some = case["f"], [], False, 0
    gain = 1.0 if case["c"] else 2.0
    n = np.arange(N)
    for op in case["ops"]:
        if op[0] == "frequency":
            f.frequency = freq = op[1]
            ensure(f.frequency == op[1], f"frequency reads {f.frequency} after assignment of {op[1]}")
            mixed = bool(queue)
            continue
        v, x = present(gen.sig(op[1]), op[2])
        rtol = 1e-6 if op[2] == "f4" else 1e-14 * (10 + N) ** 2
        y = f.filter(v)
        queue += list(x)
        want, skip = [], []
        while len(queue) >= N:
            block, queue = np.array(queue[:N]), queue[N:]
            want.append(gain / N * np.exp(1j * np.pi * freq * (N - 1)) * np.sum(w * block * np.exp(-1j * np.pi * freq * n)))
            skip.append((mixed, np.abs(w * block).sum() * gain / N))
            mixed = False
        ensure(np.asarray(y).shape == (len(want),), lambda: f"{np.asarray(y).shape} outputs expected {len(want)} complete blocks")
        for k, (g, u) in enumerate(zip(y, want)):
            if not skip[k][0]:
                close(g, u, f"block {k} of window length {N}, frequency {freq}", rtol=rtol, scale=skip[k][1], atol=1e-300)
                some += bool(u)
    return ("complex" if case["c"] else "real") + (" blocks" if some > 1 else "") if some else ""


def enumerated(tier):
    out = []
    for N in list(range(1, 34)) + [64, 100, 128]:
        for k in sorted({0, 1, N // 2, N - 1}):
            out.append(dict(N=N, k=k, c=bool((N + k) & 1)))
    return out


@facet("C14", "dft", cases=enumerated, shards=2, rule="unit windows of every length to 33 at DFT bins against numpy.fft, three blocks; every case is non-trivial.")
def dft(case):
    N, k = case["N"], case["k"]
    r = np.random.RandomState(N * 100 + k)
    x = r.uniform(-1, 1, 3 * N) + (1j * r.uniform(-1, 1, 3 * N) if case["c"] else 0.0)
    fr = 2.0 * k / N
    fr = fr if fr <= 1.0 else fr - 2.0
    y = db.GoertzelFilter(np.ones(N), fr).filter(x)
    want = [np.fft.fft(x[i * N : (i + 1) * N])[k % N] / N * np.exp(1j * np.pi * fr * (N - 1)) * (1.0 if case["c"] else 2.0) for i in range(3)]
    close(y, np.array(want), f"unit window of length {N} at bin {k}", rtol=1e-13 * (10 + N) ** 2, scale=2.0)
    return "dft"


@st.composite
def streams(draw):
    return dict(draw(gen.streams(complex_=None)), n=draw(st.one_of(gen.sizes(100, 5000), gen.lengths(1, 200))), s=draw(st.one_of(st.none(), st.integers(0, 9999))), f=draw(gen.reals(-1.0, 1.0)))


@facet("C14", "long", streams, n=50, shards=4, rule="windows to 5000 samples and signals to 20000 samples, and some to 140000; non-trivial when a complete block has a non-zero value.")
def long(case):
    N, x, fr = case["n"], gen.sig(case["x"]), case["f"]
    w = np.ones(N) if case["s"] is None else np.random.RandomState(case["s"]).uniform(-1.0, 1.0, N)
    f = db.GoertzelFilter(w, fr)
    y = np.concatenate([np.asarray(f.filter(v)) for v in gen.chunks(x, case["cuts"])])
    k = len(x) // N
    ensure(y.shape == (k,), lambda: f"{y.shape} outputs expected {k} complete blocks of {N} of {len(x)} samples")
    if not k:
        return ""
    v = x[: k * N].reshape(k, N) * w
    want = v @ np.exp(-1j * np.pi * fr * np.arange(N)) * np.exp(1j * np.pi * fr * (N - 1)) / N * (1.0 if case["x"]["c"] else 2.0)
    close(y, want, f"blocks of {N} samples at frequency {fr}", rtol=1e-14 * (10 + N) ** 2, scale=2.0 * np.abs(v).mean(1), atol=1e-300)
    return "long" if np.any(want) else ""
