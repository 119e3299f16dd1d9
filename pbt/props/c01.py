"""C01: FIR difference equation."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt.core import close, ensure, facet
from pbt.gen import chunkings, chunks, coef, coefs, sig, signals

ASSUMPTIONS = ["The signal and initial state are of the coefficient kind: a complex signal is filtered by complex coefficients."]


@st.composite
def cases(draw, big=False):
    c = draw(st.booleans())
    case = dict(b=draw(coefs(1, 12, c, 300 if big else 60, shapes=4)), x=draw(signals(200 if big else 1, 20000 if big else 160, draw(st.booleans()) if c else False, kinds=gen.KINDS + gen.WIDE)))
    k = draw(st.integers(0, 3))
    if k == 1:
        case["s"] = draw(coefs(1, 12, c, 60))
    if big or draw(st.booleans()):
        case["cuts"] = draw(chunkings(case["x"]["n"]))
    if not c and draw(st.booleans()):
        case["how"] = draw(st.sampled_from(["int", "intlist", "list"]))
    return case


def run(case):
    b, x = coef(case["b"]), sig(case["x"])
    s = coef(case["s"]) if "s" in case else None
    how = case.get("how", "")
    if how.startswith("int"):
        b = np.round(b.real * 3.0)
    ba = gen.represent(b, how)
    f = db.FirFilter(b=ba) if s is None else db.FirFilter(b=ba, s=np.array(s))
    got = [f.filter(v) for v in (chunks(x, case["cuts"]) if "cuts" in case else [x])]
    ensure(all(len(g) == len(v) for g, v in zip(got, chunks(x, case["cuts"]) if "cuts" in case else [x])), "output length differs from input length")
    want, m = refs.fir(b, x, s)
    close(np.concatenate(got), want, "FirFilter.filter", rtol=1e-12, scale=m + 0.0, atol=1e-300)
    if not np.any(want):
        return ""
    return ("complex" if np.iscomplexobj(b) else "real") + (" state" if s is not None else "") + (" calls" if "cuts" in case else "") + (
        " int" if how.startswith("int") else ""
    )


RULE = "coefficients x initial state x signal x partition; non-trivial when the expected output is not identically zero."


@facet("C01", "equation", lambda: cases(), n=2400, shards=4, rule=RULE)
def equation(case):
    return run(case)


@facet("C01", "long", lambda: cases(big=True), n=240, shards=4, rule="as equation, orders to 300 and signals to 20000 samples, and some to 140000.")
def long(case):
    return run(case)


@st.composite
def assigned(draw):
    c = draw(st.booleans())
    n = draw(st.integers(1, 10))
    return dict(n=n, c=c, b=[draw(coefs(n, n, c, n)) for _ in range(3)], s=draw(coefs(n, n, c, n)), x=[draw(signals(1, 40, c)) for _ in range(3)], inplace=draw(st.booleans()), copy=draw(st.booleans()))


@facet("C01", "assigned", assigned, n=600, shards=1, rule="b and s assigned, or changed in place, between calls (same length), or the filter continued by another constructed with its b and s; the equation holds with the new values.")
def assigned_(case):
    f = db.FirFilter(b=coef(case["b"][0]))
    hist = np.zeros(case["n"], complex)
    for k in range(3):
        b = coef(case["b"][k])
        if k and case["inplace"]:
            f.b[:] = b
        elif k:
            f.b = b
        if k == 2 and case["inplace"]:
            f.s[:] = coef(case["s"])
        elif k == 2:
            f.s = coef(case["s"])
        if k and case["copy"]:
            f = db.FirFilter(b=f.b, s=f.s)
        if k == 2:
            hist = coef(case["s"]).astype(complex)
        x = sig(case["x"][k])
        want, m = refs.fir(b, x, hist)
        if not case["c"]:
            want = want.real
        close(f.filter(x), want, f"filter after assignment {k}", rtol=1e-12, scale=m, atol=1e-300)
        hist = np.concatenate((x[::-1], hist))[: case["n"]]
        ensure(np.allclose(f.b, b), "b does not read back the assigned coefficients")
    return "assigned"


@st.composite
def sized(draw, n):
    return dict(n=n)


def enumerated(tier):
    out = []
    top = 130 if tier == "quick" else 400
    for n in sorted(set(range(1, 41)) | set(gen.mined_ints(1, top)) | {63, 64, 65, 127, 128, 129}):
        for m in (0, 1, n - 1, n, n + 1, n + 7):
            if m >= 0:
                out.append(dict(b=dict(n=n, s=n, c=False, z=0), **(dict(s=dict(n=m, s=m, c=False, z=0)) if m else {}), x=dict(n=n + 9, c=False, re=dict(k="noise", s=n))))
    return out


@facet("C01", "orders", cases=enumerated, shards=1, rule="every order to 40 and mined boundaries, with initial states shorter, equal and longer.")
def orders_(case):
    return run(case)
