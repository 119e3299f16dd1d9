"""C03: streaming.  One call and any partition into calls agree."""

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.components import ALL, FIXED, apply, expand, histories
from pbt.core import close, ensure, facet
from pbt.gen import chunkings, pieces

POLYPHASE = True
ASSUMPTIONS = [
    "The complex bandpass and complex frequency filters are given complex signals (the analytic signal of a real signal depends on the whole call).",
    "Recursive filters are generated with poles inside the unit circle.",
]


def strategy(name, hi, lo=3):
    ad = ALL[name]

    @st.composite
    def cases(draw):
        cfg = draw(ad.sized())
        x = draw(ad.signals(cfg, lo, hi))
        return dict(
            comp=name,
            cfg=cfg,
            pre=draw(histories(ad, cfg, 0, 2, maxlen=20)),
            x=x,
            cuts=draw(chunkings(x.get("rows", x["n"]))),
            post=draw(ad.signals(cfg, 1, 12)),
        )

    return cases


def run(case):
    ad = ALL[case["comp"]]
    one, many = ad.build(case["cfg"]), ad.build(case["cfg"])
    for op in case["pre"]:
        apply(ad, one, op)
        apply(ad, many, op)
    x = expand(case["x"])
    whole = ad.run(one, x)
    whole = [np.array(v) for v in whole]
    parts = pieces(len(x), case["cuts"])
    rtol = 1e-9 + (1e-16 * len(x) ** 2 if case["comp"].startswith(("ComplexB", "ComplexE")) else 0.0)  # rounding of an accumulated phase
    outs = [[np.array(v) for v in ad.run(many, x[u:v])] for u, v in parts]
    z = expand(case["post"])
    scale = max([1e-300] + [float(np.abs(v[np.isfinite(v)]).max(initial=0.0)) for v in [x, z, *whole]])  # terms of this magnitude cancel in the outputs
    for k, (w, p) in enumerate(zip(whole, ad.join(outs))):
        close(p, w, f"{case['comp']} output {k} of {len(parts)} calls against one call", rtol=rtol, scale=scale)
    for k, (w, p) in enumerate(zip(ad.run(one, z), ad.run(many, z))):
        close(p, w, f"{case['comp']} output {k} following {len(parts)} calls against one call", rtol=rtol, scale=scale)
    if len(parts) < 2 or not any(np.any(w) for w in whole):
        return ""
    return "singles" if max(case["cuts"]) == 1 else "calls"


for _name, _ad in ALL.items():
    if _ad.chunkable:
        _slow = _name in ("DiversityModel", "PolyphaseRateFilter")
        facet("C03", _name, strategy(_name, _ad.max_len), n=420, shards=2 if _slow else 1, rule="configuration x earlier operations x signal x partition; non-trivial with two or more calls and a non-zero output.")(run)
        if _name != "DiversityModel":
            facet("C03", _name + "-long", strategy(_name, 300 if _slow else 20000, 150 if not _slow else 64), n=24, shards=1, rule="signals to 20000 samples, and some to 140000 (300 for the slow components).")(run)


def boundaries(tier):
    for name, v in FIXED.items():
        if ALL[name].chunkable:
            more = [dict(rate=r) for r in (1.0, 0.5, 2.0)] if name == "PolyphaseRateFilter" else [dict(c, o=o) for c in v for o in (1, 3, 4)] if name == "IntegralFilter" else []
            for cfg in v + more:
                for gap in (1, 2, 3, 7, 14, 15, 16, 31, 40, 64):
                    yield dict(comp=name, cfg=cfg, gap=gap)


@facet("C03", "rests", cases=boundaries, shards=3, rule="an impulse 0 to 33 samples before the end of a call, a call of zeros, and a further impulse, against one call; every case is non-trivial.")
def rests(case):
    ad, gap = ALL[case["comp"]], case["gap"]
    a = 0.5 - 0.25j if ad.is_complex(case["cfg"]) else 0.5
    for d in range(34):
        x = np.zeros(34 + gap + 18, complex if ad.is_complex(case["cfg"]) else float)
        x[33 - d], x[34 + gap + 2] = a, a
        one, many = ad.build(case["cfg"]), ad.build(case["cfg"])
        whole = [np.array(v) for v in ad.run(one, x)]
        outs = [[np.array(v) for v in ad.run(many, v)] for v in (x[:34], x[34 : 34 + gap], x[34 + gap :])]
        for k, (w, p) in enumerate(zip(whole, ad.join(outs))):
            close(p, w, f"{case['comp']} output {k} with an impulse {d} samples before the end of a call, and a call of {gap} zeros", rtol=1e-9, scale=max(1e-300, np.abs(w).max(initial=0.0)))
    return case["comp"]
