"""C30: a component restored by Serial continues exactly as the original."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.components import ALL, apply, expand, histories
from pbt.core import arr, close, ensure, facet
from pbt.other import resume
from pbt.props.c20 import data as training
from pbt.props.c20 import expand as trained
from pbt.props.c20 import queries

POLYPHASE = True
ASSUMPTIONS = ["The string is decoded by the code which encoded it."]


def observe(ad, obj):
    out = []
    for k, v in sorted(ad.props(obj).items()):
        out.append((k, np.array(v)))
    return out


def agree(got, want, what):
    ensure(len(got) == len(want), f"{what}: {len(got)} outputs expected {len(want)}")
    for k, (g, w) in enumerate(zip(got, want)):
        close(g, w, f"{what} output {k}", rtol=1e-12)


def strategy(name):
    ad = ALL[name]

    @st.composite
    def cases(draw):
        cfg = draw(ad.sized())
        return dict(
            comp=name, cfg=cfg, pre=draw(histories(ad, cfg, 0, 4, maxlen=draw(st.sampled_from([40, 40, 40, 40, 40, 2100])))), post=draw(histories(ad, cfg, 1, 4, maxlen=draw(st.sampled_from([40, 40, 40, 40, 40, 2100])))),
            compress=draw(st.booleans()), first=draw(st.sampled_from(["original", "restored", "alternate"])), again=draw(st.booleans()),
        )  # fmt: skip

    return cases


def check(case):
    ad = ALL[case["comp"]]
    model, original = ad.build(case["cfg"]), ad.build(case["cfg"])
    for op in case["pre"]:
        agree(apply(ad, original, op), apply(ad, model, op), "original before the checkpoint")
    y = db.Serial.encode(original, case["compress"])
    ensure(type(y) is str, "the checkpoint is not a string")
    restored = db.Serial.decode(y)
    ensure(type(restored) is type(original), lambda: f"restored {type(restored)}")
    ensure(restored is not original, "the original was returned")
    for (k, u), (_, v) in zip(observe(ad, restored), observe(ad, original)):
        close(u, v, f"property {k} of the restored {case['comp']}", rtol=0.0)
    want = [apply(ad, model, op) for op in case["post"]]
    if case["first"] == "alternate":
        for op, w in zip(case["post"], want):
            agree(apply(ad, original, op), w, f"{case['comp']} original alternating with the restored")
            agree(apply(ad, restored, op), w, f"{case['comp']} restored alternating with the original")
    else:
        pair = [(original, "original"), (restored, "restored")]
        for obj, what in pair if case["first"] == "original" else pair[::-1]:
            for op, w in zip(case["post"], want):
                agree(apply(ad, obj, op), w, f"{case['comp']} {what}")
    if case["again"]:  # the string is a snapshot: decoding it again restarts from the checkpoint, after any step of another copy
        again = db.Serial.decode(y)
        for op, w in zip(case["post"], want):
            again = db.Serial.decode(db.Serial.encode(again, not case["compress"]))
            agree(apply(ad, again, op), w, f"{case['comp']} restored before every operation")
    return "fresh" if not case["pre"] else "history" if any(np.any(v) for w in want for v in w) else ""


for _name, _ad in ALL.items():
    _slow = _name in ("DiversityModel", "PolyphaseRateFilter")
    facet("C30", _name, strategy(_name), n=160, shards=2 if _slow else 1, rule="configuration x history before x history after the checkpoint x compression x order of operation; non-trivial with a non-zero output.")(check)


def migrating():
    @st.composite
    def cases(draw):
        name = draw(st.sampled_from(sorted(ALL) + ["PolyphaseRateFilter"]))
        cfg = draw(ALL[name].sized())
        return dict(comp=name, cfg=cfg, pre=draw(histories(ALL[name], cfg, 0, 3, maxlen=draw(st.sampled_from([40, 40, 40, 40, 40, 2100])))), post=draw(histories(ALL[name], cfg, 1, 3, maxlen=draw(st.sampled_from([40, 40, 40, 40, 40, 2100])))), compress=draw(st.booleans()))

    return cases()


@facet("C30", "process", migrating, n=160, shards=3, rule="a checkpoint of any component, continued in another process which has imported the package and constructed nothing; non-trivial with a non-zero output.")
def process(case):
    ad = ALL[case["comp"]]
    obj = ad.build(case["cfg"])
    for op in case["pre"]:
        apply(ad, obj, op)
    y = db.Serial.encode(obj, case["compress"])
    want = [apply(ad, obj, op) for op in case["post"]]
    for w, g in zip(want, resume(case["comp"], y, case["post"])):
        agree(g, w, f"{case['comp']} restored in another process")
    return case["comp"] if any(np.any(v) for w in want for v in w) else ""


@st.composite
def designed(draw):
    k = draw(st.sampled_from(["fir", "iir", "fir", "iir", "iir", "fir"]))
    f = draw(st.sampled_from([0.1, 0.2, 0.3]))
    style = draw(st.sampled_from(["Blackman", "Hamming", "Hann", "Kaiser"] if k == "fir" else ["Butterworth", "Chebyshev"]))
    order = draw(st.sampled_from([20, 31, 50] if k == "fir" else [2, 3, 4]))
    return dict(k=k, style=style, f=f, order=order, x=draw(gen.signals(1, 60, False, scales=(1.0,))), z=draw(gen.signals(1, 60, False, scales=(1.0,))), reset=draw(st.one_of(st.none(), gen.values())))


@facet("C30", "designed", designed, n=60, shards=2, rule="designed filters; every case is non-trivial.")
def designed_(case):
    f = (db.FirFilter if case["k"] == "fir" else db.IirFilter)(style=case["style"], frequency=case["f"], order=case["order"])
    f.filter(expand(case["x"]))
    if case["reset"] is not None:
        f.reset(case["reset"])
    g = db.Serial.decode(db.Serial.encode(f))
    z = expand(case["z"])
    close(g.filter(z), arr(f.filter(z)), "restored output", rtol=1e-12)
    for name in ("response", "delay", "roots"):
        for u, v in zip(getattr(g, name)(), getattr(f, name)()):
            close(u, np.asarray(v), f"restored {name}", rtol=1e-12)
    return case["k"]


@st.composite
def models(draw):
    d = draw(training(4, 8))
    d["reg"] = draw(st.sampled_from([0.1, 1.0, 0.01]))
    d["sizes"] = [n + 4 for n in d["sizes"]]
    return dict(d=d, mixture=draw(st.booleans()), order=draw(st.integers(1, 2)), q=draw(st.integers(0, 999)), compress=draw(st.booleans()), refit=draw(st.booleans()), early=draw(st.booleans()), index=draw(st.sampled_from([1, 2, 3, 9, 50, 100])))


@facet("C30", "models", models, n=160, shards=4, rule="Gaussian and Gaussian mixture models after fit; non-trivial with two classes or more.")
def models_(case):
    d = case["d"]
    x, y = trained(d)
    q = queries(d, x, case["q"])
    m = db.GaussianMixtureModel(case["order"], case["index"], d["reg"]) if case["mixture"] else db.GaussianModel(d["reg"])
    if case["early"]:  # a checkpoint before any fit
        m = db.Serial.decode(db.Serial.encode(m, case["compress"]))
        ensure(m.regularize == d["reg"] and (not case["mixture"] or (m.order, m.index) == (case["order"], case["index"])), "properties of the model restored before fit")
    np.random.seed(case["q"])
    m.fit(x, y)
    r = db.Serial.decode(db.Serial.encode(m, case["compress"]))
    ensure(type(r) is type(m), "type")
    want = arr(m.predict(q))
    close(r.predict(q), want, "predictions of the restored model", rtol=0.0)
    ensure((r.regularize, tuple(r.shape)) == (m.regularize, tuple(m.shape)), "properties of the restored model")
    if case["mixture"]:
        ensure((r.order, r.index) == (m.order, m.index), "properties of the restored model")
    if case["refit"]:
        for v in (m, r):  # the same randomness, so that both are the same model again
            np.random.seed(case["q"] + 1)
            v.fit(x * 0.5, y)
        want = arr(m.predict(q))
        close(r.predict(q), want, "predictions of the restored model after both were fitted alike", rtol=0.0)
        r.fit(x + 100.0, y[::-1])
        r.regularize = 5.0
        close(m.predict(q), want, "predictions of the original after the restored was fitted again", rtol=0.0)
        ensure(m.regularize == d["reg"], "regularize of the original")
    return f"{'mixture' if case['mixture'] else 'gaussian'}" if len(d["sizes"]) > 1 else ""


@st.composite
def clients(draw):
    return dict(url=draw(st.sampled_from(["http://a.b/c", "https://127.0.0.1:9", "http://h/"])), timeout=draw(st.sampled_from([None, 1.5, [2.0, 3.0]])), proxy=draw(st.sampled_from([{}, {"http": "http://p:1"}])))


@facet("C30", "client", clients, n=20, rule="REST client configuration; every case is non-trivial.")
def client(case):
    c = db.RestClient()
    c.url, c.timeout, c.proxy = case["url"], case["timeout"], case["proxy"]
    r = db.Serial.decode(db.Serial.encode(c))
    ensure((r.url, r.timeout, r.proxy) == (c.url, c.timeout, c.proxy), lambda: f"restored {(r.url, r.timeout, r.proxy)}")
    r.url = "http://other"
    ensure(c.url == case["url"].strip("/"), "the original changed")
    return "client"
