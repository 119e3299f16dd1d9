"""C31: components never modify caller data and never share state."""

import copy
import sys
import threading

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.components import ALL, FIXED, apply, expand, histories
from pbt.core import arr, close, ensure, facet
from pbt.props.c20 import data as training
from pbt.props.c20 import expand as trained
from pbt.props.c20 import queries

POLYPHASE = True
ASSUMPTIONS = ["An array assigned to a property (rather than passed to a call) may be kept by reference.", "The polyphase filter bank is shared by design, and is not modified by the caller."]


# ---------------------------------------------------------------------------------------------------------------------
# Results of calls of equal size, for every size at which a buffer may begin or cease to be used.

def equal_sizes(tier):
    for n in sorted(set(gen.mined_ints(1, 3000 if tier == "quick" else 20000)) | {1, 2, 3, 5, 8, 16, 31, 32, 33, 64, 100, 127, 128, 129, 256, 500, 512, 1000, 1024, 2048}):
        for name, v in FIXED.items():
            for k in range(len(v)):
                if n > (1 if name == "PolynomialRateFilter" else 0) and (n <= 600 or not name.startswith("Poly")):
                    yield dict(comp=name, k=k, n=n)
        for kind in ("fourier", "inverse", "psd", "rows", "complex", "phases", "window", "ones", "haar"):
            yield dict(comp=kind, k=0, n=n)


def functions(kind, n):
    """A stateless operation on n samples, and the shape of its signal."""
    b = 1.0 + np.arange(n) % 3
    return dict(
        fourier=(lambda x: db.FourierTransform.transform(x, b), n), inverse=(lambda x: db.FourierTransform.transform(x, b, True), n), psd=(lambda x: db.PsdTransform.transform(x, b[: max(1, n // 2)], 1 + n // 3), n),
        rows=(lambda x: db.PsdTransform.transform(x, b[: max(1, n // 2)], 1 + n // 3, True), n), complex=(lambda x: [db.ComplexTransform.transform(x)], n), phases=(lambda x: [db.ComplexTransform.transform(x)], (3, n)),
        window=(lambda x: [db.WindowFilter("Hamming", n - 1).filter(x)], n), ones=(lambda x: [db.WindowFilter("Hann", n - 1, False).filter(np.ones(n))], n), haar=(lambda x: [db.WaveletTransform("Haar", 1).transform(x, 1)], 2 * n),
    )[kind]  # fmt: skip


@facet("C31", "sizes", cases=equal_sizes, shards=4, rule="two calls of one instance and a call of another, all of equal size, for sizes mined from the code and powers of two: earlier results stay as they are; every case is non-trivial.")
def sizes_(case):
    n, name, r = case["n"], case["comp"], np.random.RandomState(case["n"])
    if name in FIXED:
        ad, cfg = ALL[name], FIXED[name][case["k"]]
        make = lambda: (lambda obj: lambda x: ad.run(obj, x))(ad.build(cfg))  # noqa: E731
        shape, cplx = n, ad.is_complex(cfg)
    else:
        f, shape = functions(name, n)
        make, cplx = lambda: f, name in ("inverse", "complex")
    x = [r.uniform(-1.0, 1.0, shape) + (1j * r.uniform(-1.0, 1.0, shape) if cplx else 0.0) for _ in range(3)]
    given = [np.array(v) for v in x]
    one, two = make(), make()
    outs = [one(x[0]), two(x[1]), one(x[2])]
    kept = [[np.array(v) for v in o] for o in outs[:2]]
    outs.append(two(x[0]))
    for k in range(3):
        ensure(np.array_equal(x[k], given[k]), f"{name}: signal {k} of {n} samples was modified")
    solo, pair = make(), make()
    want = [[np.array(v) for v in solo(given[0])], [np.array(v) for v in pair(given[1])], [np.array(v) for v in solo(given[2])], [np.array(v) for v in pair(given[0])]]
    for k, (o, w) in enumerate(zip(outs, want)):
        for v, u in zip(o, w):
            close(v, u, f"{name}: result of call {k} of {n} samples", rtol=1e-12)
    for o, w in zip(outs, kept):
        for v, u in zip(o, w):
            ensure(np.array_equal(v, u), f"{name}: a result of {n} samples was modified by a later call")
    for o in outs[0]:
        junk(o)
    for v, u in zip(outs[2], want[2]):
        close(v, u, f"{name}: result of {n} samples after an earlier one was overwritten", rtol=1e-12)
    wanted = [np.array(v) for v in solo(given[1])]
    for o in outs[1:]:
        for v in o:
            junk(v)
    for v, u in zip(one(x[1]), wanted):
        close(v, u, f"{name}: a later result of {n} samples after earlier ones were overwritten", rtol=1e-12)
    return name


# ---------------------------------------------------------------------------------------------------------------------
# Class level tables.


def tables():
    """Copies of every public array, number and container held by a class of the package (and its base classes)."""
    db.PolyphaseRateFilter(1.0)
    out = {}
    for name in sorted(dir(db)):
        c = getattr(db, name)
        if not isinstance(c, type) or c is db.Log:
            continue
        for base in c.__mro__:
            if base.__module__.startswith("diamondback"):
                for k, v in vars(base).items():
                    if not k.startswith("_") and isinstance(v, (np.ndarray, dict, list, tuple, set, int, float, complex, str)):
                        out[(base.__name__, k)] = copy.deepcopy(v) if not (isinstance(v, dict) and any(callable(u) for u in v.values())) else dict(v)
    return out


def flat(v):
    if isinstance(v, dict):
        return [(k, u) for key in v for k, u in ((key, e) for e in flat(v[key]))]
    if isinstance(v, (list, tuple)):
        return [e for u in v for e in flat(u)]
    return [v]


def unchanged(before):
    now = tables()
    for k, v in before.items():
        ensure(k in now, f"{k[0]}.{k[1]} was removed")
        a, b = flat(v), flat(now[k])
        ok = len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
        ensure(ok, lambda: f"class level {k[0]}.{k[1]} was modified")


def _same(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_same(u, v) for u, v in zip(x, y))
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return np.array_equal(np.asarray(x), np.asarray(y))
    return x is y or x == y


# ---------------------------------------------------------------------------------------------------------------------
# Caller data.

CONTAINERS = ["", "", "list", "nplist", "fortran", "strided"]


def junk(v):
    """Overwrites caller data in place."""
    if isinstance(v, np.ndarray):
        if v.size and v.flags.writeable:
            v[...] = 77
    elif isinstance(v, list):
        for k in range(len(v)):
            if isinstance(v[k], list):
                junk(v[k])
            else:
                v[k] = 77.0


def snapshot(v):
    return np.array(v)


def intact(v, was, what):
    ensure(np.array_equal(np.asarray(v), was, equal_nan=False), lambda: f"{what} was modified")


LENGTH = st.sampled_from([30, 30, 30, 30, 30, 2100])


def strategy(name):
    ad = ALL[name]

    @st.composite
    def cases(draw):
        cfg = draw(ad.sized())
        return dict(comp=name, cfg=cfg, ops=draw(histories(ad, cfg, 2, 6, maxlen=draw(LENGTH))), how=draw(st.sampled_from(CONTAINERS)), xhow=draw(st.sampled_from(CONTAINERS + ["int"])), junk=draw(st.booleans()), spoil=draw(st.booleans()))

    return cases


def present(x, how):
    if how == "int":
        if np.iscomplexobj(x):
            return np.array(x), x
        x = np.round(x * 4.0)
        return x.astype(np.int64), x
    return gen.represent(x, how), x


def bound(x, name):
    return np.clip(x, -1.0, 1.0) if name == "ComplexExponentialFilter" and not np.iscomplexobj(x) else x


def arguments(case):
    ad = ALL[case["comp"]]
    before = tables()
    kw = ad.args(case["cfg"])
    for k, v in kw.items():
        if isinstance(v, np.ndarray):
            kw[k] = gen.represent(v, case["how"])
    held = {k: (v, snapshot(v)) for k, v in kw.items() if isinstance(v, (np.ndarray, list))}
    control, obj = ad.build(case["cfg"]), ad.make(kw)
    if "limit" in case["cfg"]:
        obj.limit = case["cfg"]["limit"]
    if case["junk"]:
        for k, (v, was) in held.items():
            intact(v, was, f"{case['comp']} argument {k}")
            junk(v)
            held[k] = (v, snapshot(v))
    passed, returned, some = [], [], False
    for n, op in enumerate(case["ops"]):
        if op[0] == "run":
            x, y = present(expand(op[1]), case["xhow"])
            x, y = bound(x, case["comp"]), bound(y, case["comp"])
            was = snapshot(x)
            outs = list(ad.run(obj, x))
            want = list(ad.run(control, np.array(y)))
            intact(x, was, f"{case['comp']} signal of operation {n}")
            if case["junk"]:
                junk(x)
                was = snapshot(x)
            passed.append((x, was, f"{case['comp']} signal of operation {n}"))
            for k, (u, w) in enumerate(zip(outs, want)):
                close(u, w, f"{case['comp']} output {k} of operation {n}", rtol=1e-9)
                if case["spoil"]:
                    junk(u)
                returned.append((u, snapshot(u), f"{case['comp']} output {k} returned by operation {n}"))
                some = some or bool(np.any(w))
        else:
            apply(ad, obj, op)
            apply(ad, control, op)
    for k, (v, was) in held.items():
        intact(v, was, f"{case['comp']} argument {k}")
    for v, was, what in passed + returned:
        intact(v, was, what)
    unchanged(before)
    return ("overwritten" if case["junk"] else "kept") if some else ""


for _name in ALL:
    _slow = _name in ("DiversityModel", "PolyphaseRateFilter")
    facet("C31", _name, strategy(_name), n=130, shards=2 if _slow else 1, rule="configuration x history x containers: arguments, signals and returned arrays stay as they are, and overwriting passed data changes nothing; non-trivial with a non-zero output.")(arguments)


# ---------------------------------------------------------------------------------------------------------------------
# Isolation.

GROUPS = [
    ["FirFilter", "DerivativeFilter", "RankFilter", "PidFilter"],
    ["IirFilter", "IntegralFilter", "GoertzelFilter"],
    ["ComplexBandpassFilter", "ComplexFrequencyFilter", "ComplexExponentialFilter"],
    ["PolyphaseRateFilter", "PolynomialRateFilter"],
    ["WindowFilter", "WaveletTransform"],
    ["DiversityModel"],
]


@st.composite
def isolation_cases(draw):
    group = draw(st.sampled_from(GROUPS))
    who = []
    for _ in range(draw(st.integers(2, 4))):
        name = draw(st.sampled_from(group[:1] + group))
        ad = ALL[name]
        cfg = draw(ad.sized()) if not who or who[0]["comp"] != name or draw(st.booleans()) else who[0]["cfg"]
        who.append(dict(comp=name, cfg=cfg, ops=draw(histories(ad, cfg, 1, 4, maxlen=draw(LENGTH)))))
    order = draw(st.lists(st.integers(0, len(who) - 1), min_size=2, max_size=12))
    return dict(who=who, order=order, poke=draw(st.integers(-1, len(who) - 1)))


def poke(obj):
    """Modifies in place the arrays which an instance exposes."""
    some = False
    for k in ("a", "b", "s"):
        if k == "b" and isinstance(obj, db.PolyphaseRateFilter):
            continue
        v = getattr(obj, k, None)
        for u in v if isinstance(v, tuple) else [v]:
            for w in u if isinstance(u, tuple) else [u]:
                if isinstance(w, np.ndarray) and w.size and w.flags.writeable:
                    w *= 3
                    w += 1
                    some = True
    return some


def solo(w):
    ad = ALL[w["comp"]]
    obj = ad.build(w["cfg"])
    return [apply(ad, obj, op) for op in w["ops"]]


@facet("C31", "isolation", isolation_cases, n=900, shards=6, rule="interleaving of operations and constructions of several instances of related classes, one of which may be altered: every instance behaves as on its own; non-trivial when operations of two instances interleave.")
def isolation(case):
    before = tables()
    who = case["who"]
    want = [solo(w) for w in who]
    objs, at, touched, last, switches = {}, [0] * len(who), False, None, 0
    remaining = [k for k in case["order"]] + [k for k in range(len(who)) for _ in who[k]["ops"]]
    for k in remaining:
        w = who[k]
        ad = ALL[w["comp"]]
        if k not in objs:
            objs[k] = ad.build(w["cfg"])
        if k == case["poke"] and at[k] >= 1 and not touched:
            touched = poke(objs[k])
        if at[k] >= len(w["ops"]):
            continue
        op = w["ops"][at[k]]
        if touched and k == case["poke"]:
            try:  # the altered instance is no longer comparable, yet may influence others
                apply(ad, objs[k], op)
            except Exception:
                pass
        else:
            got = apply(ad, objs[k], op)
            for i, (u, v) in enumerate(zip(got, want[k][at[k]])):
                close(u, v, f"{w['comp']} output {i} among other instances", rtol=1e-9)
        at[k] += 1
        switches += last not in (None, k)
        last = k
    for k, w in enumerate(who):  # a later instance
        for got, v in zip(solo(w), want[k]):
            for i, (a, b) in enumerate(zip(got, v)):
                close(a, b, f"{w['comp']} output {i} of a later instance", rtol=1e-9)
    unchanged(before)
    return ("altered" if touched else "interleaved") if switches else ""


DESIGNS = {
    "fir": lambda c: db.FirFilter(style=c["style"], frequency=c["f"], order=c["order"], count=c["count"], complement=c["complement"], gain=c["gain"]),
    "iir": lambda c: db.IirFilter(style=c["style"], frequency=c["f"], order=c["order"], count=c["count"], complement=c["complement"], gain=c["gain"]),
    "window": lambda c: db.WindowFilter(c["style"], c["order"], c["complement"]),
}


def exposed(obj):
    return [np.array(getattr(obj, k)) for k in ("a", "b", "s") if hasattr(obj, k)]


@st.composite
def designs(draw):
    out = []
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.sampled_from(sorted(DESIGNS)))
        out.append(
            dict(
                k=k,
                style=draw(st.sampled_from(["Butterworth", "Chebyshev", "Bessel"] if k == "iir" else ["Blackman", "Hamming", "Hann", "Kaiser"])),
                f=draw(st.sampled_from([0.2, 0.3, 0.5, 0.25])),
                order=draw(st.sampled_from([2, 3, 4] if k == "iir" else [24, 25, 40])),
                count=draw(st.sampled_from([1, 1, 2])),
                complement=draw(st.booleans()),
                gain=draw(st.sampled_from([1.0, 2.0, -0.5])),
            )
        )
    variants = draw(st.lists(st.tuples(st.sampled_from(["gain", "complement", "count", "f"]), st.sampled_from([0, 1])), max_size=2))
    return dict(designs=out, variants=variants, order=draw(st.permutations([0, 1])))


@facet("C31", "designed", designs, n=160, shards=4, rule="designs constructed again after an instance of the same design was altered, and after designs which differ in one argument: each is as the first; every case is non-trivial.")
def designed(case):
    base = case["designs"]
    want = [exposed(DESIGNS[c["k"]](c)) for c in base]
    for k, (c, w) in enumerate(zip(base, want)):
        poke(DESIGNS[c["k"]](c))
        for name, which in case["variants"]:
            v = dict(c)
            v[name] = dict(gain=[3.0, 0.5], complement=[not c["complement"]] * 2, count=[3, 2], f=[c["f"] + 1e-3, c["f"] - 0.05])[name][which]
            poke(DESIGNS[c["k"]](v))
    for k in [k for k in case["order"] if k < len(base)]:
        for _ in range(2):
            for u, v in zip(exposed(DESIGNS[base[k]["k"]](base[k])), want[k]):
                close(u, v, f"{base[k]['k']} designed again", rtol=1e-12)
    return base[0]["k"]


@st.composite
def thread_cases(draw):
    who = []
    for _ in range(draw(st.integers(2, 5))):
        name = draw(st.sampled_from(sorted(ALL)))
        cfg = draw(ALL[name].sized())
        who.append(dict(comp=name, cfg=cfg, ops=draw(histories(ALL[name], cfg, 1, 3, maxlen=40))))
    return dict(who=who)


@facet("C31", "threads", thread_cases, n=120, shards=4, rule="instances constructed and operated in concurrent threads behave as on their own; every case is non-trivial.")
def threads(case):
    want = [solo(w) for w in case["who"]]
    got, errors = [None] * len(want), []

    def work(k):
        try:
            with np.errstate(all="ignore"):
                got[k] = solo(case["who"][k])
        except Exception as ex:
            errors.append(f"{case['who'][k]['comp']}: {ex!r}")

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        v = [threading.Thread(target=work, args=(k,)) for k in range(len(want))]
        for t in v:
            t.start()
        for t in v:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    ensure(not errors, lambda: f"failed among threads: {errors[:2]}")
    for k, w in enumerate(case["who"]):
        for a, b in zip(got[k], want[k]):
            for i, (x, y) in enumerate(zip(a, b)):
                close(x, y, f"{w['comp']} output {i} among threads", rtol=1e-9)
    return "threads"


# ---------------------------------------------------------------------------------------------------------------------
# Transforms and models.


@st.composite
def transform_cases(draw):
    n = draw(st.sampled_from([4, 8, 12, 24]))
    return dict(
        kind=draw(st.sampled_from(["fourier", "inverse", "psd", "z", "complex", "phases", "window", "wavelet"])), n=n, x=draw(gen.fixed_signal(3 * n, False)),
        b=draw(st.sampled_from(["plain", "ends", "start", "end"])), how=draw(st.sampled_from(CONTAINERS + ["readonly"])), bhow=draw(st.sampled_from(CONTAINERS + ["readonly"])),
        c=draw(st.booleans()), flag=draw(st.booleans()), same=draw(st.booleans()),
    )  # fmt: skip


@facet("C31", "transforms", transform_cases, n=800, shards=4, rule="transform x containers: arguments stay as they are, and results do not depend on later changes of them; non-trivial when the signal is not zero.")
def transforms(case):
    before = tables()
    n, k, flag = case["n"], case["kind"], case["flag"]
    x = gen.sig(case["x"])
    v = x[:n] + (1j * x[n : 2 * n] if case["c"] and k != "wavelet" else 0.0)
    b = 1.0 + np.arange(n) % 5
    b[0] = 0.0 if case["b"] in ("ends", "start") else b[0]
    b[-1] = 0.0 if case["b"] in ("ends", "end") else b[-1]
    args = dict(
        fourier=lambda: (v, b), inverse=lambda: (v, b), psd=lambda: (v, b[: n // 2 + 1]), z=lambda: (np.array([0.0, 2.0, 6.0, 4.0]), np.array([0.0, 3.0])),
        complex=lambda: (v,), phases=lambda: (x.reshape(3, n),), window=lambda: (v,), wavelet=lambda: (x[: 2 * n].reshape(2, n) if flag else v,),
    )[k]()  # fmt: skip
    call = dict(
        fourier=lambda a, w: db.FourierTransform.transform(a, w), inverse=lambda a, w: db.FourierTransform.transform(a, w, True),
        psd=lambda a, w: db.PsdTransform.transform(a, w, 2, flag), z=lambda a, w: db.ZTransform.transform(a, w, 0.1, flag),
        complex=lambda a: db.ComplexTransform.transform(a, flag), phases=lambda a: db.ComplexTransform.transform(a, flag),
        window=lambda a: db.WindowFilter("Kaiser", n - 1).filter(a), wavelet=lambda a: db.WaveletTransform("Haar", 1).transform(a, 1, case["c"]),
    )[k]  # fmt: skip
    if k == "z" and case["same"]:
        u = gen.represent(args[0], case["how"])
        given_ = (u, u) if flag else tuple(gen.represent(a, case["how"]) for a in args)
        args = (args[0], args[0]) if flag else args
    else:
        given_ = tuple(gen.represent(a, h) for a, h in zip(args, (case["how"], case["bhow"])))
    flatten = lambda r: [np.asarray(e) for e in (r if isinstance(r, tuple) else (r,))]  # noqa: E731
    with np.errstate(all="ignore"):
        got = flatten(call(*given_))
    for i, (a, was) in enumerate(zip(given_, args)):
        ensure(np.array_equal(np.asarray(a), np.asarray(was)), f"argument {i} of {k} was modified")
    kept = [np.array(e) for e in got]
    for a in given_:
        junk(a)
    for e, was in zip(got, kept):
        ensure(np.array_equal(e, was, equal_nan=True), f"result of {k} changed with its argument")
    with np.errstate(all="ignore"):
        again = flatten(call(*[np.array(a) for a in args]))
    for e, was in zip(again, kept):
        ensure(e.shape == was.shape and np.allclose(e, was, rtol=1e-9, atol=1e-9, equal_nan=True), f"result of {k} differs when repeated")
    for e in again + got:
        junk(e)
    with np.errstate(all="ignore"):
        again = flatten(call(*[np.array(a) for a in args]))
    for e, was in zip(again, kept):
        ensure(e.shape == was.shape and np.allclose(e, was, rtol=1e-9, atol=1e-9, equal_nan=True), f"result of {k} differs after earlier results were overwritten")
    unchanged(before)
    return k if np.any(x) else ""


@st.composite
def model_cases(draw):
    d = draw(training(3, 6))
    d["reg"] = draw(st.sampled_from([0.1, 1.0]))
    d["sizes"] = [n + 3 for n in d["sizes"]]
    return dict(d=d, other=draw(training(3, 4)), mixture=draw(st.booleans()), q=draw(st.integers(0, 999)), how=draw(st.sampled_from(["", "fortran", "strided", "readonly"])))


@facet("C31", "models", model_cases, n=240, shards=4, rule="Gaussian models: training data and queries stay as they are, later changes of them and other instances change nothing; non-trivial with two classes or more.")
def models(case):
    before = tables()
    d, o = case["d"], dict(case["other"], reg=1.0)
    o["sizes"] = [n + 3 for n in o["sizes"]]
    make = lambda e: db.GaussianMixtureModel(1, 20, e["reg"]) if case["mixture"] else db.GaussianModel(e["reg"])  # noqa: E731
    x, y = trained(d)
    u, v = trained(o)
    q, r = queries(d, x, case["q"]), queries(o, u, case["q"])
    m, other = make(d), make(o)
    gx, gy, gq = gen.represent(x, case["how"]), y.copy(), gen.represent(q, case["how"])
    m.fit(gx, gy)
    ensure(np.array_equal(gx, x) and np.array_equal(gy, y), "fit modified its arguments")
    want = np.array(arr(m.predict(gq)))
    ensure(np.array_equal(gq, q), "predict modified its argument")
    junk(gx)
    junk(gy)
    close(m.predict(q), want, "predictions after the training data was overwritten", rtol=0.0)
    other.fit(u, v)
    theirs = np.array(arr(other.predict(r)))
    close(m.predict(q), want, "predictions after another instance was fitted", rtol=0.0)
    m.fit(x * 2.0, y)
    close(other.predict(r), theirs, "predictions of another instance after fit", rtol=0.0)
    m.regularize = 7.0
    ensure(other.regularize == 1.0, "regularize is shared")
    unchanged(before)
    return "mixture" if case["mixture"] else "gaussian" if len(d["sizes"]) > 1 else ""


@st.composite
def client_cases(draw):
    u = st.sampled_from(["http://a", "http://b/c/", "https://d:1/"])
    return dict(first=draw(u), second=draw(u), proxy=draw(st.sampled_from([{}, {"http": "http://p:1"}])), timeout=draw(st.sampled_from([1.0, [1.0, 2.0]])))


@facet("C31", "clients", client_cases, n=40, rule="REST clients do not share configuration; every case is non-trivial.")
def clients(case):
    default = db.RestClient()
    was = (default.url, dict(default.proxy), default.timeout)
    a, b = db.RestClient(), db.RestClient()
    a.url, b.url = case["first"], case["second"]
    a.proxy["http"] = "http://q:2"
    b.timeout = case["timeout"]
    b.proxy = case["proxy"]
    c = db.RestClient()
    for v, what in ((default, "an earlier client"), (c, "a later client")):
        ensure((v.url, dict(v.proxy), v.timeout) == was, lambda: f"{what} has {(v.url, v.proxy, v.timeout)} expected {was}")
    ensure(a.url == case["first"].strip("/") and b.url == case["second"].strip("/"), "url")
    return "clients"
