"""Adapters which give every stateful component of diamondback the same shape, so that properties about histories (streaming,
checkpointing, isolation, representation, rejected operations) are stated once and generated for all of them.

A configuration is a JSON-able dictionary; build(cfg) constructs the component from a fresh copy of its arguments."""

import diamondback as db
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.gen import coef, coefs, reals, sig


class Adapter:
    name = ""
    complex_ok = False  # accepts complex signals (possibly depending on the configuration)
    real_ok = True
    resettable = False
    chunkable = True
    max_len = 240
    most = 2100  # in histories which ask for long signals
    setters: dict = {}

    def config(self):
        raise NotImplementedError

    def large(self):
        """As config, with orders which are far larger."""
        return self.config()

    def sized(self):
        """A configuration, one in six large."""
        return st.integers(0, 5).flatmap(lambda k: self.large() if k == 3 else self.config())

    def args(self, cfg):
        """Keyword arguments; arrays are fresh."""
        raise NotImplementedError

    def make(self, kw):
        raise NotImplementedError

    def build(self, cfg):
        return self.make(self.args(cfg))

    def is_complex(self, cfg):
        return self.complex_ok

    def signals(self, cfg, lo=1, hi=None):
        return gen.signals(lo, hi or self.max_len, self.is_complex(cfg), scales=(1.0,))

    def run(self, obj, x):
        return [obj.filter(x)]

    def join(self, outs):
        """Outputs of consecutive calls as the outputs of one call."""
        return [np.concatenate(v) for v in zip(*outs)]

    def resets(self, cfg):
        return gen.values()

    def reset(self, obj, v):
        obj.reset(gen.cx(v))

    def props(self, obj):
        """Observable properties."""
        return {}


class Fir(Adapter):
    name, resettable = "FirFilter", True

    def config(self):
        return st.booleans().flatmap(
            lambda c: st.fixed_dictionaries(
                dict(b=coefs(1, 9, c, 40)), optional=dict(s=coefs(1, 9, c, 44))
            )
        )

    def large(self):
        return st.booleans().flatmap(lambda c: st.fixed_dictionaries(dict(b=coefs(41, 60, c, 600)), optional=dict(s=coefs(41, 60, c, 700))))

    def is_complex(self, cfg):
        return bool(cfg["b"]["c"])

    def args(self, cfg):
        kw = dict(b=coef(cfg["b"]))
        if "s" in cfg:
            kw["s"] = coef(cfg["s"])
        return kw

    def make(self, kw):
        return db.FirFilter(**kw)

    def resets(self, cfg):
        return gen.cvalues() if self.is_complex(cfg) else gen.values()

    def props(self, obj):
        return dict(b=obj.b, s=obj.s)


@st.composite
def stable_a(draw, complex_=False):
    """Recursive coefficients from poles inside the unit circle."""
    n = draw(st.integers(1, 4))
    return dict(
        p=[[draw(st.integers(0, 19)) / 20.0, draw(st.integers(0, 16)) / 16.0] for _ in range(n)],
        c=complex_,
        pad=draw(st.integers(0, 2)),
    )


def acoef(spec):
    """[0, a1, ...] such that 1 - sum a_i z^-i has the given poles."""
    if "v" in spec or "n" in spec:
        return np.concatenate(([0.0], coef(spec)))
    poly = np.ones(1, complex)
    for r, t in spec["p"]:
        z = r * np.exp(1j * np.pi * t)
        poly = np.convolve(poly, [1.0, -z])
        if not spec["c"]:
            poly = np.convolve(poly, [1.0, -np.conj(z)]) if 0.0 < t < 1.0 else poly
    a = -poly if spec["c"] else -poly.real
    a[0] = 0.0
    return np.concatenate((a, np.zeros(spec["pad"])))


class Iir(Adapter):
    name, resettable = "IirFilter", True

    def config(self):
        return st.booleans().flatmap(
            lambda c: st.fixed_dictionaries(dict(a=stable_a(c), b=coefs(1, 6, c, 16)))
        )

    def large(self):
        return st.booleans().flatmap(lambda c: st.fixed_dictionaries(dict(a=stable_a(c), b=coefs(17, 60, c, 150))))

    def is_complex(self, cfg):
        return bool(cfg["b"]["c"] or cfg["a"]["c"])

    def args(self, cfg):
        return dict(a=acoef(cfg["a"]), b=coef(cfg["b"]))

    def make(self, kw):
        return db.IirFilter(**kw)

    def reset(self, obj, v):
        with np.errstate(all="ignore"):
            obj.reset(gen.cx(v))
        if not np.all(np.isfinite(obj.s)):
            obj.s[:] = 0.0  # the reset of a filter without direct gain in its state is undefined

    def props(self, obj):
        return dict(a=obj.a, b=obj.b, s=obj.s)


class Derivative(Adapter):
    name, resettable = "DerivativeFilter", True
    PAIRS = ((1, 1), (1, 2), (1, 4), (2, 2), (2, 4), (2, 6), (2, 8), (3, 4), (3, 6), (3, 8))

    def config(self):
        return st.sampled_from(self.PAIRS).map(lambda p: dict(d=p[0], o=p[1]))

    def args(self, cfg):
        return dict(derivative=cfg["d"], order=cfg["o"])

    def make(self, kw):
        return db.DerivativeFilter(**kw)

    def props(self, obj):
        return dict(b=obj.b, s=obj.s)


class Integral(Adapter):
    name = "IntegralFilter"

    def config(self):
        return st.integers(0, 4).map(lambda o: dict(o=o))

    def args(self, cfg):
        return dict(order=cfg["o"])

    def make(self, kw):
        return db.IntegralFilter(**kw)

    def props(self, obj):
        return dict(a=obj.a, b=obj.b, s=obj.s)


class Pid(Adapter):
    name = "PidFilter"

    def config(self):
        return st.fixed_dictionaries(
            dict(b=st.lists(gen.values(), min_size=3, max_size=3)),
            optional=dict(limit=st.one_of(st.sampled_from([0.0, 0.5, 1.0, 2.0, 5.0]), st.floats(0.0, 20.0))),
        )

    def args(self, cfg):
        return dict(b=np.array(cfg["b"], float))

    def make(self, kw):
        return db.PidFilter(**kw)

    def build(self, cfg):
        obj = self.make(self.args(cfg))
        if "limit" in cfg:
            obj.limit = cfg["limit"]
        return obj

    setters = dict(limit=lambda: st.one_of(st.sampled_from([0.0, 0.5, 1.0, 3.0]), st.floats(0.0, 20.0)))

    def props(self, obj):
        return dict(b=obj.b, limit=obj.limit)


class CExponential(Adapter):
    name = "ComplexExponentialFilter"

    def config(self):
        return reals(-1.0, 1.0).map(lambda p: dict(phase=p))

    def args(self, cfg):
        return dict(phase=cfg["phase"])

    def make(self, kw):
        return db.ComplexExponentialFilter(**kw)

    def signals(self, cfg, lo=1, hi=None):
        return gen.signals(lo, hi or self.max_len, False, scales=(1.0,), kinds=("noise", "tone", "sparse"))

    setters = dict(phase=lambda: reals(-1.0, 1.0))

    def props(self, obj):
        return dict(phase=obj.phase)


class _Adaptive(Adapter):
    complex_ok, resettable = True, True
    real_ok = False

    def config(self):
        return st.fixed_dictionaries(dict(frequency=reals(-1.0, 1.0), rate=reals(0.0, 1.0)))

    def args(self, cfg):
        return dict(frequency=cfg["frequency"], rate=cfg["rate"])

    def run(self, obj, x):
        return list(obj.filter(x))

    def resets(self, cfg):
        return gen.cvalues()

    def reset(self, obj, v):
        obj.reset(complex(*v) if isinstance(v, (list, tuple)) else complex(v))

    setters = dict(frequency=lambda: reals(-1.0, 1.0), rate=lambda: reals(0.0, 1.0))

    def props(self, obj):
        return dict(frequency=obj.frequency, rate=obj.rate, b=obj.b)


class CBandpass(_Adaptive):
    name = "ComplexBandpassFilter"

    def make(self, kw):
        return db.ComplexBandpassFilter(**kw)


class CFrequency(_Adaptive):
    name = "ComplexFrequencyFilter"

    def make(self, kw):
        return db.ComplexFrequencyFilter(**kw)


class Goertzel(Adapter):
    name = "GoertzelFilter"

    def config(self):
        return st.fixed_dictionaries(
            dict(
                b=st.one_of(
                    st.lists(st.sampled_from([1.0, 0.5, 2.0, -1.0, 0.25]), min_size=1, max_size=9).map(lambda v: dict(v=v, c=False)),
                    st.tuples(st.integers(1, 64), st.integers(0, 999)).map(lambda t: dict(n=t[0], s=t[1], c=False, z=0)),
                ),
                frequency=reals(-1.0, 1.0),
                c=st.booleans(),
            )
        )

    def large(self):
        return st.fixed_dictionaries(dict(b=st.tuples(gen.sizes(20, 300), st.integers(0, 999)).map(lambda t: dict(n=t[0], s=t[1], c=False, z=0)), frequency=reals(-1.0, 1.0), c=st.booleans()))

    def is_complex(self, cfg):
        return bool(cfg["c"])

    def args(self, cfg):
        return dict(b=coef(cfg["b"]), frequency=cfg["frequency"])

    def make(self, kw):
        return db.GoertzelFilter(**kw)

    setters = dict(frequency=lambda: reals(-1.0, 1.0))

    def props(self, obj):
        return dict(frequency=obj.frequency)


class Polyphase(Adapter):
    name, resettable, max_len, most = "PolyphaseRateFilter", True, 90, 300

    def rates(self):
        return st.one_of(
            st.sampled_from([0.1, 0.25, 1 / 3, 0.5, 0.3, 2 / 3, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0, np.pi, 1 / np.pi, 7.3, 0.05]),
            reals(0.02, 6.0),
            st.tuples(st.integers(1, 40), st.integers(1, 40)).map(lambda t: t[0] / t[1]).filter(lambda r: r <= 8.0),
        )

    def config(self):
        return self.rates().map(lambda r: dict(rate=float(r)))

    def large(self):
        return st.one_of(st.sampled_from([256.0, 255.0, 128.0, 100.5, 31.7]), reals(8.0, 256.0)).map(lambda r: dict(rate=float(r)))

    def args(self, cfg):
        return dict(rate=cfg["rate"])

    def make(self, kw):
        return db.PolyphaseRateFilter(**kw)

    @property
    def setters(self):
        return dict(rate=self.rates)

    def props(self, obj):
        return dict(rate=obj.rate, s=obj.s)


class PolynomialRate(Adapter):
    name, chunkable, max_len, most = "PolynomialRateFilter", False, 60, 600

    def config(self):
        return st.fixed_dictionaries(
            dict(
                rate=st.one_of(st.sampled_from([0.1, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, np.pi, 1 / np.pi]), reals(0.05, 5.0)),
                order=st.integers(1, 3),
            )
        )

    def args(self, cfg):
        return dict(rate=cfg["rate"], order=cfg["order"])

    def make(self, kw):
        return db.PolynomialRateFilter(**kw)

    def signals(self, cfg, lo=1, hi=None):
        return gen.signals(max(2, lo), max(2, hi or self.max_len), False, scales=(1.0,))

    setters = dict(rate=lambda: reals(0.05, 5.0), order=lambda: st.integers(1, 3))

    def props(self, obj):
        return dict(rate=obj.rate, order=obj.order)


class Rank(Adapter):
    name, resettable = "RankFilter", True

    def config(self):
        return st.integers(0, 12).flatmap(
            lambda o: st.integers(0, o).map(lambda i: dict(index=i, order=o))
        )

    def large(self):
        return gen.sizes(20, 300).flatmap(lambda o: st.one_of(st.sampled_from([0, o // 2, o]), st.integers(0, o)).map(lambda i: dict(index=i, order=o)))

    def args(self, cfg):
        return dict(index=cfg["index"], order=cfg["order"])

    def make(self, kw):
        return db.RankFilter(**kw)

    def props(self, obj):
        return dict(index=obj.index)


class Window(Adapter):
    name, chunkable = "WindowFilter", False

    def config(self):
        return st.fixed_dictionaries(
            dict(
                style=st.sampled_from(["Blackman", "Hamming", "Hann", "Kaiser"]),
                order=st.integers(2, 40),
                normal=st.booleans(),
            )
        )

    def large(self):
        return st.fixed_dictionaries(dict(style=st.sampled_from(["Blackman", "Hamming", "Hann", "Kaiser"]), order=gen.sizes(64, 3000), normal=st.booleans()))

    def args(self, cfg):
        return dict(style=cfg["style"], order=cfg["order"], normal=cfg["normal"])

    def make(self, kw):
        return db.WindowFilter(**kw)

    def signals(self, cfg, lo=1, hi=None):
        return gen.fixed_signal(cfg["order"] + 1)

    def props(self, obj):
        return dict(b=obj.b)


class Wavelet(Adapter):
    name, chunkable = "WaveletTransform", False
    TABLE = dict(Coiflet=(5, 11, 17, 23, 29), Daubechies=(3, 5, 7, 9, 11, 13, 15, 17, 19), Haar=(1,), Symmlet=(7, 9, 11, 13, 15, 17, 19))

    def config(self):
        return st.sampled_from([(s, o) for s, v in self.TABLE.items() for o in v]).flatmap(
            lambda t: st.integers(1, 3).map(lambda c: dict(style=t[0], order=t[1], count=c))
        )

    def args(self, cfg):
        return dict(style=cfg["style"], order=cfg["order"])

    def make(self, kw):
        return db.WaveletTransform(**kw)

    def signals(self, cfg, lo=1, hi=None):
        return st.sampled_from([8, 16, 24, 40]).flatmap(gen.fixed_signal)

    def run(self, obj, x):
        # The count is bounded by the length, which is a multiple of eight.
        y = obj.transform(x, 2, False)
        return [y, obj.transform(y, 2, True)]

    def props(self, obj):
        return dict(b0=obj.b[0][0], b1=obj.b[0][1], b2=obj.b[1][0], b3=obj.b[1][1])


class Diversity(Adapter):
    name, max_len, most = "DiversityModel", 16, 40

    def config(self):
        return st.fixed_dictionaries(
            dict(
                style=st.sampled_from(["Chebyshev", "Euclidean", "Geometric", "Manhattan"]),
                order=st.integers(1, 4),
                dim=st.integers(1, 3),
            )
        )

    def args(self, cfg):
        return dict(style=cfg["style"], order=cfg["order"])

    def make(self, kw):
        return db.DiversityModel(**kw)

    def signals(self, cfg, lo=1, hi=None):
        d = cfg["dim"]
        return st.integers(lo, hi or self.max_len).flatmap(
            lambda n: gen.fixed_signal(n * d, kinds=("noise", "ints", "ties", "noise", "const", "rests")).map(lambda s: dict(s, rows=n))
        )

    def run(self, obj, x):
        return [obj.fit(x), np.array(obj.s)]

    def join(self, outs):
        return [np.concatenate([v[0] for v in outs]), outs[-1][1]]

    def props(self, obj):
        return dict(s=obj.s)


def expand(spec):
    x = sig(spec)
    return x.reshape(spec["rows"], -1) if "rows" in spec else x


ALL = {
    a.name: a
    for a in (
        Fir(),
        Iir(),
        Derivative(),
        Integral(),
        Pid(),
        CExponential(),
        CBandpass(),
        CFrequency(),
        Goertzel(),
        Polyphase(),
        PolynomialRate(),
        Rank(),
        Window(),
        Wavelet(),
        Diversity(),
    )
}


@st.composite
def histories(draw, ad, cfg, lo=1, hi=5, reset=True, sets=True, maxlen=60):
    """A list of operations for one component."""
    ops = []
    for _ in range(draw(st.integers(lo, hi))):
        k = draw(st.integers(0, 9))
        if k < 3 and reset and ad.resettable:
            ops.append(["reset", draw(ad.resets(cfg))])
        elif 3 <= k < 5 and sets and ad.setters:
            name = draw(st.sampled_from(sorted(ad.setters)))
            ops.append(["set", name, draw(ad.setters[name]())])
        else:
            ops.append(["run", draw(ad.signals(cfg, 1, min(maxlen, ad.max_len if maxlen <= 240 else ad.most)))])
    return ops


def apply(ad, obj, op):
    """Applies one operation and returns its outputs as a list of arrays."""
    if op[0] == "run":
        return [np.array(v) for v in ad.run(obj, expand(op[1]))]
    if op[0] == "reset":
        ad.reset(obj, op[1])
        return []
    if op[0] == "set":
        setattr(obj, op[1], op[2])
        return []
    raise KeyError(op[0])

# Representative configurations, for facets which enumerate something else.
FIXED = dict(
    FirFilter=[dict(b=dict(v=[0.5, -1.0, 0.25], c=False)), dict(b=dict(v=[[0.5, 1.0], [-1.0, 0.5]], c=True)), dict(b=dict(v=[1.0], c=False))],
    IirFilter=[dict(a=dict(p=[[0.5, 0.25]], c=False, pad=0), b=dict(v=[0.5, -1.0, 0.25], c=False)), dict(a=dict(p=[[0.5, 0.25]], c=True, pad=0), b=dict(v=[[0.5, 1.0], [-1.0, 0.5]], c=True))],
    DerivativeFilter=[dict(d=2, o=4)], IntegralFilter=[dict(o=2)], PidFilter=[dict(b=[1.0, 0.5, 0.25], limit=2.0)], ComplexExponentialFilter=[dict(phase=0.125)],
    ComplexBandpassFilter=[dict(frequency=0.25, rate=0.1)], ComplexFrequencyFilter=[dict(frequency=0.25, rate=0.1)],
    GoertzelFilter=[dict(b=dict(v=[1.0, 0.5, 2.0], c=False), frequency=0.3, c=False)], PolyphaseRateFilter=[dict(rate=1.5), dict(rate=0.4)], PolynomialRateFilter=[dict(rate=1.5, order=1), dict(rate=0.7, order=3)],
    RankFilter=[dict(index=1, order=3)],
)  # fmt: skip
