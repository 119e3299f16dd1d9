"""C29: serial encode, decode and code."""

import base64
import collections
import copy
import datetime
import decimal
import fractions
import hashlib
import math
import pickle
import uuid

import diamondback as db
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.components import ALL
from pbt.core import close, ensure, facet, raises

ASSUMPTIONS = [
    "Instances are picklable and encodings are supersets of ASCII; determinism is claimed of deep copies, whose references are shared alike.",
    "NaN equals NaN of the same type.",
]
ALPHABET = set("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~")
ENCODINGS = ["utf-8", "ascii", "latin-1", "cp1252", "iso8859-15", "utf8", "UTF-8", "mac-roman", "shift_jis", "gb18030", "koi8-r", "big5"]
POINT = collections.namedtuple("POINT", "x y")


class Node:
    """An instance with attributes."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, other):
        return type(other) is Node and equal(self.__dict__, other.__dict__)

    __hash__ = None


# Specifications of instances: JSON-able trees.

SCALAR = st.one_of(
    st.just(["none"]),
    st.booleans().map(lambda v: ["bool", v]),
    st.one_of(st.integers(-3, 300), st.integers(-(2**70), 2**70)).map(lambda v: ["int", v]),
    st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.0, -0.0, 1e-320])).map(lambda v: ["float", v]),
    st.sampled_from(["nan", "inf", "-inf"]).map(lambda v: ["special", v]),
    st.tuples(st.floats(-9, 9), st.floats(-9, 9)).map(lambda v: ["complex", *v]),
    st.text(max_size=8).filter(lambda s: all(not 0xD800 <= ord(c) <= 0xDFFF for c in s)).map(lambda v: ["str", v]),
    st.lists(st.integers(0, 255), max_size=8).map(lambda v: ["bytes", v]),
    st.lists(st.integers(0, 255), max_size=5).map(lambda v: ["bytearray", v]),
    st.sampled_from([["bytes", [31, 139, 8, 0]], ["bytes", [128, 4, 149]], ["str", "x" * 5000], ["date"], ["decimal", "1.50"], ["fraction", 1, 3], ["uuid"], ["range", 0, 9, 2], ["slice", 1, 5], ["ellipsis"], ["type"], ["delta", 90]]),
)
ARRAY = st.tuples(
    st.sampled_from(["float64", "float32", "float16", "int64", "int8", "uint16", "bool", "complex128", "complex64", ">f8", ">i4", "U3", "S4", "object", "datetime64[s]", "struct"]),
    st.lists(st.integers(0, 4), min_size=0, max_size=3),
    st.sampled_from(["", "fortran", "strided", "scalar"]),
    st.integers(0, 99),
).map(lambda v: ["array", *v])
FRAME = st.tuples(st.sampled_from(["frame", "series", "index", "timestamp", "category", "multi"]), st.integers(0, 6), st.integers(0, 99)).map(lambda v: ["pandas", *v])
COMPONENT = st.sampled_from(sorted(ALL)).flatmap(lambda n: ALL[n].config().map(lambda c: ["component", n, c]))
LEAF = st.one_of(SCALAR, SCALAR, SCALAR, ARRAY, FRAME)


def nest(v):
    key = st.one_of(st.integers(-5, 5).map(lambda k: ["int", k]), st.text("abc", max_size=3).map(lambda k: ["str", k]), st.just(["tuple", ["int", 1], ["str", "k"]]))
    hashable = st.one_of(st.integers(-5, 5).map(lambda k: ["int", k]), st.text("abc", max_size=3).map(lambda k: ["str", k]))
    return st.one_of(
        st.lists(v, max_size=4).map(lambda e: ["list", *e]),
        st.lists(v, max_size=3).map(lambda e: ["tuple", *e]),
        st.lists(st.tuples(key, v), max_size=4).map(lambda e: ["dict", *[list(t) for t in e]]),
        st.lists(st.tuples(key, v), max_size=3).map(lambda e: ["ordered", *[list(t) for t in e]]),
        st.lists(hashable, max_size=4).map(lambda e: ["set", *e]),
        st.lists(hashable, max_size=3).map(lambda e: ["frozenset", *e]),
        st.lists(v, max_size=3).map(lambda e: ["deque", *e]),
        st.tuples(v, v).map(lambda e: ["point", *e]),
        st.tuples(v, v).map(lambda e: ["node", *e]),
        st.tuples(v, st.just(0)).map(lambda e: ["shared", e[0]]),
    )


# Containers of many items, at the top and inside of others.
MANY = st.tuples(st.sampled_from(["list", "tuple", "dict", "set", "frozenset", "deque", "str", "bytes", "bytearray", "int", "names", "words"]), st.one_of(st.integers(5, 40), st.integers(41, 300), st.sampled_from([256, 257, 1000, 1001, 2000, 70000])), st.integers(0, 99), st.sampled_from(["", "", "list", "dict", "node"])).map(lambda v: ["many", *v])


def many(kind, n, seed, inside):
    r = np.random.RandomState(seed)
    v = [int(k) for k in r.permutation(n)]
    if kind in ("str", "words"):
        x = "".join(chr(k) for k in r.randint(32, 0x2FF, n)) if kind == "str" else [chr(97 + k % 26) * (k % 40) for k in v]
    elif kind in ("bytes", "bytearray"):
        x = r.bytes(n)
        x = x if kind == "bytes" else bytearray(x)
    elif kind == "int":
        x = -(3**n) if seed & 1 else 3**n
    elif kind == "names":
        x = {f"k{k}": (k, float(k), None) for k in v}
    elif kind == "dict":
        x = {k: str(k) for k in v}
    else:
        x = dict(list=list, tuple=tuple, set=set, frozenset=frozenset, deque=collections.deque)[kind](v)
    return dict(list=lambda: [x, 1], dict=lambda: {"k": x}, node=lambda: Node(v=x)).get(inside, lambda: x)()


TREE = st.recursive(LEAF, nest, max_leaves=8)


def build(s):
    k = s[0]
    if k in ("bool", "int", "float", "str"):
        return s[1]
    if k == "none":
        return None
    if k == "special":
        return float(s[1])
    if k == "complex":
        return complex(s[1], s[2])
    if k == "bytes":
        return bytes(s[1])
    if k == "bytearray":
        return bytearray(s[1])
    if k == "date":
        return datetime.datetime(2020, 2, 29, 1, 2, 3, 4, datetime.timezone.utc)
    if k == "delta":
        return datetime.timedelta(seconds=s[1])
    if k == "decimal":
        return decimal.Decimal(s[1])
    if k == "fraction":
        return fractions.Fraction(s[1], s[2])
    if k == "uuid":
        return uuid.UUID(int=12345)
    if k == "range":
        return range(s[1], s[2], s[3])
    if k == "slice":
        return slice(s[1], s[2])
    if k == "ellipsis":
        return Ellipsis
    if k == "type":
        return db.FirFilter
    if k == "array":
        return array(*s[1:])
    if k == "pandas":
        return pandas(*s[1:])
    if k == "many":
        return many(*s[1:])
    if k == "component":
        return ALL[s[1]].build(s[2])
    if k in ("dict", "ordered"):
        d = {} if k == "dict" else collections.OrderedDict()
        for u, v in s[1:]:
            d[build(u)] = build(v)
        return d
    e = [build(v) for v in s[1:]]
    if k == "list":
        return e
    if k == "point":
        return POINT(*e)
    if k == "node":
        return Node(left=e[0], right=e[1])
    if k == "shared":
        return [e[0], e[0], {"again": e[0]}]
    return dict(tuple=tuple, set=set, frozenset=frozenset, deque=collections.deque)[k](e)


def array(dtype, shape, layout, seed):
    r = np.random.RandomState(seed)
    shape = tuple(shape)
    v = np.asarray(r.randint(0, 100, shape))
    if dtype == "object":
        x = np.empty(shape, object)
        x.fill([1, "a", None])
    elif dtype == "struct":
        x = np.zeros(shape, [("a", "f8"), ("b", "i2")])
        x["a"], x["b"] = v, v
    elif dtype in ("float64", "complex128", ">f8"):
        x = np.asarray(r.normal(size=shape)).astype(dtype)
        if x.size > 2:
            x.flat[0] = np.nan
    else:
        x = v.astype(dtype)
    if layout == "fortran":
        x = np.asfortranarray(x)
    elif layout == "strided" and x.ndim and x.shape[0] > 1:
        x = x[::-2]
    elif layout == "scalar" and x.size and dtype not in ("object",):
        x = x.flat[0]
    return x


def pandas(kind, n, seed):
    r = np.random.RandomState(seed)
    if kind == "timestamp":
        return pd.Timestamp(2021, 1 + n, 3, tz="UTC")
    if kind == "series":
        return pd.Series(r.normal(size=n), name="s")
    if kind == "index":
        return pd.date_range("2020-01-01", periods=n, name="t")
    if kind == "category":
        return pd.Series(r.choice(["a", "b"], n)).astype("category")
    if kind == "multi":
        return pd.DataFrame({"v": r.normal(size=n)}, index=pd.MultiIndex.from_arrays([range(n), ["k"] * n], names=["i", "j"]))
    return pd.DataFrame({"a": r.normal(size=n), "b": r.randint(0, 9, n), "c": r.choice(["x", "caf\u00e9", None], n)})


def equal(a, b, depth=0):
    if type(a) is not type(b):
        return False
    if isinstance(a, type) or a is None or a is Ellipsis:
        return a is b
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b)
    if isinstance(a, np.ndarray):
        if a.dtype.newbyteorder("=") != b.dtype.newbyteorder("=") or a.shape != b.shape:
            return False  # pickle does not keep the byte order of every array
        a, b = a.astype(a.dtype.newbyteorder("=")), b.astype(b.dtype.newbyteorder("="))
        if a.dtype == object:
            return all(equal(u, v) for u, v in zip(a.flat, b.flat))
        return np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()
    if isinstance(a, np.generic):
        return a.dtype == b.dtype and np.asarray(a).tobytes() == np.asarray(b).tobytes()
    if isinstance(a, (pd.DataFrame, pd.Series, pd.Index)):
        return a.equals(b) and (not isinstance(a, pd.Series) or (a.name == b.name and a.dtype == b.dtype and a.index.equals(b.index)))
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(equal(u, v) for u, v in zip(a, b))
    if hasattr(a, "__dict__") and type(a).__module__.startswith("diamondback"):
        u, v = observable(a), observable(b)
        return equal(u, v)
    if callable(a) and not hasattr(a, "__dict__"):
        return a == b
    return bool(a == b)


def observable(x):
    """Public properties of a component."""
    names = [n for n in dir(type(x)) if not n.startswith("_") and isinstance(getattr(type(x), n), property)]
    return {n: getattr(x, n) for n in names}


def mutate(x):
    """Changes a mutable instance in place."""
    if isinstance(x, (list, collections.deque, bytearray)):
        x.append(7)
    elif isinstance(x, dict):
        x["changed"] = 7
    elif isinstance(x, set):
        x.add("changed")
    elif isinstance(x, Node):
        x.extra = 7
    elif isinstance(x, np.ndarray) and x.size and x.dtype.kind in "fciu":
        x.flat[-1] = 3 if x.flat[-1] != 3 else 4
    elif isinstance(x, pd.DataFrame):
        x["changed"] = 7
    else:
        return False
    return True


def label(s):
    return s[0] + (" " + str(s[1]) if s[0] in ("array", "pandas", "component", "many") else "")


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["scalar", "array", "frame", "component", "nest", "nest", "nest", "many"]))
    x = draw(nest(TREE)) if kind == "nest" else draw(dict(scalar=SCALAR, array=ARRAY, frame=FRAME, component=COMPONENT, many=MANY)[kind])
    return dict(x=x, encoding=draw(st.sampled_from(ENCODINGS)), how=draw(st.sampled_from(["position", "keyword", "default"])))


def text_of(y, what):
    ensure(type(y) is str and y, lambda: f"{what} is {type(y).__name__} {y!r:.80}")
    other = set(y) - ALPHABET
    ensure(not other, lambda: f"{what} contains {sorted(other)[:9]}")
    return y


@facet("C29", "round", cases, n=1500, shards=8, rule="instance x encoding x compression: decoding recovers an equal instance and encoding leaves the instance as it was; every case is non-trivial.")
def round_(case):
    x, other, e = build(case["x"]), build(case["x"]), case["encoding"]
    copied = pickle.dumps(x)
    plain = text_of(db.Serial.encode(x, False, e), "uncompressed string")
    if case["how"] == "default":
        packed = text_of(db.Serial.encode(x), "string")
        e = "utf-8"
    elif case["how"] == "keyword":
        packed = text_of(db.Serial.encode(x=x, compress=True, encoding=e), "string")
    else:
        packed = text_of(db.Serial.encode(x, True, e), "string")
    ensure(pickle.dumps(x) == copied and equal(x, other), "encoding modified the instance")
    for v, what in ((plain, "uncompressed"), (packed, "compressed")):
        z = db.Serial.decode(v) if case["how"] == "default" else db.Serial.decode(v, e)
        ensure(equal(x, z), lambda: f"decoding the {what} string returned {type(z).__name__} {z!r:.200} expected {type(x).__name__} {x!r:.200}")
        ensure(equal(x, db.Serial.decode(v, e)), "decoding a second time differs")
    if case["x"][0] == "shared":
        ensure(z[0] is z[1] or not isinstance(z[0], (list, dict, Node)), "shared references are separated")
    z = db.Serial.decode(plain, e)
    if mutate(z):
        ensure(equal(x, db.Serial.decode(plain, e)), "a change of a decoded instance changes what is decoded next")
        mutate(x)
        ensure(equal(x, db.Serial.decode(db.Serial.encode(x))), "an instance encoded, changed and encoded again is not decoded as changed")
    u, v = base64.b85decode(plain), base64.b85decode(packed)
    ensure(v[:2] == b"\x1f\x8b" and u[:2] != b"\x1f\x8b", "compression does not follow the argument")
    return label(case["x"])


@facet("C29", "code", cases, n=800, shards=4, rule="instance x encoding: repeated uncompressed encoding and encoding of a deep copy are identical, with the SHA3-256 code; every case is non-trivial.")
def code(case):
    x, e = build(case["x"]), case["encoding"]
    y = text_of(db.Serial.encode(x, False, e), "string")
    ensure(db.Serial.encode(x, compress=False, encoding=e) == y, "encoding a second time differs")
    if case["x"][0] in ("int", "float", "bool", "none", "str", "bytes", "special", "complex", "list"):
        simple = all(v[0] in ("int", "float", "bool", "none", "str", "bytes", "special", "complex") for v in case["x"][1:]) if case["x"][0] == "list" else True
        if simple:
            ensure(db.Serial.encode(copy.deepcopy(x), False, e) == y, "encoding of an equal instance differs")
    want = hashlib.sha3_256(y.encode("ascii")).hexdigest()
    ensure(db.Serial.code(y, e) == want, lambda: f"code {db.Serial.code(y, e)} expected {want}")
    ensure(db.Serial.code(y) == want, "code with the default encoding")
    return label(case["x"])


@st.composite
def strings(draw):
    e = draw(st.sampled_from(["utf-8", "utf-8", "latin-1", "ascii", "utf-16", "cp1252", "gb18030"]))
    x = draw(st.one_of(st.text(min_size=1, max_size=30), st.integers(1, 5000).map(lambda n: "ab" * n)))
    return dict(x=x, e=e)


@facet("C29", "hash", strings, n=500, rule="any text: its code is the SHA3-256 digest of its encoding; trivial when the text cannot be encoded.")
def hash_(case):
    x, e = case["x"], case["e"]
    try:
        want = hashlib.sha3_256(x.encode(e)).hexdigest()
    except UnicodeEncodeError:
        return ""
    ensure(db.Serial.code(x, e) == want, lambda: f"code of {x!r} in {e} is {db.Serial.code(x, e)} expected {want}")
    if e == "utf-8":
        ensure(db.Serial.code(x) == want, "default encoding")
    return e


@st.composite
def invalid(draw):
    return dict(x=draw(LEAF), fn=draw(st.sampled_from(["code", "decode", "encode"])), bad=draw(st.sampled_from(["x", "encoding"])), compress=draw(st.booleans()), none=draw(st.booleans()))


@facet("C29", "reject", invalid, n=200, rule="empty string or encoding; trivial for an empty string which encode may receive.")
def reject(case):
    e = "" if not case["none"] else None
    x = build(case["x"])
    y = db.Serial.encode(x, case["compress"])
    if case["fn"] == "encode":
        if case["bad"] == "x":
            ensure(db.Serial.decode(db.Serial.encode("")) == "", "an empty string is an instance")
            return ""
        raises(ValueError, lambda: db.Serial.encode(x, case["compress"], e), f"encode with encoding {e!r}")
    else:
        f = getattr(db.Serial, case["fn"])
        if case["bad"] == "x":
            raises(ValueError, lambda: f(""), f"{case['fn']} of an empty string")
        else:
            raises(ValueError, lambda: f(y, e), f"{case['fn']} with encoding {e!r}")
    return case["fn"] + " " + case["bad"]


@st.composite
def large(draw):
    return dict(n=draw(st.sampled_from([10000, 70000, 300000])), s=draw(st.integers(0, 99)), kind=draw(st.sampled_from(["noise", "zeros", "bytes", "deep"])))


@facet("C29", "large", large, n=40, shards=4, rule="large or deeply nested instances; every case is non-trivial.")
def large_(case):
    r = np.random.RandomState(case["s"])
    k, n = case["kind"], case["n"]
    if k == "deep":
        x = []
        for _ in range(80):
            x = [x, {"k": x}]
    else:
        x = r.normal(size=n) if k == "noise" else np.zeros(n) if k == "zeros" else r.bytes(n)
    for c in (True, False):
        y = text_of(db.Serial.encode(x, c), "string")
        z = db.Serial.decode(y)
        if k == "deep":
            for _ in range(80):
                ensure(len(z) == 2 and z[0] is z[1]["k"], "shared references are separated")
                z = z[0]
            ensure(z == [], "innermost")
        elif k == "bytes":
            ensure(type(z) is bytes and z == x, "large bytes")
        else:
            close(z, x, "large array", rtol=0.0)
    return k
