"""A grammar of values and type-exact equality."""
import collections
import datetime
import decimal
import enum
import fractions
import functools
import math
import types
import uuid

import numpy as np

try:
    import pandas as pd
except ImportError:
    pd = None


class Pt:
    def __init__(self, x, y=None):
        self.x, self.y = x, y


class Slots:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


class MyStr(str):
    pass


class MyInt(int):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyErr(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)
        self.extra = [a, b]


class Col(enum.Enum):
    RED = 1
    BLUE = "b"


class MyArr(np.ndarray):
    pass


NT = collections.namedtuple("NT", "p q")


def topfn(a, b=2, *c, **d):
    return (a, b, c, d)


def mkclosure(v):
    def inner(z):
        return (v, z)

    return inner


def mkclass():
    class Local:
        attr = [1, 2]

        def m(self, k):
            return k + 1

    return Local


def atoms():
    a = [
        ("none", None), ("true", True), ("false", False), ("zero", 0), ("m1", -1), ("i31", 2**31), ("i63", 2**63 - 1),
        ("u64", 2**64 - 1), ("i64", 2**64), ("big", 2**200), ("mbig", -(2**70)), ("m63", -(2**63)), ("m63b", -(2**63) - 1),
        ("f", 1.5), ("nan", float("nan")), ("inf", float("-inf")), ("m0", -0.0), ("fmax", 1.7976931348623157e308), ("cplx", 1 - 2j),
        ("estr", ""), ("str", "abc"), ("ustr", "h\u00e9\u4e16\U0001f600\0z"), ("lstr", "xy" * 3000),
        ("ebytes", b""), ("bytes", b"\x00\xff"), ("lbytes", bytes(range(256)) * 20),
        ("etuple", ()), ("tuple", (1, "a")), ("elist", []), ("list", [1, [2, [3, (4, [5])]]]), ("edict", {}),
        ("dict", {"a": 1, "b": {"c": [1, 2]}}), ("idict", {1: "a", 2.5: "b", None: "c", True and b"k": "d"}),
        ("tdict", {(1, 2): 3, (1, (2, "x")): 4}), ("set", {1, 2}), ("eset", set()), ("fset", frozenset([1, "a"])),
        ("range", range(2, 9, 3)), ("slice", slice(1, None, 2)), ("ell", Ellipsis), ("type", int),
        ("nt", NT(1, [2])), ("enum", Col.BLUE), ("date", datetime.datetime(2020, 1, 2, 3, 4, 5, 6)),
        ("delta", datetime.timedelta(days=1, microseconds=3)), ("dec", decimal.Decimal("1.10")), ("frac", fractions.Fraction(1, 3)),
        ("odict", collections.OrderedDict([("b", 1), ("a", 2)])), ("deque", collections.deque([1, 2], maxlen=3)),
        ("ddict", collections.defaultdict(list, {"a": [1]})), ("counter", collections.Counter("aab")), ("uuid", uuid.UUID(int=5)),
        ("mystr", MyStr("q")), ("myint", MyInt(4)), ("mylist", MyList([1])), ("mydict", MyDict(a=1)),
        ("pt", Pt(1, [2])), ("slots", Slots({"a": 1})), ("ptarr", Pt(np.arange(40))), ("keys", {"a": 1, "b": 2}.keys()),
        ("partial", functools.partial(topfn, b=5)), ("topfn", topfn), ("lambda", lambda x: (x, "l")), ("closure", mkclosure([1, 2])),
        ("closarr", mkclosure(np.arange(30))), ("method", Pt(3).__init__.__func__ and MyList([3, 4]).count), ("localcls", mkclass()),
        ("localinst", mkclass()()), ("cls", Pt), ("simplens", types.SimpleNamespace(a=1)),
        ("npi", np.int8(-3)), ("npf", np.float32(1.5)), ("npb", np.bool_(True)), ("npdt", np.dtype("i4")), ("npdate", np.datetime64("2020-01-01")),
        ("npstr", np.str_("ab")), ("npc", np.complex64(1j)),
    ]
    ar = np.arange
    a += [
        ("a0", np.zeros(0)), ("a00", np.zeros((0, 3), dtype=np.int8)), ("a_0d", np.array(5)), ("a1", ar(1, dtype=np.int8)),
        ("a63", ar(63, dtype=np.uint8)), ("a64", ar(64, dtype=np.uint8)), ("a65", ar(65, dtype=np.uint8)), ("a8", ar(8)), ("a100", ar(100.0)),
        ("aF", np.asfortranarray(ar(60).reshape(6, 10))), ("aC3", ar(60).reshape(3, 4, 5)), ("aT", ar(60).reshape(3, 4, 5).transpose(1, 0, 2)),
        ("astr", ar(60)[::3]), ("arev", ar(40)[::-1]), ("abc", np.broadcast_to(ar(5), (4, 5))), ("abool", ar(90) % 3 == 0),
        ("acplx", ar(20) * 1j), ("adate", np.array(["2020-01-01"] * 20, dtype="M8[D]")), ("aobj", np.array([1, "a", None, [2]], dtype=object)),
        ("astrs", np.array(["a", "bcd"] * 10)), ("abytes", np.array([b"a", b"bcd"] * 40)),
        ("astruct", np.array([(1, 2.5, "ab")] * 9, dtype=[("x", "i4"), ("y", "f8"), ("z", "U2")])), ("abig", ar(20, dtype=">i8")),
        ("aro", _ro(ar(30))), ("asub", ar(30).view(MyArr)), ("ama", np.ma.array(ar(20), mask=ar(20) % 2 == 0)),
        ("arec", np.rec.array([(1, 2.0)] * 10, dtype=[("x", "i4"), ("y", "f8")])), ("amat", ar(16).reshape(2, 8).view(np.ndarray)[:, 2:5]),
    ]
    if pd is not None:
        a = [x for x in a if x[0] in ("none", "a100", "a8", "lstr", "tuple", "pt")]
        a += [
            ("df", pd.DataFrame({"a": ar(30), "b": ar(30.0), "c": ["s%d" % i for i in range(30)]})), ("dfe", pd.DataFrame()),
            ("dfs", pd.DataFrame({"a": [1]})), ("dff", pd.DataFrame(ar(80).reshape(8, 10))), ("dft", pd.DataFrame(ar(80).reshape(8, 10)).T),
            ("dfidx", pd.DataFrame({"a": ar(20)}, index=pd.MultiIndex.from_product([[1, 2], list("abcdefghij")], names=["u", "v"]))),
            ("dfdate", pd.DataFrame({"d": pd.date_range("2020", periods=12)}, index=pd.date_range("2021", periods=12, freq="h"))),
            ("ser", pd.Series(ar(50), name="nm")), ("sere", pd.Series([], dtype="float64")), ("serobj", pd.Series(["a", None, 3], dtype=object)),
            ("cat", pd.Series(["x", "y", "x"] * 10, dtype="category")), ("nullint", pd.Series([1, None, 3] * 10, dtype="Int64")),
            ("index", pd.Index(ar(40))), ("rindex", pd.RangeIndex(5)), ("ts", pd.Timestamp("2020-01-01", tz="UTC")), ("nat", pd.NaT),
            ("iv", pd.interval_range(0, 5)), ("sparse", pd.Series(pd.arrays.SparseArray([0, 0, 1] * 10))),
            ("slice", pd.DataFrame({"a": ar(40), "b": ar(40)}).iloc[5:30:2]), ("dfdict", pd.DataFrame({"o": [{"k": ar(10)}] * 3})),
        ]
    return a


def _ro(a):
    a.flags.writeable = False
    return a


BIG = np.arange(100, dtype=np.int64)


def wrappers():
    return [
        ("%s", lambda v: v),
        ("[%s]", lambda v: [v]),
        ("(%s,1)", lambda v: (v, 1)),
        ("{k:%s}", lambda v: {"k": v, "l": 0}),
        ("[%s,%s]", lambda v: [v, v]),
        ("[B,%s,b,B]", lambda v: [BIG, v, BIG[:2].copy(), BIG * 2]),
        ("[[%s],{1:(%s,)}]", lambda v: [[v], {1: (v,)}]),
        ("Pt(%s)", lambda v: Pt(v, [v])),
        ("obj[%s]", _objarr),
        ("err(%s)", lambda v: [MyErr("a", v)]),
        ("clos(%s)", lambda v: [mkclosure(v)]),
    ]


def _objarr(v):
    a = np.empty(2, dtype=object)
    a[0], a[1] = v, 1
    return a


def names():
    return [(w, a) for w in range(len(wrappers())) for a in range(len(atoms()))]


# values that cannot be put into plain-pickled containers
_INLINE = {"lambda", "closure", "closarr", "localcls", "localinst", "method", "keys"}


def build():
    """All values: name -> value."""
    res = []
    ats = atoms()
    for wn, w in wrappers():
        for n, v in ats:
            if wn == "obj[%s]" and n in _INLINE:
                continue
            res.append((wn.replace("%s", n), w(v)))
    return res


def diff(a, b, path="v"):
    """None or where the received value a differs from the original b."""
    if type(a) is not type(b) and not _same_class(type(a), type(b)):
        return "%s: type %s instead of %s" % (path, type(a), type(b))
    if isinstance(b, np.ma.MaskedArray):
        return diff(np.asarray(a.data), np.asarray(b.data), path) or diff(np.asarray(a.mask), np.asarray(b.mask), path)
    if isinstance(b, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return "%s: dtype/shape %s %s instead of %s %s" % (path, a.dtype, a.shape, b.dtype, b.shape)
        if b.dtype == object:
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                d = diff(x, y, path + ".flat[%d]" % i)
                if d:
                    return d
            return None
        ok = np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()
        return None if ok else "%s: array contents %.200r instead of %.200r" % (path, a, b)
    if pd is not None:
        if isinstance(b, pd.DataFrame):
            if any(b.dtypes == object) and "o" in b.columns:
                return diff(list(a["o"]), list(b["o"]), path) or (None if a.index.equals(b.index) else path + ": index")
            ok = a.equals(b) and list(a.dtypes) == list(b.dtypes) and a.index.equals(b.index) and a.columns.equals(b.columns) \
                and a.index.names == b.index.names
            return None if ok else "%s: frame differs" % path
        if isinstance(b, pd.Series):
            ok = a.equals(b) and a.dtype == b.dtype and a.name == b.name and a.index.equals(b.index)
            return None if ok else "%s: series differs" % path
        if isinstance(b, pd.Index):
            return None if a.equals(b) and a.dtype == b.dtype else "%s: index differs" % path
        if b is pd.NaT:
            return None if a is b else "%s: NaT" % path
    if isinstance(b, (tuple, list, collections.deque)):
        if len(a) != len(b):
            return "%s: length %d instead of %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + "[%d]" % i)
            if d:
                return d
        return None
    if isinstance(b, dict):
        if [type(k) for k in a] != [type(k) for k in b] or list(a) != list(b):
            return "%s: keys %.200r instead of %.200r" % (path, list(a), list(b))
        for k in b:
            d = diff(a[k], b[k], path + "[%r]" % (k,))
            if d:
                return d
        return None
    if isinstance(b, float):
        ok = math.isnan(a) if math.isnan(b) else (a == b and math.copysign(1, a) == math.copysign(1, b))
        return None if ok else "%s: %r instead of %r" % (path, a, b)
    if isinstance(b, BaseException):
        return diff(a.args, b.args, path + ".args") or diff(vars(a), vars(b), path + ".__dict__")
    if isinstance(b, type({}.keys())):
        return None if list(a) == list(b) else "%s: keys" % path
    if isinstance(b, functools.partial):
        return diff(a(7), b(7), path + "()")
    if isinstance(b, (types.FunctionType, types.BuiltinMethodType)):
        if b is topfn:
            return diff(a(7, 8, 9, k=1), b(7, 8, 9, k=1), path + "()")
        return diff(a(7), b(7), path + "()")
    if isinstance(b, type):
        if b.__name__ == "Local":
            return diff(a().m(3), b().m(3), path + "().m") or diff(a.attr, b.attr, path + ".attr")
        return None if a is b else "%s: class %r" % (path, a)
    if isinstance(b, Slots):
        return diff(a.a, b.a, path + ".a")
    if type(b).__name__ == "Local":
        return diff(a.m(4), b.m(4), path + ".m")
    if isinstance(b, (Pt, types.SimpleNamespace)):
        return diff(vars(a), vars(b), path + ".__dict__")
    return None if a == b else "%s: %.200r instead of %.200r" % (path, a, b)


def _same_class(x, y):
    return x.__name__ == y.__name__ == "Local"
