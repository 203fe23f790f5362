"""C12: every kind of modifiable value x every way it becomes an object x every way to modify the original."""
import numpy as np
import unidist
from harness import scenario, expect_eq, expect
from lib import *

try:
    import pandas
except ImportError:
    pandas = None

N = 40


class Box:
    def __init__(self, a):
        self.a = a
        self.l = [1]

    def __repr__(self):
        return "Box(%s,%s)" % (show(self.a), self.l)


def show(x):
    """A text that tells values apart."""
    if isinstance(x, np.ndarray):
        return "%s%s%s" % (x.dtype, x.shape, x.tolist())
    if pandas is not None and isinstance(x, pandas.DataFrame):
        return "df%s%s%s" % (list(x.columns), [str(t) for t in x.dtypes], x.values.tolist())
    if isinstance(x, (list, tuple)):
        return "%s[%s]" % (type(x).__name__, ",".join(show(y) for y in x))
    if isinstance(x, dict):
        return "{%s}" % ",".join("%r:%s" % (k, show(v)) for k, v in x.items())
    return repr(x)


def base(n=N):
    return np.arange(n)


def ro_view(n=N):
    b = base(n)
    v = b[:]
    v.flags.writeable = False
    return v, b


def setter(b, v=-5):
    def f():
        b[...] = v

    return f


def k_array():
    b = base()
    return b, setter(b)


def k_small():
    b = base(3)
    return b, setter(b)


def k_ro_view():
    v, b = ro_view()
    return v, setter(b)


def k_ro_view_list():
    v, b = ro_view()
    w, c = ro_view(50)
    return [v, {"w": w}], lambda: (setter(b)(), setter(c)())


def k_slice():
    b = base(80)
    return b[10:60], setter(b)


def k_strided():
    b = base(80)
    return b[::2], setter(b)


def k_transposed():
    b = base(60).reshape(6, 10)
    return b.T, setter(b)


def k_frombuffer():
    m = bytearray(range(200))
    return np.frombuffer(m, dtype=np.uint8), lambda: m.__setitem__(slice(0, 200), bytes(200))


def k_ro_frombuffer():
    m = bytearray(range(200))
    return np.frombuffer(memoryview(m).toreadonly(), dtype=np.uint8), lambda: m.__setitem__(slice(0, 200), bytes(200))


def k_two():
    b = base()
    return (b, b[5:]), setter(b)


def k_list():
    l = [1, [2, 3], {"k": [4]}]

    def f():
        l[1].append(9)
        l[2]["k"].append(9)
        l[2]["z"] = 9
        l.append(9)

    return l, f


def k_dict():
    d = {"a": base(), "b": [1]}

    def f():
        d["a"][:] = -1
        d["b"].append(2)
        d["c"] = 1

    return d, f


def k_object():
    o = Box(base())

    def f():
        o.a[:] = -1
        o.l.append(2)
        o.z = 1

    return o, f


def k_frame():
    df = pandas.DataFrame({"a": np.arange(30), "b": np.arange(30) * 0.5})

    def f():
        df.loc[:, "a"] = -1
        df["c"] = 1

    return df, f


def k_frame_values():
    b = np.arange(60).reshape(30, 2)
    df = pandas.DataFrame(b, columns=["a", "b"], copy=False)
    return df, setter(b)


def k_frame_ro():
    b = np.arange(60).reshape(30, 2)
    v = b[:]
    v.flags.writeable = False
    return pandas.DataFrame(v, copy=False), setter(b)


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("k_")}


@unidist.remote
def reads(x):
    return whoami(), show(x)


@unidist.remote
def reads_kw(y, x=None):
    return whoami(), show(x)


@unidist.remote
def reads_in(l):
    return whoami(), show(l[0])


class Owner:
    """Keeps the original of what it hands out."""

    def __init__(self, kind):
        self.v, self.mod = KINDS[kind]()

    def hand(self):
        return self.v

    def hand2(self):
        return self.v, [self.v]

    async def ahand(self):
        return self.v

    def change(self):
        self.mod()
        return 1

    def put_change(self):
        p = unidist.put(self.v)
        a = reads.remote(p)
        self.mod()
        b = reads.remote(p)
        return unidist.get([a, b])

    def call_change(self):
        a = reads.remote(self.v)
        b = reads_kw.remote(0, x=self.v)
        self.mod()
        return unidist.get([a, b])

    def read(self, x):
        return whoami(), show(x)


def same(got, want, what):
    for who, g in got:
        expect(g == want, "%s: process %d reads %s instead of %s" % (what, who, g[:200], want[:200]))


def put_case(kind, first):
    def run():
        v, mod = KINDS[kind]()
        want = show(v)
        p = unidist.put(v)
        early = [reads.remote(p)] if first else []
        mod()
        late = [reads.remote(p), reads_kw.remote(0, x=p), reads.remote(p), reads_in.remote([p])]
        same(unidist.get(early + late), want, "put object (%s) whose original was modified" % kind)
        same(unidist.get([reads.remote(p)]), want, "put object (%s) again" % kind)

    return run


def value_case(kind):
    def run():
        v, mod = KINDS[kind]()
        want = show(v)
        o = unidist.remote(Owner).remote("small")
        x = slow.remote(1)
        rs = [reads.remote(v), reads_kw.remote(x, x=v), reads_in.remote([v]), o.read.remote(v), reads_kw.remote(1, x=v)]
        mod()
        same(unidist.get(rs), want, "argument (%s) whose original was modified after the call" % kind)

    return run


def owner_case(kind, first):
    def run():
        v, _ = KINDS[kind]()
        want = show(v)
        o = unidist.remote(Owner).remote(kind)
        a = o.hand.remote()
        b = o.ahand.remote()
        c, d = o.hand2.options(num_returns=2).remote()
        early = [reads.remote(a), reads.remote(b), reads.remote(c), reads_in.remote(d)] if first else []
        if first:
            same(unidist.get(early), want, "result (%s)" % kind)
        unidist.get(o.change.remote())
        same([(0, show(unidist.get(a))), (0, show(unidist.get(b))), (0, show(unidist.get(c))), (0, show(unidist.get(d)[0]))], want,
             "result (%s) of a call whose actor modified it afterwards" % kind)
        same(unidist.get([reads.remote(a), reads_kw.remote(1, x=b), reads.remote(c), reads_in.remote(d)]), want,
             "result (%s) of a call whose actor modified it afterwards" % kind)

    return run


def worker_case(kind):
    def run():
        v, _ = KINDS[kind]()
        want = show(v)
        for m in ("put_change", "call_change"):
            o = unidist.remote(Owner).remote(kind)
            same(unidist.get(getattr(o, m).remote()), want, "object (%s) made by a worker (%s)" % (kind, m))
            del o

    return run


ENVS = ("base", "shm", "base_t0", "shm_t0", "base_pd", "shm_pd")

for _k in KINDS:
    for _e in ENVS:
        for _r in (0, 512):
            if (_r and _e[-3:] in ("_t0", "_pd")) or ("frame" in _k) != _e.endswith("_pd"):
                continue
            _s = ("" if _e == "base" else "_" + _e) + ("_rndv" if _r else "")
            _kw = {"env": _e, "n": 5, "cap": 4, "depth": 1, "cfg": {"rndv": _r} if _r else {}}
            for _f in (0, 1):
                scenario("C12_put_%s_%d%s" % (_k, _f, _s), **_kw)(put_case(_k, _f))
                scenario("C12_owner_%s_%d%s" % (_k, _f, _s), **_kw)(owner_case(_k, _f))
            scenario("C12_value_%s%s" % (_k, _s), **_kw)(value_case(_k))
            scenario("C12_worker_%s%s" % (_k, _s), **_kw)(worker_case(_k))
