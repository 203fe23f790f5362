"""C19: concurrent and chunked transfers."""
import unidist
import numpy as np
from harness import scenario, expect, expect_eq
from lib import *
import s_gc


def envs(name, es=("base", "shm"), **kw):
    def deco(fn):
        for e in es:
            scenario(name + ("" if e == "base" else "_" + e), env=e, **kw)(fn)
        return fn

    return deco


def bundle(k, sizes=(0, 1, 7, 64, 65, 200)):
    """Several buffers of different sizes, recognizable by contents."""
    return [np.full(s, (k * 7 + i) % 251, dtype=np.uint8) for i, s in enumerate(sizes)]


@unidist.remote
def mk(k):
    return bundle(k)


@unidist.remote(num_returns=2)
def mk2(k):
    return bundle(k), bundle(k + 1)


@unidist.remote
def gather(*bs):
    """Describe received bundles."""
    return [describe(b) for b in bs]


@unidist.remote
def relay(k, *bs):
    """Gets results of tasks it submits while other data arrives."""
    r = mk.remote(k)
    s = mk.remote(k + 1)
    got = unidist.get([s, r])
    return [describe(b) for b in list(bs) + got]


def describe(b):
    return [(len(a), int(a[0]) if len(a) else None, bool((a == a[:1]).all())) for a in b]


def want(*ks):
    return [describe(bundle(k)) for k in ks]


def senders():
    rs = [mk.remote(k) for k in range(4)]
    g = gather.remote(*rs)
    expect_eq(unidist.get(rs), [bundle(k) for k in range(4)])
    expect_eq(unidist.get(g), want(0, 1, 2, 3))


MODES = [("", {}), ("_rndv", {"rndv": 0}), ("_rndvobj", {"rndv": 0, "rndv_obj": True})]
for _t, _c in MODES:
    envs("C19_senders" + _t, ("base", "base_t0", "shm", "shm_t0"), n=6, cfg=_c)(senders)


def pushes():
    """The driver pushes objects to a worker that another worker sends data to."""
    p = unidist.put(bundle(1))
    q = unidist.put(bundle(2))
    r = mk.remote(3)
    a, b = mk2.remote(4)
    g = gather.remote(p, r, a, bundle(9))
    h = gather.remote(q, b, r, p)
    expect_eq(unidist.get([h, g]), [want(2, 5, 3, 1), want(1, 3, 4, 9)])
    expect_eq(unidist.get([p, q, r, a, b]), [bundle(k) for k in (1, 2, 3, 4, 5)])


for _t, _c in MODES:
    envs("C19_pushes" + _t, ("base", "base_t0", "shm"), n=5, cfg=_c)(pushes)


def nested():
    """A worker in a blocking get is also the receiver of pushed data."""
    p = unidist.put(bundle(1))
    r = mk.remote(3)
    a = relay.remote(10, r)
    b = gather.remote(p, r)
    c = gather.remote(p)
    d = gather.remote(p, bundle(7), r)
    expect_eq(unidist.get([a, b, c, d]), [want(3, 11, 10), want(1, 3), want(1), want(1, 7, 3)])


for _t, _c in MODES[:2]:
    envs("C19_nested" + _t, ("base", "base_t0", "shm"), n=5, cfg=_c)(nested)


class Store:
    def __init__(self):
        self.got = []

    def add(self, b):
        self.got.append(b)
        return b

    def all(self):
        return self.got


def actor():
    """Calls from the driver and from tasks carry data to one actor."""
    act = unidist.remote(Store).remote()
    r = mk.remote(1)
    p = unidist.put(bundle(2))
    xs = [act.add.remote(r), act.add.remote(p), act.add.remote(bundle(3)), act.add.remote(mk.remote(4))]
    expect_eq(unidist.get(xs), [bundle(k) for k in (1, 2, 3, 4)])
    got = sorted(describe(b)[3][1] for b in unidist.get(act.all.remote()))
    expect_eq(got, sorted(describe(bundle(k))[3][1] for k in (1, 2, 3, 4)))


for _t, _c in MODES[:2]:
    envs("C19_actor" + _t, ("base", "shm"), n=5, cfg=_c)(actor)


# ------------------------------------------------------------------ blocks
def cleanup_blocks():
    """Clean-up lists longer than a block."""
    def body(k):
        p = s_gc.make.remote(k)
        expect_eq(unidist.get([s_gc.touch.remote(p), s_gc.touch.remote(p)]), [k, k])

    s_gc.used(14, 2, body)


for _b in (1, 16, 33):
    envs("C19_cleanup_block%d" % _b, ("base", "shm"), n=4, cap=20, cfg={"max_steps": 300000, "slow": False, "blocksize": _b})(cleanup_blocks)


@unidist.remote
def asum_at(a, n):
    return whoami(), int(a.sum()), len(a), in_shared(a)


def blocks(lo, hi):
    """Shared objects read on another host, of every size around multiples of the block size."""
    def fn():
        for n in range(lo, hi):
            v = np.arange(n, dtype=np.uint8)
            p = unidist.put(v)
            for w, s, l, sh in unidist.get([asum_at.remote(p, n) for _ in range(2)]):
                expect(s == int(v.sum()) and l == n, "process %d read a wrong copy of %d bytes" % (w, n))

    return fn


for _b, _lo in ((32, 65), (7, 65), (64, 100)):
    scenario("C19_blocks%d" % _b, env="shm", n=6, cap=6, cfg={"hosts": ["h0", "h0", "h0", "h1", "h1", "h1"], "blocksize": _b,
             "max_steps": 300000, "slow": False})(blocks(_lo, _lo + 66))
scenario("C19_blocks5_t0", env="shm_t0", n=6, cap=6, cfg={"hosts": ["h0", "h0", "h0", "h1", "h1", "h1"], "blocksize": 5,
         "max_steps": 300000, "slow": False})(blocks(0, 40))
