"""C05 (nothing needed is reclaimed) and C06 (garbage is reclaimed)."""
import unidist
import numpy as np
from harness import scenario, expect_eq, expect
from lib import *


def both(name, **kw):
    def deco(fn):
        scenario(name, env="base", **kw)(fn)
        scenario(name + "_shm", env="shm", **kw)(fn)
        return fn

    return deco


def litter(n=12, calls=6):
    """Drop n references and make enough API calls for the clean-up to trigger."""
    for i in range(n):
        unidist.put(i)
    p = unidist.put("tick")
    for _ in range(calls):
        unidist.get(p)


@both("C05_held", n=4)
def held():
    x = add.remote(1, 2)
    p = unidist.put([7])
    m = mkarr.remote(20, 3)
    litter()
    expect_eq(unidist.get(x), 3)
    y = add.remote(x, 1)
    litter()
    z = add.remote(y, x)
    q = add.remote(p, [8])
    litter()
    expect_eq(unidist.get([z, y, x]), [7, 4, 3])
    expect_eq(unidist.get([q, p]), [[7, 8], [7]])
    expect_eq(unidist.get(asum.remote(m)), 60)
    litter()
    expect_eq(unidist.get(m), np.full(20, 3))


@both("C05_dropped_args", n=5)
def dropped_args():
    """The driver drops every reference right after passing it on."""
    x = add.remote(1, 2)
    y = slow.remote(x)
    z = add.remote(y, x)
    p = unidist.put(100)
    w = add.remote(z, p)
    del x, y, z, p
    litter()
    expect_eq(unidist.get(w), 106)


class Cnt:
    def __init__(self):
        self.n = 0

    def inc(self, k=1):
        self.n += k
        return self.n

    async def ainc(self, k=1):
        self.n += k
        return self.n


@both("C05_actor_counter", n=5)
def actor_counter():
    """Actor calls must not make unfinished tasks look finished."""
    act = unidist.remote(Cnt).remote()
    expect_eq(unidist.get(act.inc.remote()), 1)
    x = slow.remote(5)
    t = total.remote(x, 1)
    del x
    litter()
    expect_eq(unidist.get(t), 6)


@both("C05_actor_counter2", n=5)
def actor_counter2():
    act = unidist.remote(Cnt).remote()
    x = mkarr.remote(20, 1)
    expect_eq(unidist.get([act.inc.remote(), act.ainc.remote()]), [1, 2])
    y = slow.remote(x)
    t = asum.remote(y)
    u = asum.remote(x)
    del x, y
    litter()
    expect_eq(unidist.get([t, u]), [20, 20])


@both("C05_actor_args", n=5)
def actor_args():
    """Dropped arguments of unfinished actor calls stay available."""
    act = unidist.remote(Cnt).remote()
    x = slow.remote(5)
    r = act.inc.remote(x)
    p = add.remote(1, 1)
    q = act.inc.remote(p)
    del x, p
    litter()
    expect_eq(sorted(unidist.get([r, q])), sorted(unidist.get([r, q])))
    expect(unidist.get(act.inc.remote(0)) == 7, "sum")


@both("C05_nested", n=5)
def nested():
    """Submissions made by workers do not make the driver's tasks look finished."""
    r = nested_add.remote(1, 2)
    expect_eq(unidist.get(r), 3)
    x = slow.remote(5)
    t = total.remote(x, 1)
    del x
    litter()
    expect_eq(unidist.get(t), 6)


@both("C05_failed", n=4)
def failed():
    b = boom.remote()
    nothing.remote()
    x = slow.remote(5)
    t = total.remote(x, 1)
    del x, b
    litter()
    expect_eq(unidist.get(t), 6)


@both("C05_gets", n=4)
def gets():
    """Values obtained by get stay usable after their references are dropped."""
    vals = []
    for i in range(3):
        r = mkarr.remote(20, i)
        vals.append(unidist.get(r))
        p = unidist.put(np.full(20, 10 + i))
        vals.append(unidist.get(p))
        del r, p
        litter(6)
    q = [unidist.put(np.full(20, 99)) for _ in range(4)]
    s = [mkarr.remote(20, 77) for _ in range(2)]
    unidist.get(s)
    for i in range(3):
        expect_eq(vals[2 * i], np.full(20, i), "value %d" % i)
        expect_eq(vals[2 * i + 1], np.full(20, 10 + i), "put value %d" % i)


# ------------------------------------------------------------------ C06
class Tracked:
    """Counts its live copies per process."""

    live = 0

    def __init__(self, tag, pad=0):
        self.tag = tag
        self.pad = b"x" * pad
        Tracked.live += 1

    def __setstate__(self, st):
        self.__dict__.update(st)
        Tracked.live += 1

    def __getstate__(self):
        return self.__dict__

    def __del__(self):
        Tracked.live -= 1


import lib as _lib

_lib.Tracked = Tracked


@unidist.remote
def touch(x):
    return x.tag


@unidist.remote
def make(i):
    import s_gc

    return s_gc.Tracked(i)


@unidist.remote
def census(_):
    """What this worker still stores: live tracked objects and entries of its store."""
    import gc
    import s_gc
    from unidist.core.backends.mpi.core.local_object_store import LocalObjectStore

    gc.collect()
    n = 0
    for v in vars(LocalObjectStore.get_instance()).values():
        try:
            n = max(n, len(v))
        except TypeError:
            pass
    return whoami(), s_gc.Tracked.live, n


def settle(workers, rounds=4):
    for _ in range(rounds):
        litter(12, 8)
    cs = {}
    while len(cs) < workers:
        w, live, n = unidist.get(census.remote(0))
        cs[w] = (live, n)
    return cs


def used(rounds, workers, body, lim_live=2, lim_n=40):
    for k in range(rounds):
        body(k)
    cs = settle(workers)
    for w, (live, n) in sorted(cs.items()):
        expect(live <= lim_live, "worker %d still stores %d dropped objects" % (w, live))
        expect(n <= lim_n, "worker %d still has %d entries in its object store" % (w, n))
    expect(Tracked.live <= lim_live, "the driver still stores %d dropped objects" % Tracked.live)
    room()


def room():
    import os

    if os.environ.get("UNIDIST_MPI_SHARED_OBJECT_STORE") == "True":
        for _ in range(4):
            for _ in range(2):
                litter(12, 8)
            unidist.get([census.remote(0) for _ in range(4)])
        litter(12, 8)
        expect_room(6000)


@both("C06_puts", n=4, cfg={"max_steps": 200000, "slow": False})
def puts():
    def body(k):
        p = unidist.put(Tracked(k))
        expect_eq(unidist.get([touch.remote(p), touch.remote(p)]), [k, k])

    used(30, 2, body)


@both("C06_results", n=4, cfg={"max_steps": 200000, "slow": False})
def results():
    def body(k):
        p = make.remote(k)
        q = touch.remote(p)
        s = touch.remote(p)
        expect_eq(unidist.get([q, s]), [k, k])

    used(30, 2, body)


@both("C06_actor", n=5, cfg={"max_steps": 200000, "slow": False})
def actor():
    """Using an actor does not switch reclamation off."""
    act = unidist.remote(Cnt).remote()

    def body(k):
        p = make.remote(k)
        unidist.get(act.inc.remote())
        unidist.get(touch.remote(p))

    for k in range(30):
        body(k)
    del act
    used(0, 3, None)


@both("C06_async_actor", n=5, cfg={"max_steps": 200000, "slow": False})
def async_actor():
    act = unidist.remote(Cnt).remote()

    def body(k):
        p = make.remote(k)
        unidist.get(act.ainc.remote())
        unidist.get(touch.remote(p))

    for k in range(30):
        body(k)
    del act
    used(0, 3, None)


@both("C06_nested", n=5, cfg={"max_steps": 200000, "slow": False})
def nested_use():
    """Tasks that submit tasks do not switch reclamation off."""

    def body(k):
        p = make.remote(k)
        if k % 10 == 0:
            unidist.get(nested_add.remote(k, 1))
        unidist.get(touch.remote(p))

    used(30, 3, body)


@both("C06_failing", n=4, cfg={"max_steps": 200000, "slow": False})
def failing():
    """Failing and result-less tasks do not switch reclamation off."""

    def body(k):
        p = make.remote(k)
        boom.remote(p)
        nothing.remote(p)
        boom0.remote()
        unidist.get(touch.remote(p))

    used(15, 2, body)


@both("C06_failed_gets", n=4, cfg={"max_steps": 200000, "slow": False})
def failed_gets():
    """Raising an exception of a task does not keep alive what the caller of get had at hand."""

    def body(k):
        p = make.remote(k)
        b = boom.remote(p)
        for what in (b, [p, b], b):
            try:
                unidist.get(what)
                expect(False, "no exception")
            except Boom:
                pass
        c = total.remote(b)
        try:
            unidist.get(c)
            expect(False, "no exception")
        except Boom:
            pass
        expect_eq(unidist.get(touch.remote(p)), k)

    used(15, 2, body)


@unidist.remote
def catches(p):
    q = unidist.put(Tracked(1))
    b = boom.remote(q)
    try:
        unidist.get(b)
    except Boom as e:
        return len(e.args)


@scenario("C06_failed_nested", env="base", n=5, cfg={"max_steps": 200000, "slow": False})
def failed_nested():
    """... also inside tasks."""

    def body(k):
        p = make.remote(k)
        if k % 2 == 0:
            expect_eq(unidist.get(catches.remote(p)), 2)
        expect_eq(unidist.get(touch.remote(p)), k)

    used(60, 3, body, lim_live=20, lim_n=100)


@scenario("C09_shm_reuse", env="shm", n=4, cfg={"max_steps": 200000, "slow": False})
@scenario("C06_shm_reuse", env="shm", n=4, cfg={"max_steps": 200000, "slow": False})
def shm_reuse():
    """Far more shared memory is used in total than the store has."""
    for k in range(60):
        p = unidist.put(np.full(40, k))
        q = asum.remote(p)
        expect_eq(unidist.get(q), 40 * k)
        for _ in range(3):
            unidist.get(p)
    del p, q
    room()


@scenario("C06_shm_reuse_results", env="shm", n=4, cfg={"max_steps": 200000, "slow": False})
def shm_reuse_results():
    for k in range(90):
        p = mkarr.remote(20, k)
        expect_eq(unidist.get(p), np.full(20, k))
        for _ in range(3):
            unidist.get(p)
    del p
    room()


@unidist.remote
def asum_of(*arrs):
    return [int(a.sum()) for a in arrs]


@scenario("C10_full", env="shm", n=4, cfg={"max_steps": 60000})
def full():
    """More live objects than the shared store can hold: the surplus travels without it."""
    ps = [unidist.put(np.full(300, k)) for k in range(5)]
    rs = [mkarr.remote(300, 10 + k) for k in range(5)]
    s = asum_of.remote(*(ps + rs))
    expect_eq(unidist.get(s), [300 * k for k in range(5)] + [300 * (10 + k) for k in range(5)])
    expect_eq(unidist.get(ps), [np.full(300, k) for k in range(5)])
    expect_eq(unidist.get(rs), [np.full(300, 10 + k) for k in range(5)])


# ------------------------------------------------------------------ references in cycles
def cyc(*refs):
    """Drop references that only the cyclic garbage collector can find."""
    l = list(refs)
    l.append(l)


def collect():
    import gc
    import simrt

    gc.collect()
    simrt.R.gc_armed = False


def no_auto_gc():
    import gc

    gc.set_threshold(10**8)


@unidist.remote
def alive(_):
    import s_gc

    return whoami(), s_gc.Tracked.live


def cyclic(n):
    """References dropped in a cycle: the collector finds them at any MPI call, clean-ups in progress included."""
    import gc
    from simrt import arm_gc

    no_auto_gc()
    a = [make.remote(i) for i in range(n)]
    expect_eq(unidist.get([touch.remote(x) for x in a]), list(range(n)))
    for i in range(11):
        unidist.put(i)
    gc.collect()
    cyc(*a)
    del a
    arm_gc()
    p = unidist.put("tick")
    for _ in range(7):
        unidist.get(p)
    collect()
    for k in range(4):
        litter(12, 8)
    cs = {}
    while len(cs) < 2:
        w, live = unidist.get(alive.remote(0))
        cs[w] = live
    for w, live in sorted(cs.items()):
        expect(live == 0, "worker %d still stores %d dropped objects" % (w, live))
    room()


@both("C06_cyclic", n=4, cfg={"max_steps": 200000, "slow": False}, depth=1)
def cyclic4():
    cyclic(4)


@scenario("C06_cyclic_arrays", env="shm", n=4, cfg={"max_steps": 200000, "slow": False}, depth=1, cap=1200)
def cyclic_shm():
    """References to shared arrays found by the collector at any MPI call of the driver."""
    import gc
    from simrt import arm_gc

    no_auto_gc()
    # functions are kept for good: place them first
    unidist.get([asum.remote(mkarr.remote(2, 1)), census.remote(0), arrived_shared.remote(np.zeros(1))])
    keep = unidist.put(np.arange(30))
    k2 = unidist.get(keep)
    ps = [unidist.put(np.full(700, j)) for j in range(2)]
    vs = unidist.get(ps)
    expect_eq(vs, [np.full(700, j) for j in range(2)])
    cyc(ps, vs)
    del ps, vs
    arm_gc()
    q = mkarr.remote(30, 5)
    r = unidist.put(np.full(50, 9))
    expect_eq(unidist.get(q), np.full(30, 5))
    expect_eq(unidist.get(asum.remote(r)), 450)
    del q, r
    collect()
    expect_eq(k2, np.arange(30))
    expect_eq(unidist.get(keep), np.arange(30))
    del k2, keep
    room()
