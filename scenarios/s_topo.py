"""C20: roles of processes for every assignment to hosts; C10: shared objects across hosts."""
import collections

import numpy as np
import unidist
import simrt
from harness import scenario, expect, expect_eq
from lib import *


def assignments(n, maxhosts):
    """Every assignment of n processes to at most maxhosts hosts, up to naming."""

    def go(i, used, cur):
        if i == n:
            yield tuple(cur)
            return
        for h in range(min(used + 1, maxhosts)):
            yield from go(i + 1, max(used, h + 1), cur + [h])

    return go(0, 0, [])


def monitors_of(hosts, shm):
    if not shm:
        return {1}
    by = collections.OrderedDict()
    for r, h in enumerate(hosts):
        by.setdefault(h, []).append(r)
    return {v[1] for v in by.values()}


@unidist.remote
def where(*a):
    obs("run", "where")
    return whoami()


@unidist.remote
def where_sum(arr):
    obs("run", "where_sum")
    return whoami(), int(arr.sum())


def roles(hosts, shm):
    names = ["h%d" % h for h in hosts]
    mon = monitors_of(hosts, shm)
    workers = [r for r in range(1, len(hosts)) if r not in mon]

    def fn():
        cpus = collections.Counter(names[r] for r in workers)
        expect_eq(unidist.cluster_resources(), {h: {"CPU": cpus.get(h, 0)} for h in dict.fromkeys(names)}, "cluster resources")
        if not workers:
            try:
                where.remote()
            except BaseException:
                return
            expect(False, "a task was submitted although there is no worker")
        got = unidist.get([where.remote() for _ in range(2 * len(workers))])
        expect_eq(sorted(got), sorted(workers * 2), "processes the tasks ran on")
        big = unidist.put(np.arange(40))
        res = unidist.get([where_sum.remote(big) for _ in workers])
        expect_eq(sorted(res), [(w, 780) for w in sorted(workers)], "tasks with a shared argument")
        refs = [where.remote(big) for _ in workers]
        ready, rest = unidist.wait(refs, num_returns=len(refs))
        expect_eq((len(ready), len(rest)), (len(refs), 0), "wait")

    return fn


def rejected(hosts):
    def fn():
        try:
            unidist.init()
        except ValueError:
            simrt.call("stop")
        expect(False, "the shared object store was started with a single process on a host")

    return fn


def _register():
    for n in (2, 3, 4, 5, 6):
        for a in assignments(n, 3 if n < 6 else 2):
            nm = "%d_%s" % (n, "".join(map(str, a)))
            tier = "quick"
            scenario("C20_base_" + nm, env="base", n=n, cfg={"hosts": ["h%d" % h for h in a], "slow": False}, depth=0,
                     tier=tier)(roles(a, False))
            ok = all(c >= 2 for c in collections.Counter(a).values())
            scenario(("C20_shm_" if ok else "C20_rej_") + nm, env="shm", n=n, depth=0,
                     cfg={"hosts": ["h%d" % h for h in a], "slow": False}, driver_init=ok,
                     tier=tier)(roles(a, True) if ok else rejected(a))
    for a in assignments(6, 3):
        if all(c >= 2 for c in collections.Counter(a).values()) and max(a) == 2:
            scenario("C20_shm_6_" + "".join(map(str, a)), env="shm", n=6, depth=0,
                     cfg={"hosts": ["h%d" % h for h in a], "slow": False})(roles(a, True))


_register()


# ------------------------------------------------------------------ C10: several hosts
def two_hosts(name, hosts, **kw):
    def deco(fn):
        cfg = {"hosts": ["h%s" % h for h in hosts], "max_steps": 60000}
        cfg.update(kw.pop("cfg", {}))
        scenario(name, env="shm", n=len(hosts), cfg=cfg, **kw)(fn)
        return fn

    return deco


@two_hosts("C10_remote_readers", "000111")
def remote_readers():
    """Two workers of another host read the same object at the same time."""
    p = unidist.put(np.arange(60))
    rs = [asum.remote(p) for _ in range(3)]
    expect_eq(unidist.get(rs), [1770] * 3)
    expect_eq(unidist.get(p), np.arange(60))


@two_hosts("C10_remote_results", "000111")
def remote_results():
    """Results produced on one host are read on the other one and by the driver."""
    xs = [mkarr.remote(30, i) for i in range(3)]
    ys = [asum.remote(x) for x in xs]
    zs = [asum.remote(x) for x in reversed(xs)]
    expect_eq(unidist.get(ys), [0, 30, 60])
    expect_eq(unidist.get(zs), [60, 30, 0])
    for i, x in enumerate(xs):
        expect_eq(unidist.get(x), np.full(30, i, dtype=np.int64))


@two_hosts("C10_remote_interleaved", "010101")
def remote_interleaved():
    p = unidist.put(np.arange(60))
    xs = [mkarr.remote(20, i) for i in range(2)]
    rs = [asum.remote(p), asum.remote(xs[0]), asum.remote(xs[1]), asum.remote(p)]
    expect_eq(unidist.get(rs), [1770, 0, 20, 1770])


@two_hosts("C10_remote_drop", "000111")
def remote_drop():
    """Clean-up on all hosts while objects are created, read and dropped."""
    keep = unidist.put(np.arange(40))
    for i in range(4):
        p = unidist.put(np.full(50, i))
        rs = [asum.remote(p), asum.remote(p), asum.remote(keep)]
        del p
        expect_eq(unidist.get(rs), [50 * i, 50 * i, 780])
        del rs
    expect_eq(unidist.get(keep), np.arange(40))


@unidist.remote
def nested_drop(k):
    """A worker that itself creates and drops shared objects."""
    tot = 0
    for i in range(2):
        p = unidist.put(np.full(30, k + i))
        tot += unidist.get(asum.remote(p))
        del p
    return tot


@two_hosts("C10_remote_nested", "000111")
def remote_nested():
    """Driver and worker both send clean-up lists to the monitors of both hosts."""
    r = nested_drop.remote(1)
    for i in range(2):
        p = unidist.put(np.full(20, i))
        expect_eq(unidist.get(asum.remote(p)), 20 * i)
        del p
    expect_eq(unidist.get(r), 90)
    x = unidist.put(np.arange(40))
    expect_eq(unidist.get([asum.remote(x) for _ in range(3)]), [780] * 3)


@two_hosts("C10_three_hosts", "001122")
def three_hosts():
    p = unidist.put(np.arange(60))
    xs = [mkarr.remote(20, i + 1) for i in range(2)]
    rs = [asum.remote(p) for _ in range(2)] + [asum.remote(x) for x in xs] + [asum.remote(x) for x in xs[::-1]]
    expect_eq(unidist.get(rs), [1770, 1770, 20, 40, 40, 20])


@unidist.remote
def nested_litter(arr):
    """A worker whose own clean-up triggers while it runs."""
    from s_gc import litter

    p = unidist.put(arr + 1)
    for i in range(12):
        unidist.put(i)
    v = unidist.get(asum.remote(p))
    litter(0, 6)
    return v, unidist.get(asum.remote(p))


@unidist.remote
def nested_litter2(n):
    from s_gc import litter

    p = unidist.put(np.arange(n))
    q = unidist.put(np.arange(n))
    del p
    litter(n, 7)
    return int(unidist.get(q).sum())


@two_hosts("C10_two_cleaners", "000111")
def two_cleaners():
    """Clean-up lists of two workers reach the monitors in different orders."""
    a = unidist.put(np.arange(40))
    rs = [nested_litter2.remote(11), nested_litter2.remote(13)]
    expect_eq(unidist.get(rs), [55, 78])
    expect_eq(unidist.get([asum.remote(a), asum.remote(a), asum.remote(a)]), [780] * 3)
