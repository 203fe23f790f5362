"""Remote functions and helpers shared by the scenarios."""
import unidist
from simrt import obs, pt, choose, whoami

import numpy as np


@unidist.remote
def add(a, b):
    obs("run", "add", repr(a), repr(b))
    return a + b


@unidist.remote
def ident(x):
    obs("run", "ident")
    return x


@unidist.remote
def slow(x):
    """A task of unknown duration."""
    obs("start", "slow", repr(x)[:40])
    pt("slow")
    obs("run", "slow", repr(x)[:40])
    return x


@unidist.remote
def total(*args, **kw):
    obs("run", "total")
    return _sum(list(args)) + _sum(kw)


def _sum(v):
    if isinstance(v, (list, tuple)):
        return sum(_sum(x) for x in v)
    if isinstance(v, dict):
        return sum(_sum(x) for x in v.values())
    return v


@unidist.remote
def shape(v, k=None):
    """Structure of the received argument."""
    obs("run", "shape")
    return (v, k)


@unidist.remote(num_returns=2)
def two(a, b):
    obs("run", "two", repr(a), repr(b))
    return a + b, a * b


@unidist.remote(num_returns=3)
def three(a):
    obs("run", "three")
    return [a, a + 1, a + 2]


@unidist.remote
def asum(arr):
    obs("run", "asum")
    return int(arr.sum())


@unidist.remote
def mkarr(n, v):
    obs("run", "mkarr", n, v)
    return np.full(n, v, dtype=np.int64)


class Boom(ValueError):
    pass


@unidist.remote
def boom(*a):
    obs("run", "boom")
    raise Boom("boom", 7)


@unidist.remote(num_returns=2)
def boom2(*a):
    obs("run", "boom2")
    raise Boom("boom2", 8)


@unidist.remote(num_returns=0)
def boom0(*a):
    obs("run", "boom0")
    raise Boom("boom0", 9)


@unidist.remote(num_returns=0)
def nothing(*a):
    obs("run", "nothing")


@unidist.remote
def nested_add(a, b):
    """Submits a task from a worker and waits for it."""
    r = add.remote(a, b)
    v = unidist.get(r)
    obs("run", "nested", v)
    return v


@unidist.remote
def nested_two(a, b):
    x = add.remote(a, b)
    y = add.remote(x, 10)
    return unidist.get([y, x])


@unidist.remote
def nested_put(a):
    r = unidist.put(a)
    x = add.remote(r, 1)
    return unidist.get(x)


def runs(out, name):
    return [e for e in out.log if len(e) > 2 and e[1] == "run" and e[2] == name]


def exactly(**want):
    """Oracle: each named task body ran exactly the given number of times."""

    def check(out):
        for k, n in want.items():
            got = len(runs(out, k))
            if got != n:
                return "task body %s ran %d times instead of %d" % (k, got, n)

    return check


def in_shared(arr):
    """Does the array live in the (simulated) shared memory of this host?"""
    import simrt

    a = arr.__array_interface__["data"][0]
    for pool in simrt.R.pools.values():
        base = np.frombuffer(pool, dtype=np.uint8).ctypes.data
        if base <= a < base + len(pool):
            return True
    return False


@unidist.remote
def arrived_shared(arr):
    return in_shared(arr), int(arr.sum())


def expect_room(nbytes, tries=3):
    """A new object of nbytes finds room in the shared store."""
    from harness import expect

    v = np.ones(nbytes, dtype=np.uint8)
    p = unidist.put(v)
    sh, tot = unidist.get(arrived_shared.remote(p))
    expect(tot == nbytes, "wrong contents")
    expect(sh, "no room for %d bytes in the shared store although everything was dropped" % nbytes)
