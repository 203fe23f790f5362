"""C07 (actors) and C08 (asynchronous actor methods)."""
import asyncio
import unidist
import numpy as np
from harness import scenario, expect_eq, expect
from lib import *


def both(name, **kw):
    def deco(fn):
        scenario(name, env="base", **kw)(fn)
        scenario(name + "_shm", env="shm", **kw)(fn)
        return fn

    return deco


class Acc:
    def __init__(self, start=0, *more, **kw):
        obs("init", start, repr(more), repr(sorted(kw.items())))
        self.v = start
        self.hist = []

    def add(self, x):
        obs("enter", id(self) & 0)
        pt("add")
        self.v += x
        self.hist.append(x)
        obs("leave", 0)
        obs("run", "acc", repr(x))
        return self.v

    def get(self):
        return self.v

    def log(self):
        return list(self.hist)

    def pair(self, a):
        return self.v, a

    def arr(self, n):
        return np.full(n, self.v)


RAcc = unidist.remote(Acc)


def no_overlap(out):
    """No two calls of one actor overlap (actors live on different processes)."""
    inside = {}
    for e in out.log:
        if e[1] == "enter":
            if inside.get(e[0]):
                return "two calls overlap on process %d" % e[0]
            inside[e[0]] = True
        elif e[1] == "leave":
            inside[e[0]] = False


def actor_check(n):
    def check(out):
        m = no_overlap(out)
        if m:
            return m
        got = len([e for e in out.log if e[1:3] == ("run", "acc")])
        if got != n:
            return "%d method bodies ran instead of %d" % (got, n)

    return check


@both("C07_order", check=actor_check(4))
def order():
    a = RAcc.remote(100)
    rs = [a.add.remote(k) for k in (1, 2, 3, 4)]
    expect_eq(unidist.get(rs), [101, 103, 106, 110])
    expect_eq(unidist.get(a.log.remote()), [1, 2, 3, 4])


@both("C07_two", n=5, check=actor_check(4))
def two_actors():
    a = RAcc.remote(0)
    b = RAcc.remote(1000)
    rs = [a.add.remote(1), b.add.remote(2), a.add.remote(3), b.add.remote(4)]
    t = total.remote(rs[0], rs[3])
    expect_eq(unidist.get(rs), [1, 1002, 4, 1006])
    expect_eq(unidist.get([a.get.remote(), b.get.remote()]), [4, 1006])
    expect_eq(unidist.get(t), 1007)


@both("C07_refs", n=5, check=actor_check(3))
def refs():
    """Arguments given as references; results used by tasks and by other calls."""
    a = RAcc.remote(0)
    x = slow.remote(5)
    r1 = a.add.remote(x)
    y = add.remote(r1, 1)
    r2 = a.add.remote(y)
    r3 = a.add.remote(r2)
    expect_eq(unidist.get([r3, r2, r1, y]), [22, 11, 5, 6])
    expect_eq(unidist.get(a.get.remote()), 22)


@both("C07_init", n=5)
def init():
    a = RAcc.remote(7, 8, k=[1])
    expect_eq(unidist.get(a.get.remote()), 7)
    b = RAcc.remote(start=3)
    expect_eq(unidist.get(b.get.remote()), 3)
    expect_eq(unidist.get(a.get.remote()), 7)


init_check = [("init", 7, "(8,)", "[('k', [1])]"), ("init", 3, "()", "[]")]


@unidist.remote
def use_handle(h, x):
    return unidist.get(h.add.remote(x))


@unidist.remote
def use_handle_twice(h, x):
    a = h.add.remote(x)
    b = h.add.remote(x * 10)
    return unidist.get([a, b])


@both("C07_handle", n=5, check=actor_check(4))
def handle():
    a = RAcc.remote(0)
    r = use_handle.remote(a, 5)
    expect_eq(unidist.get(r), 5)
    q = a.add.remote(1)
    expect_eq(unidist.get(q), 6)
    s = use_handle_twice.remote(a, 2)
    expect_eq(unidist.get(s), [8, 28])
    expect_eq(unidist.get(a.log.remote()), [5, 1, 2, 20])


@both("C07_handle_conc", n=6, check=actor_check(4))
def handle_conc():
    """Two tasks and the driver use one actor at the same time."""
    a = RAcc.remote(0)
    r = use_handle.remote(a, 1)
    s = use_handle.remote(a, 10)
    q = [a.add.remote(100), a.add.remote(1000)]
    vals = unidist.get([r, s] + q)
    expect_eq(unidist.get(a.get.remote()), 1111)
    log = unidist.get(a.log.remote())
    expect(log.index(100) < log.index(1000), "calls of the driver reordered: %r" % (log,))
    run = 0
    seen = []
    for k in log:
        run += k
        seen.append(run)
    expect_eq(sorted(vals), sorted(seen), "results of concurrent calls")


@both("C07_returns", n=4)
def returns():
    a = RAcc.remote(2)
    x, y = a.pair.options(num_returns=2).remote(9)
    z = a.arr.remote(30)
    w = a.add.options(num_returns=0).remote(1)
    expect(w is None, "num_returns=0")
    expect_eq(unidist.get([x, y]), [2, 9])
    expect_eq(unidist.get(z), np.full(30, 2))
    expect_eq(unidist.get(a.get.remote()), 3)


@both("C07_recreate", n=4)
def recreate():
    """A new actor after dropping the old one starts from fresh state."""
    for k in range(3):
        a = RAcc.remote(k)
        expect_eq(unidist.get(a.add.remote(1)), k + 1)
        b = RAcc.remote(50 + k)
        expect_eq(unidist.get([b.add.remote(1), a.get.remote()]), [51 + k, k + 1])
        del a, b


@both("C07_pending_mix", n=5, check=actor_check(2))
def pending_mix():
    """Calls whose argument is not ready do not block ready ones; all run once."""
    a = RAcc.remote(0)
    x = slow.remote(5)
    r1 = a.add.remote(x)
    r2 = a.add.remote(1)
    expect(unidist.get(r2) in (1, 6), "r2")
    expect(unidist.get(r1) in (5, 6), "r1")
    expect_eq(unidist.get(a.get.remote()), 6)


# ------------------------------------------------------------------ asynchronous
class AA:
    def __init__(self):
        self.ev = None
        self.n = 0

    async def quick(self, x):
        self.n += 1
        return x + 1

    async def sleepy(self, x):
        await asyncio.sleep(0.5)
        self.n += 1
        obs("run", "sleepy", repr(x))
        return x + 10

    async def wait_ev(self, x):
        if self.ev is None:
            self.ev = asyncio.Event()
        await self.ev.wait()
        return x + 100

    async def set_ev(self):
        if self.ev is None:
            self.ev = asyncio.Event()
        self.ev.set()
        return "set"

    async def pair(self, x):
        await asyncio.sleep(0.5)
        return x, x + 1

    async def none(self):
        await asyncio.sleep(0.5)
        self.n += 5

    async def bad(self):
        await asyncio.sleep(0.5)
        raise Boom("async", 1)

    async def bigarr(self, n):
        await asyncio.sleep(0.5)
        return np.arange(n)

    def sync(self, x):
        return x * 2

    def count(self):
        return self.n


RAA = unidist.remote(AA)


@both("C08_event")
def event():
    """A suspended coroutine is woken by a later call; the worker keeps serving."""
    a = RAA.remote()
    w = a.wait_ev.remote(1)
    q = a.quick.remote(1)
    expect_eq(unidist.get(q), 2)
    s = a.set_ev.remote()
    expect_eq(unidist.get(s), "set")
    expect_eq(unidist.get(w), 101)


@both("C08_get_before")
def get_before():
    """The result is asked for while the coroutine is suspended (and before)."""
    a = RAA.remote()
    w = a.sleepy.remote(1)
    expect_eq(unidist.get(w), 11)
    v = a.sleepy.remote(2)
    q = a.quick.remote(5)
    expect_eq(unidist.get([v, q]), [12, 6])
    expect_eq(unidist.get([w, v]), [11, 12])


@both("C08_args", n=5)
def args():
    """Tasks and calls take the result of a running coroutine."""
    a = RAA.remote()
    w = a.sleepy.remote(1)
    t = add.remote(w, 1)
    u = add.remote(t, w)
    c = a.quick.remote(w)
    expect_eq(unidist.get([u, t]), [23, 12])
    expect_eq(unidist.get(c), 12)


@both("C08_arg_same", n=4)
def arg_same():
    """A call of the same actor takes a running coroutine's result; nothing else is sent."""
    a = RAA.remote()
    w = a.sleepy.remote(1)
    c = a.quick.remote(w)
    d = a.sync.remote(c)
    expect_eq(unidist.get(d), 24)


@both("C08_all_kinds")
def kinds():
    a = RAA.remote()
    x, y = a.pair.options(num_returns=2).remote(3)
    b = a.bad.remote()
    n = a.none.options(num_returns=0).remote()
    z = a.bigarr.remote(30)
    s = a.sync.remote(4)
    expect_eq(unidist.get(s), 8)
    expect_eq(unidist.get([y, x]), [4, 3])
    try:
        unidist.get(b)
        expect(False, "no exception")
    except Boom as e:
        expect_eq(e.args, ("async", 1))
    expect_eq(unidist.get(z), np.arange(30))


@both("C08_many", n=5)
def many():
    a = RAA.remote()
    ws = [a.sleepy.remote(i) for i in range(3)]
    ts = [add.remote(ws[i], ws[(i + 1) % 3]) for i in range(2)]
    expect_eq(unidist.get(ts), [21, 23])
    expect_eq(unidist.get(ws), [10, 11, 12])
    expect_eq(unidist.get(a.count.remote()), 3)


@both("C08_wait")
def await_():
    a = RAA.remote()
    w = a.sleepy.remote(1)
    v = a.sleepy.remote(2)
    ready, rest = unidist.wait([w, v], num_returns=1)
    expect_eq((len(ready), len(rest)), (1, 1))
    ready, rest = unidist.wait([w, v], num_returns=2)
    expect_eq((len(ready), len(rest)), (2, 0))
    expect_eq(unidist.get([w, v]), [11, 12])


@both("C08_arg_pending", n=5)
def arg_pending():
    """The coroutine's own argument is late."""
    a = RAA.remote()
    x = slow.remote(1)
    w = a.sleepy.remote(x)
    q = a.quick.remote(w)
    t = add.remote(q, x)
    expect_eq(unidist.get(t), 13)


@unidist.remote
def use_async(h, x):
    r = h.sleepy.remote(x)
    return unidist.get(r)


@both("C08_handle", n=5)
def ahandle():
    a = RAA.remote()
    r = use_async.remote(a, 1)
    q = a.sleepy.remote(2)
    expect_eq(unidist.get([r, q]), [11, 12])


@unidist.remote
def poke(h):
    return unidist.get(h.add.remote(1))


@both("C07_early", n=5, check=actor_check(2))
def early():
    """A task that got the handle calls the actor while its creation is still under way."""
    a = RAcc.remote(40)
    r = poke.remote(a)
    q = a.add.remote(1)
    expect_eq(sorted(unidist.get([r, q])), [41, 42])
