"""C03: failures."""
import threading
import unidist
import numpy as np
from harness import scenario, expect_eq, expect
from lib import *


def both(name, **kw):
    def deco(fn):
        scenario("C03_" + name, env="base", **kw)(fn)
        scenario("C03_" + name + "_shm", env="shm", **kw)(fn)
        return fn

    return deco


def raises(ref, args, typ=Boom, what=""):
    try:
        v = unidist.get(ref)
    except typ as e:
        expect_eq(e.args, args, "arguments of the re-raised exception " + what)
        expect(type(e) is typ, "type of the re-raised exception %r" % type(e))
        return
    expect(False, "get returned %r instead of raising %s" % (v, what))


@both("simple")
def simple():
    a = boom.remote()
    b = add.remote(1, 2)
    raises(a, ("boom", 7))
    expect_eq(unidist.get(b), 3)
    raises(a, ("boom", 7), what="second get")
    expect_eq(unidist.get([add.remote(1, 1), add.remote(2, 2)]), [2, 4])


@both("propagate", check=exactly(boom=1, add=1, total=0))
def propagate():
    a = boom.remote()
    ok = add.remote(5, 6)
    b = total.remote(a, 1)
    c = total.remote(1, k=a)
    d = total.remote(b, ok)
    raises(d, ("boom", 7), what="through two tasks")
    raises(c, ("boom", 7), what="keyword argument")
    raises(b, ("boom", 7))
    expect_eq(unidist.get(ok), 11)


@both("returns2")
def returns2():
    a, b = boom2.remote()
    c = total.remote(b)
    ok = add.remote(1, 1)
    raises(b, ("boom2", 8))
    raises(a, ("boom2", 8))
    raises(c, ("boom2", 8))
    expect_eq(unidist.get(ok), 2)


@both("returns0")
def returns0():
    for _ in range(3):
        r = boom0.remote()
        expect(r is None, "num_returns=0 gave %r" % (r,))
    expect_eq(unidist.get([add.remote(1, 1), add.remote(2, 2)]), [2, 4])


@both("wait_failed")
def wait_failed():
    a = boom.remote()
    ready, rest = unidist.wait([a], num_returns=1)
    expect_eq((len(ready), len(rest)), (1, 0))
    raises(a, ("boom", 7))


@both("wait_failed2")
def wait_failed2():
    a = boom.remote()
    x, y = boom2.remote()
    b = slow.remote(1)
    ready, rest = unidist.wait([b, a, x, y], num_returns=4)
    expect_eq((len(ready), len(rest)), (4, 0))
    expect_eq(unidist.get(b), 1)


@both("get_list")
def get_list():
    a = boom.remote()
    b = add.remote(1, 2)
    raises([b, a], ("boom", 7), what="list")
    expect_eq(unidist.get(b), 3, "the other reference of a failed list get")
    raises([b, a], ("boom", 7), what="list again")


class A:
    def __init__(self):
        self.n = 0

    def inc(self):
        self.n += 1
        return self.n

    def bad(self):
        self.n += 10
        raise Boom("bad", 1)

    def bad0(self):
        self.n += 100
        raise Boom("bad0", 1)

    def bad2(self):
        raise Boom("bad2", 2)

    async def ainc(self):
        self.n += 1
        return self.n

    async def abad(self):
        self.n += 10
        raise Boom("abad", 3)

    async def abad2(self):
        raise Boom("abad2", 4)

    async def anone(self):
        self.n += 1000


@both("actor")
def actor():
    act = unidist.remote(A).remote()
    a = act.inc.remote()
    b = act.bad.remote()
    c = act.inc.remote()
    raises(b, ("bad", 1))
    expect_eq(unidist.get([a, c]), [1, 12])
    t = total.remote(b)
    raises(t, ("bad", 1))


@both("actor0")
def actor0():
    act = unidist.remote(A).remote()
    r = act.bad0.options(num_returns=0).remote()
    expect(r is None, "num_returns=0 gave %r" % (r,))
    x, y = act.bad2.options(num_returns=2).remote()
    raises(x, ("bad2", 2))
    raises(y, ("bad2", 2))
    expect_eq(unidist.get(act.inc.remote()), 101)


@both("async_actor")
def async_actor():
    act = unidist.remote(A).remote()
    b = act.abad.remote()
    c = act.ainc.remote()
    raises(b, ("abad", 3))
    expect_eq(unidist.get(c), 11)
    ready, rest = unidist.wait([b, c], num_returns=2)
    expect_eq((len(ready), len(rest)), (2, 0))


@both("async_actor_wait")
def async_actor_wait():
    act = unidist.remote(A).remote()
    b = act.abad.remote()
    ready, rest = unidist.wait([b], num_returns=1)
    expect_eq((len(ready), len(rest)), (1, 0))
    x, y = act.abad2.options(num_returns=2).remote()
    raises(y, ("abad2", 4))
    raises(x, ("abad2", 4))
    expect(act.anone.options(num_returns=0).remote() is None, "num_returns=0")
    expect(act.abad.options(num_returns=0).remote() is None, "num_returns=0")
    expect_eq(unidist.get(act.ainc.remote()), 1021)


@both("async_arg")
def async_arg():
    act = unidist.remote(A).remote()
    b = act.abad.remote()
    t = total.remote(b, 1)
    raises(t, ("abad", 3))


class NoPickle(Exception):
    def __init__(self, a, b):
        super().__init__("no")
        self.lock = threading.Lock()


@unidist.remote
def raise_unpicklable():
    raise NoPickle(1, 2)


@unidist.remote
def return_unpicklable():
    return threading.Lock()


@unidist.remote(num_returns=2)
def too_few():
    return [1]


@unidist.remote(num_returns=2)
def not_iterable():
    return 5


def survives(ref):
    try:
        unidist.get(ref)
    except Exception:
        pass
    else:
        expect(False, "get returned a value for a failed task")
    expect_eq(unidist.get([add.remote(1, 1), add.remote(2, 2), add.remote(3, 3)]), [2, 4, 6], "later tasks")


@both("unpicklable_exc")
def unpicklable_exc():
    survives(raise_unpicklable.remote())


@both("unpicklable_result")
def unpicklable_result():
    survives(return_unpicklable.remote())


@both("too_few")
def too_few_s():
    a, b = too_few.remote()
    survives(b)


@both("not_iterable")
def not_iterable_s():
    a, b = not_iterable.remote()
    survives(b)
    survives(a)


class BadInit:
    def __init__(self):
        raise Boom("init", 5)

    def m(self):
        return 1


@both("actor_init", n=5)
def actor_init():
    act = unidist.remote(BadInit).remote()
    r = act.m.remote()
    try:
        unidist.get(r)
        expect(False, "method of an actor whose constructor failed returned")
    except Exception:
        pass
    del act
    expect_eq(unidist.get([add.remote(1, 1), add.remote(2, 2), add.remote(3, 3)]), [2, 4, 6], "later tasks")


@unidist.remote
def nested_fail():
    try:
        unidist.get(boom.remote())
    except Boom as e:
        return e.args
    return None


@unidist.remote
def nested_reraise():
    return unidist.get(boom.remote())


@both("nested", n=5)
def nested():
    expect_eq(unidist.get(nested_fail.remote()), ("boom", 7))
    raises(nested_reraise.remote(), ("boom", 7))


@unidist.remote
def return_exc():
    return Boom("value", 1)
