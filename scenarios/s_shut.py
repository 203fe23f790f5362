"""C15: shutdown."""
import asyncio
import unidist
import numpy as np
from harness import scenario, expect_eq, expect
from lib import *
from s_actor import RAcc, RAA


def both(name, **kw):
    def deco(fn):
        scenario(name, env="base", **kw)(fn)
        scenario(name + "_shm", env="shm", **kw)(fn)
        return fn

    return deco


@both("C15_idle")
def idle():
    pass


@both("C15_unread")
def unread():
    add.remote(1, 2)
    mkarr.remote(30, 1)


@both("C15_pending", n=5)
def pending():
    x = slow.remote(1)
    y = add.remote(x, 1)
    z = total.remote(x, y, k=[y])


@both("C15_arrays", n=4)
def arrays():
    p = unidist.put(np.arange(40))
    a = ident.remote(p)
    b = add.remote(a, p)
    c = asum.remote(b)


@both("C15_actor", n=5)
def actor():
    a = RAcc.remote(1)
    x = slow.remote(1)
    a.add.remote(x)
    r = a.add.remote(2)
    t = total.remote(r)


@both("C15_async", n=4)
def asyn():
    a = RAA.remote()
    w = a.wait_ev.remote(1)
    s = a.sleepy.remote(2)
    t = add.remote(s, 1)
    q = a.quick.remote(3)


@both("C15_async_dead", n=4)
def asyn_dead():
    """A coroutine that never finishes and a task that waits for it."""
    a = RAA.remote()
    w = a.wait_ev.remote(1)
    t = add.remote(w, 1)
    expect_eq(unidist.get(a.quick.remote(3)), 4)


@both("C15_explicit", n=4)
def explicit():
    x = add.remote(1, 2)
    y = add.remote(x, 2)
    unidist.shutdown()
    unidist.shutdown()


@both("C15_explicit_get", n=4)
def explicit_get():
    x = slow.remote(1)
    y = add.remote(x, 2)
    expect_eq(unidist.get(x), 1)
    unidist.shutdown()


@both("C15_gc", n=4)
def gc_():
    from s_gc import litter

    x = slow.remote(1)
    y = add.remote(x, 2)
    for i in range(13):
        unidist.put(np.arange(10))
    litter(3, 6)


@both("C15_nested", n=5)
def nested():
    x = nested_add.remote(1, 2)
    y = add.remote(x, 1)


@both("C15_fail", n=4)
def fail():
    boom.remote()
    boom2.remote()
    x = boom.remote()
    total.remote(x)
