"""C02: every get and wait terminates."""
import unidist
import numpy as np
from harness import scenario, expect_eq, expect
from lib import *


def both(name, **kw):
    def deco(fn):
        scenario("C02_" + name, env="base", **kw)(fn)
        scenario("C02_" + name + "_shm", env="shm", **kw)(fn)
        return fn

    return deco


@both("arg_then_get")
def arg_then_get():
    x = slow.remote(3)
    y = add.remote(x, 1)
    z = add.remote(x, 2)
    expect_eq(unidist.get(x), 3)
    expect_eq(unidist.get([z, y]), [5, 4])


@both("dup")
def dup():
    x = slow.remote(3)
    expect_eq(unidist.get([x, x]), [3, 3])


@both("dup2")
def dup2():
    x = slow.remote(3)
    y = add.remote(x, 1)
    expect_eq(unidist.get([y, x, y, x]), [4, 3, 4, 3])


@both("regets")
def regets():
    x = mkarr.remote(20, 2)
    y = ident.remote(x)
    for _ in range(2):
        expect_eq(unidist.get([x, y]), [np.full(20, 2)] * 2)


@unidist.remote
def get_inside(refs):
    """Fetches references it got wrapped in an object that hides them."""
    return unidist.get(refs[0])


class Box:
    """Opaque container: the references inside are not materialized."""

    def __init__(self, *refs):
        self.refs = list(refs)


@unidist.remote
def get_box(box):
    return unidist.get(box.refs)


@unidist.remote
def sub_box(box):
    r = add.remote(box.refs[0], 100)
    return unidist.get(r)


@unidist.remote
def spawn_ref(a):
    """Returns a reference made by the worker."""
    return Box(add.remote(a, 1))


@both("nested_get_twice", n=5)
def nested_get_twice():
    a = nested_add.remote(1, 2)
    b = nested_add.remote(a, 3)
    expect_eq(unidist.get([b, a]), [6, 3])


@unidist.remote
def nested_dup(a):
    x = add.remote(a, 1)
    y = add.remote(x, x)
    v = unidist.get([x, y, x])
    w, rest = v, None
    return w


@both("nested_dup", n=5)
def nested_dup_s():
    expect_eq(unidist.get(nested_dup.remote(1)), [2, 4, 2])


@unidist.remote
def nested_arg(a, b):
    """Passes its own (materialized) arguments and fresh results on."""
    x = add.remote(a, b)
    y = ident.remote(x)
    z = add.remote(y, x)
    return unidist.get(z)


@both("nested_arg", n=5)
def nested_arg_s():
    x = add.remote(1, 2)
    r = nested_arg.remote(x, 5)
    expect_eq(unidist.get(r), 16)
    q = nested_arg.remote(1, x)
    expect_eq(unidist.get([q, x]), [8, 3])


@both("get_after_push", n=5)
def get_after_push():
    """An object pushed to a worker as an argument is later fetched by name from there."""
    p = unidist.put([1, 2, 3])
    a = ident.remote(p)
    b = add.remote(a, [4])
    c = add.remote(a, [5])
    expect_eq(unidist.get([c, b]), [[1, 2, 3, 5], [1, 2, 3, 4]])
    d = add.remote(b, c)
    expect_eq(unidist.get(d), [1, 2, 3, 4, 1, 2, 3, 5])


@both("wait_get")
def wait_get():
    rs = [slow.remote(i) for i in range(3)]
    ready, rest = unidist.wait(rs, num_returns=2)
    expect_eq((len(ready), len(rest)), (2, 1))
    expect_eq(sorted(unidist.get(ready) + unidist.get(rest)), [0, 1, 2])
    ready, rest = unidist.wait(ready + rest, num_returns=3)
    expect_eq((len(ready), len(rest)), (3, 0))


@both("many_pending", n=5)
def many_pending():
    """Tasks queue up behind one slow producer on several workers."""
    x = slow.remote(1)
    ys = [add.remote(x, i) for i in range(5)]
    zs = [add.remote(ys[i], ys[(i + 1) % 5]) for i in range(3)]
    expect_eq(unidist.get(zs), [3, 5, 7])
    expect_eq(unidist.get(ys), [1, 2, 3, 4, 5])


@both("kwargs_pending")
def kwargs_pending():
    x = slow.remote(1)
    y = slow.remote(2)
    z = total.remote(5, a=x, b=[y, {"q": x}])
    expect_eq(unidist.get(z), 9)


@both("multi_pending", n=5)
def multi_pending():
    x = slow.remote(2)
    a, b = two.remote(x, 3)
    c = add.remote(a, b)
    d = add.remote(b, x)
    expect_eq(unidist.get([d, c, b, a]), [8, 11, 6, 5])
