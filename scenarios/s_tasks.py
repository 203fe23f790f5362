"""C01: task graphs on MPI."""
import unidist
import numpy as np
from harness import scenario, expect_eq, expect
from lib import *


def both(name, **kw):
    def deco(fn):
        scenario("C01_" + name, env="base", **kw)(fn)
        scenario("C01_" + name + "_shm", env="shm", **kw)(fn)
        return fn

    return deco


@both("chain", check=exactly(add=3))
def chain():
    x = add.remote(1, 2)
    y = add.remote(x, 3)
    z = add.remote(x, y)
    expect_eq(unidist.get(z), 9, "z")
    expect_eq(unidist.get([y, x]), [6, 3], "y,x")


@both("fan", n=5, check=exactly(add=4, total=1))
def fan():
    a = add.remote(1, 0)
    b = add.remote(a, 10)
    c = add.remote(a, 20)
    d = add.remote(b, c)
    t = total.remote(a, b, c, k=d)
    expect_eq(unidist.get(t), 1 + 11 + 21 + 32, "t")
    expect_eq(unidist.get(d), 32, "d")


@both("containers", check=exactly(add=2, shape=1, total=1))
def containers():
    x = add.remote(1, 2)
    y = add.remote(10, 20)
    s = shape.remote([x, (y, x), {"a": y, "b": [x]}], k={"q": (x,)})
    t = total.remote(x, [y, [x]], (y,), k={"a": x})
    expect_eq(unidist.get(s), ([3, (30, 3), {"a": 30, "b": [3]}], {"q": (3,)}), "containers")
    expect_eq(unidist.get(t), 3 + 30 + 3 + 30 + 3, "total")


@both("multi", check=exactly(two=2, three=1, add=2))
def multi():
    a, b = two.remote(2, 3)
    c, d = two.remote(a, b)
    e, f, g = three.remote(b)
    h = add.remote(c, g)
    i = add.remote(f, d)
    expect_eq(unidist.get([a, b, c, d, e, f, g, h, i]), [5, 6, 11, 30, 6, 7, 8, 19, 37], "multi")


@both("arrays", check=exactly(mkarr=1, asum=2, add=1, ident=1))
def arrays():
    big = np.arange(40, dtype=np.int64)
    p = unidist.put(big)
    q = mkarr.remote(40, 3)
    s1 = asum.remote(p)
    w = add.remote(p, q)
    s2 = asum.remote(w)
    i = ident.remote(q)
    expect_eq(unidist.get([s1, s2]), [780, 900], "sums")
    expect_eq(unidist.get(w), big + 3, "w")
    expect_eq(unidist.get(i), np.full(40, 3, dtype=np.int64), "i")
    expect_eq(unidist.get(p), big, "p")


@both("put_shared", check=exactly(add=4))
def put_shared():
    p = unidist.put(5)
    rs = [add.remote(p, k) for k in range(4)]
    expect_eq(unidist.get(rs), [5, 6, 7, 8], "rs")


@both("twice", check=exactly(add=4))
def twice():
    x = add.remote(1, 1)
    y = add.remote(x, x)
    z = add.remote(y, y)
    w = add.remote(y, z)
    expect_eq(unidist.get([w, z, y]), [12, 8, 4], "twice")


@both("nested", n=5, check=exactly(add=3, nested=1))
def nested():
    x = add.remote(1, 2)
    y = nested_add.remote(x, 4)
    z = add.remote(y, 5)
    expect_eq(unidist.get([z, y, x]), [12, 7, 3], "nested")


@both("nested2", n=5, check=exactly(add=4))
def nested2():
    x = add.remote(1, 2)
    y = nested_two.remote(x, 4)
    z = nested_put.remote(3)
    expect_eq(unidist.get(y), [17, 7], "nested2")
    expect_eq(unidist.get(z), 4, "nested2z")


@both("values", check=exactly(shape=3))
def values():
    v1 = [1, "s", b"b", 2.5, None, True, {"k": [1, (2,)]}]
    r = shape.remote(v1, k=("a", {"b": 1}))
    r2 = shape.remote({}, k=[])
    r3 = shape.remote((), k={1: 2, "x": ()})
    expect_eq(unidist.get([r, r2, r3]), [(v1, ("a", {"b": 1})), ({}, []), ((), {1: 2, "x": ()})], "values")
