"""C11 (values survive transfer) and C12 (snapshots)."""
import unidist
import numpy as np
from harness import scenario, expect_eq, expect
from lib import *


def both(name, **kw):
    def deco(fn):
        scenario(name, env="base", **kw)(fn)
        scenario(name + "_shm", env="shm", **kw)(fn)
        return fn

    return deco


@both("C11_put_get_pass")
def put_get_pass():
    a = np.arange(50)
    p = unidist.put(a)
    expect_eq(unidist.get(p), np.arange(50))
    expect_eq(unidist.get([asum.remote(p), asum.remote(p), asum.remote(p)]), [1225] * 3)
    expect_eq(unidist.get(p), np.arange(50))


@both("C11_pass_get_pass")
def pass_get_pass():
    a = [np.arange(50), np.arange(3), {"k": np.ones(30)}]
    p = unidist.put(a)
    r = ident.remote(p)
    expect_eq(unidist.get(p), a)
    q = ident.remote(p)
    expect_eq(unidist.get([r, q]), [a, a])
    s = ident.remote(r)
    expect_eq(unidist.get(s), a)
