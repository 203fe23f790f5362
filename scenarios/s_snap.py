"""C12: objects are snapshots."""
import unidist
import numpy as np
from harness import scenario, expect_eq, expect
from lib import *


def both(name, envs=("base", "shm"), **kw):
    def deco(fn):
        for e in envs:
            scenario(name + ("" if e == "base" else "_" + e), env=e, **kw)(fn)
        return fn

    return deco


@unidist.remote
def dump(x):
    return repr(x if not isinstance(x, np.ndarray) else x.tolist())


@both("C12_put_then_modify")
def put_then_modify():
    """The driver modifies the original after put."""
    a = np.arange(20)
    l = [1, 2, [3]]
    d = {"k": np.arange(15)}
    pa, pl, pd = unidist.put(a), unidist.put(l), unidist.put(d)
    try:
        a[0] = 99
    except ValueError:
        pass
    l[2].append(4)
    l.append(5)
    d["k"][1] = 98
    d["z"] = 1
    expect_eq(unidist.get(dump.remote(pa)), repr(list(range(20))), "array")
    expect_eq(unidist.get(dump.remote(pl)), repr([1, 2, [3]]), "list")
    expect_eq(unidist.get(dump.remote(pd)), repr({"k": np.arange(15)}), "dict")


@unidist.remote
def mklist(n):
    return [n, [n + 1], {"a": np.full(15, n)}]


@unidist.remote
def spoil(x):
    """Modifies its argument as far as that is allowed."""
    damage(x)
    return whoami()


@unidist.remote
def spoil_ret(x):
    damage(x)
    return x


class Keeper:
    def __init__(self, x):
        self.x = x

    def hand(self):
        return self.x

    def change(self):
        damage(self.x)
        return 1


def damage(x):
    try:
        if isinstance(x, np.ndarray):
            x[:] = -7
        elif isinstance(x, list):
            for y in list(x):
                damage(y)
            x.append("spoiled")
        elif isinstance(x, dict):
            for y in list(x.values()):
                damage(y)
            x["spoiled"] = 1
    except (ValueError, TypeError):
        pass


WANT = [3, [4], {"a": np.full(15, 3)}]


def dumps(ref, spoilers, n=3):
    """Readers in processes other than those that modified their copy see the original value."""
    for who, got in unidist.get([wdump.remote(ref) for _ in range(n)]):
        if who not in spoilers:
            expect_eq(got, repr(WANT), "process %d reads what processes %s modified" % (who, spoilers))


@unidist.remote
def wdump(x):
    return whoami(), repr(x)


@both("C12_task_modifies_put", n=5)
def task_modifies_put():
    p = unidist.put([3, [4], {"a": np.full(15, 3)}])
    rs = [spoil.remote(p) for _ in range(2)]
    sp = unidist.get(rs)
    dumps(p, sp)
    expect_eq(unidist.get(p), WANT)
    expect_eq(unidist.get(p), WANT)


@both("C12_got_put_modified")
def got_put_modified():
    """The driver modifies what it put and got back."""
    p = unidist.put([3, [4], {"a": np.full(15, 3)}])
    damage(unidist.get(p))
    a = wdump.remote(p)
    damage(unidist.get(p))
    dumps(p, [])
    expect_eq(unidist.get(a)[1], repr(WANT))


@both("C12_got_result_modified")
def got_result_modified():
    """The driver modifies a result it got."""
    r = mklist.remote(3)
    damage(unidist.get(r))
    dumps(r, [])


@both("C12_got_result_arrays", envs=("shm",))
def got_result_arrays():
    """The driver tries to modify a shared array it got."""
    r = mkarr.remote(20, 3)
    damage(unidist.get(r))
    expect_eq(unidist.get([asum.remote(r), asum.remote(r)]), [60, 60])


@both("C12_task_modifies_result", n=5)
def task_modifies_result():
    """A task running where the object lives modifies it before anyone else fetched it."""
    r = mklist.remote(3)
    sp = unidist.get([spoil.remote(r) for _ in range(3)])
    expect_eq(unidist.get(r), WANT)
    expect_eq(unidist.get(r), WANT)


@both("C12_one_task_modifies_result", n=5)
def one_task_modifies_result():
    r = mklist.remote(3)
    sp = unidist.get([spoil.remote(r)])
    dumps(r, sp, 3)
    expect_eq(unidist.get(r), WANT)


@both("C12_result_passed_on", n=5)
def result_passed_on():
    r = mklist.remote(3)
    s = spoil_ret.remote(r)
    t = mklist.remote(1)
    u = spoil_ret.remote(r)
    unidist.get([s, t, u])
    expect_eq(unidist.get(r), WANT)
    for v in unidist.get([s, u]):
        expect(v[0] == 3 and "spoiled" in v, "wrong result")


@both("C12_actor_state", n=5)
def actor_state():
    """An actor modifies its state after handing it out."""
    k = unidist.remote(Keeper).remote([3, [4], {"a": np.full(15, 3)}])
    h = k.hand.remote()
    unidist.get(k.change.remote())
    expect_eq(unidist.get(h), WANT)
    dumps(h, [])


@both("C12_actor_argument", n=5)
def actor_argument():
    """An actor keeps an argument and modifies it later."""
    r = mklist.remote(3)
    p = unidist.put([3, [4], {"a": np.full(15, 3)}])
    k = unidist.remote(Keeper).remote(r)
    k2 = unidist.remote(Keeper).remote(p)
    unidist.get([k.change.remote(), k2.change.remote()])
    expect_eq(unidist.get([r, p]), [WANT, WANT])


@both("C12_by_value", n=5)
def by_value():
    """Arguments given by value are snapshots taken at the call."""
    a = [3, [4], {"a": np.full(15, 3)}]
    s = wdump.remote(a)
    q = wdump.remote(a)
    damage(a)
    for _, got in unidist.get([s, q]):
        expect_eq(got, repr(WANT))


@unidist.remote
def put_and_change(n):
    """A task that puts an object, modifies its original and hands it to tasks."""
    v = [n, [n + 1], {"a": np.full(15, n)}]
    p = unidist.put(v)
    damage(v)
    return unidist.get(wdump.remote(p)) + (repr(unidist.get(p)),)


@both("C12_worker_put", n=5)
def worker_put():
    _, a, b = unidist.get(put_and_change.remote(3))
    expect_eq(a, repr(WANT))
    expect_eq(b, repr(WANT))


@both("C12_by_value_rndv", envs=("base", "shm"), n=5, cfg={"rndv": 64})
def by_value_rndv():
    """... also when the transfer takes place later."""
    by_value()
    x = np.full(30, 2)
    t = asum.remote(x)
    u = total.remote(k=x)
    x[:] = 0
    expect_eq(unidist.get(t), 60)
    expect_eq(unidist.get(u).tolist(), [2] * 30)


@both("C12_put_rndv", envs=("base", "shm"), n=5, cfg={"rndv": 64})
def put_rndv():
    put_then_modify()
    got_put_modified()


for _f in (task_modifies_put, task_modifies_result, result_passed_on, actor_state, actor_argument):
    both("C12_" + _f.__name__ + "_rndv", n=5, cfg={"rndv": 64})(_f)
