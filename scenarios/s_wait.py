"""C04: wait."""
import unidist
from harness import scenario, expect_eq, expect
from lib import *


def both(name, **kw):
    def deco(fn):
        scenario("C04_" + name, env="base", **kw)(fn)
        scenario("C04_" + name + "_shm", env="shm", **kw)(fn)
        return fn

    return deco


def wait_ok(refs, k, finished=None):
    given = list(refs)
    ready, rest = unidist.wait(given, num_returns=k)
    obs("waited", k)
    expect(isinstance(ready, list) and isinstance(rest, list), "wait must return two lists")
    expect_eq((len(ready), len(rest)), (k, len(refs) - k), "sizes of the two lists")
    for r in refs:
        n = sum(1 for x in ready + rest if x._ref == r._ref)
        expect(n == 1, "reference appears %d times in the result" % n)
    return ready, rest


@unidist.remote
def job(i):
    obs("start", i)
    pt("job")
    obs("fin", i)
    return i * 10


@unidist.remote
def jobf(i):
    pt("job")
    obs("fin", i)
    raise Boom("j", i)


def done_before_wait(out):
    """When wait(k) returned, at least k bodies had finished; with named waits the ready ones had."""
    fin = set()
    for e in out.log:
        if e[1] == "fin":
            fin.add(e[2])
        elif e[1] == "ready":
            for i in e[2]:
                if i not in fin:
                    return "wait reported task %s ready before it finished" % i


def w(refs, k, names):
    ready, rest = wait_ok(refs, k)
    idx = [names[[j for j, x in enumerate(refs) if x._ref == r._ref][0]] for r in ready]
    obs("ready", tuple(idx))
    return ready, rest


@both("each_k", check=done_before_wait)
def each_k():
    refs = [job.remote(i) for i in range(3)]
    ready, rest = w(refs, 1, [0, 1, 2])
    ready, rest = w(refs, 2, [0, 1, 2])
    v = unidist.get(ready)
    ready, rest = w(refs, 3, [0, 1, 2])
    expect_eq(unidist.get(refs), [0, 10, 20])


@both("loop", check=done_before_wait)
def loop():
    """The usual 'while rest: wait' loop."""
    refs = [job.remote(i) for i in range(3)]
    m = {id(r): i for i, r in enumerate(refs)}
    rest = list(refs)
    got = []
    while rest:
        ready, rest = w(rest, 1, [[i for i, x in enumerate(refs) if x._ref == r._ref][0] for r in rest])
        got.append(unidist.get(ready[0]))
    expect_eq(sorted(got), [0, 10, 20])


@both("some_local", check=done_before_wait)
def some_local():
    """Some references are already local or put by the driver."""
    p = unidist.put(7)
    a = job.remote(0)
    b = job.remote(1)
    expect_eq(unidist.get(a), 0)
    ready, rest = wait_ok([b, a, p], 2)
    ready, rest = wait_ok([b, a, p], 3)
    ready, rest = wait_ok([p], 1)
    ready, rest = wait_ok([a, b], 1)
    expect_eq(unidist.get([b, a, p]), [10, 0, 7])


@both("not_blocked", n=5, check=done_before_wait)
def not_blocked():
    """wait(1) must not wait for a task that cannot finish before the driver acts."""
    a = job.remote(0)
    b = job.remote(1)
    c = add.remote(a, b)
    ready, rest = w([c, b, a], 1, [9, 1, 0]) if False else wait_ok([c, b, a], 1)
    ready, rest = wait_ok(rest, 2)
    expect_eq(unidist.get(c), 10)


@both("failed", check=done_before_wait)
def failed():
    a = jobf.remote(0)
    b = job.remote(1)
    c = total.remote(a)
    ready, rest = wait_ok([a, b, c], 2)
    ready, rest = wait_ok([a, b, c], 3)
    expect_eq(unidist.get(b), 10)


@both("multi_returns", check=done_before_wait)
def multi_returns():
    a, b = two.remote(3, 4)
    c = job.remote(2)
    ready, rest = wait_ok([a, b, c], 2)
    ready, rest = wait_ok([c, b], 1)
    ready, rest = wait_ok([c, b, a], 3)
    expect_eq(unidist.get([a, b, c]), [7, 12, 20])


@both("sequence", n=5, check=done_before_wait)
def sequence():
    """Several waits in a row on overlapping sets with new tasks in between."""
    r1 = [job.remote(i) for i in range(2)]
    ready, rest = w(r1, 1, [0, 1])
    r2 = [job.remote(i) for i in range(2, 4)]
    ready, rest2 = wait_ok(rest + r2, 2)
    ready, rest3 = wait_ok(r1 + r2, 3)
    ready, none = wait_ok(r1 + r2, 4)
    expect_eq(unidist.get(r1 + r2), [0, 10, 20, 30])


class Act:
    def __init__(self):
        self.n = 0

    def inc(self):
        pt("m")
        self.n += 1
        obs("fin", "a%d" % self.n)
        return self.n

    async def ainc(self):
        self.n += 1
        return self.n


@both("actors", check=done_before_wait)
def actors():
    act = unidist.remote(Act).remote()
    rs = [act.inc.remote() for _ in range(2)]
    ready, rest = wait_ok(rs, 1)
    expect(ready[0]._ref == rs[0]._ref, "the first call of an actor finishes first")
    x = act.ainc.remote()
    ready, rest = wait_ok([x] + rs, 3)
    expect_eq(unidist.get([x] + rs), [3, 1, 2])


@both("blocked_forever", n=5)
def blocked_forever():
    """wait returns although one of the references can only finish later."""
    act = unidist.remote(Act).remote()
    a = job.remote(0)
    b = job.remote(1)
    ready, rest = wait_ok([a, b], 1)
    c = total.remote(a, b, act.inc.remote())
    ready, rest = wait_ok([c, a], 1)
    ready, rest = wait_ok([c], 1)
    expect_eq(unidist.get(c), 11)
