"""C18: the Python multiprocessing backend."""
import unidist
import numpy as np
import simrt
from harness import scenario, expect_eq, expect
from lib import *


def mp(name, **kw):
    kw.setdefault("n", 6)

    def deco(fn):
        scenario(name, env="pymp", kind="pymp", **kw)(fn)
        return fn

    return deco


@mp("C18_chain", check=exactly(add=4, total=1, ident=1, slow=1))
def chain():
    a = add.remote(1, 2)
    b = add.remote(a, 10)
    c = slow.remote(b)
    d = add.remote(c, a)
    e = total.remote(a, b, c, k=d)
    f = add.remote(d, e)
    expect_eq(unidist.get([f, a, d]), [61, 3, 16], "chain")
    expect_eq(unidist.get(ident.remote(e)), 45)


@mp("C18_returns", check=exactly(two=1, three=1, add=2))
def returns():
    x, y = two.remote(3, 4)
    l = three.remote(x)
    expect(nothing.remote(y) is None, "no result expected")
    s = add.remote(l[2], y)
    t = add.remote(l[0], l[1])
    expect_eq(unidist.get([s, t, x]), [21, 15, 7])
    expect_eq(unidist.get(l), [7, 8, 9])


@mp("C18_puts")
def puts():
    p = unidist.put([1, 2])
    q = unidist.put(np.arange(6))
    r = ident.remote(p)
    s = asum.remote(q)
    expect_eq(unidist.get([r, s]), [[1, 2], 15])
    expect_eq(unidist.get([p, p, r]), [[1, 2], [1, 2], [1, 2]])
    expect_eq(unidist.get(q), np.arange(6))


class Inst:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is type(self) and o.v == self.v

    def __call__(self):
        return self.v


VALUES = [b"", b"abc", b"\x80\x04N.", None, True, 1.5, "s", "", [], {}, (), [b"x", (1,)], {"a": {1: b"z"}}, 1 + 2j, {3}, Inst(4),
          ValueError, len, slice(1, 2), range(3), bytearray(b"q")]


@mp("C18_kinds")
def kinds():
    """Values of every picklable kind, put, passed and returned."""
    refs = [unidist.put(v) for v in VALUES]
    expect_eq(unidist.get(refs), VALUES, "put/get")
    for i in range(0, len(VALUES), 3):
        part = [ident.remote(v) for v in VALUES[i:i + 3]]
        expect_eq(unidist.get(part), VALUES[i:i + 3], "returned")


@unidist.remote
def mklambda(k):
    return lambda x: x + k


@unidist.remote
def call(f, x):
    return f(x)


@mp("C18_callables")
def callables():
    f = mklambda.remote(5)
    p = unidist.put(lambda x: x * 2)
    r = call.remote(f, 1)
    s = call.remote(p, 21)
    expect_eq(unidist.get([r, s]), [6, 42])
    expect_eq(unidist.get(f)(3), 8)
    expect_eq(unidist.get(p)(3), 6)

    class Local:
        x = 3

    v = unidist.get(ident.remote(Local()))
    expect_eq(v.x, 3)
    expect_eq(unidist.get(unidist.put(Local()))
              .x, 3)


def raises(exc, args, ref):
    for _ in range(2):
        try:
            v = unidist.get(ref)
        except exc as e:
            expect_eq(e.args, args, "exception arguments")
        else:
            expect(False, "no exception but %r" % (v,))


@mp("C18_fail", check=exactly(boom=1, boom2=1, add=5))
def fail():
    """Failures surface at get, reach dependants only, and leave every worker alive."""
    b = boom.remote()
    c, d = boom2.remote()
    boom0.remote()
    e = add.remote(b, 1)
    f = add.remote(1, c)
    ok = [add.remote(i, 1) for i in range(3)]
    raises(Boom, ("boom", 7), b)
    raises(Boom, ("boom2", 8), c)
    raises(Boom, ("boom2", 8), d)
    expect_eq(unidist.get(ok), [1, 2, 3])
    raises(Boom, ("boom", 7), e)
    raises(Boom, ("boom2", 8), f)
    k = [add.remote(i, 1) for i in range(2)]
    expect_eq(unidist.get(k), [1, 2])


@unidist.remote
def lock_result():
    import _thread

    return _thread.allocate_lock()


class Unpicklable(Exception):
    def __init__(self, a, b):
        super().__init__(a)

    def __reduce__(self):
        raise TypeError("no")


class BadLoad(Exception):
    def __init__(self, a, b):
        super().__init__(a)


@unidist.remote
def raise_unpicklable():
    raise Unpicklable(1, 2)


@unidist.remote
def raise_badload():
    raise BadLoad(1, 2)


@unidist.remote(num_returns=2)
def too_few():
    return [1]


@unidist.remote(num_returns=2)
def not_iterable():
    return 5


def some_exc(ref):
    try:
        v = unidist.get(ref)
    except Exception:
        return
    expect(False, "no exception but %r" % (v,))


@mp("C18_fail_hard")
def fail_hard():
    """Results and exceptions that cannot be sent, too few results."""
    rs = [lock_result.remote(), raise_unpicklable.remote(), raise_badload.remote()]
    t = too_few.remote()
    u = not_iterable.remote()
    for r in rs + u + t[1:]:
        some_exc(r)
    expect_eq(unidist.get([add.remote(i, 1) for i in range(3)]), [1, 2, 3])


def part(ready, rest, refs, k):
    ids = [r._ref for r in refs]
    got = [r._ref for r in ready + rest]
    expect_eq(len(ready), k, "number of ready references")
    expect(sorted(map(repr, got)) == sorted(map(repr, ids)), "wait returned %r for %r" % (got, ids))


@mp("C18_wait")
def wait():
    a = [slow.remote(i) for i in range(4)]
    keep = list(a)
    ready, rest = unidist.wait(a, num_returns=2)
    part(ready, rest, keep, 2)
    expect(all(x is y for x, y in zip(a, keep)) and len(a) == 4, "the caller's list changed")
    expect_eq(unidist.get(keep), [0, 1, 2, 3])
    p = unidist.put(1)
    ready, rest = unidist.wait([p] + keep, num_returns=5)
    part(ready, rest, [p] + keep, 5)
    for k in range(1, 4):
        ready, rest = unidist.wait(keep, num_returns=k)
        part(ready, rest, keep, k)
    ready, rest = unidist.wait(p)
    part(ready, rest, [p], 1)


@mp("C18_wait_failed")
def wait_failed():
    b = boom.remote()
    a = slow.remote(1)
    c, d = boom2.remote()
    refs = [b, a, c, d]
    ready, rest = unidist.wait(refs, num_returns=4)
    part(ready, rest, refs, 4)
    b = boom.remote()
    ready, rest = unidist.wait([b])
    part(ready, rest, [b], 1)
    raises(Boom, ("boom", 7), b)


@mp("C18_wait_unblocked", check=lambda out: None)
def wait_unblocked():
    """wait must not wait for a task that cannot finish before wait has returned."""
    q = unidist.put(0)
    b = blocked.remote(1)
    a = [add.remote(i, 1) for i in range(2)]
    ready, rest = unidist.wait([b, a[0], q, a[1]], num_returns=3)
    part(ready, rest, [b, a[0], q, a[1]], 3)
    expect_eq(rest[0]._ref, b._ref)
    simrt.post("qput", "gate", b"")
    expect_eq(unidist.get(b), 1)


@unidist.remote
def blocked(x):
    """Goes on only after the driver has opened the gate."""
    simrt.call("qget", "gate")
    return x


class Cnt:
    def __init__(self, n=0, step=1):
        self.n = n
        self.step = step

    def inc(self, k=1):
        obs("run", "inc", self.n)
        self.n += k * self.step
        return self.n

    def add_two(self, a, b):
        self.n += a
        m = self.n
        self.n += b
        return m, self.n

    def fail(self):
        obs("run", "afail")
        raise Boom("actor", 1)

    def bytes(self):
        return b"raw"


@mp("C18_actor", n=8, check=exactly(inc=7, afail=1))
def actor():
    A = unidist.remote(Cnt)
    a = A.remote()
    r1 = a.inc.remote()
    b = A.remote(100, step=10)
    x = slow.remote(5)
    r2 = a.inc.remote(x)
    r3 = a.inc.remote()
    s1 = b.inc.remote()
    s2 = b.inc.remote(2)
    f = a.fail.remote()
    y = add.remote(r3, s2)
    r4 = a.inc.remote(0)
    expect_eq(unidist.get([r1, r2, r3, r4]), [1, 6, 7, 7], "actor a")
    expect_eq(unidist.get([s1, s2]), [110, 130], "actor b")
    expect_eq(unidist.get(y), 137)
    raises(Boom, ("actor", 1), f)
    p, q = a.add_two.options(num_returns=2).remote(1, 2)
    expect_eq(unidist.get([p, q]), [8, 10])
    expect(a.inc.options(num_returns=0).remote() is None, "no result expected")
    expect_eq(unidist.get(a.bytes.remote()), b"raw")


@mp("C18_actor_worker", n=10)
def actor_worker():
    """The pool: tasks never run on a worker held by an actor; a dropped actor frees its worker."""
    seq = unidist.get([where.remote() for _ in range(6)])
    expect(seq[:3] == seq[3:] and len(set(seq)) == 3, "no rotation over the pool: %s" % seq)
    a = unidist.remote(Cnt).remote()
    b = unidist.remote(Cnt).remote()
    expect_eq(unidist.get([a.inc.remote(), b.inc.remote()]), [1, 1])
    seq2 = unidist.get([where.remote() for _ in range(3)])
    expect(len(set(seq2)) == 1, "tasks on workers held by actors: %s" % seq2)
    del a
    seq3 = unidist.get([where.remote() for _ in range(4)])
    expect(len(set(seq3)) == 2 and seq3[:2] == seq3[2:], "worker of a dropped actor not reused in rotation: %s" % seq3)
    c = unidist.remote(Cnt).remote(3)
    expect_eq(unidist.get(c.inc.remote()), 4)
    d = unidist.remote(Cnt).remote(8)
    expect_eq(unidist.get(d.inc.remote()), 9)
    for f in (lambda: where.remote(), lambda: unidist.remote(Cnt).remote()):
        try:
            f()
        except RuntimeError:
            continue
        expect(False, "no error although every worker is held by an actor")
    expect_eq(unidist.get([b.inc.remote(), c.inc.remote(), d.inc.remote()]), [2, 5, 10])


@unidist.remote
def where():
    return whoami()
