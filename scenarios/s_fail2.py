"""C03: every kind of failing producer x every kind of consumer x every way to pass the reference."""
import asyncio

import unidist
from harness import scenario, expect_eq, expect
from lib import *


@unidist.remote
def late_boom():
    pt("late")
    raise Boom("p", 1)


@unidist.remote(num_returns=2)
def late_boom2():
    pt("late")
    raise Boom("p", 1)


@unidist.remote
def pass_on(x):
    obs("run", "consumer")
    return x


class Prod:
    def bad(self):
        pt("late")
        raise Boom("p", 1)

    async def abad(self):
        await asyncio.sleep(0.5)
        raise Boom("p", 1)

    async def abad_now(self):
        raise Boom("p", 1)

    def ok(self):
        return 1

    # consumers on the actor that failed
    def m(self, *a, **k):
        obs("run", "consumer")
        return 0, 0

    async def am(self, *a, **k):
        obs("run", "consumer")
        return 0, 0


class Cons(Prod):
    pass


@unidist.remote
def f(*a, **k):
    obs("run", "consumer")
    return 0, 0


PRODUCERS = {
    "task": lambda p: late_boom.remote(),
    "task2": lambda p: late_boom2.remote()[1],
    "chain": lambda p: pass_on.remote(late_boom.remote()),
    "method": lambda p: p.bad.remote(),
    "method2": lambda p: p.bad.options(num_returns=2).remote()[0],
    "coro": lambda p: p.abad.remote(),
    "coro2": lambda p: p.abad.options(num_returns=2).remote()[1],
    "coro_now": lambda p: p.abad_now.remote(),
}

PASS = {
    "pos": lambda c, e, o: c(e),
    "kw": lambda c, e, o: c(k=e),
    "second": lambda c, e, o: c(1, e),
    "kw2": lambda c, e, o: c(1, a=2, k=e),
    "pos_ok": lambda c, e, o: c(e, o),
    "ok_pos": lambda c, e, o: c(o, e),
    "ok_kw": lambda c, e, o: c(o, k=e),
    "kw_ok": lambda c, e, o: c(k=e, b=o),
    "kwok_kw": lambda c, e, o: c(b=o, k=e),
    "twice": lambda c, e, o: c(e, k=e),
}


def no_consumer(out):
    n = len(runs(out, "consumer"))
    if n:
        return "a task or call that takes the reference of a failed task ran %d times" % n


def must_raise(refs, what):
    for i, r in enumerate(refs):
        try:
            v = unidist.get(r)
        except Boom as e:
            expect_eq(e.args, ("p", 1), "arguments of the exception (%s)" % what)
            continue
        expect(False, "get returned %r instead of raising (%s, return %d)" % (v, what, i))


def body(prod, when):
    def run():
        p = unidist.remote(Prod).remote()
        c = unidist.remote(Cons).remote()
        cons = [("function", f, 1), ("method", c.m, 1), ("coroutine", c.am, 1), ("own method", p.m, 1), ("own coroutine", p.am, 2),
                ("function", f, 2), ("method", c.m, 2), ("coroutine", c.am, 2)]
        for how, ps in PASS.items():
            e = PRODUCERS[prod](p)
            if when == "known":
                must_raise([e], "producer " + prod)
            ok = slow.remote(5)
            outs = []
            for cn, cc, nr in cons:
                r = ps(cc.options(num_returns=nr).remote, e, ok)
                outs.append((r if nr > 1 else [r], "%s of %s given to a %s as %s" % (prod, when, cn, how)))
            ps(f.options(num_returns=0).remote, e, ok)
            ps(c.m.options(num_returns=0).remote, e, ok)
            ps(c.am.options(num_returns=0).remote, e, ok)
            for rs, what in outs:
                must_raise(rs, what)
            expect_eq(unidist.get(ok), 5)
        expect_eq(unidist.get([p.ok.remote(), c.ok.remote()]), [1, 1], "later calls")
        expect_eq(unidist.get([add.remote(1, 1), add.remote(2, 2)]), [2, 4], "later tasks")

    return run


for _p in PRODUCERS:
    for _w in ("pending", "known"):
        for _e in ("base", "shm"):
            scenario("C03_all_%s_%s%s" % (_p, _w, "_shm" if _e == "shm" else ""), env=_e, n=6, check=no_consumer, cap=10,
                     depth=1)(body(_p, _w))


# ------------------------------------------------------------------ every place where a failure is asked for
@unidist.remote
def asker(h, kind):
    """Asks, inside a task, for the failure of a task or call that it submitted itself."""
    r = {"task": late_boom.remote, "method": h.bad.remote, "coro": h.abad.remote, "coro_now": h.abad_now.remote}[kind]()
    c = f.remote(k=r)
    try:
        unidist.get(c)
        return "no exception for the consumer"
    except Boom as e:
        if e.args != ("p", 1):
            return "wrong arguments"
    try:
        unidist.get(r)
        return "no exception"
    except Boom as e:
        return e.args


def nested(kind):
    def run():
        p = unidist.remote(Prod).remote()
        for _ in range(2):
            expect_eq(unidist.get(asker.remote(p, kind)), ("p", 1))
        expect_eq(unidist.get(p.ok.remote()), 1)

    return run


for _k in ("task", "method", "coro", "coro_now"):
    for _e in ("base", "shm"):
        scenario("C03_nested_%s%s" % (_k, "_shm" if _e == "shm" else ""), env=_e, n=6, check=no_consumer, cap=40, depth=1)(nested(_k))
