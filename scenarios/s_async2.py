"""C08: every kind of coroutine x every way its result is asked for x every moment."""
import asyncio

import numpy as np
import unidist
from harness import scenario, expect_eq, expect
from lib import *


class Co:
    def __init__(self):
        self.ev = None

    def _ev(self):
        if self.ev is None:
            self.ev = asyncio.Event()
        return self.ev

    async def go(self, how, res):
        if how == "held":
            await self._ev().wait()
        elif how == "sleep":
            await asyncio.sleep(0.5)
        elif how == "twice":
            await asyncio.sleep(0.5)
            await self._ev().wait()
        obs("run", "go")
        if res == "bad":
            raise Boom("co", 2)
        if res == "arr":
            return np.arange(30)
        if res == "two":
            return 7, np.arange(25)
        if res == "none":
            return None
        return 7

    async def open(self):
        self._ev().set()
        return "open"

    def take(self, *a, **k):
        return len(a), plain(a[0] if a else k["k"])

    async def atake(self, *a, **k):
        await asyncio.sleep(0.1)
        return len(a), plain(a[0] if a else k["k"])


class Other(Co):
    pass


def plain(x):
    return x.tolist() if isinstance(x, np.ndarray) else x


@unidist.remote
def take(*a, **k):
    return len(a), plain(a[0] if a else k["k"])


@unidist.remote
def opener(h):
    return unidist.get(h.open.remote())


@unidist.remote
def asks(h, how, res):
    """A task that calls the coroutine and waits for it."""
    try:
        return plain(unidist.get(h.go.remote(how, res)))
    except Boom as e:
        return e.args


WANT = {"ok": 7, "arr": list(range(30)), "none": None}
KIND = {"ok": 1, "bad": 1, "arr": 1, "none": 1, "two": 2, "bad2": 2}


def start(a, how, kind):
    r = a.go.options(num_returns=KIND[kind]).remote(how, "bad" if kind == "bad2" else kind)
    return r if KIND[kind] > 1 else [r]


def wanted(kind, i):
    if kind in ("bad", "bad2"):
        return ("co", 2)
    if kind == "two":
        return (7, list(range(25)))[i]
    return WANT[kind]


def value(ref):
    try:
        v = unidist.get(ref)
    except Boom as e:
        return e.args
    return plain(v)


def askers(a, b, r):
    """Requests for r by tasks and actor calls; the results come later."""
    return [(take.remote(r), 1), (take.remote(k=r), 0), (a.take.remote(r), 1), (a.atake.remote(k=r), 0), (b.take.remote(k=r), 0),
            (b.atake.remote(r), 1), (take.remote(r, r), 2)]


def answers(rs, want, what):
    for j, (r, n) in enumerate(rs):
        v = value(r)
        w = want if want == ("co", 2) else (n, want)
        expect_eq(v, w, "%s, asker %d" % (what, j))


def program(how, kind, when):
    def run():
        a = unidist.remote(Co).remote()
        b = unidist.remote(Other).remote()
        rs = start(a, how, kind)
        held = how in ("held", "twice")
        early = []
        if when == "get_first":
            # the driver itself asks while the coroutine is suspended; somebody else wakes it
            if held:
                o = opener.remote(a)
            for i in reversed(range(len(rs))):
                expect_eq(value(rs[i]), wanted(kind, i), "get of the driver")
        elif when == "wait_first":
            if held:
                o = opener.remote(a)
            ready, rest = unidist.wait(list(rs), num_returns=len(rs))
            expect_eq((len(ready), len(rest)), (len(rs), 0))
        elif when == "args_first":
            early = [askers(a, b, r) for r in rs]
            if held:
                # the worker serves other calls meanwhile
                expect_eq(unidist.get(a.take.remote(3)), (1, 3))
                expect_eq(unidist.get(a.open.remote()), "open")
        elif when == "after":
            if held:
                expect_eq(unidist.get(a.open.remote()), "open")
            expect_eq(unidist.get(a.atake.remote(4)), (1, 4))
            expect_eq(unidist.get(a.atake.remote(5)), (1, 5))
        elif when == "list":
            if held:
                o = opener.remote(a)
            try:
                v = unidist.get(list(rs) + list(rs))
                expect_eq([plain(x) for x in v], [wanted(kind, i % len(rs)) for i in range(2 * len(rs))])
            except Boom as e:
                expect_eq(e.args, wanted(kind, 0))
        for i, e in enumerate(early):
            answers(e, wanted(kind, i), "%s %s %s return %d" % (how, kind, when, i))
        for i, r in enumerate(rs):
            expect_eq(value(r), wanted(kind, i), "get")
            answers(askers(a, b, r), wanted(kind, i), "%s %s after %s return %d" % (how, kind, when, i))
        expect_eq(unidist.get(a.take.remote(9)), (1, 9))

    return run


def once(out):
    n = len(runs(out, "go"))
    if n != 1:
        return "the coroutine ran %d times" % n


for _how in ("held", "sleep", "twice", "now"):
    for _k in KIND:
        for _w in ("get_first", "wait_first", "args_first", "after", "list"):
            for _e in ("base", "shm"):
                scenario("C08_%s_%s_%s%s" % (_how, _k, _w, "_shm" if _e == "shm" else ""), env=_e, n=6, check=once,
                         cap=8 if _how != "now" else 3, depth=1)(program(_how, _k, _w))


def nested(how, kind):
    def run():
        a = unidist.remote(Co).remote()
        r = asks.remote(a, how, kind)
        if how == "held":
            # the call of the task may come after this one: both orders are fine
            expect_eq(unidist.get(a.open.remote()), "open")
        expect_eq(unidist.get(r), wanted(kind, 0))
        expect_eq(unidist.get(a.take.remote(9)), (1, 9))

    return run


for _how in ("held", "sleep", "now"):
    for _k in ("ok", "bad", "arr", "none"):
        for _e in ("base", "shm"):
            scenario("C08_task_%s_%s%s" % (_how, _k, "_shm" if _e == "shm" else ""), env=_e, n=5, check=once, cap=20,
                     depth=1)(nested(_how, _k))


# several coroutines at once
def several(kinds):
    def run():
        a = unidist.remote(Co).remote()
        b = unidist.remote(Other).remote()
        rs = [start(a, how, kind) for how, kind in kinds]
        qs = [take.remote(r) for rr in rs for r in rr]
        o = opener.remote(a)
        for j in reversed(range(len(rs))):
            for i, r in enumerate(rs[j]):
                expect_eq(value(r), wanted(kinds[j][1], i), "coroutine %d" % j)
        k = 0
        for j, rr in enumerate(rs):
            for i, r in enumerate(rr):
                w = wanted(kinds[j][1], i)
                expect_eq(value(qs[k]), w if w == ("co", 2) else (1, w))
                k += 1

    return run


for _i, _kinds in enumerate([
    [("held", "ok"), ("sleep", "bad"), ("now", "arr")],
    [("sleep", "bad"), ("sleep", "two"), ("held", "bad2")],
    [("held", "bad"), ("held", "two"), ("held", "none")],
    [("twice", "bad2"), ("now", "bad"), ("sleep", "ok"), ("held", "arr")],
]):
    for _e in ("base", "shm"):
        scenario("C08_several_%d%s" % (_i, "_shm" if _e == "shm" else ""), env=_e, n=6, cap=60, depth=1)(several(_kinds))
