"""C04: every combination of states of the given references, every k."""
import asyncio
import itertools

import unidist
from harness import scenario, expect_eq, expect
from lib import *


class Gate:
    """Calls of `hold` end only when `open` was called."""

    def __init__(self):
        self.ev = None

    async def hold(self, i):
        if self.ev is None:
            self.ev = asyncio.Event()
        await self.ev.wait()
        return i

    async def open(self):
        if self.ev is None:
            self.ev = asyncio.Event()
        self.ev.set()
        return "open"

    async def bad(self):
        raise Boom("w", 1)


KINDS = {
    "put": "put object",
    "local": "result already fetched",
    "done": "finished, not fetched",
    "run": "finishes by itself",
    "fail": "failed",
    "afail": "failed coroutine",
    "held": "cannot finish before the driver acts",
}


def make(kind, gate, i):
    if kind == "put":
        return unidist.put(i)
    if kind == "local":
        r = ident.remote(i)
        expect_eq(unidist.get(r), i)
        return r
    if kind == "done":
        r = ident.remote(i)
        ready, rest = unidist.wait([r], num_returns=1)
        expect_eq((len(ready), len(rest)), (1, 0), "wait for one")
        return r
    if kind == "run":
        return slow.remote(i)
    if kind == "fail":
        return boom.remote()
    if kind == "afail":
        return gate.bad.remote()
    return gate.hold.remote(i)


def same(r, q):
    return r._ref == q._ref


def wait_one(refs, kinds, k, what):
    given = list(refs)
    ready, rest = unidist.wait(given, num_returns=k)
    expect_eq((len(ready), len(rest)), (k, len(refs) - k), "sizes of the two lists (%s)" % what)
    for r, kd in zip(refs, kinds):
        n = sum(1 for x in list(ready) + list(rest) if same(x, r))
        expect(n == 1, "reference (%s) appears %d times in the result of wait (%s)" % (kd, n, what))
        if kd == "held":
            expect(not any(same(x, r) for x in ready), "wait reported an unfinished call as ready (%s)" % what)
    return ready, rest


def one(kinds, k):
    gate = unidist.remote(Gate).remote()
    refs = [make(kd, gate, i) for i, kd in enumerate(kinds)]
    can = sum(kd != "held" for kd in kinds)
    ready, rest = wait_one(refs, kinds, k, "%s, k=%d" % (kinds, k))
    if can > k:
        wait_one(rest, [kinds[[same(x, r) for x in refs].index(True)] for r in rest], can - k, "%s, rest after k=%d" % (kinds, k))
    expect_eq(unidist.get(gate.open.remote()), "open")
    wait_one(refs, ["x"] * len(refs), len(refs), "%s, all" % (kinds,))
    for i, (r, kd) in enumerate(zip(refs, kinds)):
        if kd in ("fail", "afail"):
            try:
                unidist.get(r)
                expect(False, "no exception")
            except Boom:
                pass
        else:
            expect_eq(unidist.get(r), i)


def program(combos):
    def run():
        for kinds in combos:
            orders = [kinds] if kinds == kinds[::-1] else [kinds, kinds[::-1]]
            for kk in orders:
                for k in range(1, sum(kd != "held" for kd in kk) + 1):
                    one(kk, k)
                    unidist.get(ident.remote(0))

    return run


def chunks(l, n):
    for i in range(0, len(l), n):
        yield l[i:i + n]


QUICK = [c for c in itertools.combinations_with_replacement(KINDS, 3) if any(x != "held" for x in c)]
FOUR = [c for c in itertools.combinations_with_replacement(KINDS, 4) if any(x != "held" for x in c)]

for _tier, _combos, _cap in (("quick", QUICK, 6), ("thorough", FOUR, 60)):
    for _i, _ch in enumerate(chunks(_combos, 4)):
        for _e in ("base", "shm"):
            scenario("C04_states%d_%d%s" % (len(_ch[0]), _i, "_shm" if _e == "shm" else ""), env=_e, n=5, cap=_cap, depth=1,
                     tier=_tier, doc=repr(_ch))(program(_ch))
