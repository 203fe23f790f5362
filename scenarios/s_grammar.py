"""C11: a grammar of values (atoms x containers) through put, get, arguments and results."""
import sys
import unidist
import vals
from harness import scenario, expect, expect_eq
from lib import *

CH = 32
VALUES = vals.build()


@unidist.remote
def look(i, v):
    """What the receiving task sees."""
    d = vals.diff(v, VALUES[i][1])
    return d or "ok"


@unidist.remote
def produce(i):
    return VALUES[i][1]


@unidist.remote(num_returns=2)
def produce2(i):
    return VALUES[i][1], [VALUES[i][1]]


@unidist.remote
def fetch(i, ref_in_list):
    """A get inside a task."""
    return vals.diff(ref_in_list[0], VALUES[i][1]) or "ok"


def one(i):
    n, v = VALUES[i]

    def ok(got, how):
        d = vals.diff(got, v)
        expect(d is None, "value %s %s: %s" % (n, how, d))

    p = unidist.put(v)
    a1 = look.remote(i, p)
    ok(unidist.get(p), "put and fetched")
    a2 = look.remote(i, p)
    a3 = look.remote(i, v)
    r = produce.remote(i)
    q, ql = produce2.remote(i)
    a4 = fetch.remote(i, [r])
    x = ident.remote(q)
    for how, a in (("put and passed", a1), ("put, fetched and passed", a2), ("passed by value", a3), ("returned and passed in a list", a4)):
        got = unidist.get(a)
        expect(got == "ok", "value %s %s: %s" % (n, how, got))
    got = unidist.get([x, r, p])
    ok(got[0], "returned, passed on and returned")
    ok(got[1], "returned")
    ok(got[2], "fetched again")
    ok(unidist.get(q), "returned as one of two")
    d = vals.diff(unidist.get(ql), [v])
    expect(d is None, "value [%s] returned as one of two: %s" % (n, d))
    ok(unidist.get(r), "returned and fetched again")


def chunk(k):
    def fn():
        for i in range(k * CH, min(len(VALUES), (k + 1) * CH)):
            if isinstance(VALUES[i][1], BaseException):
                continue
            one(i)

    return fn


ENVS = ("base_pd", "shm_pd") if vals.pd is not None else ("base", "shm", "base_t0", "shm_t0")
for _e in ENVS:
    for _k in range((len(VALUES) + CH - 1) // CH):
        scenario("C11_grammar_%s_%02d" % (_e, _k), env=_e, n=4, cap=2, cfg={"max_steps": 400000, "slow": False})(chunk(_k))
