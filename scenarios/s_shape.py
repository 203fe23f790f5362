"""C16: every small program over remote/put/get/wait and every way to give the number of returns, on all backends."""
import itertools
import unidist
from harness import scenario, expect, expect_eq
from lib import *


def items(n, *args, **kw):
    """n items made of the arguments (or one result that is not a list)."""
    base = repr((args, sorted(kw.items())))
    base = base if len(base) < 300 else "%d:%d" % (len(base), sum(base.encode()))
    if n == 1:
        return (base, "whole")
    return [base + str(i) for i in range(n)]


def bad(n, *args, **kw):
    raise Boom("bad", n)


R = {}
for _d in (0, 1, 2, 3):
    R["f%d" % _d] = unidist.remote(num_returns=_d)(items)
    R["b%d" % _d] = unidist.remote(num_returns=_d)(bad)
R["fd"] = unidist.remote(items)


class Act:
    def __init__(self, tag):
        self.tag = tag

    def m(self, n, *args, **kw):
        return items(n, self.tag, *args, **kw)

    def bad(self, n, *args):
        raise Boom("actor", n)


ActR = unidist.remote(Act)

# (what, declared, how the number of returns is given at the call, effective number)
OPS = [("put", None, None, 1)]
OPS += [("f", d, None, d) for d in (0, 1, 2, 3)]
OPS += [("f", 3, "call", 1), ("f", 1, "call", 2), ("f", 1, "options", 3), ("f", 2, "call", 0), ("f", 0, "options", 2)]
OPS += [("f2args", 1, None, 1), ("kw", 2, None, 2), ("b", 1, None, 1), ("b", 2, None, 2), ("b", 2, "call", 1)]
OPS += [("m", None, None, 1), ("m", None, "call", 2), ("m", None, "options", 3), ("m", None, "call", 0), ("mb", None, "options", 2)]


class Fail:
    def __init__(self, args):
        self.args = args


def step(op, refs, actor, k):
    """Perform one operation on the backend and on plain Python values; returns the new (reference, expected)."""
    what, d, how, n = op
    last, first = (refs[-1], refs[0]) if refs else (None, None)
    if what == "put":
        v = [k, "put"]
        return [(unidist.put(v), v)], None
    a_in, a_ex, kw_in, kw_ex = [n], [n], {}, {}
    if last is not None:
        a_in.append(last[0])
        a_ex.append(last[1])
        if what == "f2args":
            a_in.append(first[0])
            a_ex.append(first[1])
        if what == "kw":
            kw_in["z"], kw_ex["z"] = first[0], first[1]
    fails = [x for x in a_ex + list(kw_ex.values()) if isinstance(x, Fail)]
    if what in ("m", "mb"):
        target = actor.m if what == "m" else actor.bad
    else:
        target = R[("b" if what == "b" else "f") + str(d)]
    if how == "call":
        got = target.remote(*a_in, num_returns=n, **kw_in)
    elif how == "options":
        got = target.options(num_returns=n).remote(*a_in, **kw_in)
    else:
        got = target.remote(*a_in, **kw_in)
    if fails:
        want = [fails[0]] * n
    elif what == "b":
        want = [Fail(("bad", n))] * n
    elif what == "mb":
        want = [Fail(("actor", n))] * n
    else:
        r = Act("t").m(*a_ex, **kw_ex) if what == "m" else items(*a_ex, **kw_ex)
        want = [r] if n == 1 else list(r)
    if n == 0:
        return (None if got is None else "returned %r for no returns" % (got,)) or [], None if got is None else "bad"
    if n == 1:
        if not unidist.is_object_ref(got):
            return "returned %.100r instead of one reference" % (got,), "bad"
        return [(got, want[0])], None
    if not isinstance(got, list) or len(got) != n or not all(unidist.is_object_ref(x) for x in got):
        return "returned %.100r instead of a list of %d references" % (got, n), "bad"
    return list(zip(got, want)), None


def fetch(ref, want, what):
    try:
        v = unidist.get(ref)
    except Boom as e:
        expect(isinstance(want, Fail), "%s: raised %r instead of returning %.100r" % (what, e, want))
        expect(e.args == want.args, "%s: raised %r instead of Boom%r" % (what, e, want.args))
        return
    expect(not isinstance(want, Fail), "%s: returned %.100r instead of raising" % (what, v))
    expect_eq(v, want, what)


def program(ops, actor):
    refs = []
    for k, op in enumerate(ops):
        new, badness = step(op, refs, actor, k)
        expect(badness is None, "program %s: operation %d %s" % (ops, k, new))
        refs += new
    if refs:
        only = [r for r, _ in refs]
        n = (len(only) + 1) // 2
        rd, nr = unidist.wait(only, num_returns=n)
        expect(len(rd) == n and len(nr) == len(only) - n, "program %s: wait returned %d and %d" % (ops, len(rd), len(nr)))
        good = [(r, w) for r, w in refs if not isinstance(w, Fail)]
        expect_eq(unidist.get([r for r, _ in good]), [w for _, w in good], "program %s" % (ops,))
        for r, w in refs:
            fetch(r, w, "program %s" % (ops,))


def chunk(progs):
    def fn():
        actor = ActR.remote("t")
        for p in progs:
            program(p, actor)

    return fn


def register(env, kind, n, depth, step_, tier="quick", tag=""):
    progs = list(itertools.product(OPS, repeat=depth))
    for i in range(0, len(progs), step_):
        scenario("C16_%s%s_%d_%03d" % (env, tag, depth, i // step_), env=env, kind=kind, n=n, cap=1, depth=0, tier=tier,
                 cfg={"max_steps": 900000, "slow": False})(chunk(progs[i:i + step_]))


for _env, _kind, _n in (("base", "mpi", 5), ("shm", "mpi", 5), ("pymp", "pymp", 8), ("pyseq", "seq", 1)):
    register(_env, _kind, _n, 1, 20)
    register(_env, _kind, _n, 2, 50)
    register(_env, _kind, _n, 3, 200)
    register(_env, _kind, _n, 4, 1000, tier="thorough")


def decorators():
    """Numbers of returns that make no sense are rejected by the decorator."""
    for v in (-1, 1.5, "2", [1]):
        try:
            unidist.remote(num_returns=v)(items)
        except (ValueError, TypeError, AssertionError):
            continue
        expect(False, "num_returns=%r was accepted" % (v,))
    expect(not unidist.is_object_ref(3) and not unidist.is_object_ref([unidist.put(1)]), "is_object_ref")


for _env, _kind, _n in (("base", "mpi", 4), ("pymp", "pymp", 8), ("pyseq", "seq", 1)):
    scenario("C16_decorator_%s" % _env, env=_env, kind=_kind, n=_n, cap=1)(decorators)
