"""C14: placement of tasks and actors."""
import copy
import itertools

import unidist
from harness import scenario, expect, expect_eq
from lib import *


@unidist.remote
def here():
    obs("run", "here")
    return whoami()


class Probe:
    def __init__(self):
        self.k = 0

    def here(self):
        self.k += 1
        return whoami()


class Placement:
    """Follows a sequence of placements and checks the rule."""

    def __init__(self, workers):
        self.workers = set(workers)
        self.held = []  # [(actor, rank)]
        self.window = []

    def free(self):
        return self.workers - {r for _, r in self.held}

    def placed(self, rank, what):
        free = self.free()
        expect(rank in free, "%s was placed on process %r, eligible are %s" % (what, rank, sorted(free)))
        expect(rank not in self.window, "%s was placed on process %d again before %s" % (
            what, rank, sorted(free - set(self.window))))
        self.window.append(rank)
        if len(self.window) == len(free):
            # the next ones must again be all different, starting with the oldest
            self.window.pop(0)

    def task(self):
        if not self.free():
            try:
                here.remote()
            except BaseException:
                return
            expect(False, "a task was accepted although no worker is eligible")
        self.placed(unidist.get(here.remote()), "a task")

    def actor(self):
        if not self.free():
            try:
                unidist.remote(Probe).remote()
            except BaseException:
                return
            expect(False, "an actor was accepted although no worker is eligible")
        a = unidist.remote(Probe).remote()
        r = unidist.get(a.here.remote())
        self.placed(r, "an actor")
        self.held.append((a, r))
        self.window = []

    def call(self):
        for a, r in self.held:
            expect_eq(unidist.get(a.here.remote()), r, "process of an actor call")

    def drop(self, i):
        if self.held:
            self.held.pop(i)
            self.window = []

    def run(self, ops):
        for o in ops:
            if o == "T":
                self.task()
            elif o == "A":
                self.actor()
            elif o == "D":
                self.drop(0)
            elif o == "P":
                self.drop(-1)
            elif o == "C":
                self.call()
        while self.held:
            self.drop(0)


class PympPlacement(Placement):
    """On PyMP the actor object lives in a process of its own; the worker that serves it is not seen directly."""

    def __init__(self, workers):
        Placement.__init__(self, workers)
        self.used = set()

    def free(self):
        return range(len(self.workers) - len(self.held))

    def placed(self, rank, what):
        n = len(self.free())
        expect(rank in self.workers, "%s ran on process %r which is not a worker" % (what, rank))
        self.used.add(rank)
        expect(len(self.used) <= n, "tasks were placed on %s while %d of %d workers serve actors" % (
            sorted(self.used), len(self.held), len(self.workers)))
        expect(rank not in self.window, "a task was placed on process %d again before the other eligible workers got one" % rank)
        self.window.append(rank)
        if len(self.window) == n:
            self.window.pop(0)

    def actor(self):
        if not self.free():
            return Placement.actor(self)
        a = unidist.remote(Probe).remote()
        unidist.get(a.here.remote())
        self.held.append((a, None))
        self.window, self.used = [], set()

    def call(self):
        for a, _ in self.held:
            unidist.get(a.here.remote())

    def drop(self, i):
        Placement.drop(self, i)
        self.used = set()


def sequences(first, rest, workers, cls=Placement):
    def fn():
        for tail in itertools.product("TADP", repeat=rest):
            if "P" in first + "".join(tail) and (first + "".join(tail)).count("A") < 2:
                continue  # the same as D
            cls(workers).run(list(first) + list(tail) + ["C", "T", "T"])

    return fn


for _w in (2, 3, 4):
    for _f in ("TT", "TA", "AT", "AA"):
        scenario("C14_seq_%d_%s" % (_w, _f), env="base", n=2 + _w, depth=0, cfg={"max_steps": 10**6, "slow": False})(
            sequences(_f, 3, range(2, 2 + _w)))
        scenario("C14_seqlong_%d_%s" % (_w, _f), env="base", n=2 + _w, depth=0, cfg={"max_steps": 10**7, "slow": False}, tier="thorough")(
            sequences(_f, 5, range(2, 2 + _w)))
scenario("C14_seq_hosts", env="shm", n=7, depth=0, cfg={"max_steps": 10**6, "slow": False, "hosts": ["a", "b", "a", "b", "b", "a", "b"]})(
    sequences("AT", 3, (1, 4, 5, 6)))
for _f in ("TT", "TA", "AT", "AA"):
    scenario("C14_pymp_%s" % _f, env="pymp", kind="pymp", n=120, depth=0, cfg={"max_steps": 10**6, "slow": False})(
        sequences(_f, 2, (1, 2, 3), cls=PympPlacement))


def unstarted():
    """Placement does not depend on tasks being finished."""
    refs = [slow_here.remote() for _ in range(6)]
    got = unidist.get(refs)
    expect_eq([sorted(got[i:i + 3]) for i in (0, 3)], [[2, 3, 4]] * 2, "placement of six tasks on three workers")


@unidist.remote
def slow_here():
    pt("slow")
    return whoami()


scenario("C14_burst", env="base", n=5)(unstarted)


@unidist.remote
def nest(k, h=None):
    me = whoami()
    got = [unidist.get(here.remote()) for _ in range(k)]
    return me, got


def nested():
    """A worker never submits to itself and rotates over the others."""
    for _ in range(3):
        me, got = unidist.get(nest.remote(6))
        others = sorted({2, 3, 4, 5} - {me})
        expect(me not in got, "worker %d submitted a task to itself" % me)
        for i in range(4):
            expect_eq(sorted(got[i:i + 3]), others, "three consecutive tasks submitted by worker %d" % me)


scenario("C14_nested", env="base", n=6, depth=1)(nested)


@unidist.remote
def nest_with(h):
    """The handle is held while the worker submits tasks."""
    me = whoami()
    w = unidist.get(h.here.remote())
    got = [unidist.get(here.remote()) for _ in range(4)]
    return me, w, got


def nested_actor():
    a = unidist.remote(Probe).remote()
    w = unidist.get(a.here.remote())
    for _ in range(2):
        me, w2, got = unidist.get(nest_with.remote(a))
        expect_eq(w2, w, "process of the actor")
        others = sorted({2, 3, 4, 5} - {me, w})
        for i in range(3):
            expect_eq(sorted(got[i:i + 2]), others, "tasks submitted by worker %d while it holds a handle of an actor on %d" % (me, w))
    del a
    got = [unidist.get(here.remote()) for _ in range(4)]
    expect_eq(sorted(got), [2, 3, 4, 5], "four tasks after the actor was dropped")


scenario("C14_nested_actor", env="base", n=6, depth=1)(nested_actor)


def copies():
    """Copies of a handle keep the worker reserved until the last one is gone."""
    import cloudpickle as pkl

    a = unidist.remote(Probe).remote()
    w = unidist.get(a.here.remote())
    b = pkl.loads(pkl.dumps(a))
    rest = sorted({2, 3, 4} - {w})

    def two():
        return sorted(unidist.get([here.remote(), here.remote()]))

    expect_eq(two(), rest, "two handles")
    del a
    expect_eq(two(), rest, "one handle left")
    expect_eq(unidist.get(b.here.remote()), w, "call through the copy")
    expect_eq(two(), rest, "one handle left")
    del b
    expect_eq(sorted(unidist.get([here.remote() for _ in range(3)])), [2, 3, 4], "after the last handle")


scenario("C14_copies", env="base", n=5, depth=0)(copies)


def only_worker():
    """A task submitted by the only worker cannot be placed and says so."""
    r = nest_alone.remote()
    expect_eq(unidist.get(r), "error", "nested submission on a single worker")
    expect_eq(unidist.get(here.remote()), 2)


@unidist.remote
def nest_alone():
    try:
        here.remote()
    except BaseException:
        return "error"
    return "accepted"


scenario("C14_only_worker", env="base", n=3, depth=0)(only_worker)
