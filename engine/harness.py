"""Scenario registry and the code every simulated rank runs."""
import atexit
import gc
import mmap
import os
import pickle
import sys
import traceback

import simrt

SCEN = {}


class Scenario:
    def __init__(self, name, fn, n=4, env="base", cfg=None, check=None, depth=None, cap=None, kind="mpi", doc=None,
                 tier="quick", prop=None, driver_exit="atexit", driver_init=True, pre=None):
        self.name = name
        self.fn = fn
        self.n = n
        self.env = env
        self.cfg = dict(cfg or {})
        self.check = check
        self.depth = depth
        self.cap = cap
        self.kind = kind
        self.doc = doc or (fn.__doc__ or "").strip()
        self.tier = tier
        self.prop = prop
        self.driver_exit = driver_exit
        self.driver_init = driver_init  # False: the scenario calls unidist.init() itself
        self.pre = pre  # run on every rank before init (the same program text on all ranks)

    def world_cfg(self):
        c = {"n": self.n, "scenario": self.name}
        if self.env.startswith("shm"):
            c["shm"] = True
        if self.kind == "pymp":
            c.update(n=1, nproc=self.n, pymp=True)
        elif self.kind == "seq":
            c.update(n=1)
        c.update(self.cfg)
        return c


def scenario(name=None, **kw):
    def deco(fn):
        nm = name or fn.__name__
        if nm in SCEN:
            raise RuntimeError("duplicate scenario " + nm)
        SCEN[nm] = Scenario(nm, fn, **kw)
        return fn

    return deco


class PropertyViolation(Exception):
    pass


def expect(cond, msg):
    if not cond:
        simrt.post("viol", str(msg))
        raise PropertyViolation(msg)


def expect_eq(got, want, msg=""):
    if type(got) is not type(want) or not _eq(got, want):
        expect(False, "%s: got %.300r, expected %.300r" % (msg, got, want))


def _eq(a, b):
    try:
        import numpy as np

        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape
                    and bool((a == b).all()))
    except ImportError:
        pass
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(type(x) is type(y) and _eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and type(a) is type(b):
        return list(a) == list(b) and all(_eq(a[k], b[k]) for k in a)
    return bool(a == b)


def make_pools(hosts, size):
    return {h: mmap.mmap(-1, size) for h in sorted(set(hosts))}


def run_spawned(args):
    """What a spawned interpreter does: run the code given with -c."""
    i = args.index("-c")
    exec(compile(args[i + 1], "<spawned>", "exec"), {"__name__": "__main__"})


def rank_main(r, cfg, fds, pools, world):
    if not os.environ.get("VERIF_DEBUG"):
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    simrt.install(r, cfg, fds, pools)
    sc = SCEN[cfg["scenario"]]
    status, info = "ok", ""
    try:
        if sc.kind == "mpi":
            import unidist

            if sc.pre is not None and (r == 0 or not cfg.get("spawn")):
                sc.pre()
            if r == 0:
                if cfg.get("preinit"):
                    from mpi4py import MPI

                    MPI.Init_thread()
                if sc.driver_init:
                    unidist.init()
                sc.fn()
                if sc.driver_exit == "atexit":
                    atexit._run_exitfuncs()
            else:
                try:
                    if cfg.get("spawn"):
                        info = "spawned"
                        run_spawned(world.spawned[1])
                    else:
                        unidist.init()
                    info = "returned"
                except SystemExit as e:
                    info = "sys.exit"
                    if e.code not in (None, 0):
                        status, info = "exc", "exit code %r" % (e.code,)
        elif sc.kind == "pymp":
            import unidist
            import fakemp

            fakemp.WORLD = world
            unidist.init()
            sc.fn()
        else:
            sc.fn()
    except PropertyViolation as e:
        status, info = "viol", str(e)
    except SystemExit as e:
        status, info = ("ok", "sys.exit") if e.code in (None, 0) else ("exc", "exit code %r" % (e.code,))
    except BaseException:
        status, info = "exc", traceback.format_exc()[-4000:]
    simrt.finish(status, info)
