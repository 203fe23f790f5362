"""C21: settings of the driver reach the processes it spawns; started-externally mode."""
import itertools
import os

import unidist
import unidist.config as cfg
from harness import scenario, expect, expect_eq
from lib import *

# parameter -> (text for the environment variable, value to put)
PARAMS = {
    "MpiPickleThreshold": ("77", 99),
    "MpiBackoff": ("0.25", 0.00001),
    "MpiLog": ("yes", True),
    "MpiSharedObjectStore": ("False", True),
    "MpiSharedObjectStoreMemory": ("16384", 8192),
    "MpiSharedServiceMemory": ("2048", 4096),
    "MpiSharedObjectStoreThreshold": ("64", 128),
    "MpiHosts": ("alpha", "beta"),
    "MpiSpawn": ("True", True),
}


@unidist.remote
def settings(names, env):
    import unidist.config as c

    return whoami(), {n: getattr(c, n).get() for n in names}, {k: os.environ.get(k) for k in env}


def configure(sources, cpus=2, how="put"):
    os.environ["UNIDIST_BACKEND"] = "mpi"
    if how == "put":
        cfg.CpuCount.put(cpus)
    else:
        os.environ["UNIDIST_CPUS"] = str(cpus)
    for p, s in sources.items():
        if s == "env":
            os.environ[getattr(cfg, p).varname] = PARAMS[p][0]
        elif s == "put":
            getattr(cfg, p).put(PARAMS[p][1])


def compare(nworkers, names, env=None):
    env = env or {}
    want = {n: getattr(cfg, n).get() for n in names}
    got = unidist.get([settings.remote(list(names), list(env)) for _ in range(nworkers)])
    expect_eq(sorted(w for w, _, _ in got), list(range(2, 2 + nworkers)), "spawned workers")
    for w, conf, e in got:
        for n in names:
            expect_eq(conf[n], want[n], "%s on spawned worker %d" % (n, w))
        expect_eq(e, {k: str(v) for k, v in env.items()}, "runtime environment of worker %d" % w)


def spawned_with(sources, how="put", env=None):
    def fn():
        configure(sources, how=how)
        if env:
            cfg.MpiRuntimeEnv.put({"env_vars": dict(env)})
        unidist.init()
        compare(2, list(PARAMS) + ["CpuCount", "Backend"], env)
        if env:
            expect_eq(cfg.MpiRuntimeEnv.get(), {"env_vars": env})

    return fn


def reg(name, fn, n=4, shm=False, tier="quick", **kw):
    c = {"spawn": True, "slow": False}
    if shm:
        c["shm"] = True
    c.update(kw.pop("cfg", {}))
    scenario(name, env="spawn", n=n, cfg=c, driver_init=False, depth=0, tier=tier, **kw)(fn)


def is_shm(src):
    return src.get("MpiSharedObjectStore") == "put"


SIZES = {"MpiSharedObjectStoreMemory": "env", "MpiSharedServiceMemory": "env"}


def fixed(src):
    """A shared store without a size takes all free memory: give it one."""
    if is_shm(src):
        for k, v in SIZES.items():
            src.setdefault(k, v)
    return src


def _register():
    reg("C21_defaults", spawned_with({}))
    reg("C21_cpus_env", spawned_with({}, how="env"))
    seen = set()
    names = list(PARAMS)
    for k in (1, 2):
        for ps in itertools.combinations(names, k):
            for ss in itertools.product(("env", "put"), repeat=k):
                src = fixed(dict(zip(ps, ss)))
                key = tuple(sorted(src.items()))
                if key in seen:
                    continue
                seen.add(key)
                reg("C21_" + "_".join("%s.%s" % (p[3:], s) for p, s in src.items()), spawned_with(src), shm=is_shm(src))
    for k in (3, 4):
        for ps in itertools.combinations(names, k):
            for ss in itertools.product(("env", "put"), repeat=k):
                src = fixed(dict(zip(ps, ss)))
                key = tuple(sorted(src.items()))
                if key in seen:
                    continue
                seen.add(key)
                reg("C21_" + "_".join("%s.%s" % (p[3:], s) for p, s in src.items()), spawned_with(src), shm=is_shm(src),
                    tier="thorough")


_register()

STRANGE = ["plain", "it's", 'say "x"', "back\\slash\\n", "line\nbreak", "", " sp ; aces ", "ünï", "{x}", "%s", "'", "\\"]
for _i, _v in enumerate(STRANGE):
    reg("C21_env_value%d" % _i, spawned_with({}, env={"VERIF_A": _v, "VERIF_B": "1"}))
reg("C21_env_number", spawned_with({}, env={"VERIF_A": 5, "VERIF_B": 0.5}))


# ------------------------------------------------------------------ number and placement
def placed(cpus, hosts, shm, libver):
    """Number of spawned processes and where MPI is told to start them."""
    hl = ["n%d" % i for i in range(hosts)]
    # the shared store needs MPICH 4.2 when processes are spawned
    shm_on = shm and not ("MPICH" in libver and "4.0" in libver)
    total = cpus + (hosts if shm_on else 1)

    def fn():
        configure({}, cpus=cpus)
        if hosts:
            cfg.MpiHosts.put(",".join(hl))
        if shm:
            cfg.MpiSharedObjectStore.put(True)
            cfg.MpiSharedObjectStoreMemory.put(8192)
            cfg.MpiSharedServiceMemory.put(2048)
        unidist.init()
        got = unidist.get([settings.remote(["CpuCount"], []) for _ in range(2 * cpus)])
        expect_eq(len({w for w, _, _ in got}), cpus, "number of workers")
        expect_eq(sum(v["CPU"] for v in unidist.cluster_resources().values()), cpus, "CPUs of the cluster")

    def check(out):
        _, args, nprocs, info = out.extra["spawn"][0]
        if nprocs != total:
            return "%d processes were spawned instead of %d" % (nprocs, total)
        if hosts <= 1:
            return None
        if "Open MPI" in libver:
            per = [h.split(":") for h in info.get("add-host", "").split(",")]
            if [h for h, _ in per] != hl:
                return "hosts %r instead of %r" % (info, hl)
            slots = [int(s) for _, s in per]
            if sum(slots) != total + 1 or max(slots) - min(slots) > 1:
                return "slots %r for %d processes and the driver" % (slots, total)
        elif info.get("hosts") != ",".join(hl):
            return "hosts %r instead of %r" % (info, hl)

    n = total + 1
    nh = max(hosts, 1)
    # processes fill the hosts block by block
    per = [n // nh + (1 if i < n % nh else 0) for i in range(nh)]
    hostof = [h for i, k in enumerate(per) for h in ["n%d" % i] * k]
    reg("C21_place_%d_%d_%s_%s" % (cpus, hosts, "shm" if shm else "base", "".join(x for x in libver[:26] if x.isalnum())), fn, n=n, shm=shm, check=check,
        cfg={"hosts": hostof, "libver": libver})


for _c in (1, 2, 3):
    for _h in (1, 2, 3):
        for _s in (False, True):
            for _l in ("Open MPI v4.1.6", "MPICH Version:      4.0\nMPICH Release date: x\n", "MPICH Version:      4.2.0\nMPICH Release date: x\n"):
                if not _s or _c >= _h - 1:
                    placed(_c, _h, _s, _l)
placed(2, 2, False, "Intel(R) MPI Library 2021.8")


# ------------------------------------------------------------------ started externally
def _pre():
    cfg.Backend.put("mpi")
    cfg.MpiSpawn.put(False)
    cfg.MpiRuntimeEnv.put({"env_vars": {"VERIF_A": "it's", "VERIF_N": 3}})


def external():
    expect_eq(os.environ.get("VERIF_A"), None, "the driver's own environment")
    got = unidist.get([settings.remote(["MpiSpawn"], ["VERIF_A", "VERIF_N"]) for _ in range(4)])
    for w, conf, e in got:
        expect_eq(conf, {"MpiSpawn": False})
        expect_eq(e, {"VERIF_A": "it's", "VERIF_N": "3"}, "runtime environment of worker %d" % w)


def stop_after(out):
    for r, (st, info) in out.exits.items():
        if r and info != "sys.exit":
            return "process %d continued with the program after serving" % r


scenario("C21_external", env="spawn", n=4, pre=_pre, check=stop_after, cfg={"slow": False}, depth=0)(external)
