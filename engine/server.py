"""Exploration server: one process per environment configuration.

usage: server.py ENV OUT.json   (request as JSON on stdin)
"""
import gc
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

BASE_ENV = {
    "UNIDIST_BACKEND": "mpi",
    "UNIDIST_CPUS": "4",
    "UNIDIST_MPI_SPAWN": "False",
    "UNIDIST_MPI_SHARED_OBJECT_STORE": "False",
    "UNIDIST_MPI_PICKLE_THRESHOLD": "64",
}
ENVS = {
    "base": {},
    "shm": {
        "UNIDIST_MPI_SHARED_OBJECT_STORE": "True",
        "UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY": "16384",
        "UNIDIST_MPI_SHARED_SERVICE_MEMORY": "2048",
        "UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD": "64",
    },
    # every buffer, even an empty one, is sent out-of-band / placed in the shared store
    "base_t0": {"UNIDIST_MPI_PICKLE_THRESHOLD": "0"},
    "shm_t0": {
        "UNIDIST_MPI_SHARED_OBJECT_STORE": "True",
        "UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY": "65536",
        "UNIDIST_MPI_SHARED_SERVICE_MEMORY": "8192",
        "UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD": "0",
    },
    "pymp": {"UNIDIST_BACKEND": "pymp", "UNIDIST_CPUS": "3"},
    "pyseq": {"UNIDIST_BACKEND": "pyseq"},
    # no UNIDIST_* variable at all: scenarios configure the driver themselves
    "spawn": dict.fromkeys(BASE_ENV),
}

ENVS["base_pd"], ENVS["shm_pd"] = ENVS["base"], ENVS["shm"]  # with pandas


def setup_env(env):
    for k in list(os.environ):
        if k.startswith("UNIDIST_"):
            del os.environ[k]
    e = dict(BASE_ENV)
    e.update(ENVS[env])
    os.environ.update({k: v for k, v in e.items() if v is not None})


def setup_paths(pandas=False):
    sys.dont_write_bytecode = False
    sys.pycache_prefix = os.environ.get("VERIF_PYC", "/tmp/verif_pyc_%d" % os.getpid())
    sys.path[:0] = [os.path.join(HERE, "fakempi"), HERE, os.path.join(VERIF, "scenarios"), REPO]
    if not pandas:
        sys.modules["pandas"] = None


def warm(env):
    import buildext

    buildext.install()
    import asyncio
    import concurrent.futures.thread  # noqa
    import numpy  # noqa
    import msgpack, cloudpickle  # noqa
    import simrt

    simrt.patch_locks()
    if ENVS[env].get("UNIDIST_BACKEND") == "pymp":
        import fakemp

        fakemp.install()
    import unidist
    import unidist.config  # noqa

    if (ENVS[env].get("UNIDIST_BACKEND") or "mpi") == "mpi":
        import mpi4py.MPI  # noqa
        import unidist.core.backends.mpi.core.controller.api  # noqa
        import unidist.core.backends.mpi.core.controller.actor  # noqa
        import unidist.core.backends.mpi.backend  # noqa
        import unidist.core.backends.mpi.core.controller.garbage_collector  # noqa
    elif ENVS[env]["UNIDIST_BACKEND"] == "pymp":
        import unidist.core.backends.pymp.backend  # noqa
        import unidist.core.backends.pymp.core  # noqa
    f = os.path.realpath(unidist.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("unidist imported from %s, not from %s" % (f, REPO))


def boot(env, modules):
    setup_env(env)
    setup_paths(pandas=env.endswith("_pd"))
    warm(env)
    for m in modules:
        importlib.import_module(m)
    gc.collect()
    gc.freeze()


def main():
    env, out = sys.argv[1], sys.argv[2]
    req = json.load(sys.stdin)
    boot(env, req["modules"])
    import explore
    import harness

    def log(m):
        sys.stderr.write(m + "\n")

    if req.get("replay"):
        r = req["replay"]
        sc, o = explore.run_once(r["scenario"], [tuple(x) for x in r["prefix"]])
        res = {"status": o.status, "viols": explore.judge(sc, o), "log": [repr(x) for x in o.log],
               "trace": [repr(t[0][t[1]]) for t in o.trace], "exits": {k: repr(v) for k, v in o.exits.items()}}
        json.dump(res, open(out, "w"))
        return
    names = req.get("scenarios")
    if names is None:
        import re

        names = [x.name for x in harness.SCEN.values() if x.env == env and re.search(req["select"], x.name)
                 and (x.tier == "quick" or req.get("tier") == "thorough")]
    if not names:
        json.dump({"scenarios": {}, "violations": [], "errors": [], "wall_s": 0}, open(out, "w"))
        return
    t0 = time.monotonic()
    stats, viols, errors = explore.explore(names, req.get("workers", 8), t0 + req.get("deadline", 600),
                                           req.get("depth", 2), req.get("cap", 400), log)
    # confirm every violation by replaying its schedule
    confirmed = []
    for name, vs, prefix, lg in viols:
        ok = False
        for _ in range(3):
            try:
                sc, o = explore.run_once(name, prefix)
            except Exception as e:  # noqa
                log("replay of %s failed: %r" % (name, e))
                continue
            v2 = explore.judge(sc, o)
            if v2:
                ok = True
                break
        if ok:
            confirmed.append({"scenario": name, "violations": v2, "prefix": [list(x) for x in prefix],
                              "log": [repr(x) for x in o.log][-200:], "status": o.status})
        else:
            errors.append((name, prefix, ("unreproducible", vs)))
            log("violation in %s did not reproduce: %s" % (name, vs[0][:300]))
    res = {"scenarios": {}, "violations": confirmed, "errors": [repr(e)[:3000] for e in errors],
           "wall_s": time.monotonic() - t0}
    for n, st in stats.items():
        res["scenarios"][n] = {"doc": st.sc.doc, "n": st.sc.n, "executions": st.execs, "steps": st.steps,
                               "choice_states": st.states, "choice_transitions": st.trans, "truncated": st.trunc,
                               "depth": st.depth, "complete_deviations": st.complete_dev,
                               "exhausted_all_schedules": st.exhausted, "longest_choice_trace": st.maxtrace,
                               "violated": st.viol is not None, "diverged": st.lost, "dead": st.dead and st.viol is None,
                               "sample": None if st.sample is None else
                               {"deviations": st.sample[0], "choices": st.sample[1][:60]}}
    json.dump(res, open(out, "w"))


if __name__ == "__main__":
    main()
