"""What each check runs, within which bounds, under which assumptions."""

SIM_ASSUME = [
    "simulated MPI (engine/fakempi): non-overtaking per sender/receiver/communicator, eager sends unless the "
    "scenario sets a rendezvous threshold, any-source matching explored; one thread runs at a time, switches happen "
    "at MPI calls, sleeps, locks, shared-memory writes and event-loop waits",
    "virtual clocks (each time query advances by a fixed tick), deterministic uuid/random/hash seed",
    "each rank is a forked process running /repo's Python code and its C++ extension built from /repo",
]
SIM_BOUNDS = ("per scenario: all schedules with at most `complete_deviations` deviations from the oldest-message-first "
              "schedule (a deviation = delivering another message / running another thread first, or making one "
              "channel or thread persistently slow), plus the further schedules counted in `executions`")


def sim(envs=("base", "shm"), quick=None, thorough=None, seq=(), bounds=SIM_BOUNDS, assumptions=SIM_ASSUME, level="model_checking", technique=None):
    t = {}
    if quick:
        t["quick"] = quick
    if thorough:
        t["thorough"] = thorough
    return {"envs": list(envs), "seq": list(seq), "tiers": t, "bounds": bounds, "assumptions": list(assumptions), "level": level,
            "technique": technique or TECH_SIM}


PYMP_ASSUME = [
    "simulated multiprocessing (engine/fakemp.py): processes, managers, queues and locks of the PyMP backend are driven "
    "by the same scheduler; every queue, lock and manager operation is a scheduling point",
    "virtual clocks, deterministic uuid/random/hash seed; every process runs /repo's Python code",
]
TECH_ENUM = ("explicit-state / exhaustive bounded enumeration of operation sequences and inputs on the real code "
             "against a reference oracle")
TECH_SIM = ("stateless model checking of the real code: controlled scheduler over simulated MPI, deviation-bounded "
            "exhaustive schedule enumeration with state deduplication")
TECH_PYMP = ("stateless model checking of the real code: controlled scheduler over simulated multiprocessing, "
             "deviation-bounded exhaustive schedule enumeration with state deduplication")

PLAN = {
    "C01": sim(),
    "C02": sim(),
    "C03": sim(quick={"cap": 120}),
    "C04": sim(),
    "C05": sim(),
    "C06": sim(quick={"cap": 60}),
    "C07": sim(),
    "C08": sim(),
    "C09": sim(envs=("shm",), seq=["e_alloc"], technique=TECH_ENUM + "; " + TECH_SIM),
    "C10": sim(envs=("shm",)),
    "C11": sim(envs=("base", "shm", "base_t0", "shm_t0", "base_pd", "shm_pd"), technique=TECH_SIM + "; exhaustive enumeration of a value grammar"),
    "C12": sim(envs=("base", "shm", "base_t0", "shm_t0", "base_pd", "shm_pd"), quick={"cap": 80}),
    "C13": sim(envs=(), seq=["e_copy"], technique=TECH_ENUM,
               bounds="all lengths, alignments and numbers of threads listed in coverage.enumerations",
               assumptions=["the copy primitives are /repo's C++ sources compiled with the sandbox's gcc; threads run "
                            "natively (the byte ranges they write are disjoint, which guard bytes and the enumeration check)"]),
    "C14": sim(envs=("base", "shm", "pymp"), assumptions=SIM_ASSUME + PYMP_ASSUME[:1]),
    "C15": sim(),
    "C16": sim(envs=("base", "shm", "pymp", "pyseq"), assumptions=SIM_ASSUME + PYMP_ASSUME[:1],
               technique=TECH_ENUM + ", run on the simulated MPI and multiprocessing worlds",
               bounds="all programs of 1..3 (thorough: 4) operations over the 20 operations of scenarios/s_shape.py, on each of "
                      "MPI (with and without shared store), PyMP and PySeq, in the default schedule"),
    "C17": sim(envs=(), seq=["e_config"], technique=TECH_ENUM,
               bounds="all operation sequences up to the depth listed in coverage.enumerations over the listed values",
               assumptions=["each sequence runs in its own process with its own environment"]),
    "C18": sim(envs=("pymp",), technique=TECH_PYMP, assumptions=PYMP_ASSUME),
    "C19": sim(envs=("base", "shm", "base_t0", "shm_t0"), quick={"cap": 80}),
    "C20": sim(),
    "C21": sim(envs=("spawn",)),
}
