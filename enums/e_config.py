"""C17: every sequence of reading, setting and environment changes of every configuration parameter.

The tree of operation sequences is walked by forking the process at every node, so each sequence
starts from the freshly imported configuration and nothing is assumed about how values are kept.
"""
import multiprocessing
import os
import pickle
import sys

BOUNDS = {"quick": "every parameter: all operation sequences of length 3; one parameter per type: length 4; pickle threshold "
                   "together with the shared-store parameters: length 4",
          "thorough": "every parameter: length 4; one parameter per type: length 5; pickle threshold and shared store: length 6"}

BAD = object()
# (texts for the environment variable, values to put): (given, expected or BAD)
BY_TYPE = {
    "int": ([("5", 5), (" 12 ", 12), ("0", 0), ("x", BAD), ("1.5", BAD), ("", BAD)],
            [(7, 7), ("8", 8), (" 9 ", 9), ("y", BAD), (None, BAD), ("2.5", BAD), ([1], BAD)]),
    "float": ([("0.5", 0.5), (" 2 ", 2.0), ("1.2.3", BAD), ("x", BAD), ("", BAD)],
              [(0.25, 0.25), ("0.125", 0.125), ("z", BAD), (None, BAD), ("1..2", BAD)]),
    "bool": ([("True", True), (" yes ", True), ("1", True), ("False", False), ("no", False), ("0", False), ("maybe", BAD), ("", BAD)],
             [(True, True), (False, False), ("TRUE", True), (" No ", False), ("0", False), ("1", True), ("maybe", BAD), (None, BAD)]),
    "exact": ([("Some Text ", "Some Text "), ("", ""), ("a'b", "a'b")], [("X y", "X y"), (" lower ", " lower "), (None, BAD), (5, BAD)]),
    "str": ([(" Text", "text"), ("UP", "up")], [(" A B ", "a b"), (None, BAD), (5, BAD)]),
    "backend": ([(" PyMP ", "pymp"), ("MPI", "mpi"), ("nope", BAD), ("", BAD)],
                [("PySeq", "pyseq"), (" dask ", "dask"), ("nope", BAD), (None, BAD), (3, BAD)]),
}
ANY = object()
PARAMS = {
    # name: (type, environment variable, documented default)
    "Backend": ("backend", "UNIDIST_BACKEND", ANY),
    "CpuCount": ("int", "UNIDIST_CPUS", multiprocessing.cpu_count()),
    "DaskMemoryLimit": ("int", "UNIDIST_DASK_MEMORY_LIMIT", None),
    "IsDaskCluster": ("bool", "UNIDIST_DASK_CLUSTER", None),
    "DaskSchedulerAddress": ("exact", "UNIDIST_DASK_SCHEDULER_ADDRESS", None),
    "RayGpuCount": ("int", "UNIDIST_RAY_GPUS", None),
    "IsRayCluster": ("bool", "UNIDIST_RAY_CLUSTER", None),
    "RayRedisAddress": ("exact", "UNIDIST_RAY_REDIS_ADDRESS", None),
    "RayRedisPassword": ("exact", "UNIDIST_RAY_REDIS_PASSWORD", ANY),
    "RayObjectStoreMemory": ("int", "UNIDIST_RAY_OBJECT_STORE_MEMORY", None),
    "MpiSpawn": ("bool", "UNIDIST_MPI_SPAWN", True),
    "MpiHosts": ("exact", "UNIDIST_MPI_HOSTS", None),
    "MpiPickleThreshold": ("int", "UNIDIST_MPI_PICKLE_THRESHOLD", 1024**2 // 4),
    "MpiBackoff": ("float", "UNIDIST_MPI_BACKOFF", 0.0001),
    "MpiLog": ("bool", "UNIDIST_MPI_LOG", False),
    "MpiSharedObjectStore": ("bool", "UNIDIST_MPI_SHARED_OBJECT_STORE", False),
    "MpiSharedObjectStoreMemory": ("int", "UNIDIST_MPI_SHARED_OBJECT_STORE_MEMORY", None),
    "MpiSharedServiceMemory": ("int", "UNIDIST_MPI_SHARED_SERVICE_MEMORY", None),
    "MpiSharedObjectStoreThreshold": ("int", "UNIDIST_MPI_SHARED_OBJECT_STORE_THRESHOLD", 10**5),
}
DEEP = ["Backend", "CpuCount", "MpiBackoff", "MpiLog", "MpiHosts"]
DEFAULT, USER, ENV = 0, 1, 2
M = {}


def setup():
    for k in list(os.environ):
        if k.startswith("UNIDIST_"):
            del os.environ[k]
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine", "fakempi"))
    sys.modules["pandas"] = None
    import unidist.config as cfg
    from unidist.config import ValueSource

    M["cfg"] = cfg
    M["src"] = {ValueSource.DEFAULT: DEFAULT, ValueSource.SET_BY_USER: USER, ValueSource.GOT_FROM_CFG_SOURCE: ENV}
    try:
        cfg.Backend.choices  # noqa
        import mpi4py  # noqa  (imported by the default of Backend)
    except Exception as e:
        return str(e)
    missing = [p for p in PARAMS if not hasattr(cfg, p)]
    return "no parameter %s" % missing if missing else None


class Ref:
    """What one parameter should answer."""

    def __init__(self, name):
        self.name = name
        self.type, self.var, self.default = PARAMS[name]
        self.user = self.seen = None  # (value,) / (value, source) fixed by the first successful read

    def read(self):
        if self.user:
            return self.user[0], USER
        if self.seen is None:
            t = os.environ.get(self.var)
            if t is None:
                self.seen = (self.default, DEFAULT)
            else:
                v = dict(BY_TYPE[self.type][0])[t]
                if v is BAD:
                    return BAD
                self.seen = (v, ENV)
        return self.seen

    def put(self, v, want):
        if want is not BAD:
            self.user = (want,)


class Joint(Ref):
    """The pickle threshold follows the shared-store threshold while the shared store is on."""

    def __init__(self, refs):
        Ref.__init__(self, "MpiPickleThreshold")
        self.refs = refs

    def read(self):
        s = self.refs["MpiSharedObjectStore"].read()
        if s is BAD:
            return BAD
        if s[0]:
            return self.refs["MpiSharedObjectStoreThreshold"].read()
        return Ref.read(self)


def all_ops(names, small):
    ops = []
    for n in names:
        ty, var, _ = PARAMS[n]
        texts, puts = BY_TYPE[ty]
        if small:
            texts = [texts[0], texts[-3]] if ty == "bool" else [texts[0]]
            puts = [puts[0], puts[1]] if ty == "bool" else [puts[0], puts[3]]
        ops += [("get", n), ("source", n)]
        ops += [("put", n, v, w) for v, w in puts]
        ops += [("setenv", n, t) for t, _ in texts]
        ops.append(("delenv", n))
    return ops


def cases(prop, tier):
    out = []
    q = tier == "quick"
    for n in PARAMS:
        d = (4 if n in DEEP else 3) if q else (5 if n in DEEP else 4)
        k = len(all_ops([n], False))
        out += [{"names": [n], "depth": d, "first": i, "small": False} for i in range(k)]
    names = ["MpiPickleThreshold", "MpiSharedObjectStore", "MpiSharedObjectStoreThreshold"]
    k = len(all_ops(names, True))
    out += [{"names": names, "depth": 4 if q else 5, "first": i, "small": True} for i in range(k)]
    out.append({"names": ["MpiRuntimeEnv"], "depth": 0, "first": 0, "small": True})
    out.sort(key=lambda c: -c["depth"])
    return out


def run(case):
    if case["names"] == ["MpiRuntimeEnv"]:
        return run_env()
    ops = all_ops(case["names"], case["small"])
    res = {"states": 0, "transitions": 0, "executions": 0, "violations": [], "sample": None}
    refs = {}
    for n in case["names"]:
        refs[n] = Ref(n)
    if "MpiPickleThreshold" in refs and "MpiSharedObjectStore" in refs:
        refs["MpiPickleThreshold"] = Joint(refs)
    walk(res, refs, ops, [ops[case["first"]]], (), case["depth"])
    return res


def text(path):
    return "; ".join("%s(%s)" % (o[0], ", ".join(repr(x) for x in o[1:3] if x is not BAD)) for o in path)


def step(refs, op):
    """Perform op on the real configuration; None or what is wrong."""
    p = getattr(M["cfg"], op[1])
    r = refs[op[1]]
    if op[0] == "setenv":
        os.environ[r.var] = op[2]
    elif op[0] == "delenv":
        os.environ.pop(r.var, None)
    elif op[0] == "put":
        try:
            p.put(op[2])
        except Exception as e:
            if op[3] is not BAD:
                return "%s.put(%r) raised %s: %s" % (op[1], op[2], type(e).__name__, e)
        else:
            if op[3] is BAD:
                return "%s.put(%r) was accepted" % (op[1], op[2])
            r.put(op[2], op[3])
    else:
        want = r.read()
        try:
            got = p.get() if op[0] == "get" else M["src"].get(p.get_value_source(), "?")
        except Exception as e:
            if want is not BAD:
                return "%s of %s raised %s: %s, expected %r" % (op[0], op[1], type(e).__name__, e, want)
            return None
        if want is BAD:
            return "%s of %s gave %r for the invalid text %r" % (op[0], op[1], got, os.environ.get(r.var))
        w = want[0] if op[0] == "get" else want[1]
        if w is ANY:
            if not isinstance(got, str):
                return "%s of %s gave %r" % (op[0], op[1], got)
        elif got != w or type(got) is not type(w):
            return "%s of %s gave %r, expected %r" % (op[0], op[1], got, w)
    return None


def walk(res, refs, ops, nxt, path, depth):
    for op in nxt:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            sub = {"states": 0, "transitions": 1, "executions": 1, "violations": []}
            p = path + (op,)
            try:
                msg = step(refs, op)
                if msg:
                    sub["violations"].append({"data": text(p), "msg": "after %s: %s" % (text(p), msg)})
                elif len(p) < depth:
                    sub["states"] += 1
                    if len(p) == depth - 1:
                        last(sub, refs, ops, p)
                    else:
                        walk(sub, refs, ops, ops, p, depth)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(sub, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            d = f.read()
        os.waitpid(pid, 0)
        sub = pickle.loads(d)
        for k in ("states", "transitions", "executions"):
            res[k] += sub[k]
        res["violations"] += sub["violations"]
        if len(res["violations"]) >= 3:
            return
    res["sample"] = text(path + (nxt[-1],))


def last(res, refs, ops, path):
    """The last operation of the sequences: only reads tell something, and they do not need a fork each
    as long as reads are idempotent, which is what is compared here as well."""
    for rnd in range(2):
        for op in ops:
            if op[0] in ("get", "source"):
                res["transitions"] += 1
                res["executions"] += 1
                msg = step(refs, op)
                if msg:
                    res["violations"].append({"data": text(path + (op,)), "msg": "after %s: %s" % (text(path + (op,)), msg)})
                    return


def run_env():
    c = M["cfg"].MpiRuntimeEnv
    res = {"states": 2, "transitions": 4, "executions": 4, "violations": [], "sample": None}

    def bad(m):
        res["violations"].append({"data": m, "msg": m})

    if c.get() != {}:
        bad("the runtime environment is not empty at first: %r" % c.get())
    v = {"env_vars": {"A": "1", "B": "x y"}}
    c.put(v)
    if c.get() != {"env_vars": {"A": "1", "B": "x y"}}:
        bad("the runtime environment is %r" % c.get())
    try:
        c.put({"env_vars": {}, "pip": ["x"]})
    except Exception:
        if c.get() != {"env_vars": {"A": "1", "B": "x y"}}:
            bad("a rejected runtime environment changed the value")
    else:
        bad("an unsupported option of the runtime environment was accepted")
    return res
