"""C09: every sequence of reservations and releases of the shared-memory manager.

Explicit-state search over the real SharedMemoryManager; its collaborators (window, MPI state) are
replaced by stubs that only record.  The oracle knows nothing of the free lists: what is free is
the complement of what is reserved.
"""
import copy
import os
import sys

BOUNDS = {"quick": "all sequences over stores of 3..7 cells with 2..6 service slots up to 14000 states each (see chunks)",
          "thorough": "all sequences over stores of 4..9 cells with 2..6 service slots up to 400000 states each (see chunks)"}
M = {}


class Store:
    """Stands for the shared windows of one host."""

    def __init__(self, size, slots, info):
        self.shared_memory_size = size
        self.service_info_max_count = slots * info
        self.refs = {}
        self.deleted = []

    def get_ref_number(self, data_id, service_index):
        return self.refs.get(data_id, 0)

    def delete_service_info(self, data_id, service_index):
        self.deleted.append((data_id, service_index))


class Comm:
    """The only monitor of the cluster."""

    def Get_group(self):
        return self

    def Incl(self, ranks):
        return self

    def Create_group(self, g, tag=0):
        return self

    def Get_size(self):
        return 1

    def Get_rank(self):
        return 0

    def allgather(self, x):
        return [x]

    def allreduce(self, x, op=None):
        return x

    def Allreduce(self, a, b, op=None):
        b[:] = a


class State:
    global_comm = Comm()
    monitor_processes = [1]
    global_rank = 1
    workers = [2, 3]

    def is_monitor_process(self, rank=None):
        return True


def setup():
    os.environ.setdefault("UNIDIST_BACKEND", "mpi")
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine", "fakempi"))
    sys.modules["pandas"] = None
    import buildext

    buildext.install()
    try:
        from unidist.core.backends.mpi.core import communication, common
        from unidist.core.backends.mpi.core import shared_object_store as sos
        from unidist.core.backends.mpi.core.monitor import shared_memory_manager as smm

        info = sos.SharedObjectStore.INFO_SIZE
        common.is_shared_memory_supported = lambda *a, **k: True
        if hasattr(smm, "is_shared_memory_supported"):
            smm.is_shared_memory_supported = common.is_shared_memory_supported
        communication.MPIState.get_instance = classmethod(lambda cls, *a: State())
        M.update(smm=smm, sos=sos, info=info, common=common)
        mgr = new(4, 2)
        r = mgr.put(did(0), 2)
        (r["first_index"], r["last_index"], r["service_index"])
        mgr.clear([did(0)])
        mgr.get(did(0))
    except Exception as e:  # the seam this enumeration uses is gone
        return "%s: %s" % (type(e).__name__, e)
    return None


def did(i):
    return M["common"].MpiDataID(7, i)


def new(size, slots):
    st = Store(size, slots, M["info"])
    M["sos"].SharedObjectStore.get_instance = classmethod(lambda cls, *a, **k: st)
    mgr = M["smm"].SharedMemoryManager()
    mgr.verif_store = st
    return mgr


def gaps(live, lo, hi):
    """Maximal free intervals."""
    out, cur = [], lo
    for a, b in sorted(live):
        if a > cur:
            out.append((cur, a))
        cur = max(cur, b)
    if hi > cur:
        out.append((cur, hi))
    return out


def canon(mgr, live, pend, refs):
    """State up to renaming of the objects: layout of live objects plus everything the manager stores."""
    order = sorted(live, key=lambda k: live[k])
    ren = {k: i for i, k in enumerate(order)}
    rest = []
    for k, v in sorted(vars(mgr).items()):
        if k in ("verif_store", "shared_store", "monitor_comm"):
            continue
        rest.append((k, flat(v, ren)))
    return (tuple(live[k] for k in order), tuple(refs.get(k, 0) for k in order), tuple(k in pend for k in order), tuple(rest))


def flat(v, ren):
    if isinstance(v, dict):
        return tuple(sorted((flat(a, ren), flat(b, ren)) for a, b in v.items()))
    if isinstance(v, (list, tuple, set, frozenset)):
        x = [flat(i, ren) for i in v]
        return tuple(sorted(x, key=repr)) if isinstance(v, (set, frozenset)) else tuple(x)
    if hasattr(v, "data_number"):
        return ("id", ren.get(v.data_number, -1))
    if hasattr(v, "__dict__"):
        return tuple(sorted((k, flat(x, ren)) for k, x in vars(v).items()))
    return repr(v)


def cases(prop, tier):
    if tier == "quick":
        return [{"size": s, "slots": k, "depth": 30, "cap": 14000} for s, k in ((3, 2), (4, 2), (4, 4), (5, 3), (5, 5), (6, 3), (7, 2), (6, 6))]
    return [{"size": s, "slots": k, "depth": 60, "cap": 400000} for s, k in ((4, 2), (4, 4), (5, 5), (6, 3), (6, 6), (7, 4), (8, 4), (9, 5))]


class Bad(Exception):
    pass


class Exec:
    """One execution: the real manager next to the reference."""

    def __init__(self, size, slots):
        self.size, self.slots = size, slots
        self.mgr = new(size, slots)
        self.live, self.refs, self.pend, self.ctr = {}, {}, frozenset(), 0

    def ops(self):
        ids = sorted(self.live)
        ops = [("put", n) for n in range(1, self.size + 1)]
        ops += [("clear", (i,)) for i in ids if not self.refs.get(i) or i not in self.pend]
        ops += [("clear", (i, j)) for i in ids for j in ids if i < j]
        ops += [("unref" if self.refs.get(i) else "ref", i) for i in ids]
        if self.pend:
            ops.append(("clear", ()))
        if ids:
            ops.append(("clear", (ids[0], ids[0], 999)))  # listed twice, and an unknown object
        return ops

    def do(self, op):
        size, slots, info, live, refs = self.size, self.slots, M["info"], self.live, self.refs
        kind, arg = op
        if kind == "put":
            fits = any(b - a >= arg for a, b in gaps([x[:2] for x in live.values()], 0, size))
            slot = any(b - a >= info for a, b in gaps([(x[2], x[2] + info) for x in live.values()], 0, slots * info))
            try:
                r = self.mgr.put(did(self.ctr), arg)
            except MemoryError:
                if fits and slot:
                    raise Bad("refused although a gap of %d cells and a service slot are free" % arg)
            else:
                a, b, s = r["first_index"], r["last_index"], r["service_index"]
                if not (0 <= a and b <= size and b - a == arg):
                    raise Bad("range [%s, %s) for %d cells" % (a, b, arg))
                if any(a < y and x < b for x, y, _ in live.values()):
                    raise Bad("range [%d, %d) overlaps a live object" % (a, b))
                if not (0 <= s and s + info <= slots * info):
                    raise Bad("service slot %s out of bounds" % s)
                if any(s < z + info and z < s + info for _, _, z in live.values()):
                    raise Bad("service slot %d is in use" % s)
                live[self.ctr] = (a, b, s)
                self.ctr += 1
        elif kind == "clear":
            self.mgr.verif_store.refs = {did(k): v for k, v in refs.items()}
            self.mgr.clear([did(i) for i in arg])
            todo = set(arg) | set(self.pend)
            self.pend = frozenset(i for i in todo if i in live and refs.get(i))
            for i in todo:
                if i in live and not refs.get(i):
                    del live[i]
        elif kind == "ref":
            refs[arg] = 1
        else:
            refs.pop(arg)

    def look(self):
        for i in range(self.ctr):
            g, w = self.mgr.get(did(i)), self.live.get(i)
            if (g is None) != (w is None) or (w is not None and (g["first_index"], g["last_index"], g["service_index"]) != w):
                raise Bad("object %d is at %s instead of %s" % (i, g, w))

    def key(self):
        return canon(self.mgr, self.live, self.pend, self.refs)


def replay(case, path):
    x = Exec(case["size"], case["slots"])
    for op in path:
        x.do(op)
    return x


def run(case):
    res = {"states": 1, "transitions": 0, "executions": 0, "violations": [], "sample": None}
    seen = {Exec(case["size"], case["slots"]).key()}
    frontier = [()]
    depth = 0
    while frontier and depth < case["depth"] and len(res["violations"]) < 3 and len(seen) < case["cap"]:
        nxt = []
        for path in frontier:
            for op in replay(case, path).ops():
                res["transitions"] += 1
                res["executions"] += 1
                p = path + (op,)
                try:
                    x = replay(case, path)
                    x.do(op)
                    x.look()
                except Exception as e:
                    text = " ".join("%s%s" % o for o in p)
                    why = str(e) if isinstance(e, Bad) else "%s: %s" % (type(e).__name__, e)
                    res["violations"].append({"data": text, "msg": "store of %d cells and %d slots: %s: %s" % (case["size"], case["slots"], text, why)})
                    continue
                k = x.key()
                if k not in seen:
                    seen.add(k)
                    res["states"] += 1
                    if res["states"] == 50:
                        res["sample"] = " ".join("%s%s" % o for o in p)
                    nxt.append(p)
            if len(seen) > case["cap"] or len(res["violations"]) >= 3:
                break
        frontier = nxt
        depth += 1
    res["depth"] = depth
    res["complete"] = not frontier
    return res
