"""Simulated MPI: every call goes to the coordinator through simrt."""
import hashlib
import pickle

import simrt as _s

VERSION = 3
SUBVERSION = 1
ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
UNDEFINED = -32766
THREAD_SINGLE, THREAD_FUNNELED, THREAD_SERIALIZED, THREAD_MULTIPLE = range(4)
COMM_TYPE_SHARED = 1
LOCK_EXCLUSIVE = 234
LOCK_SHARED = 235
ROOT = -3


class Exception_(RuntimeError):
    pass


Exception = Exception_  # noqa: A001


class _Op:
    def __init__(self, name, f):
        self.name = name
        self.f = f


MAX = _Op("MAX", max)
MIN = _Op("MIN", min)
SUM = _Op("SUM", lambda a: sum(a))


class _Dt:
    def __init__(self, name, size):
        self.name = name
        self.size = size

    def Get_size(self):
        return self.size


BYTE = _Dt("BYTE", 1)
CHAR = _Dt("CHAR", 1)
LONG = _Dt("LONG", 8)
INT64_T = _Dt("INT64_T", 8)
UINT8_T = _Dt("UINT8_T", 1)
DOUBLE = _Dt("DOUBLE", 8)
INT = _Dt("INT", 4)


def _flat(buf):
    """A flat byte view of any buffer (mpi4py accepts [buf, ...] specs too)."""
    if isinstance(buf, (list, tuple)):
        buf = buf[0]
    if isinstance(buf, SimMemory):
        return buf._mv
    mv = memoryview(buf)
    if mv.format != "B" or mv.ndim != 1:
        if mv.nbytes == 0:
            return memoryview(b"")
        mv = mv.cast("B")
    return mv


def memory(obj=None, *a):
    if isinstance(obj, pickle.PickleBuffer):
        return obj.raw()
    if isinstance(obj, SimMemory):
        return obj
    return _flat(obj)


buffer = memory


class SimMemory:
    """View of a simulated shared-memory window; writes are scheduling points."""

    def __init__(self, mv):
        self._mv = mv

    def __len__(self):
        return len(self._mv)

    @property
    def nbytes(self):
        return self._mv.nbytes

    @property
    def readonly(self):
        return self._mv.readonly

    @property
    def format(self):
        return self._mv.format

    @property
    def itemsize(self):
        return self._mv.itemsize

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SimMemory(self._mv[k])
        return self._mv[k]

    def __setitem__(self, k, v):
        if self._mv.readonly:
            raise TypeError("cannot modify read-only memory")
        if isinstance(k, slice):
            v = _flat(v)
            n = len(self._mv[k])
            if n != len(v):
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
        _s.call("shmw")
        self._mv[k] = v

    def cast(self, *a):
        return memoryview(self._mv).cast(*a)

    def toreadonly(self):
        return self._mv.toreadonly()

    def tobytes(self, *a):
        return self._mv.tobytes()

    def tolist(self):
        return self._mv.tolist()

    def release(self):
        pass

    def __bytes__(self):
        return self._mv.tobytes()

    def __eq__(self, o):
        return self._mv == _flat(o)

    __hash__ = None

    def __buffer__(self, flags):
        if (flags & 1) and not self._mv.readonly:
            _s.call("shmw")
        return memoryview(self._mv)


class Status:
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.error = 0
        self.count = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, dt=None):
        return self.count


_st = {"init": False, "fin": False, "req": 0, "wins": 0, "off": {}}


def Init():
    _st["init"] = True


def Init_thread(required=THREAD_MULTIPLE):
    _st["init"] = True
    return THREAD_MULTIPLE


def Is_initialized():
    return _st["init"]


def Query_thread():
    return THREAD_MULTIPLE


def Is_finalized():
    return _st["fin"]


def Finalize():
    _s.call("coll", "world", "finalize", b"")
    _st["fin"] = True


def Get_library_version():
    return _s.R.cfg.get("libver", "Open MPI v4.1.6") if _s.R is not None else "Open MPI v4.1.6"


def Get_processor_name():
    return "sim"


def Wtime():
    return _s.R.perf()


class Info(dict):
    @classmethod
    def Create(cls, items=None):
        return cls(items or {})

    def Set(self, k, v):
        self[k] = v

    def Get(self, k, *a):
        return self.get(k)

    def Free(self):
        pass


INFO_NULL = None


def _chk():
    if not _st["init"] and not _s.R.cfg.get("preinit"):
        raise Exception("MPI call before MPI_Init")
    if _st["fin"]:
        raise Exception("MPI call after MPI_Finalize")
    if _s.R.gc_armed:
        _s.gc_point()


class Request:
    def __init__(self, rid=None, buf=None, digest=None, kind="send"):
        self.rid = rid
        self.buf = buf
        self.digest = digest
        self.kind = kind
        self.done = rid is None
        self.result = None

    def _complete(self):
        self.done = True
        if self.digest is not None:
            if hashlib.md5(_flat(self.buf)).digest() != self.digest:
                _s.post("viol", "send buffer modified before the transfer completed")
            self.buf = None

    def _poll(self):
        if self.done:
            return True
        r = _s.call("test", self.rid)
        if r is not None:
            if self.kind == "recv":
                self.result = pickle.loads(r[2])
                self.src, self.tag = r[0], r[1]
            self._complete()
        return self.done

    def Test(self, status=None):
        return self._poll()

    def test(self, status=None):
        f = self._poll()
        return (f, self.result)

    def Wait(self, status=None):
        if not self.done:
            r = _s.call("wait", self.rid)
            if self.kind == "recv":
                self.result = pickle.loads(r[2])
            self._complete()
        return True

    def wait(self, status=None):
        self.Wait()
        return self.result

    @classmethod
    def Waitall(cls, reqs, statuses=None):
        for r in reqs:
            r.Wait()
        return True

    @classmethod
    def waitall(cls, reqs, statuses=None):
        return [r.wait() for r in reqs]

    @classmethod
    def Testall(cls, reqs, statuses=None):
        return all([r.Test() for r in reqs])

    def Cancel(self):
        pass

    def Free(self):
        self.done = True

    def __del__(self):
        if not self.done and not _st["fin"] and self.digest is not None:
            try:
                _s.post("viol", "send request dropped before its transfer completed")
            except BaseException:
                pass


def _newreq():
    _st["req"] += 1
    return _st["req"]


class Group:
    def __init__(self, ranks):
        self.ranks = list(ranks)

    def Incl(self, idx):
        return Group([self.ranks[i] for i in idx])

    def Excl(self, idx):
        return Group([r for i, r in enumerate(self.ranks) if i not in set(idx)])

    def Get_size(self):
        return len(self.ranks)


class Comm:
    def __init__(self, cid, ranks):
        self.cid = cid
        self.ranks = ranks  # world (process) ranks

    def __eq__(self, o):
        return isinstance(o, Comm) and self.cid == o.cid

    def __hash__(self):
        return hash(self.cid)

    # -- local info
    def Get_rank(self):
        return self.ranks.index(_s.R.rank)

    @property
    def rank(self):
        return self.Get_rank()

    def Get_size(self):
        return len(self.ranks)

    @property
    def size(self):
        return len(self.ranks)

    def Get_group(self):
        return Group(range(len(self.ranks)))

    # -- point to point
    def _send(self, data, dest, tag, blocking, buf=None, force_sync=False):
        _chk()
        dst = self.ranks[dest]
        mode = _s.R.cfg.get("rndv")  # None | int: payloads of at least this size are synchronous
        sync = force_sync or (mode is not None and len(data) >= mode and (buf is not None or _s.R.cfg.get("rndv_obj")))
        if not sync:
            _s.post("msg", self.cid, self.Get_rank(), dst, tag, data, 0)
            return Request()
        rid = _newreq()
        _s.post("msg", self.cid, self.Get_rank(), dst, tag, data, rid)
        if blocking:
            _s.call("wait", rid)
            return None
        return Request(rid, buf, hashlib.md5(data).digest() if buf is not None else None)

    def send(self, obj, dest, tag=0):
        self._send(pickle.dumps(obj, 5), dest, tag, True)

    def ssend(self, obj, dest, tag=0):
        self._send(pickle.dumps(obj, 5), dest, tag, True, force_sync=True)

    def isend(self, obj, dest, tag=0):
        return self._send(pickle.dumps(obj, 5), dest, tag, False)

    def issend(self, obj, dest, tag=0):
        return self._send(pickle.dumps(obj, 5), dest, tag, False, force_sync=True)

    def Send(self, buf, dest, tag=0):
        self._send(bytes(_flat(buf)), dest, tag, True, buf)

    def Isend(self, buf, dest, tag=0):
        return self._send(bytes(_flat(buf)), dest, tag, False, buf)

    Ssend = Send

    def _recv(self, source, tag):
        _chk()
        return _s.call("recv", self.cid, self.Get_rank(), source, tag)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, t, data = self._recv(source, tag)
        if status is not None:
            status.source, status.tag, status.count = src, t, len(data)
        return pickle.loads(data)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, t, data = self._recv(source, tag)
        mv = _flat(buf)
        if len(data) > len(mv):
            raise Exception("MPI_ERR_TRUNCATE: message truncated")
        if isinstance(buf, SimMemory):
            buf[: len(data)] = data
        else:
            mv[: len(data)] = data
        if status is not None:
            status.source, status.tag, status.count = src, t, len(data)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        _chk()
        rid = _newreq()
        _s.post("irecv", self.cid, self.Get_rank(), source, tag, rid)
        return Request(rid, kind="recv")

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        _chk()
        r = _s.call("iprobe", self.cid, self.Get_rank(), source, tag)
        if r is None:
            return False
        if status is not None:
            status.source, status.tag, status.count = r
        return True

    Iprobe = iprobe

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        _chk()
        r = _s.call("probe", self.cid, self.Get_rank(), source, tag)
        if status is not None:
            status.source, status.tag, status.count = r
        return True

    Probe = probe

    def improbe(self, *a, **k):
        raise NotImplementedError

    # -- collectives
    def _coll(self, name, data=None):
        _chk()
        r = _s.call("coll", self.cid, name, pickle.dumps(data, 5))
        return [pickle.loads(x) for x in r]

    def Barrier(self):
        self._coll("barrier")

    barrier = Barrier

    def allgather(self, obj):
        return self._coll("allgather", obj)

    def gather(self, obj, root=0):
        r = self._coll("gather", obj)
        return r if self.Get_rank() == root else None

    def bcast(self, obj, root=0):
        return self._coll("bcast", obj if self.Get_rank() == root else None)[root]

    def allreduce(self, obj, op=SUM):
        r = self._coll("allreduce", obj)
        if op.name == "SUM":
            t = r[0]
            for x in r[1:]:
                t = t + x
            return t
        return op.f(r)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        r = self._coll("Allreduce", memoryview(sendbuf).tolist())
        if len({len(x) for x in r}) != 1:
            raise Exception("MPI_ERR_TRUNCATE: Allreduce with different counts")
        out = [op.f(col) for col in zip(*r)]
        mv = memoryview(recvbuf)
        for i, v in enumerate(out):
            mv[i] = v

    def _derive(self, name, color, key):
        n = _st.setdefault(("nsplit", self.cid), 0)
        _st[("nsplit", self.cid)] = n + 1
        r = self._coll(name, (color, key))
        mine = [(k, i) for i, (c, k) in enumerate(r) if c == color]
        ranks = [self.ranks[i] for _, i in sorted(mine)]
        return Comm("%s/%s%d:%s" % (self.cid, name, n, color), ranks)

    def Split(self, color=0, key=0):
        return self._derive("split", color, key)

    def Split_type(self, split_type, key=0, info=None):
        hosts = _s.R.cfg.get("hosts") or ["h0"] * len(self.ranks)
        return self._derive("splittype", hosts[_s.R.rank], key)

    def Dup(self):
        return self._derive("dup", 0, self.Get_rank())

    def Create_group(self, group, tag=0):
        ranks = [self.ranks[i] for i in group.ranks]
        n = _st.setdefault(("ngroup", self.cid, tuple(ranks)), 0)
        _st[("ngroup", self.cid, tuple(ranks))] = n + 1
        cid = "%s/group%d:%s" % (self.cid, n, ",".join(map(str, ranks)))
        _s.post("newcomm", cid, tuple(ranks))
        return Comm(cid, ranks)

    def Create(self, group):
        c = self.Create_group(group)
        return c if _s.R.rank in c.ranks else COMM_NULL

    def Free(self):
        pass

    def Disconnect(self):
        pass

    def Abort(self, code=0):
        _s.finish("abort", str(code))

    # -- dynamic processes
    def Spawn(self, command, args=None, maxprocs=1, info=None, root=0, errcodes=None):
        _chk()
        _s.call("spawn", command, list(args or []), maxprocs, dict(info or {}))
        return _Inter(maxprocs, parent_side=True)

    @classmethod
    def Get_parent(cls):
        if _s.R.cfg.get("spawn") and _s.R.rank > 0:
            return _Inter(_s.R.cfg["n"] - 1, parent_side=False)
        return COMM_NULL


Intracomm = Comm


class _Inter(Comm):
    def __init__(self, n, parent_side):
        Comm.__init__(self, "inter", [])
        self.n = n

    def Merge(self, high=False):
        # the root process is 0, the spawned ones follow in order
        return Comm("merged", list(range(_s.R.cfg["n"])))

    def Get_remote_size(self):
        return self.n


class _CommWorld(Comm):
    """COMM_WORLD / COMM_SELF resolve lazily: the module is imported before the fork."""

    def __init__(self, cid):
        self.cid = cid

    @property
    def ranks(self):
        cfg = _s.R.cfg
        if self.cid == "self":
            return [_s.R.rank]
        if cfg.get("spawn"):
            return [0] if _s.R.rank == 0 else list(range(1, cfg["n"]))
        return list(range(cfg["n"]))


COMM_WORLD = _CommWorld("world")
COMM_SELF = _CommWorld("self")
COMM_NULL = Comm("null", [])


class Win:
    def __init__(self, wid, comm, segs, unit):
        self.wid = wid
        self.comm = comm
        self.segs = segs
        self.unit = unit
        self.held = set()

    @classmethod
    def Allocate_shared(cls, size, disp_unit=1, info=None, comm=None):
        sizes = comm._coll("winalloc", size)
        hosts = _s.R.cfg.get("hosts") or ["h0"] * _s.R.cfg["n"]
        host = hosts[_s.R.rank]
        off = _st["off"].get(host, 0)
        segs = []
        for sz in sizes:
            segs.append((off, sz))
            off += (sz + 63) // 64 * 64
        _st["off"][host] = off
        pool = _s.R.pools[host]
        if off > len(pool):
            raise MemoryError("simulated shared memory pool exhausted")
        _st["wins"] += 1
        return cls("%s/win%d" % (comm.cid, _st["wins"]), comm, [memoryview(pool)[o : o + s] for o, s in segs], disp_unit)

    def Shared_query(self, rank):
        return SimMemory(self.segs[rank]), self.unit

    def tomemory(self):
        return SimMemory(self.segs[self.comm.Get_rank()])

    def Lock(self, rank, lock_type=LOCK_EXCLUSIVE, assertion=0):
        _chk()
        # no process may lock a target it has already locked, whichever thread did it
        if rank in self.held:
            raise Exception("MPI_ERR_RMA_SYNC: the window is already locked by this process")
        self.held.add(rank)
        _s.call("lock", "%s:%d" % (self.wid, rank))
        _chk()

    def Unlock(self, rank):
        if rank not in self.held:
            raise Exception("MPI_ERR_RMA_SYNC: the window is not locked by this process")
        _chk()
        self.held.discard(rank)
        _s.post("unlock", "%s:%d" % (self.wid, rank))

    def Lock_all(self, assertion=0):
        pass

    def Unlock_all(self):
        pass

    def Sync(self):
        pass

    def Flush(self, rank):
        pass

    def Free(self):
        self.comm._coll("winfree")
