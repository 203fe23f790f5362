"""Simulated multiprocessing: Manager dict, JoinableQueue, Process and BaseManager on the coordinator.

A manager dictionary is one atomic map (its server executes one dictionary method at a time); every access is
a scheduling point.  Values are pickled on the way in and unpickled on the way out as the real proxies do.
"""
import itertools
import multiprocessing
import multiprocessing.managers
import os
import pickle
import sys
import traceback

import simrt as _s

RemoteError = multiprocessing.managers.RemoteError
WORLD = None  # set by the harness in every simulated process


def _dump(v):
    return pickle.dumps(v, 4)


def _key(k):
    i = getattr(k, "_id", None)
    return str(i) if i is not None else "r:" + repr(k)


_ids = itertools.count()


class SimDict:
    """Proxy of a manager dictionary."""

    def __init__(self, name):
        self._name = name

    def _k(self, k):
        return "%s|%s" % (self._name, _key(k))

    def __getitem__(self, k):
        v, ok = _s.call("kvget", self._k(k))
        if not ok:
            raise KeyError(k)
        return pickle.loads(v)[1]

    def get(self, k, default=None):
        v, ok = _s.call("kvget", self._k(k))
        return pickle.loads(v)[1] if ok else default

    def __setitem__(self, k, v):
        data = _dump((k, v))
        try:
            pickle.loads(data)  # the manager's server unpickles what it gets
        except Exception:
            raise RemoteError(traceback.format_exc())
        _s.call("kvset", self._k(k), data)

    def setdefault(self, k, default=None):
        v, ok = _s.call("kvadd", self._k(k), _dump((k, default)))
        return pickle.loads(v)[1]

    def __delitem__(self, k):
        if not _s.call("kvdel", self._k(k)):
            raise KeyError(k)

    def pop(self, k, *d):
        v, ok = _s.call("kvpop", self._k(k))
        if ok:
            return pickle.loads(v)[1]
        if d:
            return d[0]
        raise KeyError(k)

    def update(self, other=(), **kw):
        for k, v in dict(other, **kw).items():
            self[k] = v

    def __contains__(self, k):
        return _s.call("kvhas", self._k(k))

    has_key = __contains__

    def _items(self):
        return [pickle.loads(v) for v in _s.call("kvkeys", self._name + "|")]

    def __len__(self):
        return len(self._items())

    def keys(self):
        return [k for k, _ in self._items()]

    def values(self):
        return [v for _, v in self._items()]

    def items(self):
        return self._items()

    def copy(self):
        return dict(self._items())

    def __iter__(self):
        return iter(self.keys())

    def __reduce__(self):
        return SimDict, (self._name,)

    def __repr__(self):
        return "<SimDict %s>" % self._name


class SimQueue:
    """multiprocessing queue (JoinableQueue/Queue/SimpleQueue)."""

    def __init__(self, maxsize=0, name=None, ctx=None):
        self._name = name or "q%d.%d" % (_s.R.rank, next(_ids))

    def put(self, v, block=True, timeout=None):
        _s.post("qput", self._name, _dump(v))

    put_nowait = put

    def get(self, block=True, timeout=None):
        if not block:
            import queue

            v = _s.call("qtry", self._name)
            if v is None:
                raise queue.Empty
            return pickle.loads(v)
        return pickle.loads(_s.call("qget", self._name))

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return _s.call("qlen", self._name) == 0

    def qsize(self):
        return _s.call("qlen", self._name)

    def task_done(self):
        if not _s.call("qdone", self._name):
            raise ValueError("task_done() called too many times")

    def join(self):
        _s.call("qjoin", self._name)

    def close(self):
        pass

    def join_thread(self):
        pass

    cancel_join_thread = join_thread

    def __reduce__(self):
        return SimQueue, (0, self._name)


class SimLock:
    """Lock / RLock."""

    def __init__(self, name=None):
        self._name = name or "mpl%d.%d" % (_s.R.rank, next(_ids))
        self._depth = 0

    def acquire(self, block=True, timeout=None):
        if self._depth == 0:
            _s.call("lock", self._name)
        self._depth += 1
        return True

    def release(self):
        self._depth -= 1
        if self._depth == 0:
            _s.post("unlock", self._name)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        return SimLock, (self._name,)


def _fork(body, what):
    """Fork a simulated process running body(); returns its rank."""
    idx = _s.call("fork")
    pid = os.fork()
    if pid:
        _s.post("proc", idx, pid)
        return idx
    status, info = "ok", ""
    try:
        fds = [b.fileno() for _, b in WORLD.socks[idx]]
        _s.reinstall(idx, fds)
        body()
    except SystemExit as e:
        if e.code not in (None, 0):
            status, info = "exc", "exit code %r" % (e.code,)
    except BaseException:
        status, info = "exc", "%s terminated: %s" % (what, traceback.format_exc()[-3000:])
    _s.finish(status, info)


class SimProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs
        self.daemon = daemon
        self.name = name or "SimProcess"
        self._rank = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        self._rank = _fork(self.run, "worker process")

    def is_alive(self):
        return self._rank is not None

    @property
    def pid(self):
        return self._rank

    ident = pid

    def join(self, timeout=None):
        pass

    def terminate(self):
        pass

    kill = close = terminate


# ---------------------------------------------------------------- BaseManager
class SimProxy:
    """Proxy of an object living in a manager process."""

    def __init__(self, mgr, oid, exposed):
        self.__dict__.update(_mgr=mgr, _oid=oid, _exposed=exposed)

    def _callmethod(self, name, args=(), kwds={}):
        rq = "r%d.%d" % (_s.R.rank, next(_ids))
        _s.post("qput", self._mgr, _dump(("call", rq, self._oid, name, args, dict(kwds))))
        kind, v = pickle.loads(_s.call("qget", rq))
        if kind == "ok":
            return v
        if kind == "err":
            raise v
        raise RemoteError(v)

    def __getattr__(self, name):
        if name in self._exposed:
            return _Bound(self, name)
        raise AttributeError("%r object has no attribute %r" % ("AutoProxy", name))

    def __reduce__(self):
        return SimProxy, (self._mgr, self._oid, self._exposed)


class _Bound:
    def __init__(self, proxy, name):
        self.proxy = proxy
        self.name = name

    def __call__(self, /, *args, **kwds):
        return self.proxy._callmethod(self.name, args, kwds)


def _serve(qname, registry):
    objs = {}
    while True:
        kind, rq, *rest = pickle.loads(_s.call("qget", qname))
        try:
            if kind == "create":
                typeid, args, kw = rest
                obj = registry[typeid](*args, **kw)
                oid = len(objs)
                objs[oid] = obj
                exposed = tuple(m for m in dir(obj) if m[0] != "_" and callable(getattr(obj, m)))
                rep = ("ok", (oid, exposed))
            else:
                oid, name, args, kw = rest
                try:
                    rep = ("ok", getattr(objs[oid], name)(*args, **kw))
                except Exception as e:
                    rep = ("err", e)
        except Exception:
            rep = ("tb", traceback.format_exc())
        try:
            data = _dump(rep)
        except Exception:
            data = _dump(("tb", "unserializable: %s" % (rep[0],)))
        _s.post("qput", rq, data)


class SimBaseManager:
    _registry = {}

    @classmethod
    def register(cls, typeid, callable=None, **kw):
        if "_registry" not in cls.__dict__:
            cls._registry = cls._registry.copy()
        cls._registry[typeid] = callable

        def temp(self, /, *args, **kwds):
            return self._create(typeid, args, kwds)

        temp.__name__ = typeid
        setattr(cls, typeid, temp)

    def __init__(self, *a, **kw):
        self._q = None

    def start(self, initializer=None, initargs=()):
        self._q = "m%d.%d" % (_s.R.rank, next(_ids))
        reg = dict(type(self)._registry)
        _fork(lambda: _serve(self._q, reg), "manager process")

    def _create(self, typeid, args, kwds):
        rq = "r%d.%d" % (_s.R.rank, next(_ids))
        _s.post("qput", self._q, _dump(("create", rq, typeid, args, kwds)))
        kind, v = pickle.loads(_s.call("qget", rq))
        if kind != "ok":
            raise RemoteError(v)
        return SimProxy(self._q, v[0], v[1])

    def shutdown(self):
        pass

    def __enter__(self):
        self.start()
        return self

    def __exit__(self, *a):
        pass


class SimSyncManager(SimBaseManager):
    def __init__(self, *a, **kw):
        super().__init__()
        self._n = "d%d.%d" % (_s.R.rank, next(_ids))
        self._c = itertools.count()

    def start(self, *a, **kw):
        if type(self)._registry:
            super().start()

    def dict(self, *a, **kw):
        d = SimDict("%s.%d" % (self._n, next(self._c)))
        for k, v in dict(*a, **kw).items():
            d[k] = v
        return d

    def Queue(self, maxsize=0):
        return SimQueue()

    JoinableQueue = Queue

    def Lock(self):
        return SimLock()

    RLock = Lock


def _manager():
    m = SimSyncManager()
    m.start()
    return m


class _Ctx:
    pass


def install():
    """Replace multiprocessing's building blocks (before the code under test is imported)."""
    names = {
        "Manager": _manager, "Process": SimProcess, "JoinableQueue": SimQueue, "Queue": SimQueue,
        "SimpleQueue": SimQueue, "Lock": SimLock, "RLock": SimLock, "cpu_count": lambda: 2,
    }
    ctx = _Ctx()
    for k, v in names.items():
        setattr(multiprocessing, k, v)
        setattr(ctx, k, v)
    multiprocessing.get_context = lambda method=None: ctx
    multiprocessing.managers.BaseManager = SimBaseManager
    multiprocessing.managers.SyncManager = SimSyncManager
    import multiprocessing.process as pr
    import multiprocessing.queues as qs

    pr.BaseProcess = SimProcess
    qs.JoinableQueue = qs.Queue = qs.SimpleQueue = SimQueue
