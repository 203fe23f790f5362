"""Rank-side runtime: talks to the coordinator, owns clocks, threads, event loop.

One process per simulated rank.  Exactly one thread in the whole simulated
world runs at a time: each controlled thread owns a channel (socket fd) and
blocks in ``call`` until the coordinator answers.
"""
import marshal
import os
import struct
import sys
import threading

_tls = threading.local()
R = None  # the Runtime of this process (None: not inside a simulation)


def _read_exact(fd, n):
    out = os.read(fd, n)
    if len(out) == n:
        return out
    buf = bytearray(out)
    while len(buf) < n:
        c = os.read(fd, n - len(buf))
        if not c:
            os._exit(77)
        buf += c
    return bytes(buf)


def _write_all(fd, data):
    mv = memoryview(data)
    while mv:
        k = os.write(fd, mv)
        mv = mv[k:]


class Chan:
    __slots__ = ("fd", "idx", "buf")

    def __init__(self, fd, idx):
        self.fd = fd
        self.idx = idx
        self.buf = []

    def post(self, *msg):
        self.buf.append(msg)

    def call(self, *msg):
        # swap first: a finalizer run by the cyclic collector may call again
        buf, self.buf = self.buf, []
        buf.append(msg)
        data = marshal.dumps(buf)
        _write_all(self.fd, struct.pack("<I", len(data)) + data)
        h = _read_exact(self.fd, 4)
        (n,) = struct.unpack("<I", h)
        return marshal.loads(_read_exact(self.fd, n))


class Runtime:
    def __init__(self, rank, cfg, fds, pools):
        self.rank = rank
        self.cfg = cfg
        self.chans = [Chan(fd, i) for i, fd in enumerate(fds)]
        self.pools = pools
        self.vtime = 1000.0
        self.tick = cfg.get("tick", 2.0)
        self.threads = []  # executor threads
        self.idle = []
        self.queue = []
        self.uuid_ctr = 0
        self.proc_label = rank
        self.gc_armed = False
        self.in_gc = False

    # -- time ------------------------------------------------------------
    def now(self):
        return self.vtime

    def perf(self):
        self.vtime += self.tick
        return self.vtime


def cur():
    return _tls.chan


def post(*msg):
    _tls.chan.post(*msg)


def call(*msg):
    return _tls.chan.call(*msg)


# ---------------------------------------------------------------- scenario API
def obs(*label):
    """Record an observation in the global log of the execution."""
    if R is not None:
        post("obs", R.rank, label)


def pt(label="pt"):
    """A scheduling point (models work of unknown duration)."""
    if R is not None:
        call("pt", label)


def choose(n, label="choose"):
    """An explicit nondeterministic choice of 0..n-1 made by the explorer."""
    if R is None:
        return 0
    return call("choose", n, label)


def whoami():
    return R.rank if R is not None else -1


def arm_gc():
    """There is cyclic garbage: from now on the explorer decides at which MPI call of this process it is collected."""
    if R is not None:
        R.gc_armed = True


def gc_point():
    if R is not None and R.gc_armed and not R.in_gc:
        R.in_gc = True
        try:
            if call("choose", 2, "gc"):
                import gc

                R.gc_armed = False
                gc.collect()
        finally:
            R.in_gc = False


# ---------------------------------------------------------------- patches
class _SimLockBase:
    """A lock of the code under test: waiting for it is a wait of the simulated world."""

    def __init__(self):
        self._l = self._make()

    def acquire(self, blocking=True, timeout=-1):
        if not blocking or getattr(_tls, "chan", None) is None:
            return self._l.acquire(blocking) if timeout == -1 else self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            call("sleep")
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class _SimLock(_SimLockBase):
    _make = staticmethod(threading.Lock)


class _SimRLock(_SimLockBase):
    _make = staticmethod(threading.RLock)


def patch_locks():
    """Locks created by modules of unidist are simulated ones (called before unidist is imported)."""
    for name, sim in (("Lock", _SimLock), ("RLock", _SimRLock)):
        def make(orig=getattr(threading, name), sim=sim):
            if sys._getframe(1).f_globals.get("__name__", "").startswith("unidist"):
                return sim()
            return orig()

        setattr(threading, name, make)


def _sleep(secs):
    if getattr(_tls, "chan", None) is None:
        return
    R.vtime += max(float(secs), 0.0)
    call("sleep")


class _Work:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


def _exec_thread(chan, work_box):
    _tls.chan = chan
    # wait for the first grant
    h = _read_exact(chan.fd, 4)
    (n,) = struct.unpack("<I", h)
    _read_exact(chan.fd, n)
    while True:
        work_box.pop()()
        R.idle.append((chan, work_box))
        R.idle.sort(key=lambda t: t[0].idx)
        chan.call("idle")


def run_on_thread(fn):
    """Run fn on a controlled executor thread."""
    if R.idle:
        chan, box = R.idle.pop(0)
        box.append(fn)
        cur().post("exec", chan.idx)
        return
    idx = len(R.threads) + 1
    if idx >= len(R.chans):
        raise RuntimeError("simulator: out of executor threads")
    chan = R.chans[idx]
    box = [fn]
    t = threading.Thread(target=_exec_thread, args=(chan, box), daemon=True)
    R.threads.append(t)
    cur().post("exec", idx)
    t.start()


def _install_asyncio():
    import asyncio
    import selectors

    class SimSelector(selectors.SelectSelector):
        def select(self, timeout=None):
            if timeout is not None and timeout <= 0:
                return []
            kind = call("select", -1.0 if timeout is None else float(timeout))
            if kind == "timer" and timeout is not None:
                R.vtime += timeout
            return []

    class SimLoop(asyncio.SelectorEventLoop):
        def __init__(self):
            super().__init__(SimSelector())

        def time(self):
            return R.vtime

        def _write_to_self(self):
            post("wake")

        def run_in_executor(self, executor, func, *args):
            fut = self.create_future()

            def setres(ok, v):
                if not fut.cancelled():
                    (fut.set_result if ok else fut.set_exception)(v)

            def work():
                try:
                    v = func(*args)
                except BaseException as e:  # noqa
                    self.call_soon_threadsafe(setres, False, e)
                else:
                    self.call_soon_threadsafe(setres, True, v)

            run_on_thread(work)
            return fut

    class SimPolicy(asyncio.DefaultEventLoopPolicy):
        def new_event_loop(self):
            return SimLoop()

    asyncio.set_event_loop_policy(SimPolicy())


def install(rank, cfg, fds, pools):
    """Take over this (freshly forked) process as simulated rank `rank`."""
    global R
    R = Runtime(rank, cfg, fds, pools)
    _tls.chan = R.chans[0]
    import time
    import uuid
    import random
    import socket

    time.sleep = _sleep
    time.perf_counter = R.perf
    time.monotonic = R.now
    time.time = R.perf
    random.seed(12345 + rank)
    hosts = cfg.get("hosts") or ["h0"] * cfg["n"]
    host = hosts[rank] if rank < len(hosts) else "h0"
    socket.gethostname = lambda: host
    socket.gethostbyname = lambda h: h

    class _U:
        __slots__ = ("hex", "int")

        def __str__(self):
            return self.hex

    def uuid4():
        R.uuid_ctr += 1
        u = _U()
        u.int = R.rank * 1000000 + R.uuid_ctr
        u.hex = "%032x" % u.int
        return u

    uuid.uuid4 = uuid4
    _install_asyncio()


def reinstall(rank, fds):
    """A process forked by a simulated process becomes simulated process `rank`."""
    global R
    cfg, pools = R.cfg, R.pools
    R = Runtime(rank, cfg, fds, pools)
    _tls.chan = R.chans[0]
    import random
    import time

    random.seed(12345 + rank)
    time.perf_counter = R.perf
    time.monotonic = R.now
    time.time = R.perf


def finish(status, info):
    """Leave the simulation (never returns)."""
    try:
        call("exit", status, info)
    finally:
        os._exit(0)
