"""Coordinator: runs one execution of a scenario under a given choice prefix."""
import marshal
import mmap
import os
import select
import signal
import socket
import struct
import sys
import time as _time
import traceback

_now = _time.monotonic

ANY = -1


class Msg:
    __slots__ = ("cid", "src", "tag", "data", "rid", "srank", "seq")

    def __init__(self, cid, src, tag, data, rid, srank, seq):
        self.cid = cid
        self.src = src
        self.tag = tag
        self.data = data
        self.rid = rid
        self.srank = srank
        self.seq = seq


class Thr:
    __slots__ = ("rank", "idx", "sock", "fd", "op", "seq", "aux", "state", "reads")

    def __init__(self, rank, idx, sock):
        self.rank = rank
        self.idx = idx
        self.sock = sock
        self.fd = sock.fileno()
        self.op = None  # pending op tuple
        self.seq = 0
        self.aux = None
        self.reads = {}  # reads since the last other operation: op -> (version, count)
        self.state = "off"  # off | start | wait | run | dead


class ReplayDivergence(Exception):
    pass


class Outcome:
    """Everything one execution produced."""

    __slots__ = ("status", "detail", "result", "log", "viols", "trace", "exits", "steps", "truncated", "extra")

    def __init__(self):
        self.status = None  # done | deadlock | livelock | stuck
        self.detail = ""
        self.result = None
        self.log = []
        self.viols = []
        self.trace = []
        self.exits = {}
        self.steps = 0
        self.truncated = False
        self.extra = {}


READS = ("kvget", "kvhas", "kvkeys", "qlen", "qtry")
NCH = 3  # channels per rank (main + executor threads)


class World:
    def __init__(self, cfg, rank_main, prefix=(), visited=None, stuck_timeout=60.0):
        self.cfg = cfg
        self.n = cfg["n"]
        self.nproc = cfg.get("nproc", self.n)  # PyMP may fork more processes
        self.rank_main = rank_main
        self.prefix = prefix
        self.visited = visited
        self.stuck_timeout = stuck_timeout
        self.out = Outcome()
        self.mail = [[] for _ in range(self.nproc)]
        self.inver = [0] * self.nproc
        self.comms = {"world": tuple(range(self.n)), "merged": tuple(range(self.n))}
        self.reqs = {}  # (rank, rid) -> None | True | recv spec | result
        self.colls = {}  # (cid) -> {rank: (name,data,thr)}
        self.locks = {}  # name -> rank
        self.seq = 0
        self.shmver = 0
        self.shmhist = 0
        self.wake = set()
        self.hist = [()] * self.nproc
        self.pids = {}
        self.spawned = None
        self.change = 0
        self.kv = {}  # PyMP store
        self.kvver = 0
        self.queues = {}
        self.qpend = {}  # unfinished items per JoinableQueue
        self.shared = bool(cfg.get("shm", False) or cfg.get("pymp", False))
        self.nforked = self.n
        # channels / threads made slow by a "D" choice: scheduled only when nothing else can move
        self.demoted = frozenset()
        self.use_dem = cfg.get("slow", True)

    # ---------------------------------------------------------------- set up
    def start(self, pools):
        self.socks = []
        self.thr = {}
        for r in range(self.nproc):
            row = []
            for i in range(NCH):
                a, b = socket.socketpair()
                row.append((a, b))
                self.thr[(r, i)] = Thr(r, i, a)
            self.socks.append(row)
        self.pools = pools
        if self.cfg.get("spawn"):
            self._fork(0)
        else:
            for r in range(self.n):
                self._fork(r)

    def _child_close(self, rank):
        """In a child: drop every coordinator side and other ranks' sockets."""
        keep_all = self.cfg.get("pymp")
        for r in range(self.nproc):
            for a, b in self.socks[r]:
                a.close()
                if r != rank and not keep_all:
                    b.close()

    def _fork(self, r):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                self._child_close(r)
                fds = [b.detach() for _, b in self.socks[r]]
                self.rank_main(r, self.cfg, fds, self.pools, self)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        self.pids[r] = pid
        t = self.thr[(r, 0)]
        t.state = "run"
        self._service(t)

    # ---------------------------------------------------------------- channel
    def _recv_batch(self, t):
        fd = t.fd
        p = self._poll(fd)
        if not p:
            raise TimeoutError
        h = self._read(fd, 4)
        (n,) = struct.unpack("<I", h)
        return marshal.loads(self._read(fd, n))

    def _poll(self, fd):
        r, _, _ = select.select([fd], [], [], self.stuck_timeout)
        return bool(r)

    def _read(self, fd, n):
        out = os.read(fd, n)
        if len(out) == n:
            return out
        if not out:
            raise EOFError
        buf = bytearray(out)
        while len(buf) < n:
            c = os.read(fd, n - len(buf))
            if not c:
                raise EOFError
            buf += c
        return bytes(buf)

    def _reply(self, t, val):
        data = marshal.dumps(val)
        t.op = None
        t.state = "run"
        msg = struct.pack("<I", len(data)) + data
        mv = memoryview(msg)
        try:
            while mv:
                k = os.write(t.fd, mv)
                mv = mv[k:]
        except BrokenPipeError:
            pass
        self._service(t)

    def _service(self, t):
        """Let thread t run until its next call; apply its posts."""
        self.out.steps += 1
        try:
            batch = self._recv_batch(t)
        except TimeoutError:
            self.out.viols.append("rank %d ran for %gs without communicating (endless loop)" % (t.rank, self.stuck_timeout))
            raise _Stop("stuck", "rank %d" % t.rank)
        except (EOFError, ConnectionResetError):
            self._died(t.rank, "process died")
            return
        for m in batch[:-1]:
            self._post(t, m)
        op = batch[-1]
        if op[0] == "exit":
            self.out.exits[t.rank] = (op[1], op[2])
            for i in range(NCH):
                self.thr[(t.rank, i)].state = "dead"
            t.op = None
            self.change += 1
            # let it go
            try:
                os.write(t.fd, struct.pack("<I", len(marshal.dumps(None))) + marshal.dumps(None))
            except OSError:
                pass
            return
        self.seq += 1
        t.op = op
        t.seq = self.seq
        t.state = "wait"
        if t.reads and op[0] not in READS:
            t.reads = {}
        if op[0] == "sleep":
            t.aux = (self.inver[t.rank], self.shmver, self.change)

    def _died(self, rank, why):
        try:
            _, st = os.waitpid(self.pids[rank], 0)
            why += " (wait status %d)" % st
            self.pids.pop(rank)
        except Exception:
            pass
        self.out.exits[rank] = ("died", why)
        for i in range(NCH):
            self.thr[(rank, i)].state = "dead"
            self.thr[(rank, i)].op = None

    # ---------------------------------------------------------------- posts
    def _post(self, t, m):
        k = m[0]
        if k == "msg":
            _, cid, src, dst, tag, data, rid = m
            self.seq += 1
            self.mail[dst].append(Msg(cid, src, tag, data, rid, t.rank, self.seq))
            self.inver[dst] += 1
            self.change += 1
            if rid:
                self.reqs[(t.rank, rid)] = None
        elif k == "obs":
            self.out.log.append((m[1],) + tuple(m[2]))
        elif k == "viol":
            self.out.viols.append("rank %d: %s" % (t.rank, m[1]))
        elif k == "unlock":
            self.locks.pop(m[1], None)
            self._shm_touch(t.rank)
        elif k == "irecv":
            _, cid, me, source, tag, rid = m
            self.reqs[(t.rank, rid)] = ("recv", cid, source, tag)
        elif k == "exec":
            u = self.thr[(t.rank, m[1])]
            self.seq += 1
            u.op = ("start",)
            u.seq = self.seq
            u.state = "wait"
        elif k == "wake":
            self.wake.add(t.rank)
        elif k == "newcomm":
            self.comms[m[1]] = tuple(m[2])
        elif k == "qput":
            self.queues.setdefault(m[1], []).append(m[2])
            self.qpend[m[1]] = self.qpend.get(m[1], 0) + 1
            self.change += 1
        elif k == "proc":
            # a process forked by a simulated process (PyMP): its first call is pending
            u = self.thr[(m[1], 0)]
            self.pids[m[1]] = m[2]
            u.state = "boot"
        elif k == "extra":
            self.out.extra.setdefault(m[1], []).append(m[2])
        else:
            raise RuntimeError("unknown post %r" % (m,))

    def _shm_touch(self, rank):
        self.shmver += 1
        self.shmhist = hash((self.shmhist, rank))
        self.change += 1

    # ---------------------------------------------------------------- matching
    def _match(self, rank, cid, source, tag):
        for m in self.mail[rank]:
            if m.cid == cid and (source == ANY or m.src == source) and (tag == ANY or m.tag == tag):
                return m
        return None

    def _sources(self, rank, cid, tag):
        """First matching message of every source, oldest first."""
        seen = {}
        for m in self.mail[rank]:
            if m.cid == cid and m.src not in seen and (tag == ANY or m.tag == tag):
                seen[m.src] = m
        return list(seen.values())

    def _take(self, rank, m):
        self.mail[rank].remove(m)
        if m.rid:
            self.reqs[(m.srank, m.rid)] = True
        self.change += 1
        return (m.src, m.tag, m.data)

    def _match_recv_req(self, rank, key):
        spec = self.reqs.get(key)
        if isinstance(spec, tuple) and spec[0] == "recv":
            m = self._match(rank, spec[1], spec[2], spec[3])
            if m is not None:
                self.reqs[key] = ("got", self._take(rank, m))

    # ---------------------------------------------------------------- deterministic progress
    def _det(self, t):
        """Execute t's pending op if it is deterministic and enabled. True if it ran."""
        op = t.op
        k = op[0]
        r = t.rank
        if k == "recv":
            if op[3] == ANY:
                return False
            m = self._match(r, op[1], op[3], op[4])
            if m is None:
                return False
            self._reply(t, self._take(r, m))
            return True
        if k == "iprobe":
            if op[3] == ANY:
                return False
            m = self._match(r, op[1], op[3], op[4])
            self._reply(t, None if m is None else (m.src, m.tag, len(m.data)))
            return True
        if k == "probe":
            if op[3] == ANY:
                return False
            m = self._match(r, op[1], op[3], op[4])
            if m is None:
                return False
            self._reply(t, (m.src, m.tag, len(m.data)))
            return True
        if k == "test" or k == "wait":
            key = (r, op[1])
            self._match_recv_req(r, key)
            st = self.reqs.get(key)
            if st is True:
                self._reply(t, ())
                return True
            if isinstance(st, tuple) and st[0] == "got":
                self._reply(t, st[1])
                return True
            if k == "test":
                self._reply(t, None)
                return True
            return False
        if k == "sleep":
            iv, sv, ch = t.aux
            if self.inver[r] != iv or (self.shared and self.shmver != sv) or (self.cfg.get("pymp") and self.change != ch):
                self._reply(t, None)
                return True
            return False
        if k == "coll":
            cid, name, data = op[1], op[2], op[3]
            members = self.comms.get(cid)
            if cid == "self":
                self._reply(t, [data])
                return True
            if members is None:
                members = self._derived(cid)
            pend = {}
            for x in members:
                for i in range(NCH):
                    u = self.thr[(x, i)]
                    if u.state == "wait" and u.op[0] == "coll" and u.op[1] == cid:
                        pend[x] = u
            if len(pend) < len(members):
                return False
            names = {u.op[2] for u in pend.values()}
            if len(names) > 1:
                self.out.viols.append("mismatched collectives on %s: %s" % (cid, sorted(names)))
                raise _Stop("deadlock", "mismatched collectives")
            datas = [pend[x].op[3] for x in members]
            self.change += 1
            if name in ("splittype", "split", "dup"):
                self._register_derived(cid, name, members, datas)
            for x in members:
                self._reply(pend[x], datas)
            return True
        if k == "select":
            if r in self.wake:
                self.wake.discard(r)
                self._reply(t, "wake")
                return True
            return False
        if k == "start":
            self._reply(t, None)
            return True
        if k == "stop":
            # the scenario has seen what it wanted; nothing is claimed about the other ranks
            raise _Stop("done", "stopped")
        if k == "spawn":
            self.spawned = (op[1], op[2], op[3], op[4])
            self.out.extra["spawn"] = [self.spawned]
            nn = op[3] + 1
            self.cfg = dict(self.cfg)
            if nn != self.n:
                self.out.extra["spawn_n"] = [nn]
                raise _Stop("spawn", "%d processes" % nn)
            for i in range(1, self.n):
                self._fork(i)
            self._reply(t, None)
            return True
        if k == "fork":
            idx = self.nforked
            if idx >= self.nproc:
                raise RuntimeError("simulator: out of processes")
            self.nforked += 1
            self._reply(t, idx)
            return True
        if k == "qget":
            q = self.queues.get(op[1])
            if not q or self._rivals(t):
                return False
            self.change += 1
            self._reply(t, q.pop(0))
            return True
        if k == "qdone":
            n = self.qpend.get(op[1], 0)
            self.change += 1
            if n > 0:
                self.qpend[op[1]] = n - 1
            self._reply(t, n > 0)
            return True
        if k == "qjoin":
            if self.qpend.get(op[1], 0):
                return False
            self._reply(t, None)
            return True
        return False

    def _rivals(self, t):
        """Other threads waiting for an item of the same queue."""
        return [u for u in self._order if u is not t and u.state == "wait" and u.op[0] == "qget" and u.op[1] == t.op[1]]

    def _register_derived(self, cid, name, members, datas):
        import pickle

        n = self._ncount = getattr(self, "_ncount", {})
        c = n.get((cid, "d"), 0)
        n[(cid, "d")] = c + 1
        cols = {}
        for x, d in zip(members, datas):
            color, key = pickle.loads(d)
            cols.setdefault(color, []).append((key, members.index(x), x))
        for color, lst in cols.items():
            self.comms["%s/%s%d:%s" % (cid, name, c, color)] = tuple(x for _, _, x in sorted(lst))

    def _derived(self, cid):
        raise RuntimeError("unknown communicator %s" % cid)

    # ---------------------------------------------------------------- choices
    def _options(self):
        """List of (age, label, thread, action) for all enabled choice ops."""
        opts = []
        for t in self._order:
            if t.state != "wait":
                continue
            op = t.op
            k = op[0]
            r = t.rank
            if k in ("iprobe", "probe"):
                for m in self._sources(r, op[1], op[4]):
                    opts.append((0, m.seq, ("m", r, m.src, op[4]), t, m))
            elif k == "recv" and op[3] == ANY:
                for m in self._sources(r, op[1], op[4]):
                    opts.append((0, m.seq, ("m", r, m.src, op[4]), t, m))
            elif k == "lock":
                if op[1] not in self.locks:
                    opts.append((0, t.seq, ("L", r, t.idx), t, None))
            elif k == "shmw":
                opts.append((0, t.seq, ("W", r, t.idx), t, None))
            elif k == "pt":
                opts.append((0, t.seq, ("p", r, t.idx, op[1]), t, None))
            elif k == "choose":
                for v in range(op[1]):
                    opts.append((0, t.seq, ("c", r, t.idx, op[2], v), t, v))
            elif k == "select" and op[1] > 0:
                opts.append((1, t.seq, ("t", r, t.idx), t, None))
            elif k in READS:
                # a third identical read in a run of reads without any change is a spin loop: wait for a change
                if t.reads.get(op, (0, 0))[1] >= 2 and all(v == self._kvver(o) for o, (v, _) in t.reads.items()):
                    continue
                opts.append((0, t.seq, ("g", r, t.idx), t, None))
            elif k in ("kvset", "kvdel", "kvadd", "kvpop"):
                opts.append((0, t.seq, ("s", r, t.idx), t, None))
            elif k == "qget":
                if self.queues.get(op[1]):
                    opts.append((0, t.seq, ("q", r, t.idx), t, None))
        dem = self.demoted
        if dem:
            opts.sort(key=lambda o: (o[0], o[2][:3] in dem, o[1]))
        else:
            opts.sort(key=lambda o: (o[0], o[1]))
        return opts

    def _shm_on(self):
        return self.shared

    def _apply(self, o):
        _, _, label, t, arg = o
        r = t.rank
        ent = label[2:]
        if self.shared:
            ent = ent + (self.shmhist,)
        self.hist[r] = (hash((self.hist[r], ent)),)
        k = t.op[0]
        if k in ("iprobe", "probe"):
            self._reply(t, (arg.src, arg.tag, len(arg.data)))
        elif k == "recv":
            self._reply(t, self._take(r, arg))
        elif k == "lock":
            self.locks[t.op[1]] = r
            self._shm_touch(r)
            self._reply(t, None)
        elif k == "shmw":
            self._shm_touch(r)
            self._reply(t, None)
        elif k == "pt":
            self.change += 1
            self._reply(t, None)
        elif k == "choose":
            self._reply(t, arg)
        elif k == "select":
            self.change += 1
            self._reply(t, "timer")
        elif k in READS:
            self._kvread(t)
        elif k == "qget":
            self.change += 1
            self._kvhist(r)
            self._reply(t, self.queues[t.op[1]].pop(0))
        elif k == "kvset":
            self._kvput(r, t.op[1], t.op[2])
            self._reply(t, None)
        elif k == "kvadd":
            if t.op[1] not in self.kv:
                self._kvput(r, t.op[1], t.op[2])
            self._reply(t, (self.kv[t.op[1]][0], True))
        elif k == "kvdel" or k == "kvpop":
            v = self.kv.pop(t.op[1], None)
            self.kvver += 1
            self.change += 1
            self._kvhist(r)
            if k == "kvdel":
                self._reply(t, v is not None)
            else:
                self._reply(t, (None, False) if v is None else (v[0], True))

    def _kvput(self, r, key, val):
        self.kvver += 1
        self.change += 1
        self.kv[key] = (val, self.kvver)
        self._kvhist(r)

    def _kvver(self, op):
        if op[0] in ("kvget", "kvhas"):
            v = self.kv.get(op[1])
            return v[1] if v else 0
        if op[0] in ("qlen", "qtry"):
            return len(self.queues.get(op[1], ()))
        return self.kvver

    def _kvread(self, t):
        op = t.op
        ver = self._kvver(op)
        n = 1
        if op in t.reads:
            if all(v == self._kvver(o) for o, (v, _) in t.reads.items()):
                n = t.reads[op][1] + 1
            else:
                t.reads = {}
        t.reads[op] = (ver, n)
        k = op[0]
        if k == "kvget":
            v = self.kv.get(op[1])
            rep = (None, False) if v is None else (v[0], True)
        elif k == "kvhas":
            rep = op[1] in self.kv
        elif k == "kvkeys":
            rep = [v[0] for kk, v in self.kv.items() if kk.startswith(op[1])]
        elif k == "qlen":
            rep = len(self.queues.get(op[1], ()))
        else:
            q = self.queues.get(op[1])
            if q:
                self.change += 1
                self._kvhist(t.rank)
            rep = q.pop(0) if q else None
        self._reply(t, rep)

    def _kvhist(self, r):
        self.shmhist = hash((self.shmhist, r))

    def succ_hist(self, o):
        label = o[2]
        r = label[1]
        ent = label[2:]
        if self.shared:
            ent = ent + (self.shmhist,)
        h = list(self.hist)
        h[r] = (hash((h[r], ent)),)
        return hash((tuple(h), self.shmhist if self.shared else 0, self.demoted))

    def key(self):
        return hash((tuple(self.hist), self.shmhist if self.shared else 0, self.demoted))

    # ---------------------------------------------------------------- main loop
    def run(self, pools, max_steps=20000):
        out = self.out
        try:
            self.start(pools)
            self._loop(max_steps)
        except _Stop as s:
            out.status, out.detail = s.args
        finally:
            self._cleanup()
        return out

    def _boot(self, t):
        t.state = "run"
        self._service(t)

    def _loop(self, max_steps):
        out = self.out
        self._order = [self.thr[(r, i)] for r in range(self.nproc) for i in range(NCH)]
        ci = 0
        stale = 0
        last_change = -1
        while True:
            prog = True
            while prog:
                prog = False
                for t in self._order:
                    if t.state == "boot":
                        self._boot(t)
                        prog = True
                    while t.state == "wait" and self._det(t):
                        prog = True
                        if out.steps > max_steps:
                            raise _Stop("livelock", "more than %d steps" % max_steps)
            if self._finished():
                out.status = "done"
                return
            if out.viols and self.cfg.get("stop_on_viol", True):
                raise _Stop("viol", out.viols[0])
            for r, (st, info) in out.exits.items():
                if st != "ok":
                    raise _Stop("died", "rank %d %s: %s" % (r, st, info))
            opts = self._options()
            if not opts:
                # spinners: give every blocked poller one chance to act on "nothing there"
                if self.change == last_change:
                    stale += 1
                else:
                    stale = 0
                last_change = self.change
                if stale > (300 if self.cfg.get("pymp") else 3) or not self._poke():
                    raise _Stop("deadlock", self.describe())
                continue
            stale = 0
            if out.steps > max_steps:
                raise _Stop("livelock", "more than %d steps" % max_steps)
            labels = [o[2] for o in opts]
            if len(opts) == 1:
                self._apply(opts[0])
                continue
            dlab = None
            if self.use_dem and labels[0][0] != "c" and labels[0][:3] not in self.demoted:
                dlab = ("D",) + labels[0][:3]
                labels.append(dlab)
            if ci < len(self.prefix):
                want = self.prefix[ci]
                if want not in labels:
                    raise ReplayDivergence("step %d: want %r, have %r" % (ci, want, labels))
                c = labels.index(want)
                rec = None
            else:
                c = 0
                k = self.key()
                if self.visited is not None and self.visited(k, ci):
                    out.truncated = True
                    raise _Stop("done", "truncated")
                rec = (k, [self.succ_hist(o) for o in opts])
                if dlab:
                    rec[1].append(hash((k, dlab)))
            out.trace.append((labels, c, rec))
            ci += 1
            if labels[c][0] == "D":
                self.demoted = self.demoted | {labels[c][1:]}
                continue
            self._apply(opts[c])

    def _finished(self):
        want = range(self.n)
        if self.cfg.get("pymp"):
            want = [0]
        return all(r in self.out.exits for r in want)

    def _poke(self):
        did = False
        for t in self._order:
            if t.state == "wait" and t.op[0] in ("iprobe", "sleep"):
                did = True
                self._reply(t, None)
            elif t.state == "wait" and t.op[0] in READS:
                did = True
                self._kvread(t)
        return did

    def describe(self):
        parts = []
        for t in self._order:
            if t.state == "wait" and t.op is not None and t.op[0] != "idle":
                parts.append("rank %d.%d blocked in %s" % (t.rank, t.idx, tuple(x if not isinstance(x, bytes) else "<%dB>" % len(x) for x in t.op)))
        for r in range(self.nproc):
            if self.mail[r]:
                parts.append("mail[%d]=%s" % (r, [(m.src, m.tag) for m in self.mail[r]]))
        return "; ".join(parts)

    def _cleanup(self):
        for r, pid in list(self.pids.items()):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        for r, pid in list(self.pids.items()):
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        for row in self.socks:
            for a, b in row:
                a.close()
                b.close()


class _Stop(Exception):
    pass
