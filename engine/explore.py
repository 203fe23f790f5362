"""Exhaustive bounded exploration: deviation-bounded search with state dedup.

A server process (one per environment configuration) imports the code under test
against the simulated MPI, then forks explorer workers; every execution forks the
ranks afresh.
"""
import gc
import heapq
import json
import mmap
import os
import pickle
import select
import struct
import sys
import time
import traceback

import coord
import harness

_now = time.monotonic

TBL = 1 << 20


class Table:
    """Shared open-addressing map state-key -> largest remaining budget explored (+1)."""

    def __init__(self):
        self.mm = mmap.mmap(-1, TBL * 16)
        self.q = memoryview(self.mm).cast("q")

    def _slot(self, key):
        if key == 0:
            key = 1
        i = (key * 0x9E3779B97F4A7C15 >> 20) & (TBL - 1)
        q = self.q
        while True:
            k = q[2 * i]
            if k == key or k == 0:
                return i, key
            i = (i + 1) & (TBL - 1)

    def get(self, key):
        i, key = self._slot(key)
        return self.q[2 * i + 1] if self.q[2 * i] == key else 0

    def put(self, key, v):
        i, key = self._slot(key)
        self.q[2 * i + 1] = v
        self.q[2 * i] = key


def salted(si, key, kind):
    return hash((si, kind, key))


def judge(sc, out):
    """Violations of one finished execution."""
    v = list(out.viols)
    if out.status == "died":
        if not v:
            v.append(out.detail)
    elif out.status == "viol":
        pass
    elif out.status != "done":
        v.append("%s: %s" % (out.status, out.detail))
    else:
        if out.truncated:
            return v
        for r, (st, info) in out.exits.items():
            if st != "ok":
                v.append("rank %d %s: %s" % (r, st, info))
        if sc.check is not None and not v:
            try:
                msg = sc.check(out)
            except Exception:
                msg = "oracle failed: " + traceback.format_exc()[-1500:]
            if msg:
                v.append(str(msg))
    return v


_pool_cache = {}


def pools_for(cfg):
    hosts = tuple(cfg.get("hosts") or ["h0"])
    size = cfg.get("pool", 1 << 20)
    k = (tuple(sorted(set(hosts))), size)
    if k not in _pool_cache:
        _pool_cache[k] = harness.make_pools(hosts, size)
    p = _pool_cache[k]
    if cfg.get("shm"):
        pat = b"\xa5" * size
        for m in p.values():
            m[:] = pat
    return p


def run_once(si_or_name, prefix, visited=None, stuck_timeout=60.0):
    sc = harness.SCEN[si_or_name]
    cfg = sc.world_cfg()
    w = coord.World(cfg, harness.rank_main, tuple(prefix), visited, stuck_timeout)
    out = w.run(pools_for(cfg), max_steps=cfg.get("max_steps", 20000))
    return sc, out


def _worker(rfd, wfd, table):
    """Explorer worker: read jobs, run executions, write results."""
    gc.disable()
    while True:
        h = os.read(rfd, 4)
        if not h:
            os._exit(0)
        n = struct.unpack("<I", h)[0]
        job = pickle.loads(_rd(rfd, n))
        si, name, prefix, budget, want_full = job
        try:
            vis = None
            if table is not None and not want_full:
                def vis(k, ci, si=si, budget=budget):
                    return table.get(salted(si, k, 0)) > budget
            sc, out = run_once(name, prefix, vis)
            viols = judge(sc, out)
            res = ("ok", out.status, viols, out.trace, out.steps, out.truncated,
                   out.log if (viols or want_full) else None, out.detail)
        except coord.ReplayDivergence as e:
            res = ("diverged", str(e))
        except BaseException:
            res = ("error", traceback.format_exc())
        data = pickle.dumps((job[:2], res), 5)
        _wr(wfd, struct.pack("<I", len(data)) + data)


def _rd(fd, n):
    b = bytearray()
    while len(b) < n:
        c = os.read(fd, min(n - len(b), 1 << 20))
        if not c:
            raise EOFError
        b += c
    return bytes(b)


def _wr(fd, data):
    mv = memoryview(data)
    while mv:
        mv = mv[os.write(fd, mv):]


class Pool:
    def __init__(self, nw, table):
        self.w = []
        fds = []
        for _i in range(nw):
            a, b = os.pipe()
            c, d = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    for f in fds:
                        os.close(f)
                    os.close(b)
                    os.close(c)
                    try:
                        cpus = sorted(os.sched_getaffinity(0))
                        os.sched_setaffinity(0, {cpus[_i % len(cpus)]})
                    except OSError:
                        pass
                    _worker(a, d, table)
                finally:
                    os._exit(1)
            os.close(a)
            os.close(d)
            fds += [b, c]
            self.w.append((pid, b, c))
        self.idle = list(range(nw))
        self.busy = {}

    def submit(self, job):
        i = self.idle.pop()
        data = pickle.dumps(job, 5)
        _wr(self.w[i][1], struct.pack("<I", len(data)) + data)
        self.busy[self.w[i][2]] = (i, job)

    def wait(self):
        r, _, _ = select.select(list(self.busy), [], [])
        out = []
        for fd in r:
            i, job = self.busy.pop(fd)
            n = struct.unpack("<I", _rd(fd, 4))[0]
            _, res = pickle.loads(_rd(fd, n))
            self.idle.append(i)
            out.append((job, res))
        return out

    def close(self):
        for pid, b, c in self.w:
            os.close(b)
            os.close(c)
        for pid, _, _ in self.w:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass


class Stat:
    def __init__(self, sc):
        self.sc = sc
        self.execs = 0
        self.steps = 0
        self.trunc = 0
        self.states = 0
        self.trans = 0
        self.maxdev = -1
        self.complete_dev = -1
        self.exhausted = False
        self.viol = None
        self.maxtrace = 0
        self.pending = {}  # dev -> outstanding
        self.capped = False
        self.dead = False
        self.lost = 0
        self.sample = None


def explore(names, nworkers=8, deadline=None, default_depth=2, default_cap=400, log=None, stop_first=True):
    """Explore all scenarios in `names`; returns ({name: Stat}, violations)."""
    table = Table()
    stats = {}
    heap = []
    cnt = 0
    viols = []
    errors = []
    scs = [harness.SCEN[n] for n in names]
    pool = Pool(nworkers, table)
    seen = set()
    for si, sc in enumerate(scs):
        st = stats[sc.name] = Stat(sc)
        st.depth = sc.depth if sc.depth is not None else default_depth
        st.cap = sc.cap if sc.cap is not None else default_cap
        heapq.heappush(heap, (0, 0, cnt, si, ()))
        cnt += 1
        st.pending[0] = 1
    fails = {}
    while heap or pool.busy:
        if deadline is not None and _now() > deadline:
            for _, _, _, si, _ in heap:
                stats[scs[si].name].capped = True
            heap = []
        while heap and pool.idle:
            dev, _, _, si, prefix = heapq.heappop(heap)
            sc = scs[si]
            st = stats[sc.name]
            if st.dead:
                continue
            if st.execs >= st.cap:
                st.capped = True
                continue
            st.execs += 1
            pool.submit((si, sc.name, prefix, st.depth - dev, False))
        if not pool.busy:
            continue
        for job, res in pool.wait():
            si, name, prefix, budget, _ = job
            sc = scs[si]
            st = stats[name]
            dev = st.depth - budget
            if res[0] != "ok":
                # the code under test behaved differently on the same schedule: try again, then skip this subtree
                k = (si, prefix)
                fails[k] = fails.get(k, 0) + 1
                if fails[k] < 3:
                    heapq.heappush(heap, (dev, 0, cnt, si, prefix))
                    cnt += 1
                else:
                    errors.append((name, prefix, res))
                    st.lost += 1
                    if not prefix or st.lost > 20:
                        st.dead = True
                continue
            _, status, vs, trace, steps, trunc, lg, detail = res
            st.steps += steps
            st.maxtrace = max(st.maxtrace, len(trace))
            st.maxdev = max(st.maxdev, dev)
            if st.sample is None or (st.sample[0] < dev and not trunc):
                st.sample = (dev, [repr(t[0][t[1]]) for t in trace])
            if trunc:
                st.trunc += 1
            if vs and st.viol is None:
                st.viol = (vs, [t[0][t[1]] for t in trace], lg, dev)
                viols.append((name, vs, [t[0][t[1]] for t in trace], lg))
                st.dead = True
                if log:
                    log("violation in %s after %d executions: %s" % (name, st.execs, vs[0][:600]))
                continue
            st.pending[dev] -= 1
            for i in range(len(prefix), len(trace)):
                labels, c, rec = trace[i]
                key, succ = rec
                sk = salted(si, key, 0)
                old = table.get(sk)
                if old > budget:
                    break
                if old == 0:
                    st.states += 1
                table.put(sk, budget + 1)
                if budget <= 0:
                    if len(labels) > 1:
                        st.capped_depth = True
                    continue
                base = None
                for j, lab in enumerate(labels):
                    if j == c:
                        continue
                    k2 = salted(si, succ[j], 1)
                    o2 = table.get(k2)
                    if o2 >= budget:
                        continue
                    if o2 == 0:
                        st.trans += 1
                    table.put(k2, budget)
                    if base is None:
                        base = tuple(t[0][t[1]] for t in trace[:i])
                    heapq.heappush(heap, (dev + 1, hash((si, base, lab)) & 0xFFFFFFFF, cnt, si, base + (lab,)))
                    cnt += 1
                    st.pending[dev + 1] = st.pending.get(dev + 1, 0) + 1
                st.trans += 1 if old == 0 else 0
    pool.close()
    for st in stats.values():
        d = -1
        for k in range(0, st.depth + 1):
            if st.pending.get(k, 0) == 0:
                d = k
            else:
                break
        st.complete_dev = d if not st.viol else None
        st.exhausted = (not st.capped and not st.viol and not st.dead and all(v == 0 for v in st.pending.values())
                        and (st.maxdev < st.depth or not getattr(st, "capped_depth", False)))
    return stats, viols, errors
