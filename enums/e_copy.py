"""C13: the parallel copy and the fill primitive, for every length, alignment and thread count."""
import ctypes
import importlib.util
import os
import sys

BOUNDS = {
    "quick": "threads 1,2,3,4,6,8; every source length 0..200 and every length within 3 bytes of a multiple of 64 up to "
             "64*(2*threads+2); source offset 0..63; destination offsets 0, 1, 31, 63; each thread slow once per length class",
    "thorough": "threads 1..8, every length 0..64*(2*threads+3), source offset 0..63, destination offsets 0,1,8,31,32,63",
}
X = {}
GUARD = 192


def setup():
    import buildext

    X["path"] = buildext.build()
    X["slow"] = buildext.build(shim=os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.h"))
    for k in ("path", "slow"):
        m = load(X[k])
        for f in ("parallel_memcopy", "fill"):
            if not hasattr(m, f):
                return "the extension has no %s" % f
    return None


def load(path):
    # the same name in one process would give the cached module: the slow variant is loaded in other processes only
    spec = importlib.util.spec_from_file_location("_memory", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def lengths(t, tier):
    top = 64 * (2 * t + 2)
    if tier == "thorough":
        return list(range(0, 64 * (2 * t + 3)))
    s = set(range(0, 201))
    for m in range(0, top + 1, 64):
        s.update(x for x in range(m - 3, m + 4) if x >= 0)
    return sorted(s)


def cases(prop, tier):
    out = []
    for t in ((1, 2, 3, 4, 6, 8) if tier == "quick" else range(1, 9)):
        for lo in range(0, 64, 16):
            out.append({"kind": "copy", "threads": t, "src": [lo, lo + 16], "tier": tier,
                        "dst": [0, 1, 31, 63] if tier == "quick" else [0, 1, 8, 31, 32, 63]})
    out.append({"kind": "fill"})
    for t in (1, 2, 3, 6, 8):
        out.append({"kind": "slow", "threads": t})
    for t in (1, 4, 6, 7):
        out.append({"kind": "big", "threads": t})
    return out


def arena(n):
    """A writable buffer that starts at a multiple of 64."""
    raw = bytearray(n + 64)
    a = ctypes.addressof(ctypes.c_char.from_buffer(raw))
    return raw, (-a) % 64


def run(case):
    res = {"states": 0, "transitions": 0, "executions": 0, "violations": [], "sample": None}
    if case["kind"] == "fill":
        return run_fill(res)
    m = load(X["slow"] if case["kind"] == "slow" else X["path"])
    copy = m.parallel_memcopy
    t = case["threads"]
    if case["kind"] == "slow":
        todo = [(n, s, 5) for n in (1, 63, 64, 65, 200, 64 * t, 64 * t + 1, 128 * t + 77, 6400 * t + 5) for s in (0, 1, 33)]
    elif case["kind"] == "big":
        todo = [(n, s, d) for n in (1 << 20, (1 << 20) + 13, 300001, 99999) for s in (0, 1, 40, 63) for d in (0, 17)]
    else:
        todo = [(n, s, d) for n in lengths(t, case["tier"]) for s in range(*case["src"]) for d in case["dst"]]
    big = max(n for n, _, _ in todo) + 2 * GUARD + 128
    pat = bytes((i * 7 + (i >> 8) * 13 + 1) % 251 for i in range(65536))
    pat = pat * (big // 65536 + 1)
    sraw, s0 = arena(big)
    draw, d0 = arena(big)
    smv, dmv = memoryview(sraw), memoryview(draw)
    base = bytes([0xEE]) * len(draw)
    for n, s, d in todo:
        res["executions"] += 1
        res["transitions"] += 1
        so, do = s0 + GUARD + s, d0 + GUARD + d
        sraw[so : so + n] = pat[:n]
        lim = min(len(draw), do + n + 2 * GUARD)
        draw[:lim] = base[:lim]
        want = base[:do] + pat[:n] + base[do + n : lim]
        try:
            copy(smv[so : so + n], dmv[do : do + n], t)
        except Exception as e:
            why = "%s: %s" % (type(e).__name__, e)
        else:
            if draw[:lim] == want:
                continue
            j = next(i for i in range(lim) if draw[i] != want[i])
            where = "outside the destination at %+d" % (j - do) if not do <= j < do + n else "at byte %d" % (j - do)
            why = "the destination differs %s" % where
            draw[:] = base
        res["violations"].append({"data": [n, s, d, t], "msg": "copy of %d bytes, source offset %d, destination offset %d, %d threads%s: %s" % (
            n, s, d, t, " (threads slow)" if case["kind"] == "slow" else "", why)})
        if len(res["violations"]) >= 3:
            break
    res["states"] = res["executions"]
    res["sample"] = {"length": todo[-1][0], "source offset": todo[-1][1], "destination offset": todo[-1][2], "threads": t}
    return res


def run_fill(res):
    fill = load(X["path"]).fill
    for n in range(1, 140):
        for off in (0, 1, 3):
            for v in (0, -1, 1, -(2**63), 2**63 - 1, 2**40 + 5):
                res["executions"] += 1
                res["transitions"] += 1
                b = memoryview(bytearray(8 * (n + off + 5))).cast("l")
                for i in range(len(b)):
                    b[i] = 77
                fill(b[off : off + n], v)
                if b.tolist() != [77] * off + [v] * n + [77] * 5:
                    res["violations"].append({"data": [n, off, v], "msg": "fill of %d elements at %d with %d is wrong" % (n, off, v)})
                    return res
    res["states"] = res["executions"]
    return res
