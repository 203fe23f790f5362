"""Driver of the enumerations that need no simulated cluster.

usage: seq.py MODULE PROPERTY TIER OUT.json [CASE_JSON]

A module of /verif/enums has ``setup()``, ``cases(prop, tier)`` (list of JSON-able chunks of
the space to explore) and ``run(case)`` returning
{"states", "transitions", "executions", "violations": [{"data", "msg"}], "sample"}.
"""
import importlib
import json
import os
import pickle
import select
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


def one(mod, case, wfd):
    try:
        r = (sys.modules[mod].run(case), None)
    except BaseException:
        r = (None, traceback.format_exc()[-3000:])
    data = pickle.dumps(r)
    while data:
        data = data[os.write(wfd, data):]


def pool(mod, cases, width):
    """Run every case in a process of its own; a case whose process dies gives its wait status."""
    todo, live = list(cases), {}
    while todo or live:
        while todo and len(live) < width:
            case = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    one(mod, case, w)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = [case, pid, bytearray()]
        for fd in select.select(list(live), [], [])[0]:
            d = os.read(fd, 1 << 16)
            if d:
                live[fd][2] += d
                continue
            case, pid, buf = live.pop(fd)
            os.close(fd)
            st = os.waitpid(pid, 0)[1]
            if st or not buf:
                yield case, None, None, st
            else:
                yield (case,) + pickle.loads(bytes(buf)) + (0,)


def main():
    mod, prop, tier, out = sys.argv[1:5]
    sys.pycache_prefix = os.environ.get("VERIF_PYC", "/tmp/verif_pyc_%d" % os.getpid())
    sys.path[:0] = [HERE, os.path.join(VERIF, "enums"), REPO]
    m = importlib.import_module(mod)
    res = {"states": 0, "transitions": 0, "executions": 0, "exhaustive": True, "samples": [], "violations": [], "errors": [],
           "bounds": getattr(m, "BOUNDS", {}).get(tier, getattr(m, "BOUNDS", {}).get("quick", ""))}
    reason = m.setup() if hasattr(m, "setup") else None
    if reason:
        res.update(exhaustive=False, errors=["%s: not applicable to this tree: %s" % (mod, reason)], skipped=reason)
        json.dump(res, open(out, "w"))
        return
    cases = [json.loads(sys.argv[5])["chunk"]] if len(sys.argv) > 5 else m.cases(prop, tier)
    for case, r, err, st in pool(mod, cases, os.cpu_count() or 4):
        if err:
            res["errors"].append("%s %s: %s" % (mod, json.dumps(case)[:200], err))
            res["exhaustive"] = False
            continue
        if r is None:
            res["violations"].append({"case": mod, "case_data": {"chunk": case, "data": None}, "violations": [
                "the process crashed (wait status %d) in %s" % (st, json.dumps(case))]})
            continue
        for k in ("states", "transitions", "executions"):
            res[k] += r[k]
        if not r.get("complete", True):
            res["exhaustive"] = False
        if "depth" in r:
            res.setdefault("chunks", []).append({"case": case, "states": r["states"], "depth": r["depth"],
                                                 "complete": r["complete"]})
        if r.get("sample") is not None and len(res["samples"]) < 4:
            res["samples"].append(r["sample"])
        for v in r["violations"]:
            res["violations"].append({"case": mod, "case_data": {"chunk": case, "data": v["data"]}, "violations": [v["msg"]]})
    res["violations"] = res["violations"][:20]
    json.dump(res, open(out, "w"))


if __name__ == "__main__":
    main()
