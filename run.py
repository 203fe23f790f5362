#!/usr/bin/env python3
"""Entry point of every check.

run.py CXX [quick|thorough]   decide one property on /repo's current working tree
run.py replay FILE            re-execute a recorded violation
run.py list                   scenarios per property
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
ENGINE = os.path.join(VERIF, "engine")

sys.path.insert(0, VERIF)
from plan import PLAN  # noqa


def modules():
    return sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(VERIF, "scenarios", "s_*.py")))


def child_env(scratch):
    e = {k: v for k, v in os.environ.items() if not k.startswith("UNIDIST_")}
    e.update(PYTHONHASHSEED="0", VERIF_PYC=os.path.join(scratch, "pyc"), PYTHONDONTWRITEBYTECODE="",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TMPDIR=scratch, VERIF_REPO=REPO)
    e.pop("PYTHONPATH", None)
    return e


def serve(env, req, scratch, timeout=None):
    out = os.path.join(scratch, "out_%s.json" % env)
    p = subprocess.run([PY, "-B", os.path.join(ENGINE, "server.py"), env, out], input=json.dumps(req), text=True,
                       env=child_env(scratch), cwd=scratch, timeout=timeout)
    if p.returncode != 0:
        raise RuntimeError("exploration server for %s ended with %d" % (env, p.returncode))
    return json.load(open(out))


def seq(mod, prop, tier, scratch, case=None):
    out = os.path.join(scratch, "out_%s.json" % mod)
    cmd = [PY, "-B", os.path.join(ENGINE, "seq.py"), mod, prop, tier, out]
    if case is not None:
        cmd.append(json.dumps(case))
    p = subprocess.run(cmd, env=child_env(scratch), cwd=scratch)
    if p.returncode != 0:
        raise RuntimeError("enumeration %s ended with %d" % (mod, p.returncode))
    return json.load(open(out))


def known(prop):
    res = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) case=(\S+) match=(.*?) :: (.*)", l.strip())
        if m and m.group(1) == prop:
            res.append((m.group(2), m.group(3), m.group(4)))
    return res


def check(prop, tier):
    t0 = time.monotonic()
    plan = PLAN[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    scen, viols, errors, seqs = {}, [], [], {}
    limit = 780 if tier == "quick" else 6000
    try:
        for env in plan.get("envs", []):
            t = plan.get("tiers", {}).get(tier, {})
            depth, cap = t.get("depth", 2 if tier == "quick" else 3), t.get("cap", 250 if tier == "quick" else 12000)
            left = limit - (time.monotonic() - t0)
            r = serve(env, {"modules": modules(), "select": "^%s_" % prop, "tier": tier, "depth": depth, "cap": cap,
                            "deadline": max(20, left)}, scratch)
            scen.update(r["scenarios"])
            errors += r["errors"]
            for v in r["violations"]:
                v["kind"] = "sim"
                v["env"] = env
                v["case"] = v["scenario"]
                viols.append(v)
        for mod in plan.get("seq", []):
            r = seq(mod, prop, tier, scratch)
            seqs[mod] = r
            for v in r["violations"]:
                v["kind"] = "seq"
                v["module"] = mod
                viols.append(v)
            errors += r.get("errors", [])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    kn = known(prop)
    bad, found = [], []
    for v in viols:
        text = "\n".join(v["violations"])
        hit = [k for k in kn if k[0] == v["case"] and re.search(k[1], text, re.S)]
        if hit:
            found.append((v, hit[0]))
        else:
            bad.append(v)
    for v, k in found:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    rdir = os.path.join(ev_dir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.unlink(old)
    for i, v in enumerate(bad):
        v["property"] = prop
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        json.dump(v, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s" % (v["case"], v["violations"][0][:1500]))
    states = sum(s["choice_states"] + 1 for s in scen.values()) + sum(r["states"] for r in seqs.values())
    trans = sum(s["choice_transitions"] for s in scen.values()) + sum(r["transitions"] for r in seqs.values())
    execs = sum(s["executions"] for s in scen.values()) + sum(r["executions"] for r in seqs.values())
    samples = []
    for n, s in scen.items():
        if s.get("sample") and len(samples) < 4:
            samples.append({"scenario": n, "schedule": s["sample"]})
    for m, r in seqs.items():
        samples += [{"enumeration": m, "case": c} for c in r.get("samples", [])[:3]]
    exh = bool(all(s["exhausted_all_schedules"] for s in scen.values()) and all(r.get("exhaustive") for r in seqs.values()))
    cov = {
        "states": states, "transitions": trans, "traces_validated_against_impl": execs, "samples": samples,
        "exhaustive": exh,
        "bounds": plan["bounds"],
        "scenarios": {n: {k: v for k, v in s.items() if k != "sample"} for n, s in scen.items()},
        "enumerations": {m: {k: v for k, v in r.items() if k not in ("samples", "violations")} for m, r in seqs.items()},
        "binding": "every trace is an execution of /repo's current working tree itself; there is no separate model "
                   "of unidist whose traces would have to be replayed",
        "not_reproduced": errors[:10],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": plan["level"], "coverage": cov,
          "assumptions": plan["assumptions"], "wall_s": round(time.monotonic() - t0, 2), "violations": len(bad)}
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        return 1
    dead = [n for n, s in scen.items() if s["dead"]]
    if not scen and not seqs:
        print("nothing explored")
        return 2
    if dead:
        print("NOTE %s: no verdict for %s (not reproducible): %s" % (prop, dead, errors[:2]))
        if len(dead) == len(scen) and not seqs:
            return 2
    print("OK %s: %d scenarios, %d executions, %d states, %d transitions, %.1fs%s"
          % (prop, len(scen) + len(seqs), execs, states, trans, time.monotonic() - t0,
             ", exhaustive" if exh else ""))
    return 0


def replay(path):
    v = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        if v["kind"] == "sim":
            r = serve(v["env"], {"modules": modules(), "replay": {"scenario": v["scenario"], "prefix": v["prefix"]}}, scratch)
            for l in r["log"]:
                print("log", l)
            print("status", r["status"], "exits", r["exits"])
            for x in r["viols"]:
                print("violation:", x)
            return 1 if r["viols"] else 0
        r = seq(v["module"], v["property"], "quick", scratch, v["case_data"])
        for x in r["violations"]:
            print("violation:", x["violations"][0])
        return 1 if r["violations"] else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        rc = check(prop, tier)
    except Exception as e:  # an error of the check itself
        import traceback

        traceback.print_exc()
        print("ERROR of the check itself: %s" % e)
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
