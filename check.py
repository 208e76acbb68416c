#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VREPO", "/repo")
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def search(prop, tier, seed, tmp, more=False):
    n, budget = (3, 22) if tier == "quick" else (4, 240)
    if more:
        n, budget, seed = 8, 75 if tier == "quick" else 300, seed + 7
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO, VREPO=REPO, HOME=tmp, MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    ps = []
    for k in range(n):
        out = os.path.join(tmp, "h%d_%d.json" % (seed, k))
        ps.append((out, subprocess.Popen(
            [PY, os.path.join(HERE, "concrete", "harness.py"), prop, "--budget", str(budget), "--seed",
             str(seed * 100 + k), "--out", out], cwd=tmp, env=env, stdout=subprocess.DEVNULL,
            stderr=open(out + ".err", "w"))))
    return ps, budget


def collect(ps, budget):
    res = []
    for out, p in ps:
        try:
            p.wait(timeout=budget * 3 + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        try:
            res.append(json.load(open(out)))
        except (OSError, ValueError):
            res.append(dict(status="none", scenarios=0, steps=0, distinct=0, known=[], samples=[], harness_errors=1,
                            harness_error=open(out + ".err").read()[-2000:]))
    return res


def found(ps):
    """has a search process that is done found an input?"""
    for out, p in ps:
        if p.poll() is not None:
            try:
                if json.load(open(out))["status"] == "violation":
                    return True
            except (OSError, ValueError, KeyError):
                pass
    return False


def known_entries():
    path = os.path.join(HERE, "known_findings.jsonl")
    return [json.loads(x) for x in open(path) if x.strip()] if os.path.exists(path) else []


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vcheck_")
    try:
        return run(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, t0, tmp):
    ps, budget = search(prop, tier, seed, tmp)
    proof = None
    from pyvc import verify
    proof = verify.verify_property(prop, tier, REPO, cut=lambda: found(ps))
    res = collect(ps, budget)
    if proof and proof["failed"] and not any(r["status"] == "violation" for r in res):
        ps, budget = search(prop, tier, seed, tmp, more=True)       # look harder for an input
        res += collect(ps, budget)
    bad = [r for r in res if r["status"] == "violation"]
    known = [r["known"] for r in res if r.get("known")]
    lines, code = [], 0
    os.makedirs(os.path.join(HERE, "work"), exist_ok=True)
    replay = os.path.join(HERE, "work", "replay_%s.json" % prop)
    for e in known_entries():
        if e.get("property") == prop and e.get("status") == "known":
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    if bad:
        r = min(bad, key=lambda r: len(json.dumps(r["scenario"])))
        json.dump(dict(property=prop, scenario=r["scenario"], message=r["message"],
                       how="%s %s %s --replay THIS_FILE" % (PY, os.path.join(HERE, "concrete", "harness.py"), prop),
                       failed_obligations=(proof or {}).get("failed", [])), open(replay, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, replay))
        print(r["message"][:600])
        code = 1
    elif proof and proof["failed"]:
        json.dump(dict(property=prop, failed_obligations=proof["failed"],
                       note="no failing input found within the search budget"), open(replay, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        for f in proof["failed"][:10]:
            print("failed obligation:", json.dumps(f)[:400])
        code = 1
    ev = evidence(prop, tier, seed, t0, res, proof, len(bad))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for ln in lines:
        print(ln)
    return code


def evidence(prop, tier, seed, t0, res, proof, violations):
    cov = dict(evaluations=sum(r["scenarios"] for r in res), distinct_nontrivial=sum(r["distinct"] for r in res),
               rule="scenarios drawn from a seeded generator, run on the real code against oracle.py; non-trivial: "
                    "at least two placements (or two evaluated cases), distinct as JSON",
               samples=[s for r in res for s in r["samples"]][:4],
               placements_or_cases=sum(r["steps"] for r in res),
               harness_errors=sum(r.get("harness_errors", 0) for r in res))
    errs = [r["harness_error"] for r in res if r.get("harness_error")]
    if errs:
        cov["harness_error"] = errs[0][-800:]
    level = "exploration"
    assumptions = []
    if proof:
        level = proof["level"]
        cov = dict(cov, **proof["coverage"])
        assumptions = proof["assumptions"]
    return dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
                wall_s=round(time.time() - t0, 2), violations=violations)


if __name__ == "__main__":
    sys.exit(main())
