#!/usr/bin/env python3
"""Runs the check of one property: run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: the property held on every generated case.  Exit 1 with a line
`VIOLATION property=<id> replay=<path>`: it does not.  Exit 3: the check itself failed.
"""
import argparse, hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=int(os.environ.get("VERIF_SHARDS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    ap.add_argument("--leg", default="")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    env = dict(os.environ)
    for k in ("RANK", "WORLD_SIZE", "LOCAL_RANK", "SLURM_JOB_ID", "PYTHONPATH", "ACETN_LOG_LEVEL", "PYTEST_ADDOPTS"):
        env.pop(k, None)
    env.update(OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", HYPOTHESIS_STORAGE_DIRECTORY="/nonexistent-verif",
               VERIF_REPO=os.environ.get("VERIF_REPO", "/repo"))
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    work = os.path.join(evdir, ".work-%s-%d" % (a.prop, os.getpid()))
    os.makedirs(work, exist_ok=True)

    shards = 1 if a.replay else a.shards
    procs = []
    for i in range(shards):
        out = os.path.join(work, "out%d.json" % i)
        cmd = [PY, "-m", "vlib.worker", a.prop, str(i), str(shards), a.tier, str(a.seed), out, str(a.scale), a.leg, a.replay or ""]
        log = open(os.path.join(work, "log%d.txt" % i), "w")
        procs.append((subprocess.Popen(cmd, cwd=HERE, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True), out, log.name))
    limit = 840 if a.tier == "quick" else 6 * 3600
    res, errors = [], []
    for p, out, logname in procs:
        try:
            p.wait(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            errors.append("shard timed out: " + out)
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        try:
            r = json.load(open(out))
            res.append(r)
            if r.get("error"):
                errors.append(r["error"])
        except Exception as e:
            errors.append("no result from %s (rc %s): %r\n%s" % (out, p.returncode, e, open(logname).read()[-3000:]))
    import shutil
    shutil.rmtree(work, ignore_errors=True)

    rc = report(a, res, errors, evdir, t0)
    sys.stdout.flush()
    sys.exit(rc)


def report(a, res, errors, evdir, t0):
    evals = sum(r["evaluations"] for r in res)
    hashes = set()
    tags, legs, samples, known, skipped = {}, {}, [], [], 0
    inconclusive = sum(r.get("inconclusive", 0) for r in res)
    for r in res:
        hashes.update(r["nontrivial"])
        skipped += r.get("skipped", 0)
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        for k, v in r["legs"].items():
            legs[k] = legs.get(k, 0) + v
        known += r.get("known", [])
    for leg in sorted(legs):
        for r in res:
            s = [x for x in r["samples"] if x["leg"] == leg][:2]
            if s:
                samples += s
                break
    viols = [v for r in res for v in r["violations"]]
    viols.sort(key=lambda v: (len(json.dumps(v["case"])), json.dumps(v["case"])))
    if not a.replay and not a.leg:
        ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes),
                           "rule": res[0]["rule"] if res else "no shard finished", "samples": samples,
                           "cases_per_leg": legs, "classes": dict(sorted(tags.items())),
                           "inconclusive_time_limit": inconclusive, "not_run_deadline": skipped,
                           "worker_processes": len(res)},
              "assumptions": res[0]["assumptions"] if res else [],
              "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
        tmp = os.path.join(evdir, a.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(evdir, a.prop + ".json"))
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    print("property=%s tier=%s seed=%d cases=%d nontrivial=%d legs=%s wall=%.1fs" %
          (a.prop, a.tier, a.seed, evals, len(hashes), legs, time.time() - t0))
    if os.environ.get("VERIF_TAGS"):
        for k, v in sorted(tags.items()):
            print("   %-40s %d" % (k, v))
    if viols:
        v = viols[0]
        h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12]
        path = a.replay or os.path.join(evdir, "replays", "%s-%s.json" % (a.prop, h))
        if not a.replay:
            with open(path, "w") as f:
                json.dump({"property": a.prop, "leg": v["leg"], "case": v["case"], "message": v["message"]}, f, indent=1)
        print("leg %s: %s" % (v["leg"], v["message"]))
        print("case: " + json.dumps(v["case"]))
        print("replay with: python3 %s %s --replay %s" % (os.path.join(HERE, "run.py"), a.prop, path))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if errors:
        print("CHECK ERROR\n" + "\n".join(sorted(set(errors)))[:6000])
        return 3
    if inconclusive and not a.replay:
        print("%d case(s) exceeded the CPU limit and are inconclusive" % inconclusive)
    if evals == 0:
        print("CHECK ERROR: no case was run")
        return 3
    return 0


if __name__ == "__main__":
    main()
