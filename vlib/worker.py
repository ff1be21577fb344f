import hashlib, importlib, json, os, signal, sys, time, traceback
import numpy as np
from . import core
from .core import Violation


class Hang(BaseException):
    pass


def in_repo(tb):
    root = os.path.join(core.REPO, "acetn") + os.sep
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(root):
            return True
    return False


def chash(leg, case):
    return hashlib.sha256((leg + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:16]


MALFORMED = (KeyError, IndexError, ValueError, ZeroDivisionError, np.linalg.LinAlgError)


def main():
    prop, shard, nshards, tier, seed, out, scale, legsel, replay = sys.argv[1:10]
    shard, nshards, seed, scale = int(shard), int(nshards), int(seed), float(scale)
    R = {"evaluations": 0, "nontrivial": [], "tags": {}, "legs": {}, "samples": [], "violations": [], "known": [],
         "rule": "", "assumptions": [], "inconclusive": 0, "skipped": 0, "error": None}

    def dump():
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(R, f)
        os.replace(tmp, out)

    try:
        work(prop, shard, nshards, tier, seed, scale, legsel, replay, R)
    except BaseException:
        R["error"] = traceback.format_exc()[-4000:]
    dump()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(0)


def work(prop, shard, nshards, tier, seed, scale, legsel, replay, R):
    import warnings
    warnings.filterwarnings("ignore")
    mod = importlib.import_module("props." + prop.lower())
    import acetn
    assert os.path.realpath(acetn.__file__).startswith(os.path.realpath(core.REPO) + os.sep), acetn.__file__
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    R["rule"], R["assumptions"] = mod.RULE, getattr(mod, "ASSUMPTIONS", [])
    known = load_known(prop)
    nontrivial = set()
    t_end = time.time() + (600 if tier == "quick" else 5 * 3600)

    def handler(*_):
        raise Hang()
    signal.signal(signal.SIGPROF, handler)

    def execute(leg, case):
        """Returns (tags or None); raises Violation."""
        signal.setitimer(signal.ITIMER_PROF, leg.cpu_limit)
        try:
            return leg.run(case)
        except Violation:
            raise
        except Hang:
            if leg.hang_is_violation:
                raise Violation("did not terminate within %d s of CPU time" % leg.cpu_limit)
            R["inconclusive"] += 1
            return None
        except Exception as e:
            if in_repo(e.__traceback__):
                fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(core.REPO)][-1]
                raise Violation("raised %s: %s (%s:%d)" % (type(e).__name__, str(e)[:300], os.path.relpath(fr.filename, core.REPO), fr.lineno))
            if type(e) in MALFORMED:
                # the oracle runs through on every well-formed result: what it was given has wrong shapes, keys or values
                raise Violation("malformed result: %s: %s" % (type(e).__name__, str(e)[:300]))
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    legs = {l.name: l for l in mod.LEGS}
    if replay:
        d = json.load(open(replay))
        leg = legs[d["leg"]]
        R["evaluations"] = 1
        R["legs"][leg.name] = 1
        try:
            execute(leg, d["case"])
        except Violation as e:
            R["violations"].append({"leg": leg.name, "case": d["case"], "message": str(e)})
        return

    if shard == 0:
        for kf in known:
            try:
                execute(legs[kf["leg"]], kf["case"])
            except Violation:
                R["known"].append(kf["what"])
    known_hashes = {chash(k["leg"], k["case"]) for k in known}

    def run_leg(leg):
        if legsel and leg.name != legsel:
            return
        total = max(1, round(leg.n[tier] * scale))
        n = total // nshards + (1 if shard < total % nshards else 0)
        if n == 0:
            return
        state = {"best": None, "msg": None, "t_fail": None, "err": None, "count": 0}

        def test(case):
            if state["err"] is not None:
                return
            now = time.time()
            key = json.dumps(case, sort_keys=True)
            if state["t_fail"] is None and now > t_end:
                R["skipped"] += 1
                return
            if state["t_fail"] is not None and now - state["t_fail"] > 45:
                if key == state["best"]:
                    raise Violation(state["msg"])
                return
            h = chash(leg.name, case)
            if h in known_hashes:
                return
            searching = state["t_fail"] is None
            if searching:
                R["evaluations"] += 1
                R["legs"][leg.name] = R["legs"].get(leg.name, 0) + 1
            try:
                tags = execute(leg, case)
            except Violation as e:
                if state["t_fail"] is None:
                    state["t_fail"] = time.time()
                    nontrivial.add(h)
                if state["best"] is None or (len(key), key) <= (len(state["best"]), state["best"]):
                    state["best"], state["msg"] = key, str(e)
                raise
            except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest):
                raise
            except Exception:
                state["err"] = "leg %s case %s\n%s" % (leg.name, key, traceback.format_exc())
                return
            if searching and tags is not None:
                nontrivial.add(h)
                for t in tags:
                    R["tags"][leg.name + ":" + t] = R["tags"].get(leg.name + ":" + t, 0) + 1
                if sum(s["leg"] == leg.name for s in R["samples"]) < 3 and (state["count"] % 5 == 4 or n < 12):
                    R["samples"].append({"leg": leg.name, "case": case})
                state["count"] += 1

        sd = int.from_bytes(hashlib.sha256(("%d|%s|%s|%d" % (seed, prop, leg.name, shard)).encode()).digest()[:8], "big")
        t = settings(max_examples=n, deadline=None, database=None, phases=[Phase.generate, Phase.shrink],
                     suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False,
                     verbosity=hypothesis.Verbosity.quiet)(hypothesis.seed(sd)(given(leg.strategy)(test)))
        try:
            t()
        except Exception:
            if state["best"] is None and state["err"] is None:
                raise
        if state["best"] is not None:
            R["violations"].append({"leg": leg.name, "case": json.loads(state["best"]), "message": state["msg"]})
        if state["err"] and not R["violations"]:
            R["error"] = state["err"]
        R["nontrivial"] = sorted(nontrivial)

    for leg in mod.LEGS:
        run_leg(leg)
        if R["violations"] or R["error"]:
            break
    R["nontrivial"] = sorted(nontrivial)


def load_known(prop):
    """Known findings: JSON objects on the lines of known_findings.txt which start with `finding:`."""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                d = json.loads(line[len("finding:"):])
                if d["property"] == prop:
                    res.append(d)
    return res


if __name__ == "__main__":
    main()
