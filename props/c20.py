"""C20: distributed runs give the serial result for any number of processes."""
import os, pickle, select, signal, socket, time, traceback
from vlib.core import Leg, check, Violation, REPO
from vlib.strat import st, seeds, double, case
from vlib import net as n
import numpy as np
import torch

RULE = ("generated programs (networks with random or gapped tensors, renormalizations, both kinds of evolution, changes of chi, a second network, measurements) are run "
        "serially and on 2 to 8 gloo processes connected over the loopback interface. All processes must finish and agree, and must agree with "
        "the serial run: to rounding with half-system projectors and full-rank SVDs, at convergence otherwise. Non-trivial: at least one "
        "sweep or evolution step with a boundary or bond that is truncated or shared between processes.")
ASSUMPTIONS = ["with full-system projectors the order of the moves differs from the serial run, so only converged results are compared",
               "deadlock: all processes sleep without using CPU time for 20 s while a result is missing",
               "programs whose serial result changes by 1e-9 under a relative perturbation of 1e-13 of the tensors are compared between processes only"]


def program(c, perturb=0.0):
    """Runs the generated calculation with whatever process group the environment defines."""
    from acetn.ipeps import Ipeps
    torch.manual_seed(c["seed"] % 10007 + int(os.environ.get("RANK", 0)))
    r = n.gen(c["seed"])
    nx, ny, d, D, dt = c["nx"], c["ny"], c["d"], c["D"], c["dtype"]
    cplx = n.is_c(dt)
    conv = c["state"] == "gapped"
    conf = n.config(nx, ny, d, D, c["chi"], dt, ctmrg={"steps": c["sweeps"], "projectors": c["proj"], "svd_type": c["svd"], **({"svd_cutoff": 1e-9} if conv else {})},
                    evolution={"update_type": c["upd"], "als_niter": 20})
    net = Ipeps(conf)
    A = n.gapped_state(r, nx, ny, d, D, 0.25, cplx) if conv else {s: n.nrm(n.randn(r, (D,) * 4 + (d,), cplx)) for s in n.sites(nx, ny)}
    B = sorted(net.bond_list, key=tuple)
    H = {tuple(b): n.herm(r, d * d, cplx) for b in B}
    F = {s: n.herm(r, d, cplx) for s in n.sites(nx, ny)}
    V = {s: n.nrm(n.randn(r, (d,), cplx)) for s in n.sites(nx, ny)}
    X = n.herm(r, d, cplx)
    p = n.gen(c["seed"] + 1)
    if perturb:
        A = {s: A[s] * (1 + perturb * n.randn(p, A[s].shape, cplx)) for s in A}
    model = n.FreeModel(dt, d, two=lambda b: H[tuple(b)], one=lambda s: F[tuple(s)], oneobs=lambda s: {"X": X}, twoobs=lambda b: {"XX": np.kron(X, X)},
                        init=lambda s: [complex(x) if cplx else float(x.real) for x in V[tuple(s)]])
    if not c["fresh"]:
        n.set_A(net, A, dt)
    out = {"m": [], "rank": net.rank, "ws": net.world_size, "dist": net.is_distributed}
    evolvable = nx > 1 and ny > 1
    for op in c["ops"]:
        if op == "renormalize":
            net.renormalize()
        elif op == "evolve" and evolvable:
            net.evolve(dtau=c["dtau"], steps=1, model=model)
        elif op == "chi":
            net.set_chi(c["chi"] + 3)
            net.renormalize()
        elif op == "measure":
            out["m"].append({k: complex(v) for k, v in net.measure(model).items()})
        elif op == "second":
            # continue in a second network which replaces the first one
            net = Ipeps(conf, net)
        elif op == "temporary":
            t = net.copy()
            del t
    if conv:
        for _ in range(2):
            net.renormalize()
    out["m"].append({k: complex(v) for k, v in net.measure(model).items()})
    out["A"] = {s: n.N(net[s]["A"]) for s in net.site_list}
    out["env"] = {s: [n.N(x) for x in list(net[s]["C"]) + list(net[s]["E"])] for s in net.site_list}
    out["spec"] = {s: [np.linalg.svd(n.N(x))[1] for x in net[s]["C"]] for s in net.site_list}
    return out


def child(c, rank, ws, port, wfd, rfd):
    signal.setitimer(signal.ITIMER_PROF, 0)
    os.environ.update(RANK=str(rank), WORLD_SIZE=str(ws), LOCAL_RANK=str(rank), MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), GLOO_SOCKET_IFNAME="lo")
    try:
        res = ("ok", program(c))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(f.filename.startswith(os.path.join(REPO, "acetn") + os.sep) for f in tb)
        res = ("error", inside, "%s: %s" % (type(e).__name__, str(e)[:300]), traceback.format_exc()[-1500:])
    data = pickle.dumps(res)
    while data:
        data = data[os.write(wfd, data):]
    os.close(wfd)
    os.read(rfd, 1)            # rank 0 holds the store: wait until all are done
    os._exit(0)


def cpu_and_state(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return int(f[11]) + int(f[12]), f[0]
    except OSError:
        return 0, "X"


_port = [0]


def free_port():
    shard = os.getpid() % 97
    while True:
        _port[0] += 1
        p = 10000 + (shard * 211 + _port[0] * 7) % 20000
        with socket.socket() as s:
            try:
                s.bind(("127.0.0.1", p))
                return p
            except OSError:
                pass


def spawn(c, ws):
    for attempt in range(4):
        res = spawn_once(c, ws)
        if not any(r[0] == "error" and ("EADDRINUSE" in r[3] or "address already in use" in r[3].lower()) for r in res.values()):
            return res
    raise RuntimeError("no free port")


def spawn_once(c, ws):
    port = free_port()
    pids, fds = [], {}
    gr, gw = os.pipe()
    for rank in range(ws):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(gw)
                os.close(r)
                child(c, rank, ws, port, w, gr)
            finally:
                os._exit(9)
        os.close(w)
        pids.append(pid)
        fds[r] = [rank, b""]
    res = {}
    last, t_last = None, time.time()
    try:
        while fds:
            ready = select.select(list(fds), [], [], 1.0)[0]
            for r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    fds[r][1] += b
                else:
                    rank, data = fds.pop(r)
                    os.close(r)
                    if not data:
                        raise RuntimeError("process %d ended without a result" % rank)
                    res[rank] = pickle.loads(data)
            if any(v[0] == "error" for v in res.values()):
                time.sleep(0.3)
                break
            st_ = [cpu_and_state(p) for p in pids]
            now = (sum(x[0] for x in st_), len(res))
            if now != last or any(x[1] in "RD" for x in st_):
                last, t_last = now, time.time()
            elif time.time() - t_last > 20:
                raise Violation("deadlock: processes %s of %d finished, the others wait for ever" % (sorted(res), ws))
    finally:
        for r in list(fds):
            os.close(r)
        for p in pids:
            os.kill(p, signal.SIGKILL) if fds else None
        os.close(gw)
        os.close(gr)
        for p in pids:
            os.waitpid(p, 0)
    return res


def far(a, b):
    """Largest difference of measured values, and of the boundary's spectra."""
    e = 0.0
    for x, y in zip(a["m"], b["m"]):
        check(x.keys() == y.keys(), "measured %s and %s", sorted(x), sorted(y))
        for k in x:
            e = max(e, abs(x[k] - y[k]) / max(1.0, abs(y[k])))
    f = 0.0
    for s in a["spec"]:
        for x, y in zip(a["spec"][s], b["spec"][s]):
            m = max(len(x), len(y))
            f = max(f, np.abs(np.pad(x, (0, m - len(x))) - np.pad(y, (0, m - len(y)))).max())
    g = max(n.ray_dist(a["A"][s], b["A"][s]) for s in a["A"])
    return e if np.isfinite(e) else 1e9, f, g


def run(c):
    ws = c["ws"]
    if ws > (os.cpu_count() or 1):
        return None
    res = spawn(c, ws)
    for rank in sorted(res):
        if res[rank][0] == "error":
            _, inside, msg, tb = res[rank]
            if "Connection closed by peer" in msg and any(v[0] == "error" and "Connection closed" not in v[2] for v in res.values()):
                continue
            if inside:
                raise Violation("process %d of %d raised %s\n%s" % (rank, ws, msg, tb[-500:]))
            raise RuntimeError(tb)
    out = [res[i][1] for i in range(ws)]
    for i, o in enumerate(out):
        check(o["dist"] and o["rank"] == i and o["ws"] == ws, "process %d reports rank %s of %s", i, o["rank"], o["ws"])
    for i in range(1, ws):
        check(out[i]["A"].keys() == out[0]["A"].keys(), "sites differ")
        e = max(np.abs(out[i]["A"][s] - out[0]["A"][s]).max() for s in out[0]["A"])
        check(e <= 1e-9, "site tensors of processes 0 and %d differ by %.1e", i, e)
        for s in out[0]["env"]:
            for x, y in zip(out[i]["env"][s], out[0]["env"][s]):
                check(x.shape == y.shape and np.abs(x - y).max() <= 1e-9, "boundary tensors of processes 0 and %d at %s differ", i, s)
        for x, y in zip(out[i]["m"], out[0]["m"]):
            check(x.keys() == y.keys() and all(abs(x[k] - y[k]) <= 1e-9 * max(1, abs(y[k])) for k in x), "processes 0 and %d measure %s and %s", i, y, x)
    serial = program(c)
    e, f, g = far(out[0], serial)
    tags = ["ws=%d" % ws, "%dx%d" % (c["nx"], c["ny"]), c["proj"], c["svd"], c["state"], "uneven" if c["ny"] % max(1, ws // 2) or c["nx"] % max(1, ws // 2) else "even"] + sorted(set(c["ops"]))
    if c["state"] == "gapped":
        if "evolve" in c["ops"]:
            return tags + ["processes only"]
        tol = 3e-3 if c["svd"] == "rsvd" and c["proj"] == "half-system" else 1e-5
        last = {k: abs(out[0]["m"][-1][k] - serial["m"][-1][k]) for k in serial["m"][-1]}
        check(max(last.values()) <= tol, "%d processes measure %s, one process %s", ws, out[0]["m"][-1], serial["m"][-1])
        return tags + ["converged"]
    if c["svd"] == "rsvd":
        return tags + ["processes only"]
    pe, pf, pg = far(program(c, perturb=1e-13), serial)
    if max(pe, pf, pg) > 1e-9:
        return tags + ["processes only"]
    check(e <= 1e-6, "%d processes measure %s, one process %s", ws, out[0]["m"], serial["m"])
    check(f <= 1e-6, "boundary spectra of %d processes and one process differ by %.1e", ws, f)
    check(g <= 1e-6, "site tensors of %d processes and one process differ by %.1e", ws, g)
    return tags + ["exact"]


base = dict(nx=st.sampled_from([2, 3, 1, 4, 5]), ny=st.sampled_from([2, 3, 1, 4, 5]), d=st.sampled_from([2, 2, 2, 3, 1, 4]), D=st.sampled_from([2, 2, 1]), ws=st.integers(2, 8), dtype=double, seed=seeds,
            dtau=st.sampled_from([0.05, 0.2]), upd=st.sampled_from(["full", "full", "simple"]))
ops = lambda *w: st.lists(st.sampled_from(w), min_size=1, max_size=4)
exact = case(state=st.just("random"), chi=st.integers(2, 9), sweeps=st.integers(1, 2), proj=st.just("half-system"), svd=st.sampled_from(["full-rank"] * 4 + ["rsvd"]), fresh=st.sampled_from([False, False, True]),
             ops=ops("renormalize", "renormalize", "evolve", "chi", "measure", "second", "temporary"), **base)
conv = case(state=st.just("gapped"), chi=st.sampled_from([8, 10]), sweeps=st.just(6), proj=st.sampled_from(["full-system", "full-system", "half-system"]), svd=st.sampled_from(["rsvd", "full-rank"]),
            fresh=st.just(False), ops=ops("renormalize", "second", "measure", "temporary"), **dict(base, nx=st.sampled_from([2, 3, 4]), ny=st.sampled_from([2, 3, 4])))
LEGS = [Leg("exact", exact, run, 160, 4000, cpu_limit=300), Leg("converged", conv, run, 48, 800, cpu_limit=300)]
