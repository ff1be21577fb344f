"""C22: configuration defaults, fallbacks and every documented option work."""
import io, os, sys
from vlib.core import Leg, check, Violation
from vlib.strat import st, seeds, double, case
from vlib import net as n
from props import c15
import numpy as np
import torch
from acetn.ipeps import Ipeps
from acetn.ipeps.ipeps_config import IpepsConfig
from acetn.evolution.full_update import FullUpdater
from acetn.model.model_factory import model_factory

RULE = ("defaults: random subsets of all documented options with random values, every attribute is compared with the value given or the documented "
        "default. reject: names and values that no documentation lists. honoured: results with given option values against numpy references "
        "which implement the option. bars: progress bars. combos: random values of all options together on an exactly solvable problem. "
        "Non-trivial: at least one option given, or (combos) at least one step with a Hamiltonian.")
ASSUMPTIONS = ["sections are dictionaries as read from a TOML file",
               "float32 uses svd_cutoff >= 1e-5, als_epsilon >= 1e-6 and the cholesky method, as in C15"]

# the documented options, docs/source/input_settings.rst
TN = {"nx": 2, "ny": 2, "dims": {"phys": 2, "bond": 2, "chi": 20}}
CTMRG = {"steps": 40, "projectors": "half-system", "svd_type": "rsvd", "svd_cutoff": 1e-12, "rsvd_niter": 2, "rsvd_oversampling": 2, "disable_progressbar": False}
EVO = {"backend": "torch", "update_type": "full", "use_gauge_fix": True, "gauge_fix_atol": 1e-12, "positive_approx_cutoff": 1e-12, "als_niter": 100,
       "als_tol": 1e-15, "als_method": "cholesky", "als_epsilon": 1e-12, "disable_progressbar": False}
MODEL = {"name": None, "params": {}}
small = st.sampled_from([1e-14, 1e-10, 1e-8, 3e-5, 0.0, 0.5])
VAL = {
    "TN": {"nx": st.integers(1, 4), "ny": st.integers(1, 4),
           "dims": st.fixed_dictionaries({}, optional={"phys": st.integers(1, 4), "bond": st.integers(1, 3), "chi": st.integers(1, 30)})},
    "ctmrg": {"steps": st.integers(0, 200), "projectors": st.sampled_from(["half-system", "full-system"]), "svd_type": st.sampled_from(["rsvd", "full-rank"]),
              "svd_cutoff": small, "rsvd_niter": st.integers(0, 9), "rsvd_oversampling": st.integers(0, 30), "disable_progressbar": st.booleans()},
    "evolution": {"backend": st.sampled_from(["torch", "cutensor"]), "update_type": st.sampled_from(["full", "simple"]), "use_gauge_fix": st.booleans(),
                  "gauge_fix_atol": small, "positive_approx_cutoff": small, "als_niter": st.integers(0, 300), "als_tol": small,
                  "als_method": st.sampled_from(["cholesky", "pinv"]), "als_epsilon": small, "disable_progressbar": st.booleans()},
    "model": {"name": st.sampled_from(["ising", "heisenberg", "custom", "other"]), "params": st.dictionaries(st.sampled_from(["J", "jz", "hx", "q"]), st.floats(-2, 2))},
}


def build(c):
    conf = {"TN": c["TN"]}
    for k in ("ctmrg", "evolution", "model"):
        if c[k] is not None:
            conf[k] = c[k]
    if c["dtype"] != "missing":
        name, form = c["dtype"].split(":")
        conf["dtype"] = None if name == "None" else (name if form == "s" else getattr(torch, name))
    if c["device"] != "missing":
        name, form = c["device"].split(":")
        conf["device"] = None if name == "None" else (name if form == "s" else torch.device(name))
    return conf


def cuda_missing():
    return not torch.cuda.is_available()


def run_defaults(c):
    import copy
    conf = build(c)
    before = copy.deepcopy(conf)
    for k, v in c["slurm"].items():
        os.environ[k] = v
    try:
        net = Ipeps(conf) if c["full"] else None
        cfg = net.config if c["full"] else IpepsConfig(**conf)
    finally:
        for k in c["slurm"]:
            del os.environ[k]
    check(conf == before, "the configuration given was changed to %s", conf)
    dt = {"missing": "float64", "None:s": "float64", "None:t": "float64"}.get(c["dtype"], c["dtype"].split(":")[0])
    check(cfg.dtype == n.TD[dt], "dtype is %s, expected %s", cfg.dtype, dt)
    if cuda_missing():
        check(isinstance(cfg.device, (str, torch.device)) and torch.device(cfg.device) == torch.device("cpu"), "device is %s", cfg.device)
    from acetn.evolution._extensions import CUTENSOR_AVAILABLE
    batch = "SLURM_JOB_ID" in c["slurm"] and not (c["slurm"].get("SLURM_JOB_PARTITION") == "interactive" or "interactive" in c["slurm"].get("SLURM_JOB_NAME", ""))
    inter = "SLURM_JOB_ID" in c["slurm"] and not batch
    for sec, table in (("TN", TN), ("ctmrg", CTMRG), ("evolution", EVO), ("model", MODEL)):
        got, given = getattr(cfg, sec), c[sec] or {}
        for k, default in table.items():
            want = {**default, **given.get(k, {})} if k == "dims" else given.get(k, default)
            if k == "backend" and not CUTENSOR_AVAILABLE:
                want = "torch"
            if k == "disable_progressbar":
                if inter:
                    continue
                want = want or batch
            check(getattr(got, k) == want, "[%s] %s is %r, expected %r", sec, k, getattr(got, k), want)
    check(cfg.model.dtype == n.TD[dt] and cfg.model.dim == {**TN["dims"], **c["TN"].get("dims", {})}["phys"], "the model is configured with %s, dim %s", cfg.model.dtype, cfg.model.dim)
    if c["full"]:
        t = {**TN, **c["TN"], "dims": {**TN["dims"], **c["TN"].get("dims", {})}}
        check((net.nx, net.ny) == (t["nx"], t["ny"]) and dict(net.dims) == t["dims"], "network of %dx%d sites, dims %s", net.nx, net.ny, net.dims)
        check(sorted(net.site_list) == n.sites(t["nx"], t["ny"]), "sites %s", net.site_list)
        D, d = t["dims"]["bond"], t["dims"]["phys"]
        for s in net.site_list:
            check(net[s]["A"].shape == (D, D, D, D, d), "site tensor of shape %s", tuple(net[s]["A"].shape))
            for x in [net[s]["A"]] + list(net[s]["C"]) + list(net[s]["E"]):
                check(x.dtype == n.TD[dt] and x.device.type == "cpu", "tensor of type %s on %s", x.dtype, x.device)
    given = sum(len(c[k] or {}) for k in ("TN", "ctmrg", "evolution", "model"))
    if given:
        return ["given>5" if given > 5 else "given<=5", "dtype=" + c["dtype"], "device=" + c["device"], "slurm" if batch else "noslurm", "network" if c["full"] else "config"]


def section(sec, optional=True):
    s = st.fixed_dictionaries({}, optional=VAL[sec])
    return st.one_of(s, s, st.none()) if optional else s


slurm = st.one_of(st.just({}), st.just({}), st.fixed_dictionaries({"SLURM_JOB_ID": st.just("77")}, optional={"SLURM_JOB_NAME": st.sampled_from(["run", "interactive"]), "SLURM_JOB_PARTITION": st.sampled_from(["batch", "interactive"])}))
defaults = case(TN=section("TN", False), ctmrg=section("ctmrg"), evolution=section("evolution"), model=section("model"),
                dtype=st.sampled_from(["missing", "None:s", "float64:s", "float32:s", "complex128:s", "complex64:s", "float64:t", "float32:t", "complex128:t", "complex64:t"]),
                device=st.sampled_from(["missing", "cpu:s", "cpu:t", "None:s", "cuda:s", "cuda:t"]), slurm=slurm, full=st.booleans())


# ---------------------------------------------------------------- rejections

def run_reject(c):
    conf = build(c)
    kind, name = c["kind"], c["name"]

    def model(dt="float64"):
        return n.FreeModel(dt, 2)
    fails = None
    what = "%s %r" % (kind, name)
    if kind in ("option TN", "option ctmrg", "option evolution", "option model", "option top"):
        sec = kind.split()[1]
        known = {"TN": TN, "ctmrg": CTMRG, "evolution": EVO, "model": {"name": 0, "params": 0, "dtype": 0, "device": 0, "dim": 0}}
        if sec == "top":
            if name in ("TN", "ctmrg", "evolution", "model", "dtype", "device"):
                return None
            conf[name] = {"steps": 3} if c["val"] % 2 else c["val"]
        else:
            if name in known[sec]:
                return None
            conf[sec] = dict(conf.get(sec) or {}, **{name: c["val"]})
        fails = lambda: Ipeps(conf)
    elif kind == "option dims":
        if name in TN["dims"]:
            return None
        conf["TN"] = {**c["TN"], "dims": {**c["TN"].get("dims", {}), name: c["val"] + 1}}
        fails = lambda: Ipeps(conf)
    elif kind == "no TN":
        del conf["TN"]
        fails = lambda: Ipeps(conf)
    else:
        conf = n.config(2, 2, 2, 1, 2, "float64", ctmrg={"steps": 1}, model={"name": "ising", "params": {"jz": 1.0, "hx": 1.0}})
        if kind == "projectors":
            if name in ("half-system", "full-system"):
                return None
            conf["ctmrg"]["projectors"] = name
            fails = lambda: Ipeps(conf).renormalize()
        elif kind == "update_type":
            if name in ("full", "simple"):
                return None
            conf["evolution"]["update_type"] = name
            fails = lambda: Ipeps(conf).evolve(dtau=0.1, steps=1)
        elif kind == "dtype":
            if hasattr(torch, name):
                return None
            conf["dtype"] = name
            fails = lambda: Ipeps(conf)
        elif kind in ("model measure", "model evolve", "no model measure", "no model evolve"):
            if kind.startswith("no"):
                del conf["model"]
            elif name in model_factory.list_registered():
                return None
            else:
                conf["model"] = {"name": name, "params": {"jz": 1.0, "hx": 1.0, "J": 1.0}}
            net = Ipeps(conf)
            fails = (lambda: net.measure()) if kind.endswith("measure") else (lambda: net.evolve(dtau=0.1, steps=1))
        elif kind == "class":
            net = Ipeps(conf)
            classes = [dict, type("NoModel", (), {"one_site_hamiltonian": lambda *a: None, "two_site_hamiltonian": lambda *a: None}), Ipeps]
            snap = (net.config.model.name, dict(net.config.model.params), sorted(model_factory.list_registered()))
            fails = lambda: net.set_model(classes[c["val"] % 3], {"a": 1.0}, name="m" + str(c["val"]))
    try:
        fails()
    except Exception as e:
        if kind == "class":
            check(isinstance(e, TypeError), "%s raised %r", what, e)
            check(snap[2] == sorted(model_factory.list_registered()), "the refused class was registered")
            check(net.create_model().__class__.__name__ == "IsingModel", "the refused class replaced the model")
        if kind.startswith("no model"):
            check(isinstance(e, ValueError), "%s raised %r", what, e)
        if kind in ("projectors", "update_type"):
            check(isinstance(e, ValueError), "%s raised %r", what, e)
        return [kind]
    raise Violation(what + " was accepted")


names = st.one_of(st.sampled_from(["Steps", "step", "projector", "half_system", "full", "simple", "fullsystem", "half-System", "als_iter", "chi", "D", "dim", "bond", "cutoff", "svd",
                                   "Ising", "heisenberg2", "xy", "", "niter", "als_tolerance", "device_id", "ipeps", "fast", "Full", "half", "quarter-system"]),
                  st.text(alphabet="abcdefghijklmnopqrstuvwxyz_-", min_size=1, max_size=12))
reject = case(TN=section("TN", False), ctmrg=section("ctmrg"), evolution=section("evolution"), model=section("model"), dtype=st.just("missing"), device=st.just("missing"),
              kind=st.sampled_from(["option TN", "option ctmrg", "option evolution", "option model", "option top", "option dims", "no TN", "projectors", "update_type", "dtype",
                                    "model measure", "model evolve", "no model measure", "no model evolve", "class"]), name=names, val=st.integers(0, 100))


# ---------------------------------------------------------------- options of the full update against a numpy reference

def ref_update(c, N, t, D):
    """Reduced pair after the full update as documented, [y, p, x, q]."""
    nD, d = t.shape[:2]
    w, v = np.linalg.eigh(N.reshape(nD**2, nD**2))
    if c["gauge"]:
        z = (v * np.sqrt(w)).reshape(nD, nD, -1)        # N[yx, YX] = sum_z z[yxz] conj(z[YXz])
        ry = np.linalg.qr(np.einsum("yxz->zxy", z).reshape(nD**3, nD))[1]
        rx = np.linalg.qr(np.einsum("yxz->zyx", z).reshape(nD**3, nD))[1]

        def inv(m):
            u, s, vh = np.linalg.svd(m)
            return vh.conj().T @ np.diag([1 / x if x > c["atol"] else 0.0 for x in s]) @ u.conj().T
        iy, ix = inv(ry), inv(rx)
        N = np.einsum("yxYX,xw,yv,XW,YV->vwVW", N, ix, iy, ix.conj(), iy.conj(), optimize="greedy")
        t = np.einsum("wy,zx,ypxq->wpzq", ry, rx, t, optimize="greedy")
    u, s, v = np.linalg.svd(t.reshape(nD * d, nD * d))
    s = s / s[0]
    a1 = (u[:, :D] * np.sqrt(s[:D])).reshape(nD, d, D)
    a2 = (np.sqrt(s[:D])[:, None] * v[:D]).reshape(D, nD, d)

    def solve(R, S):
        R = (R + R.conj().T) / 2
        if c["method"] == "cholesky":
            return np.linalg.solve(R + c["eps"] * np.abs(R).max() * np.eye(len(R)), S)
        w, v = np.linalg.eigh(R)
        wi = np.array([1 / x if abs(x) > c["eps"] * np.abs(w).max() else 0.0 for x in w])
        return (v * wi) @ (v.conj().T @ S)

    def cost():
        p = np.einsum("ypu,uxq->ypxq", a1, a2)
        q = lambda a, b: np.einsum("ypxq,yxYX,YpXq->", a, N, b.conj(), optimize="greedy")
        return (q(p, p) - 2 * q(t, p)).real
    old = cost()
    errs = []
    for i in range(c["niter"]):
        R = np.einsum("yxYX,uxq,vXq->Yvyu", N, a2, a2.conj(), optimize="greedy").reshape(nD * D, nD * D)
        S = np.einsum("yxYX,ypxq,vXq->Yvp", N, t, a2.conj(), optimize="greedy").reshape(nD * D, d)
        a1 = solve(R, S).reshape(nD, D, d).transpose(0, 2, 1)
        # the right hand side for the second tensor, in the order (x, v)
        R = np.einsum("yxYX,ypu,Ypv->Xvxu", N, a1, a1.conj(), optimize="greedy").reshape(nD * D, nD * D)
        S = np.einsum("yxYX,ypxq,Ypv->Xvq", N, t, a1.conj(), optimize="greedy").reshape(nD * D, d)
        a2 = solve(R, S).reshape(nD, D, d).transpose(1, 0, 2)
        new = cost()
        err = abs(new - old) / abs(old)
        errs.append(err)
        if err < c["tol"] and i > 1:
            break
        old = new
    if c["gauge"]:
        a1 = np.einsum("yw,wpu->ypu", iy, a1)
        a2 = np.einsum("xw,uwq->uxq", ix, a2)
    return np.einsum("ypu,uxq->ypxq", a1, a2), errs


def run_update(c):
    r = n.gen(c["seed"])
    nD, D, d, dt = c["nD"], c["D"], c["d"], c["dtype"]
    if D > nD * d:
        return None
    cplx = n.is_c(dt)
    z = n.randn(r, (nD**2, nD**2), cplx)
    z = z / np.linalg.norm(z, 2)
    w = np.concatenate([np.logspace(0, -c["spread"], nD**2)])
    q = n.unitary(r, nD**2, cplx)
    N = ((q * w) @ q.conj().T).reshape(nD, nD, nD, nD)
    if c["gauge"] and c["atol"] > 1e-6 and nD > 1:
        # small weight on one basis vector of either side, below the tolerance
        g = np.diag([1.0] * (nD - 1) + [c["atol"] * 0.05])
        N = np.einsum("yxYX,yv,YV->vxVX", N, g, g)
    a1, a2 = n.randn(r, (nD, D, d), cplx), n.randn(r, (nD, D, d), cplx)
    h = n.herm(r, d * d, cplx)
    import scipy.linalg
    g = scipy.linalg.expm(-0.5 * h).reshape(d, d, d, d)
    t = np.einsum("yup,xuq,PQpq->yPxQ", a1, a2, g, optimize="greedy")
    net = n.make(2, 2, d, D, 4, dt, evolution={"use_gauge_fix": c["gauge"], "gauge_fix_atol": c["atol"], "als_niter": c["niter"], "als_tol": c["tol"],
                                               "als_method": c["method"], "als_epsilon": c["eps"], "positive_approx_cutoff": c["cut"]})
    N = N / np.abs(N).max()
    M = N.reshape(nD**2, nD**2)
    wmin = np.linalg.eigvalsh((M + M.conj().T) / 2)[0]
    big = c["cut"] > 1
    if not big and wmin < 10 * c["cut"]:
        return None
    if big and (c["gauge"] or c["eps"] > 1e-6):
        return None
    f = FullUpdater(net, None, net.config.evolution)
    b1, b2 = f.update_reduced_tensors(n.T(a1, dt), n.T(a2, dt), n.T(N, dt), n.T(g, dt))
    got = np.einsum("yup,xuq->ypxq", n.N(b1), n.N(b2))
    if big:
        # a cutoff far above the spectrum makes the metric the identity
        u, s, v = np.linalg.svd(t.reshape(nD * d, nD * d))
        if D < len(s) and s[D] > 0.9 * s[D - 1]:
            return None
        want = ((u[:, :D] * s[:D]) @ v[:D]).reshape(t.shape)
        e = n.dist(got, want)
        check(e <= 1e-3, "with a cutoff far above the spectrum the result is %.1e away from the truncated SVD", e)
        return ["identity metric", dt]
    want, errs = ref_update(c, N, t, D)
    # not judged: a stopping decision that rounding can change
    if any(0.5 < x / c["tol"] < 2 for x in errs if c["tol"]) or (c["tol"] < 1e-13 and len(errs) < c["niter"]) and errs and max(errs[-1], 0) > 1e-9:
        return None
    s = np.linalg.svd(t.reshape(nD * d, nD * d))[1]
    if D < len(s) and s[D] > 0.99 * s[D - 1]:
        return None
    # conditioning of the problem itself
    w2, _ = ref_update(c, N, t * (1 + 1e-9 * n.randn(r, t.shape, cplx)), D)
    if n.dist(w2, want) > 1e-6:
        return None
    e = n.dist(got, want)
    check(e <= 1e-4, "the reduced pair is %.1e away from the reference after %d sweeps (%s)", e, len(errs), c["method"])
    if D < nD * d:
        return [c["method"], "gauge" if c["gauge"] else "nogauge", "niter=%d" % c["niter"], "stopped" if len(errs) < c["niter"] else "all sweeps", "tol=%g" % c["tol"], "eps=%g" % c["eps"],
                "dropped" if c["gauge"] and c["atol"] > 1e-6 and nD > 1 else "kept", dt]


update = case(nD=st.integers(1, 4), D=st.integers(1, 3), d=st.integers(2, 3), spread=st.sampled_from([0, 1, 2, 3]), niter=st.sampled_from([1, 2, 3, 5, 8, 12, 40, 100, 0]),
              tol=st.sampled_from([1e-15, 1e-12, 1e-6, 1e-2, 1e-1]), method=st.sampled_from(["cholesky", "pinv"]), eps=st.sampled_from([1e-12, 1e-12, 1e-8, 1e-3, 0.1]),
              gauge=st.booleans(), atol=st.sampled_from([1e-12, 1e-12, 1e-2]), cut=st.sampled_from([1e-12, 1e-12, 1e-9, 1e9]), dtype=double, seed=seeds)


# ---------------------------------------------------------------- options of the renormalization

def run_ctmrg(c):
    """steps, svd_type, rsvd_niter, rsvd_oversampling and chi have their documented effect on a renormalization."""
    r = n.gen(c["seed"])
    cplx = n.is_c(c["dtype"])
    D, d, dt = 2, 2, c["dtype"]
    A = {s: n.nrm(n.randn(r, (D,) * 4 + (d,), cplx)) for s in n.sites(c["nx"], c["ny"])}

    def go(calls=1, **opts):
        torch.manual_seed(c["seed"] % 1000)
        net = n.make(c["nx"], c["ny"], d, D, c["chi"], dt, ctmrg=opts)
        n.set_A(net, A, dt)
        for _ in range(calls):
            net.renormalize()
        return net

    def spectra(net):
        # corners at different legs enter with an arbitrary phase/sign of the projectors only
        return [np.linalg.svd(n.N(x))[1] for s in net.site_list for x in net[s]["C"]]

    def diff(a, b):
        m = 0.0
        for x, y in zip(spectra(a), spectra(b)):
            k = max(len(x), len(y))
            m = max(m, np.abs(np.pad(x, (0, k - len(x))) - np.pad(y, (0, k - len(y)))).max())
        return m
    k = c["k"]
    proj = c["proj"]
    one = go(1, steps=k, svd_type=c["svd"], projectors=proj)
    many = go(k, steps=1, svd_type=c["svd"], projectors=proj)
    check(diff(one, many) <= 1e-9, "%d sweeps at once and one by one differ by %.1e", k, diff(one, many))
    check(k == 0 or diff(go(1, steps=0), one) > 1e-9, "%d sweeps change nothing", k)
    if k == 0:
        check(n.same(n.snapshot(go(1, steps=0)), n.snapshot(go(0))), "zero sweeps change the network")
        return None
    # a huge oversampling makes the randomized SVD exact
    full = go(1, steps=k, svd_type="full-rank", projectors=proj, svd_cutoff=c["cutoff"])
    exact = go(1, steps=k, svd_type="rsvd", projectors=proj, rsvd_oversampling=500, svd_cutoff=c["cutoff"])
    rel = max(1e-9, 1e-13 / c["cutoff"])
    check(diff(full, exact) <= 1e3 * rel, "rsvd with full oversampling differs from full-rank by %.1e", diff(full, exact))
    powers = go(1, steps=k, svd_type="rsvd", projectors=proj, rsvd_niter=60, rsvd_oversampling=4, svd_cutoff=c["cutoff"])
    poor = go(1, steps=k, svd_type="rsvd", projectors=proj, rsvd_niter=0, rsvd_oversampling=0, svd_cutoff=c["cutoff"])
    e1, e0 = diff(full, powers), diff(full, poor)
    trunc = max(max(x.shape) for s in full.site_list for x in full[s]["C"]) == c["chi"] and c["chi"] < 16
    if trunc and e0 > 1e-6:
        check(e1 < 0.5 * e0, "60 power iterations (error %.1e) are no better than none (%.1e)", e1, e0)
        only = go(1, steps=k, svd_type="rsvd", projectors=proj, rsvd_niter=60, rsvd_oversampling=0, svd_cutoff=c["cutoff"])
        check(diff(only, poor) > 1e-12, "60 power iterations change nothing (error without them %.1e)", e0)
        over = go(1, steps=k, svd_type="rsvd", projectors=proj, rsvd_niter=0, rsvd_oversampling=500, svd_cutoff=c["cutoff"])
        check(diff(full, over) < 0.5 * e0, "oversampling 500 (error %.1e) is no better than none (%.1e)", diff(full, over), e0)
    if trunc:
        check(diff(full, poor) > 1e-12, "rsvd without oversampling and power iterations gives the full-rank result")
    # cutoff near one keeps only dominant values
    tiny = go(1, steps=k, svd_type=c["svd"], projectors=proj, svd_cutoff=0.999999)
    m = max(max(x.shape) for s in tiny.site_list for x in tiny[s]["C"])
    check(m <= 2, "boundary dimension %d with a cutoff of 0.999999", m)
    return ["k=%d" % k, c["svd"], proj, "truncated" if trunc else "complete", dt, "e0>1e-6" if e0 > 1e-6 else "e0 small"]


ctm = case(nx=st.integers(1, 3), ny=st.integers(1, 3), chi=st.integers(2, 12), k=st.sampled_from([1, 2, 3, 0]), svd=st.sampled_from(["rsvd", "full-rank"]),
           proj=st.sampled_from(["half-system", "full-system"]), cutoff=st.sampled_from([1e-5, 1e-3]), dtype=double, seed=seeds)


# ---------------------------------------------------------------- progress bars

def run_bars(c):
    conf = {"TN": {"nx": 2, "ny": 2, "dims": {"phys": 2, "bond": 1, "chi": 2}}, "ctmrg": {"steps": 1}, "evolution": {}, "model": {"name": "ising", "params": {"jz": 1.0, "hx": 1.0}}}
    for sec, v in (("ctmrg", c["ctmrg"]), ("evolution", c["evolution"])):
        if v is not None:
            conf[sec]["disable_progressbar"] = v
    net = Ipeps(conf)
    torch.manual_seed(0)
    old, sys.stderr = sys.stderr, io.StringIO()
    try:
        net.evolve(dtau=0.1, steps=2)
        out = sys.stderr.getvalue()
    finally:
        sys.stderr = old
    for sec, word in (("ctmrg", "Renormalizing"), ("evolution", "Updating")):
        check((word in out) == (not c[sec]), "progress bar of %s: %r is %sshown", sec, c[sec], "" if word in out else "not ")
    return ["%s %s" % (c["ctmrg"], c["evolution"])]


tri = st.sampled_from([None, True, False])
bars = case(ctmrg=tri, evolution=tri)


# ---------------------------------------------------------------- combinations

def run_combo(c):
    c = dict(c)
    dt = c["dtype"]
    if n.is_single(dt):
        c["ctmrg"] = dict(c["ctmrg"], svd_cutoff=max(1e-5, c["ctmrg"]["svd_cutoff"]))
        c["evolution"] = dict(c["evolution"], als_epsilon=max(1e-6, c["evolution"]["als_epsilon"]))
        c["tol"] = 2e-2
    else:
        c["tol"] = 2e-4 if c["svd"] == "full-rank" or c["proj"] == "full-system" else 3e-3
    tags = c15.run_dimers(c)
    if tags:
        return tags + [c["svd"], c["proj"], c["evolution"]["backend"], "gauge" if c["gauge"] else "nogauge", c["method"]]


combo = case(nx=st.sampled_from([2, 3]), ny=st.sampled_from([2, 3]), D=st.sampled_from([2, 1]), pairs=st.integers(0, 4), fields=st.sampled_from([0, 2, 4]), chi=st.integers(4, 12),
             dtau=st.sampled_from([0.05, 0.3, 0.01]), steps=st.integers(0, 3), dtype=st.sampled_from(["float64", "complex128", "float64", "complex128", "float32"]),
             ctmrg=case(svd_cutoff=st.sampled_from([1e-12, 1e-14, 1e-9]), rsvd_niter=st.integers(0, 6), rsvd_oversampling=st.integers(0, 20), disable_progressbar=st.just(True)),
             evolution=case(backend=st.sampled_from(["torch", "cutensor"]), gauge_fix_atol=st.sampled_from([1e-12, 1e-14]), positive_approx_cutoff=st.sampled_from([1e-12, 1e-14, 1e-10]),
                            als_niter=st.sampled_from([100, 50, 20]), als_tol=st.sampled_from([1e-15, 1e-12, 1e-10]), als_epsilon=st.sampled_from([1e-12, 1e-13, 1e-10]), disable_progressbar=st.just(True)),
             **c15.opts)

LEGS = [Leg("defaults", defaults, run_defaults, 1600, 40000), Leg("reject", reject, run_reject, 800, 20000), Leg("update", update, run_update, 2400, 60000),
        Leg("ctmrg", ctm, run_ctmrg, 160, 4000), Leg("bars", bars, run_bars, 96, 200), Leg("combos", combo, run_combo, 100, 4000, hang_is_violation=True, cpu_limit=200)]
