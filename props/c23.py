"""C23: measuring is read-only and runs are reproducible."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, double, case
from vlib import net as n
import copy
import logging
import random as pyrandom
import numpy as np
import torch
from acetn.model.model import Model
from acetn.model.pauli_matrix import pauli_matrices

RULE = ("random networks and models: tensors, dimensions, lists, configuration and the model's own operators are compared before and after "
        "measure() and renormalize(), repeated measurements are compared, evolutions by zero steps or dtau=0 are compared through the state "
        "vector of the finite torus and the converged local states, whole programs are repeated with the same seed, and full-rank "
        "renormalizations are repeated with different seeds. Non-trivial: bond dimension above 1 (or more than one site).")
ASSUMPTIONS = ["repeated programs are compared through singular values of the boundary and measured values when they are not bit-identical, "
               "because the rounding of the BLAS depends on memory alignment"]


def state(net):
    return (n.snapshot(net), dict(net.dims), list(net.bond_list), list(net.site_list), copy.deepcopy(vars(net.config.model)),
            copy.deepcopy(vars(net.config.ctmrg)), copy.deepcopy(vars(net.config.evolution)), net.site_states_initialized)


def unchanged(a, b, what):
    check(n.same(a[0], b[0]), "%s changed the tensors", what)
    for i, name in enumerate(["dims", "bond list", "site list", "model configuration", "ctmrg configuration", "evolution configuration", "initialization flag"]):
        x, y = a[i + 1], b[i + 1]
        check(str(x) == str(y), "%s changed the %s: %s -> %s", what, name, x, y)


def run_readonly(c):
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    nx, ny, d, D, dt = c["nx"], c["ny"], c["d"], c["D"], c["dtype"]
    cplx = n.is_c(dt)
    net = n.make(nx, ny, d, D, c["m"] ** 2, dt, ctmrg={"steps": 1})
    n.load_network(net, n.random_psd_network(r, nx, ny, d, D, c["m"], 2, cplx), dt)
    store = {}

    def op(key, k):
        if key not in store:
            store[key] = n.T(n.herm(r, k, cplx), dt)
        return store[key]
    model = n.FreeModel(dt, d, two=lambda b: op(("two", tuple(b)), d * d) if c["h"] & 1 else None, one=(lambda s: op(("one", s), d)) if c["h"] & 2 else None,
                        oneobs=(lambda s: {k: op((k, s), d) for k in "ab"}) if c["o"] & 1 else None,
                        twoobs=(lambda b: {k: op((k, tuple(b)), d * d) for k in "cd"}) if c["o"] & 2 else None)
    if not c["h"] & 1:
        zero = torch.zeros(d * d, d * d, dtype=n.TD[dt])
        model._two = lambda b: zero
    flags = (torch.get_default_dtype(), torch.is_grad_enabled(), torch.is_inference_mode_enabled())
    before = state(net)
    random = (torch.get_rng_state(), np.random.get_state()[1].tolist(), pyrandom.getstate())
    m1 = {k: complex(v) for k, v in net.measure(model).items()}
    ops = {k: t.clone() for k, t in store.items()}
    unchanged(before, state(net), "measure()")
    for _ in range(c["repeat"]):
        m2 = {k: complex(v) for k, v in net.measure(model).items()}
        check(m1.keys() == m2.keys(), "a repeated measurement returned %s instead of %s", sorted(m2), sorted(m1))
        for k in m1:
            check(abs(m1[k] - m2[k]) <= (1e-4 if n.is_single(dt) else 1e-9) * (1 + abs(m1[k])), "%s changed from %s to %s in a repeated measurement", k, m1[k], m2[k])
    unchanged(before, state(net), "repeated measure()")
    for k, t in store.items():
        check(torch.equal(t, ops[k]), "measuring changed the operator %s of the model", k)
    check(torch.equal(random[0], torch.get_rng_state()) and random[1:] == (np.random.get_state()[1].tolist(), pyrandom.getstate()), "measuring changed the state of a random generator")
    check(flags == (torch.get_default_dtype(), torch.is_grad_enabled(), torch.is_inference_mode_enabled()), "measuring changed the mode of torch")
    net.renormalize()
    after = state(net)
    for s in before[0]:
        check(np.array_equal(before[0][s][0], after[0][s][0]), "renormalize() changed the site tensor of %s", s)
    unchanged((after[0],) + before[1:], after, "renormalize()")
    if D > 1 or nx * ny > 1:
        return ["dtype=" + dt, "cell=%dx%d" % (nx, ny), "h=%d" % c["h"], "o=%d" % c["o"]]


readonly = case(nx=st.integers(1, 3), ny=st.integers(1, 3), d=st.integers(1, 3), D=st.integers(1, 3), m=st.integers(1, 2), h=st.integers(0, 3), o=st.integers(0, 3),
                repeat=st.integers(1, 2), dtype=dtypes_mostly_double, seed=seeds)


def run_identity(c):
    """evolve with dtau=0 or steps=0: the same physical state."""
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    nx, ny, d, D, dt = c["nx"], c["ny"], 2, c["D"], c["dtype"]
    cplx = n.is_c(dt)
    net = n.make(nx, ny, d, D, 10, dt, ctmrg={"steps": 10, "svd_type": c["svd"], "projectors": c["proj"]},
                 evolution={"update_type": c["upd"], "use_gauge_fix": c["gauge"], "als_method": c["method"]})
    A = n.gapped_state(r, nx, ny, d, D, c["eps"] / 100, cplx)
    n.set_A(net, A, dt)
    net.renormalize()
    sr, br = n.measured_rhos(net, dt, d)
    H = {tuple(b): 5 * n.herm(r, d * d, cplx) for b in net.bond_list}
    F = {s: 5 * n.herm(r, d, cplx) for s in net.site_list}
    model = n.FreeModel(dt, d, two=lambda b: H[tuple(b)], one=lambda s: F[s], init=lambda s: [0.6, 0.8])
    dtau, steps = (0.3, 0) if c["kind"] == "steps" else (0.0, c["steps"])
    before = n.get_A(net)
    net.evolve(dtau, steps, model=model)
    if steps == 0:
        for s, a in n.get_A(net).items():
            check(np.array_equal(a, before[s]), "evolving by zero steps changed the site tensor of %s", s)
    # half-system projectors with rsvd resolve singular values down to 1e-8, their inverse roots amplify the rest
    tol = 2e-3 if (c["proj"], c["svd"]) == ("half-system", "rsvd") else 2e-5
    sr2, br2 = n.measured_rhos(net, dt, d)
    e1 = max(np.abs(sr[s] - sr2[s]).max() for s in sr)
    e2 = max(np.abs(br[b] - br2[b]).max() for b in br)
    check(max(e1, e2) <= tol, "local states changed by %.1e (site), %.1e (bond) with dtau=%s, steps=%d", e1, e2, dtau, steps)
    if nx * ny <= 6:
        o = n.ray_dist(n.torus_state(before, nx, ny), n.torus_state(n.get_A(net), nx, ny))
        check(o <= (5e-4 if c["upd"] == "full" else 1e-7), "the state changed by %.1e with dtau=%s, steps=%d", o, dtau, steps)
    if D > 1:
        return [c["kind"], c["upd"], "cell=%dx%d" % (nx, ny), "D=%d" % D, dt]


identity = case(nx=st.integers(2, 3), ny=st.integers(2, 3), D=st.integers(2, 3), eps=st.integers(10, 18), kind=st.sampled_from(["dtau", "steps", "dtau"]), steps=st.integers(1, 3),
                svd=st.sampled_from(["full-rank", "rsvd"]), proj=st.sampled_from(["half-system", "full-system"]), upd=st.sampled_from(["full", "simple"]),
                gauge=st.booleans(), method=st.sampled_from(["cholesky", "pinv"]), dtype=double, seed=seeds)


class Field(Model):
    def one_site_observables(self, site):
        X, Y, Z, I = pauli_matrices(self.dtype, self.device)
        return {"x": X, "z": Z}

    def one_site_hamiltonian(self, site):
        X, Y, Z, I = pauli_matrices(self.dtype, self.device)
        return -self.params["h"] * X

    def two_site_hamiltonian(self, bond):
        X, Y, Z, I = pauli_matrices(self.dtype, self.device)
        return -1.0 * Z * Z


def run_seed(c):
    """The same program twice with the same seed, the second time with the log level asked for."""
    levels = {name: l.level for name, l in logging.root.manager.loggerDict.items() if name.startswith("acetn") and isinstance(l, logging.Logger)}
    try:
        outs = [seed_program(c), None]
        for name in levels if c["debug"] else ():
            logging.getLogger(name).setLevel(logging.DEBUG)
        outs[1] = seed_program(c)
    finally:
        for name, level in levels.items():
            logging.getLogger(name).setLevel(level)
    (t1, m1), (t2, m2) = outs
    compare_runs(c, t1, m1, t2, m2)
    if c["D"] > 1:
        return [c["svd"], c["proj"], "debug=%s" % c["debug"]] + sorted(set(c["ops"]))


def seed_program(c):
    torch.manual_seed(c["seed"])
    net = n.make(c["nx"], c["ny"], 2, c["D"], c["chi"], c["dtype"], ctmrg={"steps": c["sweeps"], "svd_type": c["svd"], "projectors": c["proj"], "rsvd_niter": c["niter"], "rsvd_oversampling": 0},
                 evolution={"update_type": c["upd"], "als_niter": 20})
    net.set_model(Field, {"h": 1.5})
    res = []
    for op in c["ops"]:
        if op == "evolve" and c["nx"] > 1 and c["ny"] > 1:
            net.evolve(0.05, c["steps"] if c["upd"] == "simple" or c["D"] < 3 else 2)
        elif op == "renormalize":
            net.renormalize()
        elif op == "random":
            for s in net.site_list:
                net[s].initialize_site_tensor([1.0, 0.5], noise=0.3)
            net.renormalize()
        res.append({k: complex(v) for k, v in net.measure().items()})
    return n.snapshot(net), res


def compare_runs(c, t1, m1, t2, m2):
    identical = n.same(t1, t2) and m1 == m2
    if not identical:
        for a, b in zip(m1, m2):
            for k in a:
                check(abs(a[k] - b[k]) <= 1e-7 * (1 + abs(a[k])), "%s is %s and %s in two runs with the same seed", k, a[k], b[k])
        for s in t1:
            for x, y in zip(t1[s][1] + t1[s][2], t2[s][1] + t2[s][2]):
                check(x.shape == y.shape, "boundary tensors of site %s have different shapes in two runs with the same seed", s)
            for x, y in zip(t1[s][1], t2[s][1]):
                e = np.abs(np.linalg.svd(x, compute_uv=False) - np.linalg.svd(y, compute_uv=False)).max()
                check(e <= 1e-6, "corner spectra of site %s differ by %.1e in two runs with the same seed", s, e)
            check(abs(abs(np.vdot(t1[s][0], t2[s][0])) - 1) <= 1e-6 or c["upd"] == "full", "site tensors of %s differ in two runs with the same seed", s)


seedcase = case(nx=st.integers(1, 3), ny=st.integers(1, 3), D=st.integers(1, 3), chi=st.sampled_from([4, 8, 2]), sweeps=st.integers(1, 3), niter=st.integers(0, 2),
                svd=st.sampled_from(["rsvd", "full-rank"]), proj=st.sampled_from(["half-system", "full-system"]), upd=st.sampled_from(["full", "simple"]),
                steps=st.sampled_from([2, 2, 2, 10, 11]), debug=st.booleans(), ops=st.lists(st.sampled_from(["evolve", "renormalize", "random"]), min_size=1, max_size=3), dtype=double, seed=seeds)


def run_fullrank(c):
    """Full-rank renormalization does not depend on the seed."""
    r = n.gen(c["seed"])
    nx, ny, d, D, dt = c["nx"], c["ny"], 2, c["D"], c["dtype"]
    A = {s: n.nrm(n.randn(r, (D, D, D, D, d), n.is_c(dt)) + 2 * r.random((D, D, D, D, d))) for s in n.sites(nx, ny)}
    outs = []
    for k in range(2):
        torch.manual_seed(17 + 1000 * k + c["seed"] % 100)
        np.random.seed(k)
        net = n.make(nx, ny, d, D, c["chi"], dt, ctmrg={"steps": c["sweeps"], "svd_type": "full-rank", "projectors": c["proj"], "rsvd_niter": 0, "rsvd_oversampling": 0})
        n.set_A(net, A, dt)
        net.renormalize()
        outs.append((n.snapshot(net), n.measured_rhos(net, dt, d)))
    (t1, m1), (t2, m2) = outs
    for s in t1:
        for x, y in zip(t1[s][1], t2[s][1]):
            check(x.shape == y.shape, "corner shapes depend on the seed with full-rank SVDs")
            e = np.abs(np.linalg.svd(x, compute_uv=False) - np.linalg.svd(y, compute_uv=False)).max()
            check(e <= 1e-7, "corner spectra of site %s depend on the seed (%.1e) with full-rank SVDs", s, e)
    for a, b in zip(m1, m2):
        e = max(np.abs(a[k] - b[k]).max() / max(1, np.abs(a[k]).max()) for k in a)
        check(e <= 1e-7, "local states depend on the seed (%.1e) with full-rank SVDs", e)
    if D > 1 and c["chi"] < D ** 4:
        return [c["proj"], "D=%d" % D, "cell=%dx%d" % (nx, ny), dt]


fullrank = case(nx=st.integers(1, 3), ny=st.integers(1, 3), D=st.integers(1, 3), chi=st.sampled_from([4, 6, 3, 9]), sweeps=st.integers(1, 2),
                proj=st.sampled_from(["half-system", "full-system"]), dtype=double, seed=seeds)

LEGS = [Leg("readonly", readonly, run_readonly, 300, 10000), Leg("identity", identity, run_identity, 64, 2000),
        Leg("seed", seedcase, run_seed, 100, 4000), Leg("fullrank", fullrank, run_fullrank, 100, 4000)]
