"""C26: evolution does not depend on units, the origin of energy, local bases, the writing of the Hamiltonian or the number format."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, double, case
from vlib import net as n
import numpy as np
import torch

RULE = ("random entangled states of short correlation length with random Hamiltonians on every bond and site, evolved by full or simple updates that do truncate; "
        "the same evolution in another energy unit, with constants added, with fields moved into the bond terms, in another local basis, complex-conjugated, "
        "in another number format or with another random seed must give the same density matrices and energy. Non-trivial: bond dimension above 1.")
ASSUMPTIONS = ["boundary dimension at least the square of the bond dimension", "results that change as much when the initial tensors are perturbed at rounding level are not decided (trivial)"]
DT1 = {"float64": "float32", "complex128": "complex64"}


def bonds_of(nx, ny):
    return sorted(tuple(b) for b in n.make(nx, ny, 2, 1, 1, "float64").bond_list)


def evolve(c, A, H, F, dtau, dt, seed):
    torch.manual_seed(seed)
    net = n.make(c["nx"], c["ny"], c["d"], c["D"], c["chi"], dt,
                 ctmrg={"steps": c["steps"], "svd_type": c["svd"], "projectors": c["proj"],
                        **({"rsvd_niter": 4, "rsvd_oversampling": 10} if c["svd"] == "rsvd" else {})},
                 evolution={"update_type": c["upd"], "use_gauge_fix": c["gauge"], "als_method": c["als"]})
    n.set_A(net, A, dt)
    model = n.FreeModel(dt, c["d"], two=lambda b: H[tuple(b)], one=(lambda s: F[tuple(s)]) if F is not None else None)
    net.evolve(dtau, c["k"], model=model)
    return net, model


def run(c):
    r = n.gen(c["seed"])
    nx, ny, d, D, dt, rel = c["nx"], c["ny"], c["d"], c["D"], c["dtype"], c["rel"]
    c = dict(c, chi=c["chi"] + D * D)
    cplx = n.is_c(dt)
    S, B = n.sites(nx, ny), bonds_of(nx, ny)
    A = n.gapped_state(r, nx, ny, d, D, c["eps"], cplx)
    H = {b: n.herm(r, d * d, cplx) for b in B}
    F = {s: n.herm(r, d, cplx) for s in S} if c["field"] else None
    seed = c["seed"] % 1000
    net, model = evolve(c, A, H, F, c["dtau"], dt, seed)
    s1, s2 = n.measured_rhos(net, dt, d)
    E = complex(net.measure(model)["Energy"]).real
    A2, H2, F2, dtau2, dt2, seed2 = dict(A), dict(H), None if F is None else dict(F), c["dtau"], dt, seed
    back = lambda rho, *ss: rho
    E2 = None
    one = np.eye(d)
    if rel == "unit":
        f = 10.0 ** c["mag"]
        H2 = {b: h * f for b, h in H.items()}
        F2 = None if F is None else {s: h * f for s, h in F.items()}
        dtau2 = c["dtau"] / f
        E2 = E * f
    elif rel == "origin":
        f = 10.0 ** min(abs(c["mag"]), 1) / c["dtau"]
        sh = {b: f * r.uniform(-1, 1) for b in B}
        H2 = {b: h + sh[b] * np.eye(d * d) for b, h in H.items()}
        E2 = E + sum(sh.values()) / len(S)
        if F is not None:
            sf = {s: f * r.uniform(-1, 1) for s in S}
            F2 = {s: h + sf[s] * one for s, h in F.items()}
            E2 += sum(sf.values()) / len(S)
    elif rel == "split":
        X = {s: n.herm(r, d, cplx) for s in S}
        F2 = {s: (0 if F is None else F[s]) + X[s] for s in S}
        H2 = {b: h - (np.kron(X[b[0]], one) + np.kron(one, X[b[1]])) / 4 for b, h in H.items()}
    elif rel == "basis":
        U = {s: n.unitary(r, d, cplx) for s in S}
        A2 = {s: np.einsum("lurdp,qp->lurdq", a, U[s]) for s, a in A.items()}
        H2 = {b: (w := np.kron(U[b[0]], U[b[1]])) @ h @ w.conj().T for b, h in H.items()}
        F2 = None if F is None else {s: U[s] @ h @ U[s].conj().T for s, h in F.items()}

        def back(rho, *ss):
            w = U[ss[0]] if len(ss) == 1 else np.kron(U[ss[0]], U[ss[1]])
            return w.conj().T @ rho @ w
        E2 = E
    elif rel == "conj":
        A2 = {s: a.conj() for s, a in A.items()}
        H2 = {b: h.conj() for b, h in H.items()}
        F2 = None if F is None else {s: h.conj() for s, h in F.items()}
        back = lambda rho, *ss: rho.conj()
        E2 = E
    elif rel == "complex":
        dt2, E2 = "complex128", E
    elif rel == "single":
        dt2, E2 = DT1[dt], E
    elif rel == "seed":
        seed2, E2 = seed + 17, E
    net2, model2 = evolve(c, A2, H2, F2, dtau2, dt2, seed2)
    t1, t2 = n.measured_rhos(net2, dt2, d)
    e = max([np.abs(back(t1[s], s) - s1[s]).max() for s in s1] + [np.abs(back(t2[b], b[0], b[1]) - s2[b]).max() for b in s2])
    what, tol = "of the states", 1e-5 if rel != "single" else 1e-2
    if E2 is not None:
        eE = abs(complex(net2.measure(model2)["Energy"]).real - E2) / max(abs(E2), abs(E), 1)
        if not eE <= e:
            e, what = eE, "of the energy (relative)"
    if not e <= tol:
        # coinciding singular values at a truncation or an ill-conditioned boundary make the result depend on rounding: not decidable
        p, x, y = (1e-6, t1, t2) if rel == "single" else (1e-12, s1, s2)
        # singular vectors have other signs in these: another boundary gauge to start from, so the sweeps must have converged
        for i in range(3 if rel not in ("unit", "origin") else 2):
            pert = {s: v * (1 + p * r.standard_normal(v.shape)) for s, v in A.items()}
            q = evolve(c if i < 2 else dict(c, steps=c["steps"] + 4), pert, H, F, c["dtau"], dt2 if rel == "single" else dt, seed + i)[0]
            u1, u2 = n.measured_rhos(q, dt2 if rel == "single" else dt, d)
            d0 = max([np.abs(u1[s] - x[s]).max() for s in x] + [np.abs(u2[b] - y[b]).max() for b in y])
            if tol / (1000 if i < 2 else 100) < d0 < np.inf:
                return None
        check(False, "%s: the evolved network changes, deviation %s %.1e (perturbed initial tensors: %.1e)", WHAT[rel], what, e, d0)
    if D > 1:
        return [rel, c["upd"], c["svd"], c["proj"], "D=%d" % D, c["als"], dt, "gauge-fix" if c["gauge"] else "no-gauge-fix"]


WHAT = {"unit": "another energy unit (h*f, dtau/f)", "origin": "constants added to the Hamiltonian", "split": "fields written into the two-site terms",
        "basis": "another local basis on every site", "conj": "complex conjugation of everything", "complex": "complex128 instead of float64",
        "single": "single instead of double precision", "seed": "another random seed"}
cases = case(nx=st.integers(2, 3), ny=st.integers(2, 3), d=st.integers(2, 3), D=st.sampled_from([1, 2, 2, 2, 3]), chi=st.integers(0, 6), dtype=double,
             upd=st.sampled_from(["full", "simple"]), proj=st.sampled_from(["half-system", "full-system"]), svd=st.sampled_from(["full-rank", "rsvd"]),
             gauge=st.booleans(), als=st.sampled_from(["cholesky", "pinv"]), k=st.integers(1, 3), dtau=st.sampled_from([0.01, 0.05, 0.2]), steps=st.sampled_from([4, 8]),
             eps=st.sampled_from([0.1, 0.3]), field=st.booleans(), mag=st.integers(-4, 4),
             rel=st.sampled_from(["unit", "origin", "split", "basis", "conj", "complex", "single", "seed"]), seed=seeds)
LEGS = [Leg("relation", cases, run, 400, 8000)]
