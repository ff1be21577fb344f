"""C15: imaginary-time evolution is exact on solvable Hamiltonians."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, double, dtypes_mostly_double, case
from vlib import net as n
from props.c03 import kac_ward
import numpy as np
import scipy.linalg
import torch

RULE = ("random site-dependent fields, random interactions on random dimer coverings (with fields, following the order of the gates), and "
        "random commuting Ising couplings in random local bases (infinite-lattice reference: Kac-Ward determinant), for several steps of "
        "both update types from product states; for arbitrary Hamiltonians the energy must decrease and stay above the sum of the lowest "
        "eigenvalues of the bond terms. Non-trivial: the Hamiltonian acts on at least one site or bond and steps > 0.")
ASSUMPTIONS = ["cells of at least two sites per direction", "accumulated Ising couplings up to 0.33 (disordered phase)",
               "float32 is only used for fields and dimers, with svd_cutoff=1e-5, als_epsilon=1e-6 and the cholesky method; complex64 is not used "
               "(the QR, SVD and eigh of LAPACK return NaN for the denormal numbers that product states leave in single precision)"]


def setup(c, D, chi, steps, d=2):
    torch.manual_seed(c["seed"] % 1000)
    single = n.is_single(c["dtype"])
    net = n.make(c["nx"], c["ny"], d, D, chi, c["dtype"],
                 ctmrg={"steps": steps, "svd_type": c["svd"], "projectors": c["proj"], **({"svd_cutoff": 1e-5} if single else {}), **c.get("ctmrg", {})},
                 evolution={"update_type": c["upd"], "use_gauge_fix": c["gauge"], "als_method": "cholesky" if single else c["method"], **({"als_epsilon": 1e-6} if single else {}), **c.get("evolution", {})})
    return n.gen(c["seed"]), n.is_c(c["dtype"]), net


def product(net, v, D, d):
    A = {}
    for s in net.site_list:
        A[s] = np.zeros((D,) * 4 + (d,), complex)
        A[s][0, 0, 0, 0] = n.nrm(v[s])
    return A


def proj(v):
    v = n.nrm(np.asarray(v).ravel())
    return np.outer(v, v.conj())


def run_dimers(c):
    """Random non-overlapping bonds, and random fields anywhere."""
    nx, ny, d = c["nx"], c["ny"], 2
    D = c["D"]
    r, cplx, net = setup(c, D, c.get("chi", 4), 2 + max(nx, ny))
    free = set(n.sites(nx, ny))
    bonds = sorted((tuple(b) for b in net.bond_list))
    H = {}
    for i in r.permutation(len(bonds)):
        s1, s2, k = bonds[i]
        if D > 1 and len(H) < c["pairs"] and s1 in free and s2 in free:
            free -= {s1, s2}
            H[bonds[i]] = n.herm(r, d * d, cplx)
    F = {s: n.herm(r, d, cplx) if r.integers(0, 4) < c["fields"] else None for s in n.sites(nx, ny)}
    v = {s: n.nrm(n.randn(r, (d,), cplx)) for s in n.sites(nx, ny)}
    dtau = c["dtau"]
    model = n.FreeModel(c["dtype"], d, two=lambda b: H.get(tuple(b), np.zeros((d * d, d * d))), one=lambda s: F[tuple(s)])
    n.set_A(net, product(net, v, D, d), c["dtype"])
    # exact evolution of every cluster with the gates in their order
    I = np.eye(d)
    half = {s: scipy.linalg.expm(-dtau / 4 * F[s]) if F[s] is not None else I for s in F}
    owner = {}
    state = {}
    for b in H:
        state[b] = np.kron(v[b[0]], v[b[1]])
        owner[b[0]] = owner[b[1]] = b
    one = dict(v)
    order = [tuple(b) for b in net.bond_list]
    for _ in range(c["steps"]):
        for b in order:
            if b in H:
                f = [F[s] / 4 if F[s] is not None else np.zeros((d, d)) for s in b[:2]]
                state[b] = n.nrm(scipy.linalg.expm(-dtau * (H[b] + np.kron(f[0], I) + np.kron(I, f[1]))) @ state[b])
            else:
                for s in b[:2]:
                    if s in owner:
                        o = owner[s]
                        state[o] = n.nrm((np.kron(half[s], I) if o[0] == s else np.kron(I, half[s])) @ state[o])
                    else:
                        one[s] = n.nrm(half[s] @ one[s])
        order = order[::-1]
    rho1 = {s: proj(one[s]) for s in one}
    rho2 = {}
    for b, psi in state.items():
        rho2[b] = proj(psi)
        m = psi.reshape(d, d)
        rho1[b[0]], rho1[b[1]] = m @ m.conj().T, m.T @ m.conj()
    net.evolve(dtau=dtau, steps=c["steps"], model=model)
    sr, br = n.measured_rhos(net, c["dtype"], d)
    tol = c.get("tol") or (5e-3 if n.is_single(c["dtype"]) else 1e-6)
    for s in rho1:
        e = np.abs(sr[s] - rho1[s]).max()
        check(e <= tol, "state of site %s is off by %.1e after %d steps", s, e, c["steps"])
    for b in br:
        want = rho2[b] if b in rho2 else np.kron(rho1[b[0]], rho1[b[1]])
        e = np.abs(br[b] - want).max()
        check(e <= tol, "state of bond %s is off by %.1e after %d steps", b, e, c["steps"])
    if c["steps"] and (H or c["fields"]):
        return [c["upd"], "pairs=%d" % len(H), "D=%d" % D, "cell=%dx%d" % (nx, ny), "fields=%d" % c["fields"], c["dtype"]]


def run_ising(c):
    nx, ny, d = c["nx"], c["ny"], 2
    r, cplx, net = setup(c, 2, c["chi"], 14)
    n_steps, dtau = c["steps"], c["dtau"]
    kmax = 0.33
    u = {s: n.unitary(r, 2, cplx) for s in net.site_list}
    Z = {s: u[s] @ np.diag([1.0, -1.0]) @ u[s].conj().T for s in u}
    tau = n_steps * dtau
    K = {}
    J = {}
    for b in sorted(net.bond_list, key=tuple):
        J[tuple(b)] = float(r.uniform(-kmax, kmax)) / 2 / tau
        K[b.s1 + (b.k,)] = 2 * tau * J[tuple(b)]
    v = {s: u[s] @ np.array([1.0, np.exp(1j * r.uniform(0, 6.28)) if cplx else r.choice([-1.0, 1.0])]) for s in u}
    model = n.FreeModel(c["dtype"], d, two=lambda b: -J[tuple(b)] * np.kron(Z[b.s1], Z[b.s2]))
    n.set_A(net, product(net, v, 2, d), c["dtype"])
    net.evolve(dtau=dtau, steps=n_steps, model=model)
    net.renormalize()
    ref = kac_ward(nx, ny, K)
    sr, br = n.measured_rhos(net, c["dtype"], d)
    tol = 5e-5
    for s in sr:
        m = np.trace(sr[s] @ Z[s]).real
        check(abs(m) <= tol, "site %s has <Z>=%.2e instead of 0", s, m)
    for b in br:
        e = np.trace(br[b] @ np.kron(Z[b[0]], Z[b[1]])).real
        check(abs(e - ref[b[0] + (b[2],)]) <= tol, "<ZZ> of bond %s is %.7f instead of %.7f after %d steps", b, e, ref[b[0] + (b[2],)], n_steps)
    # rigorous statement about energies
    en = net.measure(model)["Energy"]
    want = sum(-J[b] * ref[b[0] + (b[2],)] for b in J) / (nx * ny)
    check(abs(complex(en) - want) <= 10 * tol * max(abs(x) for x in J.values()), "energy %s instead of %.6f", en, want)
    return [c["upd"], "steps=%d" % n_steps, "cell=%dx%d" % (nx, ny), c["dtype"]]


def run_energy(c):
    nx, ny, d = c["nx"], c["ny"], c["d"]
    r, cplx, net = setup(c, 2, 10, 6, d)
    if c["uniform"]:
        h0, f0 = n.herm(r, d * d, cplx), n.herm(r, d, cplx)
        h0 = h0 / np.linalg.norm(h0, 2)
        H = {tuple(b): h0 for b in net.bond_list}
        F = {s: f0 for s in net.site_list}
    else:
        H = {tuple(b): n.nrm(n.herm(r, d * d, cplx)) * 1.5 for b in sorted(net.bond_list, key=tuple)}
        F = {s: n.herm(r, d, cplx) for s in net.site_list}
    v = {s: n.nrm(n.randn(r, (d,), cplx)) for s in net.site_list}
    I = np.eye(d)
    model = n.FreeModel(c["dtype"], d, two=lambda b: H[tuple(b)], one=lambda s: F[tuple(s)], init=lambda s: [complex(x) if cplx else float(x.real) for x in v[tuple(s)]])
    bound = sum(np.linalg.eigvalsh(H[b] + 0.25 * (np.kron(F[b[0]], I) + np.kron(I, F[b[1]])))[0] for b in H) / (nx * ny)
    net.evolve(dtau=0.01, steps=0, model=model)
    e0 = complex(net.measure(model)["Energy"]).real
    prod = sum(np.vdot(v[s], F[s] @ v[s]).real for s in v) + sum(np.vdot(np.kron(v[b[0]], v[b[1]]), H[b] @ np.kron(v[b[0]], v[b[1]])).real for b in H)
    check(abs(e0 - prod / (nx * ny)) <= 0.5, "energy of the starting state is %.6f instead of %.6f", e0, prod / (nx * ny))
    es = [e0]
    for _ in range(2):
        net.evolve(dtau=c["dtau"], steps=c["steps"], model=model)
        es.append(complex(net.measure(model)["Energy"]).real)
        check(np.isfinite(es[-1]) and es[-1] >= bound - 1e-6, "energy %.8f below the bound %.8f", es[-1], bound)
        check(es[-1] <= es[-2] + 2e-3, "energies %s increase (bound %.6f)", es, bound)
    # a starting state that is not an eigenstate loses energy at the rate of twice the variance
    if es[0] - bound > 0.1:
        check(es[-1] < es[0] + 1e-6, "the energy did not decrease: %s", es)
        return [c["upd"], "uniform" if c["uniform"] else "varying", "d=%d" % d, c["dtype"], "decrease" if es[0] - es[-1] > 1e-2 else "small decrease"]


two = st.sampled_from([2, 3])
opts = dict(upd=st.sampled_from(["simple", "full"]), gauge=st.booleans(), method=st.sampled_from(["cholesky", "pinv"]), svd=st.sampled_from(["rsvd", "full-rank"]),
            proj=st.sampled_from(["half-system", "full-system"]), seed=seeds)
dim_case = case(nx=st.sampled_from([2, 3, 4]), ny=st.sampled_from([2, 3, 4]), D=st.sampled_from([2, 1, 2, 3]), pairs=st.integers(0, 5), fields=st.sampled_from([0, 2, 4]),
                dtau=st.sampled_from([0.05, 0.3, 0.01]), steps=st.integers(0, 4), dtype=st.sampled_from(["float64", "complex128", "float64", "complex128", "float32"]), **opts)
ising_case = case(nx=two, ny=two, chi=st.sampled_from([8, 10]), dtau=st.sampled_from([0.02, 0.1, 0.5]), steps=st.integers(1, 4), dtype=double, **opts)
energy_case = case(nx=two, ny=two, d=st.sampled_from([2, 2, 3]), uniform=st.booleans(), dtau=st.sampled_from([0.01, 0.03]), steps=st.sampled_from([3, 6]), dtype=double, **opts)

LEGS = [Leg("dimers", dim_case, run_dimers, 100, 3000), Leg("ising", ising_case, run_ising, 40, 1200), Leg("energy", energy_case, run_energy, 32, 1000)]
