"""C05: measured local states equal the exact contraction of the network with its boundary."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, double, case
from vlib import net as n
import numpy as np
import torch
from acetn.measurement.rdm import RDM
from acetn.ipeps.bond import Bond

RULE = ("random site tensors and random positive boundary tensors with unequal leg sizes on nx x ny cells; every one- and "
        "two-site density matrix is reconstructed from measure() with matrix-unit observables and compared with a dense "
        "contraction. Non-trivial: bond dimension or physical dimension above 1 and at least one boundary leg above 1.")
ASSUMPTIONS = ["boundary tensors are sums of ket x bra products, as any boundary obtained by contracting a state is"]


def closeness(ref, dt, tol):
    """Is an error within the rounding? What cancels in the contraction is only looked at when needed."""
    absolute = {s: (np.abs(A), [np.abs(x) for x in C], [np.abs(x) for x in E]) for s, (A, C, E) in ref.items()}

    def close(e, key):
        if e <= tol:
            return True
        f = n.ref_site_rho if len(key) == 2 else n.ref_bond_rho
        args = (key,) if len(key) == 2 else key
        return e <= 4 * n.eps_of(dt) * np.trace(f(absolute, *args)) / np.abs(np.trace(f(ref, *args)))
    return close


def run_contract(c):
    r = n.gen(c["seed"])
    dt, cplx = c["dtype"], n.is_c(c["dtype"])
    ref = n.random_psd_network(r, c["nx"], c["ny"], c["d"], c["D"], c["m"], c["S"], cplx)
    net = n.make(c["nx"], c["ny"], c["d"], c["D"], c["m"]**2, dt)
    n.load_network(net, ref, dt)
    ref = n.snapshot(net)
    sr, br = n.measured_rhos(net, dt, c["d"])
    tol = 2e-4 if n.is_single(dt) else 1e-9
    close = closeness(ref, dt, tol)
    for s, rho in sr.items():
        e = n.ref_site_rho(ref, s)
        e = e / np.trace(e).real
        check(close(np.abs(rho - e).max(), tuple(s)), "site %s: measured density matrix off by %.2e", s, np.abs(rho - e).max())
    for (s1, s2, k), rho in br.items():
        e = n.ref_bond_rho(ref, s1, s2, k)
        e = e / np.trace(e).real
        check(close(np.abs(rho - e).max(), (s1, s2, k)), "bond %s-%s k=%d: measured density matrix off by %.2e", s1, s2, k, np.abs(rho - e).max())
    if (c["D"] > 1 or c["d"] > 1) and c["m"] > 1:
        return ["dtype=" + dt, "cell=%dx%d" % (c["nx"], c["ny"]), "D=%d" % c["D"], "d=%d" % c["d"]]


contract = case(nx=st.sampled_from([1, 2, 3, 2, 3, 4, 5]), ny=st.sampled_from([1, 2, 3, 2, 3, 4, 5]), d=st.integers(1, 3), D=st.integers(1, 3), m=st.integers(1, 2),
                S=st.integers(1, 3), dtype=dtypes_mostly_double, seed=seeds).filter(lambda c: c["nx"] * c["ny"] * c["d"]**4 <= 330)


def run_rdm(c):
    """The density matrices themselves: Hermitian, non-negative, and the same bond seen from either end."""
    r = n.gen(c["seed"])
    dt, cplx = c["dtype"], n.is_c(c["dtype"])
    ref = n.random_psd_network(r, c["nx"], c["ny"], c["d"], c["D"], c["m"], c["S"], cplx)
    net = n.make(c["nx"], c["ny"], c["d"], c["D"], c["m"]**2, dt)
    n.load_network(net, ref, dt)
    rdm = RDM(net)
    tol = 2e-4 if n.is_single(dt) else 1e-9
    d = c["d"]

    close = closeness(ref, dt, tol)

    def valid(m, what, key):
        t = np.trace(m)
        check(close(abs(t - abs(t)) / abs(t), key), "%s: trace %s", what, t)
        m = m / t.real
        e = np.abs(m - m.conj().T).max()
        check(close(e, key), "%s is not Hermitian (%.1e)", what, e)
        w = np.linalg.eigvalsh((m + m.conj().T) / 2)
        check(close(-w[0], key), "%s has the negative eigenvalue %.2e", what, w[0])
        return m
    for s in net.site_list:
        valid(n.N(rdm[s]), "density matrix of site %s" % (s,), tuple(s))
    for b in net.bond_list:
        key = (b.s1, b.s2, b.k)
        m = n.N(rdm[b]).reshape(d * d, d * d)
        m = valid(m, "density matrix of bond %s" % (b,), key)
        rev = n.N(rdm[Bond(b.s2, b.s1, (b.k + 2) % 4)])
        rev = rev.transpose(1, 0, 3, 2).reshape(d * d, d * d)
        rev = rev / np.trace(rev).real
        e = np.abs(m - rev).max()
        check(close(e, key), "bond %s: seen from the other end differs by %.2e", b, e)
    if (c["D"] > 1 or c["d"] > 1) and c["m"] > 1:
        return ["dtype=" + dt, "D=%d" % c["D"], "d=%d" % c["d"]]


rdm_case = case(nx=st.integers(1, 3), ny=st.integers(1, 3), d=st.integers(1, 6), D=st.integers(1, 5), m=st.integers(1, 3),
                S=st.integers(1, 3), dtype=dtypes_mostly_double, seed=seeds).filter(lambda c: c["d"]**2 * c["D"]**4 * c["m"]**4 <= 90000)


def run_fresh(c):
    """With the initial boundary of any site tensors, and as long as nothing is truncated, local states are states: the boundary is made of
    contracted ket-bra pairs."""
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    dt, d, D = c["dtype"], c["d"], c["D"]
    sweeps = c["sweeps"] if c["nx"] == c["ny"] == 1 and D <= 2 else 0
    net = n.make(c["nx"], c["ny"], d, D, D**4 + 1, dt, ctmrg={"steps": sweeps, "projectors": c["proj"], "svd_type": c["svd"]})
    A = {s: n.nrm(n.randn(r, (D,) * 4 + (d,), n.is_c(dt)) + c["offset"] * r.random((D,) * 4 + (d,))) for s in n.sites(c["nx"], c["ny"])}
    n.set_A(net, A, dt)
    net.renormalize()
    tol = 1e-5 if sweeps else 1e-4 if n.is_single(dt) else 1e-9
    if sweeps and n.is_single(dt):
        return None
    sr, br = n.measured_rhos(net, dt, d)
    for what, m in list(sr.items()) + list(br.items()):
        check(abs(np.trace(m) - 1) <= tol, "trace of %s is %s", what, np.trace(m))
        check(np.abs(m - m.conj().T).max() <= tol, "%s is not Hermitian (%.1e) after %d sweeps", what, np.abs(m - m.conj().T).max(), sweeps)
        w = np.linalg.eigvalsh((m + m.conj().T) / 2)[0]
        check(w >= -tol, "%s has the eigenvalue %.1e after %d sweeps", what, w, sweeps)
    if D > 1 and d > 1:
        return ["dtype=" + dt, "sweeps=%d" % sweeps, "cell=%dx%d" % (c["nx"], c["ny"]), "D=%d" % D]


fresh = case(nx=st.sampled_from([1, 1, 2, 3]), ny=st.sampled_from([1, 1, 2, 3]), d=st.integers(1, 4), D=st.sampled_from([2, 1, 3, 2, 4]), sweeps=st.sampled_from([0, 1]), offset=st.sampled_from([0, 0, 1, 3]),
             proj=st.sampled_from(["half-system", "full-system"]), svd=st.sampled_from(["full-rank", "rsvd"]), dtype=dtypes_mostly_double, seed=seeds)


def run_converged(c):
    """After convergence of the boundary: positive, and one-site states are the marginals of the two-site states."""
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    dt, cplx = c["dtype"], n.is_c(c["dtype"])
    d, D = c["d"], c["D"]
    net = n.make(c["nx"], c["ny"], d, D, c["chi"], dt, ctmrg={"steps": 14, "projectors": c["proj"], "svd_type": c["svd"]})
    n.set_A(net, n.gapped_state(r, c["nx"], c["ny"], d, D, c["eps"] / 100, cplx), dt)
    net.renormalize()
    sr, br = n.measured_rhos(net, dt, d)
    tol = 3e-5
    for what, m in list(sr.items()) + list(br.items()):
        check(abs(np.trace(m) - 1) <= tol, "trace of %s is %s", what, np.trace(m))
        check(np.abs(m - m.conj().T).max() <= tol, "%s not Hermitian", what)
        check(np.linalg.eigvalsh((m + m.conj().T) / 2)[0] >= -tol, "%s not positive", what)
    for (s1, s2, k), m in br.items():
        m = m.reshape(d, d, d, d)
        e1 = np.abs(np.einsum("pqPq->pP", m) - sr[s1]).max()
        e2 = np.abs(np.einsum("pqpQ->qQ", m) - sr[s2]).max()
        check(max(e1, e2) <= tol, "bond %s-%s k=%d: marginals differ from the one-site states by %.2e, %.2e", s1, s2, k, e1, e2)
    return ["dtype=" + dt, c["proj"], c["svd"], "cell=%dx%d" % (c["nx"], c["ny"])]


conv_case = case(nx=st.integers(1, 3), ny=st.integers(1, 3), d=st.integers(2, 3), D=st.just(2), chi=st.sampled_from([10, 14]), eps=st.integers(5, 20),
                 proj=st.sampled_from(["half-system", "full-system"]), svd=st.sampled_from(["full-rank", "rsvd"]),
                 dtype=double, seed=seeds).filter(lambda c: c["nx"] * c["ny"] * c["d"]**4 <= 330)

LEGS = [Leg("contraction", contract, run_contract, 240, 6000), Leg("rdm", rdm_case, run_rdm, 400, 8000),
        Leg("fresh", fresh, run_fresh, 400, 10000), Leg("converged", conv_case, run_converged, 64, 2000)]
