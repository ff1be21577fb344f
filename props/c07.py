"""C07: observables do not depend on the gauge or the local basis."""
from vlib.core import Leg, Violation, check
from vlib.strat import st, seeds, double, case
from vlib import net as n
import numpy as np
import torch

RULE = ("random networks before and after (a) unitary gauges on the bonds, factors of any phase and size on the sites and rotations of every "
        "site's basis together with the operators, without convergence and with strong truncation (exact relation for full-rank SVDs), and "
        "(b) general invertible gauges on converged networks of short correlation length. All one- and two-site states and an energy are "
        "compared. Non-trivial: bond dimension above 1.")
ASSUMPTIONS = ["cases whose result changes by 1e-8 under a relative perturbation of 1e-13 (truncation inside a multiplet, cancelling environments) are not judged", "general gauges: condition number at most 5 per bond, converged networks",
               "rsvd with 4 power iterations and oversampling 40 for general gauges: with the default 2 and 2 the inaccurate smallest singular "
               "vectors are amplified by the inverse singular values, and badly gauged states are not reproduced"]


def gauged(r, A, nx, ny, D, cplx, strength, env=None, uniform=False):
    """A different g on every bond (or one for each direction); env: site -> (C, E), whose edges are changed alike."""
    A = {s: a.copy() for s, a in A.items()}
    env = {s: (C, list(E)) for s, (C, E) in env.items()} if env else None
    rand = lambda: n.unitary(r, D, cplx) @ np.diag(np.exp(strength * r.uniform(-1, 1, D))) @ n.unitary(r, D, cplx)
    one = {2: rand(), 1: rand()}

    def leg(s, k, m):
        """Leg k of site s is contracted with the first index of m, its environment with the first index of m^-T."""
        A[s] = np.moveaxis(np.tensordot(m, A[s], (0, k)), 0, k)
        if env:
            w = np.linalg.inv(m).T
            E = env[s][1]
            e = (k + 3) % 4
            E[e] = np.einsum("abxX,xy,XY->abyY", E[e], w, w.conj())
    for (x, y) in n.sites(nx, ny):
        for k, t in ((2, ((x + 1) % nx, y)), (1, (x, (y + 1) % ny))):
            g = one[k] if uniform else rand()
            leg((x, y), k, g)
            leg(t, (k + 2) % 4, np.linalg.inv(g).T)
    return A if env is None else (A, env)


def rotated(r, A, d, cplx):
    V = {s: n.unitary(r, d, cplx) for s in A}
    return {s: np.einsum("lurdp,qp->lurdq", a, V[s]) for s, a in A.items()}, V


def scaled(r, A, cplx, size):
    f = {}
    for s in A:
        z = 10.0 ** r.uniform(-size, size)
        f[s] = z * (np.exp(2j * np.pi * r.random()) if cplx else r.choice([-1, 1]))
    return {s: a * f[s] for s, a in A.items()}


def rescale_boundary(r, net, cplx, dt):
    for s in net.site_list:
        for part in ("C", "E"):
            for i in range(4):
                z = 10.0 ** r.uniform(-1, 1) * (np.exp(2j * np.pi * r.random()) if cplx else r.choice([-1, 1]))
                net[s][part][i] = net[s][part][i] * (complex(z) if cplx else float(z))


def measure(c, A, ctm, dt, d, V=None, H=None, env=None, escale=None):
    torch.manual_seed(c["seed"] % 1000)
    net = n.make(c["nx"], c["ny"], d, c["D"], c["chi"], dt, ctmrg=ctm)
    n.set_A(net, A, dt)
    for s in env or {}:
        n.set_env(net, s, *env[s], dt)
    if escale is not None:
        rescale_boundary(escale, net, n.is_c(dt), dt)
    net.renormalize()
    if escale is not None:
        rescale_boundary(escale, net, n.is_c(dt), dt)
    rhos = n.measured_rhos(net, dt, d)
    if H is None:
        return rhos, None
    B = {tuple(b): H[tuple(b)] for b in net.bond_list}
    if V is not None:
        B = {b: (w := np.kron(V[b[0]], V[b[1]])) @ h @ w.conj().T for b, h in B.items()}
    return rhos, complex(net.measure(n.FreeModel(dt, d, two=lambda b: B[tuple(b)]))["Energy"]).real


def compare(a, b, V, tol, what):
    for s, rho in a[0].items():
        want = V[s] @ rho @ V[s].conj().T if V else rho
        e = np.abs(b[0][s] - want).max()
        check(e <= tol, "%s changes the state of site %s by %.1e", what, s, e)
    for k, rho in a[1].items():
        w = np.kron(V[k[0]], V[k[1]]) if V else np.eye(len(rho))
        e = np.abs(b[1][k] - w @ rho @ w.conj().T).max()
        check(e <= tol, "%s changes the state of bond %s by %.1e", what, k, e)


def run_exact(c):
    """Relations that hold after every sweep, whatever is truncated."""
    r = n.gen(c["seed"])
    nx, ny, d, D, dt = c["nx"], c["ny"], c["d"], c["D"], c["dtype"]
    cplx = n.is_c(dt)
    A = {s: n.nrm(n.randn(r, (D, D, D, D, d), cplx) + c["bias"] * r.random((D, D, D, D, d))) for s in n.sites(nx, ny)}
    ctm = {"steps": c["sweeps"], "svd_type": "full-rank", "projectors": c["proj"]}
    H = {(s1, s2, k): n.herm(r, d * d, cplx) for s1, s2, k in [tuple(b) for b in n.make(nx, ny, d, 1, 1, dt).bond_list]}
    env = None
    if c["env"]:
        ref = n.random_psd_network(r, nx, ny, d, D, c["env"], 2, cplx)
        env = {s: (C, E) for s, (_, C, E) in ref.items()}
    env0 = env
    a, ea = measure(c, A, ctm, dt, d, H=H, env=env)
    B, V = A, None
    if c["gauge"] and env:
        B, env = gauged(r, B, nx, ny, D, cplx, 0.0, env)
    elif c["gauge"]:
        # the default boundary closes every site with its own legs: it follows gauges which are equal on parallel bonds
        B = gauged(r, B, nx, ny, D, cplx, 0.0, uniform=True)
    if c["scale"]:
        B = scaled(r, B, cplx, c["scale"])
    if c["rotate"]:
        B, V = rotated(r, B, d, cplx)
    b, eb = measure(c, B, ctm, dt, d, V, H, env, r if c["escale"] else None)
    tol = 1e-6
    what = "+".join(k for k in ("gauge", "scale", "rotate", "escale") if c[k]) or "repeating"
    try:
        compare(a, b, V, tol, what)
        check(abs(ea - eb) <= 10 * tol * (1 + abs(ea)), "%s changes the energy from %.9f to %.9f", what, ea, eb)
    except Violation:
        # coinciding singular values at the truncation, or cancelling environments, make the result depend on rounding: not decidable
        p = {s: x * (1 + 1e-13 * r.standard_normal(x.shape)) for s, x in A.items()}
        q, _ = measure(c, p, ctm, dt, d, env=env0)
        if max(np.abs(q[i][k] - a[i][k]).max() for i in (0, 1) for k in a[i]) > 1e-8:
            return None
        raise
    if D > 1:
        return [what, c["proj"], "D=%d" % D, "cell=%dx%d" % (nx, ny), dt, "boundary=%d" % c["env"], "truncated" if c["chi"] < D ** 4 else "complete"]


exact = case(nx=st.integers(1, 3), ny=st.integers(1, 3), d=st.integers(1, 3), D=st.integers(1, 3), chi=st.sampled_from([4, 3, 6, 2, 9]), sweeps=st.integers(1, 3),
             bias=st.sampled_from([2.0, 0.5, 0.0]), gauge=st.booleans(), scale=st.sampled_from([0, 1, 3]), escale=st.booleans(), rotate=st.booleans(), env=st.integers(0, 2),
             proj=st.sampled_from(["half-system", "full-system"]), dtype=double, seed=seeds)


def run_converged(c):
    r = n.gen(c["seed"])
    nx, ny, d, D, dt = c["nx"], c["ny"], 2, c["D"], c["dtype"]
    cplx = n.is_c(dt)
    A = n.gapped_state(r, nx, ny, d, D, c["eps"] / 100, cplx)
    ctm = {"steps": 12, "svd_type": c["svd"], "projectors": c["proj"], "rsvd_niter": 4, "rsvd_oversampling": 40, "svd_cutoff": 1e-8}
    a, _ = measure(c, A, ctm, dt, d)
    B = gauged(r, A, nx, ny, D, cplx, c["strength"])
    B = scaled(r, B, cplx, 1)
    B, V = rotated(r, B, d, cplx)
    b, _ = measure(c, B, ctm, dt, d, V)
    tol = 2e-3 if c["svd"] == "rsvd" else 3e-4
    compare(a, b, V, tol, "a gauge")
    if D > 1:
        return [c["proj"], c["svd"], "D=%d" % D, "cell=%dx%d" % (nx, ny), dt, "strength=%s" % c["strength"]]


conv = case(nx=st.integers(1, 3), ny=st.integers(1, 3), D=st.integers(1, 3), chi=st.sampled_from([12, 16]), eps=st.integers(5, 18), strength=st.sampled_from([0.5, 0.8, 0.2]),
            svd=st.sampled_from(["full-rank", "rsvd"]), proj=st.sampled_from(["half-system", "full-system"]), dtype=double, seed=seeds)

LEGS = [Leg("exact", exact, run_exact, 200, 8000), Leg("converged", conv, run_converged, 64, 2000)]
