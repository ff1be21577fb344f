"""C14: the simple update is the standard lambda-weighted algorithm."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, case
from vlib import net as n
import numpy as np
import scipy.linalg
import torch

RULE = ("random states and site/bond dependent Hamiltonians, one to three steps in one or two calls of evolve(); a Gamma-lambda reference "
        "in numpy follows the same bond order; both are compared through the state vector of the finite torus, which no gauge can "
        "change. Non-trivial: bond dimension above one, a truncation gap of at least 1e-8 and weights of at least 1e-9 throughout (1e-2 in single precision).")
ASSUMPTIONS = ["bonds are visited in the network's order, reversed after every step", "cells of at least two sites per direction, as a bond needs two different sites"]


def reference(A, order, nx, ny, D, d, gate, steps):
    """Gamma-lambda simple update; returns site tensors including half of every weight, smallest weight and gap."""
    G = {s: a.copy() for s, a in A.items()}
    lam = {}
    for s in G:
        for k in (1, 2):
            lam[s, k] = np.ones(D)
    key = {}
    for (x, y) in G:
        key[x, y, 2], key[x, y, 1] = ((x, y), 2), ((x, y), 1)
        key[x, y, 0], key[x, y, 3] = (((x - 1) % nx, y), 2), ((x, (y - 1) % ny), 1)

    def scaled(t, s, legs, power):
        for k in legs:
            t = np.moveaxis(np.moveaxis(t, k, -1) * lam[key[s + (k,)]]**power, -1, k)
        return t
    worst_gap, worst_lam = 1.0, 1.0
    for i in range(steps):
        for s1, s2, k in order:
            k2 = (k + 2) % 4
            o1, o2 = [q for q in range(4) if q != k], [q for q in range(4) if q != k2]
            t1 = scaled(G[s1], s1, range(4), 1.0)                       # one end carries the weight of the bond
            t2 = scaled(G[s2], s2, o2, 1.0)
            th = np.tensordot(np.moveaxis(t1, k, -1), np.moveaxis(t2, k2, 0), (-1, 0))       # o1.., p, o2.., q
            th = np.moveaxis(th, 3, 6)                                   # o1, o2, p, q
            sh = th.shape
            th = (th.reshape(-1, d * d) @ gate[s1, s2, k].T).reshape(sh)
            th = np.moveaxis(th, 6, 3).reshape(D**3 * d, D**3 * d)
            u, sv, v = np.linalg.svd(th)
            keep = min(D, len(sv))
            sn = sv[:keep] / np.linalg.norm(sv[:keep])
            if len(sv) > D:
                worst_gap = min(worst_gap, (sv[D - 1] - sv[D]) / sv[0])
            worst_lam = min(worst_lam, sn[-1])
            lam[key[s1 + (k,)]] = np.concatenate([sn, np.zeros(D - keep)])
            t1 = u[:, :keep].reshape(D, D, D, d, keep).transpose(0, 1, 2, 4, 3)              # o1, bond, p
            t1 = np.moveaxis(t1, 3, k)
            t2 = v[:keep].reshape(keep, D, D, D, d)
            t2 = np.moveaxis(t2, 0, k2)
            G[s1] = scaled(t1, s1, o1, -1.0)
            G[s2] = scaled(t2, s2, o2, -1.0)
            for s in (s1, s2):
                G[s] = G[s] / np.linalg.norm(G[s])
        order = order[::-1]
    return {s: scaled(G[s], s, range(4), 0.5) for s in G}, order, worst_lam, worst_gap


def run(c):
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    nx, ny, d, D, dt = c["nx"], c["ny"], c["d"], c["D"], c["dtype"]
    if nx * ny > 4:
        D = min(D, 2)
    if nx * ny > 6:
        d = 2
    cplx = n.is_c(dt)
    net = n.make(nx, ny, d, D, 2, dt, ctmrg={"steps": 1}, evolution={"update_type": "simple"})
    net.config.ctmrg.svd_cutoff = 1e-5 if n.is_single(dt) else 1e-12
    A = {}
    for s in n.sites(nx, ny):
        A[s] = n.nrm(n.randn(r, (D,) * 4 + (d,), cplx))
        if c["weak"]:
            # close to a product state: small weights
            A[s] *= c["weak"]
            A[s][0, 0, 0, 0] += n.nrm(n.randn(r, (d,), cplx))
    n.set_A(net, A, dt)
    A = n.get_A(net)
    uniform = c["uniform"]
    h0, f0 = n.herm(r, d * d, cplx), n.herm(r, d, cplx)
    H = {tuple(b): h0 if uniform else n.herm(r, d * d, cplx) for b in sorted(net.bond_list, key=tuple)}
    F = {s: f0 if uniform else n.herm(r, d, cplx) for s in n.sites(nx, ny)}
    model = n.FreeModel(dt, d, two=lambda b: H[tuple(b)], one=(lambda s: F[tuple(s)]) if c["fields"] else None)
    I = np.eye(d)
    gap = lam = 1.0
    order = [tuple(b) for b in net.bond_list]
    for steps, dtau in c["calls"]:
        gate = {b: scipy.linalg.expm(-dtau * (H[b] + (0.25 * (np.kron(F[b[0]], I) + np.kron(I, F[b[1]])) if c["fields"] else 0))) for b in H}
        A, order, l, g = reference(A, order, nx, ny, D, d, gate, steps)
        lam, gap = min(lam, l), min(gap, g)
        net.evolve(dtau=dtau, steps=steps, model=model)
    if lam < (1e-2 if n.is_single(dt) else 1e-9) or gap < (1e-2 if n.is_single(dt) else 1e-8):
        return None
    got = n.get_A(net)
    for s in got:
        check(np.all(np.isfinite(got[s])), "the tensor of site %s is not finite", s)
    x, y = n.torus_state(A, nx, ny), n.torus_state(got, nx, ny)
    contrast = np.linalg.norm(x) / np.prod([np.linalg.norm(a) for a in A.values()])
    e = n.ray_dist(x, y)
    tol = (5e-4 + 1e-5 / gap / lam + 1e-5 / max(contrast, 1e-9)) if n.is_single(dt) else 1e-9 + 3e-11 / gap + 3e-11 / max(contrast, 1e-9)
    check(e <= max(tol, 1e-9), "torus state differs from the reference by %.2e (smallest weight %.1e, gap %.1e)", e, lam, gap)
    if D > 1:
        return ["cell=%dx%d" % (nx, ny), "D=%d" % D, "d=%d" % d, "steps=%d" % sum(s for s, _ in c["calls"]), "calls=%d" % len(c["calls"]), "weak" if c["weak"] else "random", "weight 1e%d" % np.floor(np.log10(lam)), "fields" if c["fields"] else "nofields", dt]


cell = st.sampled_from([2, 3, 2, 4])
cases = case(nx=cell, ny=st.sampled_from([2, 3, 2, 3, 4]), d=st.sampled_from([2, 2, 3]), D=st.sampled_from([2, 3, 2, 1, 2, 3, 4]), weak=st.sampled_from([0, 0.1, 0, 0.01, 0.003, 1e-4]), uniform=st.booleans(), fields=st.booleans(),
             calls=st.lists(st.tuples(st.integers(1, 3), st.sampled_from([0.05, 0.2, 0.6, 0.003])), min_size=1, max_size=2), dtype=dtypes_mostly_double, seed=seeds)

LEGS = [Leg("reference", cases, run, 400, 6000)]
