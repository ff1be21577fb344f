"""C03: converged CTMRG gives the exact values of the infinite lattice."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, case
from vlib import net as n
import numpy as np
import torch

RULE = ("four families of networks whose infinite-lattice values are computed independently: product states and random dimer "
        "coverings, decoupled random matrix-product rows, columns and staircases (transfer matrices), and Ising PEPS with an "
        "independent random coupling on every bond of the cell (Kac-Ward determinant over the Brillouin zone); all with random "
        "gauges on the bonds and random local bases. Non-trivial: the reference converged (transfer-matrix gap, coupling "
        "strength) and the state is not a plain product.")
ASSUMPTIONS = ["transfer matrices with second eigenvalue ratio at most 0.5, Ising couplings at most 0.33 (correlation length below 3 sites)",
               "single precision uses svd_cutoff=1e-5"]


def ctm(c, steps):
    return {"steps": steps, "projectors": c["proj"], "svd_type": c["svd"], "svd_cutoff": 1e-5 if n.is_single(c["dtype"]) else 1e-12}


def gauge(r, A, nx, ny, D, cplx, strength):
    """Insert g, g^-1 on every bond."""
    A = {s: a.copy() for s, a in A.items()}
    for (x, y) in n.sites(nx, ny):
        for k, t in ((2, ((x + 1) % nx, y)), (1, (x, (y + 1) % ny))):
            g = n.unitary(r, D, cplx) @ np.diag(np.exp(strength * r.uniform(-1, 1, D))) @ n.unitary(r, D, cplx)
            A[x, y] = np.moveaxis(np.tensordot(g, A[x, y], (0, k)), 0, k)
            A[t] = np.moveaxis(np.tensordot(np.linalg.inv(g), A[t], (1, (k + 2) % 4)), 0, (k + 2) % 4)
    return {s: n.nrm(a) for s, a in A.items()}


def compare(c, net, site_ref, bond_ref, tol):
    sr, br = n.measured_rhos(net, c["dtype"], net.dims["phys"])
    for s, e in site_ref.items():
        d = np.abs(sr[s] - e).max()
        check(d <= tol, "state of site %s is off by %.2e (tolerance %.0e)", s, d, tol)
    for b, e in bond_ref.items():
        d = np.abs(br[b] - e).max()
        check(d <= tol, "state of bond %s is off by %.2e (tolerance %.0e)", b, d, tol)


def setup(c, D, chi, steps, d=2):
    torch.manual_seed(c["seed"] % 1000)
    return n.gen(c["seed"]), n.is_c(c["dtype"]), n.make(c["nx"], c["ny"], d, D, chi, c["dtype"], ctmrg=ctm(c, steps))


def proj(v):
    v = n.nrm(np.asarray(v).ravel())
    return np.outer(v, v.conj())


# ---------------------------------------------------------------- dimers

def run_dimers(c):
    nx, ny, d, D = c["nx"], c["ny"], c["d"], c["D"]
    r, cplx, net = setup(c, D, max(D * D, 4), 3 + max(nx, ny), d)
    free = set(n.sites(nx, ny))
    bonds = [tuple(b) for b in net.bond_list]
    pairs = []
    for i in r.permutation(len(bonds)):
        s1, s2, k = bonds[i]
        if D > 1 and len(pairs) < c["pairs"] and s1 in free and s2 in free and s1 != s2:
            free -= {s1, s2}
            pairs.append(bonds[i])
    A, one, two = {}, {}, {}
    for s in n.sites(nx, ny):
        v = n.nrm(n.randn(r, (d,), cplx))
        A[s] = np.zeros((D,) * 4 + (d,), complex)
        A[s][0, 0, 0, 0] = v
        one[s] = proj(v)
    for s1, s2, k in pairs:
        m = [n.randn(r, (D, d), cplx) for _ in range(2)]
        for s, leg, x in ((s1, k, m[0]), (s2, (k + 2) % 4, m[1])):
            a = np.zeros((D,) * 4 + (d,), complex)
            a = np.moveaxis(a, leg, 0)
            a[:, 0, 0, 0, :] = x
            A[s] = np.moveaxis(a, 0, leg)
        psi = n.nrm(m[0].T @ m[1])
        one[s1], one[s2] = psi @ psi.conj().T, psi.T @ psi.conj()
        two[s1, s2, k] = proj(psi)
    for s1, s2, k in bonds:
        if (s1, s2, k) not in two and s1 != s2:
            if any({s1, s2} == {p[0], p[1]} for p in pairs):
                # the same two sites in another direction: different copies of the cell
                pass
            two[s1, s2, k] = np.kron(one[s1], one[s2])
    A = gauge(r, {s: n.nrm(a) for s, a in A.items()}, nx, ny, D, cplx, 0.3)
    n.set_A(net, A, c["dtype"])
    net.renormalize()
    compare(c, net, one, two, 2e-4 if n.is_single(c["dtype"]) else 1e-7)
    if pairs or nx * ny > 1:
        return ["pairs=%d" % len(pairs), "cell=%dx%d" % (nx, ny), c["proj"], c["svd"], c["dtype"]]


# ---------------------------------------------------------------- chains

def chain_rhos(M):
    """One-site and neighbour density matrices of the infinite periodic MPS with tensors M[i][a, p, b]."""
    L = len(M)
    D = M[0].shape[0]
    tm = [np.einsum("apb,ApB->aAbB", m, m.conj()).reshape(D * D, D * D) for m in M]

    def fixed(k):
        t = np.eye(D * D)
        for i in range(L):
            t = t @ tm[(k + i) % L]
        w, v = np.linalg.eig(t)
        o = np.argsort(-abs(w))
        ratio = abs(w[o[1]] / w[o[0]]) if len(w) > 1 else 0.0
        wl, vl = np.linalg.eig(t.T)
        return v[:, o[0]].reshape(D, D), vl[:, np.argmax(abs(wl))].reshape(D, D), ratio
    one, two = [], []
    ratio = 0
    for k in range(L):
        left = fixed(k)[1]
        right1, right2 = fixed((k + 1) % L)[0], fixed((k + 2) % L)[0]
        ratio = max(ratio, fixed(k)[2])
        m1, m2 = M[k], M[(k + 1) % L]
        x = np.einsum("aA,apb,AqB,bB->pq", left, m1, m1.conj(), right1)
        one.append(x / np.trace(x))
        x = np.einsum("aA,apb,bqc,APB,BQC,cC->pqPQ", left, m1, m2, m1.conj(), m2.conj(), right2, optimize="greedy")
        d = m1.shape[1]
        x = x.reshape(d * d, d * d)
        two.append(x / np.trace(x))
    return one, two, ratio


def run_chain(c):
    """All sites belong to chains: rows, columns or staircases."""
    nx, ny, d, D, kind = c["nx"], c["ny"], c["d"], c["D"], c["kind"]
    if kind.startswith("stair"):
        nx, ny = nx + nx % 2, ny + ny % 2
        c = {**c, "nx": nx, "ny": ny}
    r, cplx, net = setup(c, D, D * D + 2, 1, d)
    # next site of a chain and the leg used: out leg of the site, in leg is the opposite
    def out(s):
        x, y = s
        if kind == "rows":
            k = 2
        elif kind == "columns":
            k = 1
        else:
            # alternate between two perpendicular directions
            k = {"stair0": (2, 1), "stair1": (1, 0), "stair2": (0, 3), "stair3": (3, 2)}[kind][(x + y) % 2]
        dx, dy = n.DIRS[k]
        return k, ((x + dx) % nx, (y + dy) % ny)
    todo, A, one, two = set(n.sites(nx, ny)), {}, {}, {}
    worst = 0
    inleg = {out(s)[1]: (out(s)[0] + 2) % 4 for s in todo}
    while todo:
        s0 = min(todo)
        chain = [s0]
        while out(chain[-1])[1] != s0:
            chain.append(out(chain[-1])[1])
        M = [n.randn(r, (D, d, D), cplx) for _ in chain]
        o, t, ratio = chain_rhos(M)
        worst = max(worst, ratio)
        for i, s in enumerate(chain):
            k, nxt = out(s)
            a = np.zeros((D,) * 4 + (d,), complex)
            a = np.moveaxis(a, (inleg[s], k), (0, 1))
            a[:, :, 0, 0, :] = M[i].transpose(0, 2, 1)
            A[s] = np.moveaxis(a, (0, 1), (inleg[s], k))
            one[s] = o[i]
            if k in (1, 2):
                two[s, nxt, k] = t[i]
            else:
                two[nxt, s, (k + 2) % 4] = t[i].reshape(d, d, d, d).transpose(1, 0, 3, 2).reshape(d * d, d * d)
        todo -= set(chain)
    if worst > 0.5:
        return None
    onchain = set(two)
    for b in net.bond_list:
        if tuple(b) not in two:
            # different chains (staircases may meet themselves far away, which is only correlated below the gap)
            if kind in ("rows", "columns"):
                two[tuple(b)] = np.kron(one[b.s1], one[b.s2])
    net.config.ctmrg.steps = 14 if worst < 0.3 else 24
    if c["gauge"]:
        A = gauge(r, A, nx, ny, D, cplx, 0.2)
    n.set_A(net, A, c["dtype"])
    net.renormalize()
    compare(c, net, one, two, 3e-3 if n.is_single(c["dtype"]) else 1e-5)
    return [kind, "cell=%dx%d" % (nx, ny), "D=%d" % D, c["proj"], c["svd"], c["dtype"]]


# ---------------------------------------------------------------- Ising PEPS

def kac_ward(nx, ny, K, size=60):
    """<s_i s_j> for every bond of the infinite periodic Ising model with couplings K[(x, y, k)], k in (1, 2)."""
    edges = []      # directed edges: (source, direction)
    idx = {}
    for x, y in n.sites(nx, ny):
        for k in range(4):
            idx[x, y, k] = len(edges)
            edges.append((x, y, k))
    m = len(edges)
    t = np.zeros(m)
    coup = []
    for i, (x, y, k) in enumerate(edges):
        dx, dy = n.DIRS[k]
        key = (x, y, k) if k in (1, 2) else ((x + dx) % nx, (y + dy) % ny, (k + 2) % 4)
        coup.append(key)
        t[i] = np.tanh(K[key])
    gx, gy = -(-size // nx), -(-size // ny)
    a, b = np.meshgrid(2 * np.pi * (np.arange(gx) + 0.5) / gx, 2 * np.pi * (np.arange(gy) + 0.5) / gy)
    a, b = a.ravel(), b.ravel()
    W = np.zeros((len(a), m, m), complex)
    for i, (x, y, k) in enumerate(edges):
        dx, dy = n.DIRS[k]
        X, Y = x + dx, y + dy
        ph = np.exp(1j * (a * (X // nx) + b * (Y // ny)))
        for k2 in range(4):
            if k2 != (k + 2) % 4:
                turn = {0: 0.0, 1: -1.0, 3: 1.0}[(k2 - k) % 4]     # quarter turns
                W[:, i, idx[X % nx, Y % ny, k2]] = t[i] * ph * np.exp(1j * np.pi / 4 * turn)
    G = np.linalg.inv(np.eye(m) - W)
    # d/dK ln det(1 - W) = -tr[G dW], dW scales row i by (1 - t^2) / t
    acc = np.real(-np.einsum("gij,gji->gi", W / np.where(t == 0, 1, t)[None, :, None], G) * (1 - t * t)).mean(axis=0)
    res = {}
    for key in K:
        res[key] = np.tanh(K[key]) + 0.5 * sum(acc[i] for i in range(m) if coup[i] == key)
    return res


def run_ising(c):
    nx, ny = c["nx"], c["ny"]
    if n.is_single(c["dtype"]):
        c = {**c, "proj": "half-system"}    # full-system spectra of weak couplings fall below the single precision cutoff
    r, cplx, net = setup(c, 2, c["chi"], 16 if max(nx, ny) > 1 else 24)
    kmax = 0.33
    K = {}
    for x, y in n.sites(nx, ny):
        for k in (1, 2):
            K[x, y, k] = float(r.uniform(-kmax, kmax))
    if c["mode"] == "uniform":
        a, b = r.uniform(-kmax, kmax, 2)
        K = {q: float(a if q[2] == 1 else b) for q in K}
    ref = kac_ward(nx, ny, K)
    s = np.array([1.0, -1.0])
    X = {}
    for (x, y, k), kk in K.items():
        u, w, v = np.linalg.svd(np.exp(kk / 2 * np.outer(s, s)))
        g = n.unitary(r, 2, cplx) @ np.diag(np.exp(r.uniform(-0.2, 0.2, 2)))
        f = (u * np.sqrt(w)) @ g                                     # [s, i]
        h = np.linalg.inv(g) @ (np.sqrt(w)[:, None] * v)             # [i, s']
        X[x, y, k] = f.T
        dx, dy = n.DIRS[k]
        X[(x + dx) % nx, (y + dy) % ny, k + 2 if k < 2 else 0] = h
    rot = {q: n.unitary(r, 2, cplx) for q in n.sites(nx, ny)}
    A = {q: n.ein("lp,up,rp,dp,qp->lurdq", X[q + (0,)], X[q + (1,)], X[q + (2,)], X[q + (3,)], rot[q]) for q in n.sites(nx, ny)}
    n.set_A(net, {q: n.nrm(a) for q, a in A.items()}, c["dtype"])
    net.renormalize()
    sr, br = n.measured_rhos(net, c["dtype"], 2)
    tol = 2e-3 if n.is_single(c["dtype"]) else 2e-5
    Z = {q: rot[q] @ np.diag(s) @ rot[q].conj().T for q in rot}
    for q in sr:
        m = np.trace(sr[q] @ Z[q]).real
        check(abs(m) <= tol, "magnetization %.2e of site %s in the disordered phase", m, q)
    for (s1, s2, k), rho in br.items():
        e = np.trace(rho @ np.kron(Z[s1], Z[s2])).real
        check(abs(e - ref[s1 + (k,)]) <= tol, "correlation on bond %s is %.8f instead of %.8f", (s1, s2, k), e, ref[s1 + (k,)])
    return [c["mode"], "cell=%dx%d" % (nx, ny), c["proj"], c["svd"], c["dtype"]]


cell = st.sampled_from([2, 1, 3, 2, 4])
opts = dict(dtype=dtypes_mostly_double, proj=st.sampled_from(["half-system", "full-system"]), svd=st.sampled_from(["rsvd", "full-rank"]), seed=seeds)
dimers = case(nx=cell, ny=cell, d=st.integers(2, 3), D=st.integers(1, 3), pairs=st.integers(0, 4), **opts)
chains = case(nx=cell, ny=cell, d=st.integers(2, 3), D=st.integers(2, 3), kind=st.sampled_from(["rows", "columns", "stair0", "stair1", "stair2", "stair3"]), gauge=st.booleans(), **opts)
ising = case(nx=st.sampled_from([2, 1, 3]), ny=st.sampled_from([2, 1, 3]), chi=st.sampled_from([10, 12]), mode=st.sampled_from(["random", "random", "uniform"]), **opts)

LEGS = [Leg("dimers", dimers, run_dimers, 110, 4000), Leg("chains", chains, run_chain, 130, 4000), Leg("ising", ising, run_ising, 48, 1500)]
