"""C16: the randomized SVDs return valid, near-optimal factorizations."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, case
from vlib import net as n
import numpy as np
import torch
from acetn.linalg import svd_lowrank, fused_matmul_svd_lowrank, fused_3matmul_svd_lowrank

RULE = ("matrices or chains of 2 or 4 matrices of random shape, rank, spectral decay, scale and memory layout; the factorization is "
        "checked against dense numpy algebra. Non-trivial: the product has rank at least 2 and both dimensions are at least 2.")
ASSUMPTIONS = ["near-optimality outside the exact case: factor 4 (two or more power iterations) or 12 (one) above the best error of rank q-2"]
FUN = {1: svd_lowrank, 2: fused_matmul_svd_lowrank, 4: fused_3matmul_svd_lowrank}


def factor(r, m, k, rank, decay, cplx):
    q = min(rank, m, k)
    u, v = n.unitary(r, m, cplx)[:, :q], n.unitary(r, k, cplx)[:, :q]
    return (u * (10.0 ** (-decay * np.arange(q)))) @ v.conj().T


def run(c):
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    dt, cplx, L = c["dtype"], n.is_c(c["dtype"]), c["chain"]
    single = n.is_single(dt)
    eps = n.eps_of(dt)
    dims = c["dims"][:L + 1]
    mats = [factor(r, dims[i], dims[i + 1], c["ranks"][i], c["decay"], cplx) * 10.0 ** c["scale"] for i in range(L)]
    ts = []
    for M in mats:
        t = n.T(M, dt)
        if c["layout"] == "transposed":
            t = t.mT.contiguous().mT
        elif c["layout"] == "strided":
            b = torch.zeros(t.shape[0] * 2, t.shape[1] * 2, dtype=t.dtype)
            b[::2, ::2] = t
            t = b[::2, ::2]
        elif c["layout"] == "conj" and cplx:
            t = t.conj().resolve_conj().conj()
        ts.append(t)
    mats = [n.N(t.resolve_conj()) for t in ts]
    before = [m.copy() for m in mats]
    M = mats[0]
    for B in mats[1:]:
        M = M @ B
    U, S, V = FUN[L](*ts, q=c["q"], niter=c["niter"])
    for t, b in zip(ts, before):
        check(np.array_equal(n.N(t.resolve_conj()), b), "an input matrix was modified")
    check(U.dtype == V.dtype == n.TD[dt] and not S.is_complex(), "data types %s %s %s", U.dtype, S.dtype, V.dtype)
    U, S, V = n.N(U), n.N(S).real, n.N(V)
    q = min(c["q"], *M.shape)
    check(U.shape == (M.shape[0], q) and S.shape == (q,) and V.shape == (M.shape[1], q), "shapes %s %s %s for a %s matrix and q=%d", U.shape, S.shape, V.shape, M.shape, c["q"])
    to = 200 * eps
    check(np.abs(U.conj().T @ U - np.eye(q)).max() <= to, "columns of U are not orthonormal")
    check(np.abs(V.conj().T @ V - np.eye(q)).max() <= to, "columns of V are not orthonormal")
    check(np.all(S >= 0) and np.all(np.diff(S) <= 0), "singular values not non-negative and decreasing: %s", S)
    sig = np.linalg.svd(M, compute_uv=False)
    scale = np.prod([np.linalg.norm(x, 2) for x in mats])
    if scale == 0 or sig[0] == 0:
        return None
    noise = 300 * eps * scale
    check(np.all(S <= sig[:q] + noise), "singular values above the true ones: %s > %s", S, sig[:q])
    R = U * S @ V.conj().T
    check(np.abs(U.conj().T @ M - S[:, None] * V.conj().T).max() <= noise, "U S V^H is not the projection of the product")
    err = np.linalg.norm(M - R)
    rank = int((sig > noise).sum())
    exact = rank <= q
    if exact:
        spread = sig[0] / sig[rank - 1] if rank else 1
        tol = noise if spread < 1e3 or c["niter"] == 0 else max(noise, 30 * np.sqrt(eps) * scale)
        tol = tol * (1 if q > rank or q == min(M.shape) else 50)
        if c["niter"] == 0 and q < min(M.shape):
            tol = max(tol, 1e4 * noise) * min(spread, 1e4)
        if sig[0] > 100 * noise:
            check(err <= tol, "rank %d fits q=%d but the product is missed by %.2e (norm %.2e)", rank, q, err, sig[0])
            if tol < 1e-3 * sig[rank - 1]:
                check(np.abs(S[:rank] - sig[:rank]).max() <= tol, "singular values %s, exact %s", S, sig[:q])
    elif q > 2 and c["niter"] >= 1:
        opt = np.linalg.norm(sig[q - 2:])
        b = 4 if c["niter"] >= 2 else 12
        check(err <= b * opt + noise, "error %.3e, best of rank q-2 is %.3e", err, opt)
    if rank >= 2 and min(M.shape) >= 2:
        return ["chain=%d" % L, "dtype=" + dt, "exact" if exact else "approximate", "layout=" + c["layout"], "niter=%d" % c["niter"], "shape=" + ("tall" if M.shape[0] > M.shape[1] else "wide")]


def run_power(c):
    """Spectrum 1,...,1,0.1,...,0.1: the leading subspace is found with the accuracy of the requested power iterations."""
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    dt, cplx, L, k = c["dtype"], n.is_c(c["dtype"]), c["chain"], c["k"]
    m, w = c["m"], c["w"]
    mid = [c["inner"]] * (L - 1)
    dims = [m] + mid + [w]
    us = [n.unitary(r, x, cplx)[:, :min(dims)] for x in dims]
    sig = np.array([1.0] * k + [0.1] * (min(dims) - k))
    mats = []
    for i in range(L):
        mats.append((us[i] * sig ** (1.0 / L)) @ us[i + 1].conj().T)
    U, S, V = FUN[L](*[n.T(x, dt) for x in mats], q=k + 4, niter=c["niter"])
    U = n.N(U)
    lead = us[0][:, :k]
    sin = np.linalg.norm(lead - U @ (U.conj().T @ lead), 2)
    bound = 300 * 0.1 ** (2 * c["niter"] + 1) + 300 * n.eps_of(dt)
    check(sin <= bound, "leading singular subspace missed by %.2e after %d power iterations", sin, c["niter"])
    return ["chain=%d" % L, "niter=%d" % c["niter"], "dtype=" + dt]


def run_tails(c):
    """Rank-one products whose entries decay towards the underflow threshold, as in the environments of product states."""
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    dt, cplx, L = c["dtype"], n.is_c(c["dtype"]), c["chain"]
    depth = -np.log10(np.finfo(np.float32 if n.is_single(dt) else np.float64).tiny) * 0.9
    dims = c["dims"][:L + 1]
    mats = []
    for i in range(L):
        u, v = n.randn(r, (dims[i],), cplx), n.randn(r, (dims[i + 1],), cplx)
        if i == 0:
            u = u * 10.0 ** -np.concatenate([[0], r.uniform(0, depth * c["tail"], dims[0] - 1)])
        mats.append(np.outer(n.nrm(u), n.nrm(v)))
    ts = [n.T(x, dt) for x in mats]
    M = mats[0]
    for B in mats[1:]:
        M = M @ B
    U, S, V = [n.N(t) for t in FUN[L](*ts, q=c["q"], niter=c["niter"])]
    check(all(np.isfinite(x).all() for x in (U, S, V)), "factors of a finite matrix are not finite")
    q, to = min(c["q"], *M.shape), 200 * n.eps_of(dt)
    check(np.abs(U.conj().T @ U - np.eye(q)).max() <= to and np.abs(V.conj().T @ V - np.eye(q)).max() <= to, "singular vectors are not orthonormal")
    check(np.abs(U * S @ V.conj().T - M).max() <= 10 * to, "the rank-one product is missed by %.2e", np.abs(U * S @ V.conj().T - M).max())
    if q > 1 and c["tail"] > 0.2:
        return ["chain=%d" % L, "dtype=" + dt]


power_case = case(chain=st.sampled_from([1, 2, 4]), k=st.integers(1, 4), m=st.sampled_from([24, 31, 16]), w=st.sampled_from([24, 29, 18]),
                  inner=st.sampled_from([24, 33]), niter=st.sampled_from([2, 3, 1]), dtype=dtypes_mostly_double, seed=seeds)

dim = st.sampled_from([1, 2, 3, 5, 8, 13, 20, 31])
cases = case(chain=st.sampled_from([1, 2, 4]), dims=st.lists(dim, min_size=5, max_size=5), ranks=st.lists(st.sampled_from([30, 30, 30, 8, 4, 2, 1]), min_size=4, max_size=4),
             decay=st.sampled_from([0.0, 0.05, 0.2, 0.5, 1.5]), scale=st.sampled_from([0, 0, 3, -3]), layout=st.sampled_from(["plain", "transposed", "strided", "conj"]),
             q=st.sampled_from([6, 4, 3, 8, 12, 2, 1, 40]), niter=st.sampled_from([2, 1, 3, 0]), dtype=dtypes_mostly_double, seed=seeds)

tails = case(chain=st.sampled_from([1, 2, 4]), dims=st.lists(st.sampled_from([3, 5, 8, 16]), min_size=5, max_size=5), tail=st.sampled_from([0.5, 0.4, 0.3, 0.1]),
             q=st.sampled_from([6, 4, 3, 8]), niter=st.sampled_from([2, 1]), dtype=st.sampled_from(["complex64", "complex128", "float64", "float32"]), seed=seeds)

LEGS = [Leg("factorization", cases, run, 5000, 150000), Leg("power", power_case, run_power, 800, 20000), Leg("tails", tails, run_tails, 600, 20000)]
