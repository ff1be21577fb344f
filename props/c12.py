"""C12: truncating full updates are optimal in the environment's metric."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, double, case
from vlib import net as n
import numpy as np
import scipy.linalg
import torch
from acetn.evolution.gate import Gate
from acetn.evolution.full_update import FullUpdater, build_norm_tensor

RULE = ("random pairs, gates and positive boundary tensors (well-conditioned, graded and of low rank), all solver options; the distance "
        "achieved is evaluated with an independent dense contraction of the surrounding tensors and compared with truncated SVDs, with an "
        "independent alternating least squares in numpy, and between options. Non-trivial: the gate times the pair does not fit the "
        "bond dimension (relative truncation error above 1e-10).")
ASSUMPTIONS = ["double precision for the comparison with the reference solver; single precision with als_epsilon=1e-6",
               "comparisons with other starting points allow a factor, as alternating least squares may end in different local minima"]


def reduced_problem(c, r):
    """Returns net, bond, N (hermitian positive, nD*nD), target a12g[(y p), (x q)], reduced shapes and Q factors."""
    nx, ny, d, D, dt = c["nx"], c["ny"], c["d"], c["D"], c["dtype"]
    cplx = n.is_c(dt)
    S = {"full": 4 * D * D, "low": 1 + D // 2, "mid": D * D}[c["env"]]
    ref = n.random_psd_network(r, nx, ny, d, D, c["m"], S, cplx)
    ctmrg = {"steps": 2}
    net = n.make(nx, ny, d, D, 8, dt, ctmrg=ctmrg, evolution={"use_gauge_fix": c["gauge"], "als_method": c["method"], "als_niter": c["niter"],
                                                              **({"als_epsilon": 1e-6} if n.is_single(dt) else {})})
    n.load_network(net, ref, dt)
    b = sorted(net.bond_list, key=tuple)[c["bond"] % len(net.bond_list)]
    return net, b


def cost(N, t, a):
    """1 - |<t|a>|^2 / (<t|t><a|a>) in the metric N, for matrices [(y p), (x q)] given as [y, p, x, q]."""
    q = lambda u, v: np.einsum("ypxq,yxYX,YpXq->", u, N, v.conj(), optimize="greedy")
    return float(1 - abs(q(a, t))**2 / (q(t, t).real * q(a, a).real))


def trunc(t, D):
    nD, d = t.shape[:2]
    u, s, v = np.linalg.svd(t.reshape(nD * d, nD * d))
    return (u[:, :D] * np.sqrt(s[:D])).reshape(nD, d, D), (np.sqrt(s[:D])[:, None] * v[:D]).reshape(D, nD, d)


def pair(a1, a2):
    return np.einsum("ypu,uxq->ypxq", a1, a2)


def als(N, t, a1, a2, niter):
    """Plain alternating least squares for |a1 a2 - t| in the metric N."""
    for _ in range(niter):
        nD, d, D = a1.shape
        R = np.einsum("yxYX,uxq,vXq->Yvyu", N, a2, a2.conj(), optimize="greedy").reshape(nD * D, nD * D)
        S = np.einsum("yxYX,ypxq,vXq->Yvp", N, t, a2.conj(), optimize="greedy").reshape(nD * D, d)
        a1 = np.linalg.lstsq(R, S, rcond=1e-14)[0].reshape(nD, D, d).transpose(0, 2, 1)
        R = np.einsum("yxYX,ypu,Ypv->vXux", N, a1, a1.conj(), optimize="greedy").reshape(nD * D, nD * D)
        S = np.einsum("yxYX,ypxq,Ypv->vXq", N, t, a1.conj(), optimize="greedy").reshape(nD * D, d)
        a2 = np.linalg.lstsq(R, S, rcond=1e-14)[0].reshape(D, nD, d)
    return a1, a2


def gauge_init(N, t, D):
    """Truncated SVD in the basis where the one-sided marginals of N are the identity (as gauge fixing does)."""
    nD, d = t.shape[:2]
    w, v = np.linalg.eigh(N.reshape(nD**2, nD**2).T)
    z = (v * np.sqrt(np.maximum(w, 0))).reshape(nD, nD, -1).conj()
    # N[yx, YX] = sum_z z[yxz] conj(z[YXz])
    Gy = np.einsum("yxz,Yxz->yY", z, z.conj())
    Gx = np.einsum("yxz,yXz->xX", z, z.conj())
    Ly, Lx = np.linalg.cholesky(Gy.T), np.linalg.cholesky(Gx.T)
    ty = np.einsum("wy,ypxq->wpxq", Ly.conj().T, np.einsum("zx,ypxq->ypzq", Lx.conj().T, t))
    a1, a2 = trunc(ty, D)
    return np.einsum("yw,wpu->ypu", np.linalg.inv(Ly.conj().T), a1), np.einsum("xw,uwq->uxq", np.linalg.inv(Lx.conj().T), a2)


def run(c):
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    d, D, dt = c["d"], c["D"], c["dtype"]
    cplx, single = n.is_c(dt), n.is_single(dt)
    net, b = reduced_problem(c, r)
    s1, s2, k = b
    h = n.herm(r, d * d, cplx)
    dtau = c["dtau"]
    a1, a2 = n.pair_frame(n.N(net[s1]["A"]), n.N(net[s2]["A"]), k)
    (q1, r1), (q2, r2) = n.split_first(a1), n.split_second(a2)
    nD = q1.shape[3]
    N = n.ref_norm({s: (None, [n.N(x) for x in net[s]["C"]], [n.N(x) for x in net[s]["E"]]) for s in (s1, s2)}, s1, s2, k, q1, q2)
    N = N / np.abs(N).max()
    M = N.reshape(nD * nD, nD * nD)
    M = (M + M.conj().T) / 2
    w = np.linalg.eigvalsh(M)
    N = M.reshape(nD, nD, nD, nD)
    g = scipy.linalg.expm(-dtau * h)
    t = np.einsum("yrp,xrq->ypxq", r1, r2)
    t = np.einsum("PQpq,ypxq->yPxQ", g.reshape(d, d, d, d), t)
    t = t / np.linalg.norm(t)
    f_svd = cost(N, t, pair(*trunc(t, D)))
    if f_svd < 1e-10 or D == 1 and d == 1:
        return None
    gate = Gate(n.FreeModel(dt, d, two=lambda q: h), dtau, net.bond_list, net.site_list)
    net.config.evolution.als_niter = c["niter"]
    inv = [(i - k) % 4 for i in range(4)] + [4]

    def result(**opts):
        cfg = net.config.evolution
        old = {o: getattr(cfg, o) for o in opts}
        for o, v in opts.items():
            setattr(cfg, o, v)
        b1, b2 = FullUpdater(net, gate, cfg).tensor_update(net[s1].bond_permute(k), net[s2].bond_permute(k), b)
        for o, v in old.items():
            setattr(cfg, o, v)
        B1, B2 = n.pair_frame(n.N(b1).transpose(inv), n.N(b2).transpose(inv), k)
        x1, x2 = np.einsum("ludy,lurdp->yrp", q1.conj(), B1), np.einsum("urdx,lurdq->xlq", q2.conj(), B2)
        e1 = np.linalg.norm(np.einsum("ludy,yrp->lurdp", q1, x1) - B1)
        e2 = np.linalg.norm(np.einsum("urdx,xlq->lurdq", q2, x2) - B2)
        check(max(e1, e2) < (1e-3 if single else 1e-7), "the updated tensors leave the space of the old ones by %.1e", max(e1, e2))
        return x1, x2
    x1, x2 = result()
    f = cost(N, t, np.einsum("yrp,xrq->ypxq", x1, x2))
    well = w[0] > 1e-6 * w[-1]
    tol = 1e-4 if single else 1e-9
    # the initial guess, in the basis which is used
    if c["gauge"] and well:
        i1, i2 = gauge_init(N, t, D)
        f_init = cost(N, t, pair(i1, i2))
    else:
        i1, i2 = trunc(t, D)
        f_init = f_svd
    if well or not c["gauge"]:
        check(f <= f_init * (1 + 1e-3) + tol, "distance^2 %.8g, but the truncated SVD it starts from has %.8g", f, f_init)
    if not single and well:
        # no better than the same number of reference sweeps, and no worse
        j1, j2 = als(N, t, i1, i2, c["niter"])
        f_ref = cost(N, t, pair(j1, j2))
        check(f <= f_ref * (1 + 2e-3) + tol, "distance^2 %.8g after at most %d sweeps, the reference solver reaches %.8g", f, c["niter"], f_ref)
        if c["niter"] >= 50:
            y1, y2 = als(N, t, x1.transpose(0, 2, 1), x2.transpose(1, 0, 2), 1)
            f_opt = cost(N, t, pair(y1, y2))
            check(f - f_opt <= 2e-3 * f + tol, "one more optimization of either tensor lowers the distance^2 from %.8g to %.8g", f, f_opt)
    if not single and well:
        x1, x2 = result(als_method="pinv" if c["method"] == "cholesky" else "cholesky")
        f2 = cost(N, t, np.einsum("yrp,xrq->ypxq", x1, x2))
        check(abs(f2 - f) <= 2e-3 * f + tol, "distance^2 %.8g with %s and %.8g with the other solver", f, c["method"], f2)
        if c["niter"] >= 50:
            x1, x2 = result(use_gauge_fix=not c["gauge"])
            f3 = cost(N, t, np.einsum("yrp,xrq->ypxq", x1, x2))
            check(max(f, f3) <= 1.3 * min(f, f3) + tol, "distance^2 %.8g with gauge fixing %s and %.8g with %s", f, c["gauge"], f3, not c["gauge"])
    return ["env=" + c["env"], "D=%d" % D, "d=%d" % d, c["method"], "gauge" if c["gauge"] else "nogauge", "niter=%d" % c["niter"], dt, "k=%d" % k, "well" if well else "singular"]


cases = case(nx=st.sampled_from([2, 3]), ny=st.sampled_from([2, 3]), d=st.sampled_from([2, 3, 2]), D=st.sampled_from([2, 3, 1]), m=st.integers(1, 2), bond=st.integers(0, 17), env=st.sampled_from(["full", "mid", "low"]),
             dtau=st.sampled_from([0.1, 0.5, 2.0]), gauge=st.booleans(), method=st.sampled_from(["cholesky", "pinv"]), niter=st.sampled_from([100, 60, 3, 1]),
             dtype=dtypes_mostly_double, seed=seeds)


def run_norm(c):
    """The norm tensor is the exact contraction, also in blocks."""
    r = n.gen(c["seed"])
    torch.manual_seed(c["seed"] % 1000)
    dt, D, d = c["dtype"], c["D"], c["d"]
    ref = n.random_psd_network(r, c["nx"], c["ny"], d, D, c["m"], 3, n.is_c(dt))
    for s in ref:
        for x in ref[s][1] + ref[s][2]:
            x += 0.5 * np.abs(x).max() * n.randn(r, x.shape, n.is_c(dt))
    net = n.make(c["nx"], c["ny"], d, D, 8, dt)
    n.load_network(net, ref, dt)
    b = sorted(net.bond_list, key=tuple)[c["bond"] % len(net.bond_list)]
    s1, s2, k = b
    nD = c["nD"]
    # u1[l, u, d, y] and u2[u, r, d, x] in the frame where the bond points right
    u1, u2 = (n.N(n.T(n.randn(r, (D, D, D, nD), n.is_c(dt)), dt)) for _ in range(2))
    want = n.ref_norm({s: (None, [n.N(x) for x in net[s]["C"]], [n.N(x) for x in net[s]["E"]]) for s in (s1, s2)}, s1, s2, k, u1, u2)
    got = n.N(build_norm_tensor(net, b, n.T(u1, dt), n.T(u2, dt)))
    check(got.shape == want.shape, "norm tensor of shape %s", got.shape)
    e = np.linalg.norm(got - want) / np.linalg.norm(want)
    check(e <= (1e-3 if n.is_single(dt) else 1e-9), "norm tensor of bond %s is off by %.1e", tuple(b), e)
    return ["k=%d" % k, "D=%d" % D, dt]


norm_case = case(nx=st.sampled_from([2, 3, 4]), ny=st.sampled_from([2, 3, 4]), d=st.just(2), D=st.sampled_from([1, 2, 3, 2, 3, 4]), nD=st.integers(1, 6), m=st.integers(1, 2), bond=st.integers(0, 31),
                 dtype=dtypes_mostly_double, seed=seeds)

LEGS = [Leg("optimal", cases, run, 400, 12000), Leg("norm", norm_case, run_norm, 200, 6000)]
