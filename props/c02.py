"""C02: the projectors truncate the system they are computed from optimally."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, case
from vlib import net as n
from .c01 import quarter
import numpy as np
import torch
from acetn.renormalization.directional_mover import DirectionalMover

RULE = ("random or positive site and boundary tensors with generated decay of the boundary legs; the projectors of a generated "
        "direction and cut are inserted into the half or full system contracted with numpy and the error is compared with the "
        "Eckart-Young optimum; kept dimensions are compared with the number of singular values above the cutoff. Non-trivial: "
        "the kept dimension is at least 2 or something is truncated.")
ASSUMPTIONS = ["the cutoff is not below the square root of the rounding error (1e-5 or more in single precision)",
               "dimension rule: cases with a singular value within a factor 1.01 (full-rank) or 10 (rsvd) of the cutoff are skipped",
               "rsvd: optimality factor 4 for 2 or more power iterations, 12 for one, both with oversampling >= 2; exact if the rank fits"]


def run(c):
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    dt, cplx = c["dtype"], n.is_c(c["dtype"])
    single = n.is_single(dt)
    nx, ny, D, k, chi = c["nx"], c["ny"], c["D"], c["k"], c["chi"]
    cut = 10.0 ** c["cutexp"]
    net = n.make(nx, ny, c["d"], D, chi, dt, ctmrg={"projectors": c["proj"], "svd_type": c["svd"], "svd_cutoff": cut,
                                                    "rsvd_niter": c["niter"], "rsvd_oversampling": c["over"]})
    if c["env"] == "psd":
        ref = n.random_psd_network(r, nx, ny, c["d"], D, c["m"], c["S"], cplx)
        n.load_network(net, ref, dt)
    else:
        dims = n.boundary_dims(r, nx, ny, c["m"] + 1)
        for s in net.site_list:
            dd = dims[s]
            dec = [np.array([10.0 ** (-c["decay"] * i) for i in range(x)]) for x in dd]
            a = n.randn(r, (D,) * 4 + (c["d"],), cplx)
            C = [n.randn(r, (dd[2 * i], dd[2 * i + 1]), cplx) * dec[2 * i][:, None] * dec[2 * i + 1] for i in range(4)]
            E = [n.randn(r, (dd[2 * i + 1], dd[(2 * i + 2) % 8], D, D), cplx) for i in range(4)]
            net[s]["A"] = n.T(n.nrm(a), dt)
            n.set_env(net, s, [n.nrm(x) for x in C], [n.nrm(x) for x in E], dt)
        net.site_states_initialized = True
    ref = n.snapshot(net)
    mover = DirectionalMover(net.config.ctmrg)
    x, y = c["x"] % nx, c["y"] % ny
    f = [mover.calculate_left_projectors, mover.calculate_up_projectors, mover.calculate_right_projectors, mover.calculate_down_projectors][k]
    p1, p2 = (n.N(t) for t in f(net, x, y))
    right, up = n.DIRS[(k + 2) % 4], n.DIRS[(k + 1) % 4]
    at = lambda i, j: ((x + i * right[0] - j * up[0]) % nx, (y + i * right[1] - j * up[1]) % ny)
    R1, R2 = quarter(ref[at(0, 0)], k), quarter(ref[at(0, 1)], k + 3)
    if c["proj"] == "full-system":
        R1, R2 = quarter(ref[at(1, 0)], k + 1) @ R1, R2 @ quarter(ref[at(1, 1)], k + 2)
    R1, R2 = R1 / np.linalg.norm(R1), R2 / np.linalg.norm(R2)
    F = R1 @ R2
    s = np.linalg.svd(F, compute_uv=False)
    if not s[0] > 1e-6:
        return None
    z = p1.shape[-1]
    check(p1.shape[-1] == p2.shape[-1], "projectors of different dimension %s, %s", p1.shape, p2.shape)
    check(p1.size == R1.shape[1] * z == p2.size, "projector shape %s", p1.shape)
    check(z <= chi, "projector dimension %d exceeds chi=%d", z, chi)
    q = min(chi + c["over"], len(s))
    floor = 1e-6 if single else 1e-14
    rank = int((s > s[0] * floor).sum())
    exact = c["svd"] == "full-rank" or rank <= q
    rel = s / s[0]
    margin = (1.01, 1.01) if exact else (1.01, 10.0)
    noise = 3e-6 if single else 3e-14
    clear = cut > noise and not np.any((rel > cut / margin[0]) & (rel < cut * margin[1]))
    rule = min(chi, int((rel > cut).sum()))
    if clear:
        check(z == rule, "%d values kept, but %d are above the cutoff %g (chi=%d)", z, int((rel > cut).sum()), cut, chi)
    P1, P2 = p1.reshape(-1, z), p2.reshape(-1, z)
    G = (R1 @ P2) @ (P1.T @ R2)
    check(np.all(np.isfinite(G)), "projectors are not finite")
    al = np.vdot(G, F) / np.vdot(G, G)
    tol = 3e-4 if single else 1e-9
    err = np.linalg.norm(F - al * G) / np.linalg.norm(F)
    opt = np.linalg.norm(s[z:]) / np.linalg.norm(s)
    if exact:
        check(al.real > 0 and abs(al.imag) <= tol * 10 * abs(al), "projected contraction has the phase of %s", al)
        check(err <= opt + tol, "truncation error %.8g, optimum %.8g for dimension %d", err, opt, z)
    elif c["over"] >= 2 and c["niter"] >= 1:
        b = 4 if c["niter"] >= 2 else 12
        check(err <= b * opt + tol, "truncation error %.3g, optimum %.3g for dimension %d", err, opt, z)
    if z >= 2 or opt > tol:
        return ["k=%d" % k, c["proj"] + "," + c["svd"], "exact" if exact else "random", "dtype=" + dt, "env=" + c["env"]] + \
            (["chi-limited" if z == chi else "cutoff-limited"] if opt > tol else ["nothing-truncated"])


cells = st.sampled_from([2, 1, 3, 2, 1, 3, 4, 5])
cases = case(nx=cells, ny=cells, d=st.integers(1, 3), D=st.sampled_from([2, 2, 3, 1]), m=st.sampled_from([2, 3, 1]), S=st.integers(1, 3),
             env=st.sampled_from(["random", "psd"]), decay=st.sampled_from([0, 0.5, 1, 2, 4]), chi=st.integers(1, 14),
             cutexp=st.sampled_from([-12, -12, -5, -3, -2, -1]), niter=st.sampled_from([2, 1, 3, 0]), over=st.sampled_from([2, 0, 1, 4]),
             k=st.integers(0, 3), x=st.integers(0, 4), y=st.integers(0, 4),
             proj=st.sampled_from(["half-system", "full-system"]), svd=st.sampled_from(["full-rank", "rsvd"]),
             dtype=dtypes_mostly_double, seed=seeds).map(
                 lambda c: {**c, "cutexp": max(c["cutexp"], -5 if n.is_single(c["dtype"]) else -12)}).filter(lambda c: c["m"]**2 * c["D"]**2 <= 81)

LEGS = [Leg("optimal", cases, run, 2400, 40000)]
