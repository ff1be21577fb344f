"""C13: the positive approximation is positive, minimal and terminates; gauge fixing keeps all overlaps."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, case
from vlib import net as n
import types
import numpy as np
import torch
from acetn.evolution.full_update import positive_approx, gauge_fix

RULE = ("Hermitian norm tensors with generated spectra (scale 1e-10 to 1e10, any signature, rank deficient, degenerate, clustered at "
        "the cutoff) and random factor tensors for gauge fixing; compared with dense numpy algebra. Non-trivial: dimension above 1.")
ASSUMPTIONS = ["termination: a call using more than 20 s of CPU time (typical: milliseconds) counts as not terminating",
               "gauge fixing is compared where the product of the condition numbers of the two legs is below 1e8 (double) or 1e3 (single precision)"]


def spectrum(r, kind, m, cut):
    w = np.abs(r.standard_normal(m)) + 0.05
    if kind == "positive":
        return w
    if kind == "indefinite":
        return r.standard_normal(m)
    if kind == "negative":
        return -w
    if kind == "slightly-negative":
        w[: max(1, m // 3)] = -1e-9 * w[: max(1, m // 3)]
        return w
    if kind == "rank-deficient":
        w[: m // 2 + m % 2] = 0
        return w
    if kind == "decay":
        return 10.0 ** (-np.arange(m) * 1.5)
    if kind == "decay-signed":
        return 10.0 ** (-np.arange(m) * 1.5) * r.choice([-1, 1], size=m)
    if kind == "zero":
        return np.zeros(m)
    if kind == "degenerate":
        return np.round(r.standard_normal(m))
    return np.where(r.integers(0, 2, m), w, cut * (1 + 1e-3 * r.standard_normal(m)))  # at the cutoff


KINDS = ["positive", "indefinite", "negative", "slightly-negative", "rank-deficient", "decay", "decay-signed", "zero", "degenerate", "at-cutoff"]


def run_positive(c):
    r = n.gen(c["seed"])
    dt, cplx, nD = c["dtype"], n.is_c(c["dtype"]), c["nD"]
    cut = 10.0 ** c["cutexp"]
    m = nD * nD
    w = spectrum(r, c["kind"], m, cut / 10.0 ** c["scale"]) * 10.0 ** c["scale"]
    u = n.unitary(r, m, cplx)
    t = n.T((u * w) @ u.conj().T, dt)
    t = 0.5 * (t + t.mH)
    if not c["default_cutoff"]:
        z = positive_approx(t.reshape(nD, nD, nD, nD).clone(), cutoff=cut)
    else:
        cut = 1e-12
        z = positive_approx(t.reshape(nD, nD, nD, nD).clone())
    M = n.N(t)
    check(z.dtype == n.TD[dt], "data type %s", z.dtype)
    Z = n.N(z).reshape(m, -1)
    check(np.all(np.isfinite(Z)), "result is not finite")
    check(z.shape[:2] == (nD, nD), "shape %s", z.shape)
    w = np.linalg.eigvalsh(M)
    top = max(abs(w[0]), abs(w[-1]))
    G = Z @ Z.conj().T - M
    shift = np.trace(G).real / m
    noise = 60 * m * n.eps_of(dt) * (top + abs(shift)) + 1e-300
    res = np.abs(G - shift * np.eye(m)).max()
    check(res <= noise, "Z Z^H differs from N + c*1 by %.2e (largest eigenvalue %.2e)", res, top)
    check(shift >= -noise, "negative shift %.3e", shift)
    if w[0] >= cut + noise:
        check(abs(shift) <= noise, "spectrum starts at %.3e above the cutoff %.1e, but was shifted by %.3e", w[0], cut, shift)
    else:
        lim = 10 * max(cut, abs(min(w[0], 0)), 2 * n.eps_of(dt) * m * top) + noise
        check(shift <= lim, "shift %.3e for lowest eigenvalue %.3e, cutoff %.1e, largest %.2e", shift, w[0], cut, top)
        check(w[0] + shift >= 0.5 * cut - noise, "lowest eigenvalue %.3e stays below the cutoff %.1e after the shift %.3e", w[0], cut, shift)
    if nD > 1:
        return ["dtype=" + dt, "kind=" + c["kind"], "shifted" if w[0] < cut else "unshifted"]


pos_case = case(nD=st.sampled_from([2, 3, 4, 1, 6]), kind=st.sampled_from(KINDS), scale=st.sampled_from([0, 0, 0, 4, -4, 10, -10]),
                cutexp=st.sampled_from([-12, -6, -3, -9]), default_cutoff=st.booleans(), dtype=dtypes_mostly_double, seed=seeds)


def run_gauge(c):
    r = n.gen(c["seed"])
    dt, cplx, nD, d = c["dtype"], n.is_c(c["dtype"]), c["nD"], c["d"]
    rank = min(c["rank"], nD * nD)
    z = n.randn(r, (nD, nD, rank), cplx) @ n.unitary(r, nD * nD, cplx)[:rank]
    # graded bases make the gauge ill-conditioned
    z = z * (10.0 ** (-c["grade"] * np.arange(nD)))[:, None, None] * (10.0 ** (-c["grade"] * np.arange(nD)))[None, :, None]
    ux, uy = n.randn(r, (nD, nD), cplx), n.randn(r, (nD, nD), cplx)
    z = n.ein("yxz,yY,xX->YXz", z, uy, ux) * 10.0 ** c["scale"]
    if c["deficient"] and nD > 1:
        p = n.randn(r, (nD, nD - 1), cplx)
        z = n.ein("yxz,xw,Xw->yXz", z, p, p.conj())
    a = n.randn(r, (nD, nD, d, d), cplx)
    tz, ta = n.T(z, dt), n.T(a, dt)
    z, a = n.N(tz), n.N(ta)
    sx = np.linalg.svd(z.transpose(0, 2, 1).reshape(-1, nD), compute_uv=False)
    sy = np.linalg.svd(z.transpose(1, 2, 0).reshape(-1, nD), compute_uv=False)
    # the atol is absolute: singular values must be clearly above or at rounding level below it
    atol = 1e-12 if not c["deficient"] else 1e-5 * max(sx[0], sy[0])
    if n.is_single(dt) and not c["deficient"]:
        atol = 1e-30
    cond = 1.0
    for s in (sx, sy):
        keep = s > atol
        if not keep.any() or np.any((s > min(atol / 30, 100 * n.eps_of(dt) * s[0])) & (s < atol * 30)):
            return None
        cond *= s[0] / s[keep][-1]
    lim = 1e3 if n.is_single(dt) else 1e8
    if cond > lim:
        return None
    args = {} if atol == 1e-12 and c["default_atol"] else {"atol": float(atol)}
    n12, ag, xi, yi = (n.N(t) for t in gauge_fix(tz.clone(), ta.clone(), **args))
    quad = lambda b, k: n.ein("yxYX,yxpq,YXpq->", n12, k, b.conj())
    fac = lambda k: n.ein("yxz,yxpq->zpq", z, k)  # the norm of k in the original basis is that of fac(k)
    tol = 2e3 * n.eps_of(dt) * cond
    fa = fac(a)
    a0 = np.linalg.norm(fa) ** 2
    a1 = quad(ag, ag)
    check(abs(a1 - a0) <= tol * abs(a0), "norm of the target changed from %.6g to %s", a0, a1)
    for _ in range(2):
        # any candidate in the new basis, brought back with the returned inverses
        b1 = n.randn(r, (nD, nD, d, d), cplx)
        fb = fac(n.ein("yz,xw,zwpq->yxpq", yi, xi, b1))
        nb = np.linalg.norm(fb) ** 2
        sc = abs(quad(b1, b1)) + nb
        e = abs(quad(b1, b1) - nb)
        check(e <= tol * sc, "norm of a candidate changes by %.2e (of %.2e) in the gauge", e, sc)
        e = abs(quad(b1, ag) - np.vdot(fb, fa))
        check(e <= tol * (sc + a0), "overlap of target and candidate changes by %.2e", e)
    if nD > 1:
        return ["dtype=" + dt, "deficient" if c["deficient"] else "regular", "nD=%d" % nD]


gauge_case = case(nD=st.sampled_from([2, 3, 4, 1, 6]), d=st.integers(1, 3), rank=st.sampled_from([9, 4, 16, 2, 1]), grade=st.sampled_from([0, 0.3, 1.0]),
                  scale=st.sampled_from([0, 2, -2]), deficient=st.sampled_from([False, False, True]), default_atol=st.booleans(), dtype=dtypes_mostly_double, seed=seeds)

LEGS = [Leg("positive", pos_case, run_positive, 3000, 80000, hang_is_violation=True, cpu_limit=20),
        Leg("gauge", gauge_case, run_gauge, 2000, 60000, hang_is_violation=True, cpu_limit=20)]
