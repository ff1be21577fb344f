"""C21: the C++ bond-update solver solves the same problem as the Python solver."""
from vlib.core import Leg, check, Violation
from vlib.strat import st, seeds, dtypes, double, case
from vlib import net as n, cbuild
import ctypes, sys
import numpy as np
import torch
from types import SimpleNamespace
from acetn.evolution.als_solver import ALSSolver
import acetn.evolution._extensions as ext
import acetn.ipeps.ipeps_config as ipeps_config

RULE = ("csrc is compiled with stand-ins of cuTENSOR, cuSOLVER and CUDA that execute the descriptors and calls on the CPU. Random bond problems (all "
        "small shapes, memory layouts, data types, definite, rank-deficient, graded and indefinite norms, methods, tolerances, iteration counts) "
        "are solved by both solvers from the same initial tensors; whole evolutions are run with both backends. Pairs must agree up to the change of "
        "the Python result under perturbations of 1e-13 (1e-5 in single precision). Non-trivial: at least one iteration.")
ASSUMPTIONS = ["the stand-ins follow the documentation of the CUDA libraries; no GPU code is executed",
               "cases whose Python result moves by more than 1e-3 under the perturbations are only judged by the cost they reach, with the pinv method not at all (the rank is not defined)"]
C = cbuild.load()
ext._C_cutensor = C
sys.modules["acetn.evolution._extensions._C_cutensor"] = C
ipeps_config.CUTENSOR_AVAILABLE = True
LIVE = ctypes.CDLL(C.path).verif_live_objects
LIVE.restype = ctypes.c_long


def problem(c, r):
    nD, d = c["nD"], c["d"]
    bD = min(c["b"], nD * d)
    cplx = n.is_c(c["dtype"])
    M = nD * nD
    kind = c["norm"]
    if kind == "eye":
        N = np.eye(M) + 0j
    else:
        rank = {"full": M, "graded": M, "low": max(1, M // 2), "one": 1, "indefinite": M, "skewed": M}[kind]
        u = n.unitary(r, M, cplx)[:, :rank]
        w = r.uniform(0.2, 1, rank) if kind != "graded" else 10.0 ** -r.uniform(0, 4, rank)
        if kind == "indefinite":
            w[r.integers(0, rank)] *= -1
        N = (u * w) @ u.conj().T
        if kind == "skewed":
            N = N + 0.03 * n.randn(r, (M, M), cplx) / M
    N = (N if cplx else N.real) * 10.0 ** c["scale"]
    g = n.randn(r, (nD, nD, d, d), cplx)
    if c["target"] == "decaying":
        u, s, v = np.linalg.svd(g.transpose(0, 2, 1, 3).reshape(nD * d, nD * d))
        g = ((u * 0.3 ** np.arange(nD * d)) @ v).reshape(nD, d, nD, d).transpose(0, 2, 1, 3)
    elif c["target"] == "representable":
        # a pair of tensors of the requested bond dimension
        g = np.einsum("yup,xuq->yxpq", n.randn(r, (nD, bD, d), cplx), n.randn(r, (nD, bD, d), cplx))
    return N.reshape(nD, nD, nD, nD), g, (nD, bD, d)


def layout(x, k):
    """The same tensor with other strides."""
    if k == 1:
        return x.permute(*range(x.dim() - 1, -1, -1)).contiguous().permute(*range(x.dim() - 1, -1, -1))
    if k == 2:
        return torch.stack([x, x + 1], -1)[..., 0]
    if k == 3:
        return torch.cat([x.flatten(), x.flatten()])[x.numel():].view(x.shape)
    return x


def cost(N, g, a1, a2):
    q = np.einsum("yup,xuq->yxpq", a1, a2)
    f = lambda x, y: np.einsum("yxYX,yxpq,YXpq->", N, x, y.conj(), optimize="greedy")
    return (f(q, q) - 2 * f(g, q)).real


def run(c):
    r = n.gen(c["seed"])
    dt = c["dtype"]
    single = n.is_single(dt)
    eps = 1e-6 if single else 1e-14
    N, g, shape = problem(c, r)
    opt = dict(als_niter=c["niter"], als_tol=c["tol"], als_method=c["method"], als_epsilon=c["epsilon"], backend="torch")

    def python(N, g, **o):
        s = ALSSolver(n.T(N, dt), n.T(g, dt), shape, SimpleNamespace(**{**opt, **o}))
        init = s.initialize_tensors()
        return init, s.solve_torch(*init)

    tol = c["tol"]
    if c["near"]:
        # a tolerance next to the error of one iteration, so that the solvers must judge it alike
        k, f = c["near"]
        try:
            a, b = (cost(N, g, *[n.N(x) for x in python(N, g, als_niter=j, als_tol=0.0)[1]]) for j in (k - 1, k))
        except torch.linalg.LinAlgError:
            return None
        e = abs(b - a) / abs(a) if a else 0
        if not 1e-12 < e < 1e12:
            return None
        tol = e * (f or 1 - min(max(e, 1e-3), 0.8) / 2)
        opt["als_niter"] = max(c["niter"], k + 4)
    opt["als_tol"] = tol
    # a rank-deficient system without regularization above rounding has no definite solution
    defined = c["norm"] not in ("low", "one", "indefinite") or c["norm"] != "indefinite" and c["epsilon"] >= (1e-4 if single else 1e-12)
    try:
        init, want = python(N, g)
    except torch.linalg.LinAlgError:
        check(not defined, "the Python solver fails")
        return None
    # how much the Python result moves
    def perturbed(k):
        p = n.gen(c["seed"] + 1 + k)
        h = 20 * eps * (1 if k % 2 else 3)
        dN = n.randn(p, (shape[0]**2,) * 2, n.is_c(dt))
        dN = (dN + dN.conj().T) / 2
        return python(N * (1 + h * dN.reshape(N.shape)), g * (1 + h * n.randn(p, g.shape, n.is_c(dt))))[1]
    slack = 100 * eps
    try:
        probes = [want] + [perturbed(k) for k in range(4)]
        probes += [python(N, g, als_tol=tol * (1 + s * (1e-4 if c["near"] else 0.01)) + s * slack)[1] for s in (1, -1)]
        probes += [python(N, g, als_epsilon=c["epsilon"] * (1 + s * 0.01) + (s > 0) * 0.1 * eps)[1] for s in (1, -1)]
    except torch.linalg.LinAlgError:
        check(not defined, "the Python solver fails for perturbed tensors")
        return None
    P = [tuple(n.N(x) for x in p) for p in probes]
    # individual tensors are compared, since both solvers take the same steps
    size = max(np.abs(x).max() for x in P[0])
    spread = max(np.abs(x - y).max() for p in P[1:] for x, y in zip(p, P[0])) / size
    sharp = bool(np.isfinite(spread) and spread < 1e-3)
    s = ALSSolver(layout(n.T(N, dt), c["lay"][0]), layout(n.T(g, dt), c["lay"][1]), shape, SimpleNamespace(**{**opt, "backend": "cutensor"}))
    args = [layout(init[0], c["lay"][2]), layout(init[1], c["lay"][3]), layout(init[2], c["lay"][4]), s.n12, s.a12g]
    before = [x.clone() for x in args]
    try:
        got = C.als_solve(*args, opt["als_niter"], tol, c["method"], c["epsilon"])
        got2 = s.solve()
    except RuntimeError as e:
        if not sharp and "linalg." in str(e):
            return None
        raise Violation("the C++ solver fails: %s" % str(e)[:300])
    for x, y in zip(args, before):
        check(torch.equal(x, y), "the C++ solver changes its input")
    check(LIVE() == 0, "%d cuTENSOR objects are not released", LIVE())
    check(len(got) == 2 and len(got2) == 2, "not a pair")
    for x in list(got) + list(got2):
        check(tuple(x.shape) == shape and x.dtype == n.TD[dt], "shape %s and type %s instead of %s and %s", tuple(x.shape), x.dtype, shape, dt)
    G = [tuple(n.N(x) for x in p) for p in (got, got2)]
    if sharp:
        for h in G:
            e = max(np.abs(x - y).max() for x, y in zip(h, P[0])) / size
            check(e <= 30 * spread + 1000 * eps, "the C++ result differs by %.1e (perturbations change the Python result by %.1e)", e, spread)
    else:
        cs = [cost(N, g, *p) for p in P]
        f0 = abs(np.einsum("yxYX,yxpq,YXpq->", N, g, g.conj(), optimize="greedy"))
        if c["method"] == "cholesky" and all(np.isfinite(cs)):
            for h in G:
                check(all(np.isfinite(x).all() for x in h), "the C++ result is not finite, the Python result is")
                e = (cost(N, g, *h) - max(cs)) / f0
                allow = (3 * (max(cs) - min(cs)) / f0 + (0.02 if single else 1e-3)) if defined else 1e6
                if c["norm"] != "indefinite":
                    check(e <= allow, "the C++ result has a cost higher by %.1e, Python's costs vary by %.1e", e, (max(cs) - min(cs)) / f0)
    if opt["als_niter"]:
        return [dt, c["method"], c["norm"], c["target"], "sharp" if sharp else "by cost", "niter=%d" % min(c["niter"], 3), "tolerance near an error" if c["near"] else "any tolerance", "b=%d" % shape[1]]


def run_reject(c):
    r = n.gen(c["seed"])
    N, g, shape = problem(c, r)
    dt = c["dtype"]
    s = ALSSolver(n.T(N, dt), n.T(g, dt), shape, SimpleNamespace(als_niter=c["niter"], als_tol=1e-9, als_method=c["name"], als_epsilon=1e-12, backend="cutensor"))
    try:
        s.solve()
    except Exception:
        check(LIVE() == 0, "%d cuTENSOR objects are not released after an error", LIVE())
        return [c["name"], dt]
    raise Violation("the method %r is accepted" % c["name"])


def run_network(c):
    """One network evolved with both backends."""
    nx, ny, d, D, dt = c["nx"], c["ny"], 2, c["D"], c["dtype"]
    cplx = n.is_c(dt)
    r = n.gen(c["seed"])
    A = n.gapped_state(r, nx, ny, d, D, 0.3, cplx)
    H = n.herm(r, d * d, cplx)
    model = n.FreeModel(dt, d, two=lambda b: H)
    calls = []

    def go(backend, h):
        torch.manual_seed(c["seed"] % 1000)
        p = n.gen(c["seed"] + 1)
        net = n.make(nx, ny, d, D, 8, dt, ctmrg={"steps": 4, "projectors": "half-system", "svd_type": "full-rank"},
                     evolution={"update_type": "full", "backend": backend, "als_method": c["method"], "als_niter": c["niter"], "als_tol": c["tol"], "use_gauge_fix": c["gauge"]})
        check(net.config.evolution.backend == backend, "backend %s becomes %s", backend, net.config.evolution.backend)
        n.set_A(net, {s: a * (1 + h * n.randn(p, a.shape, cplx)) for s, a in A.items()}, dt)
        net.evolve(dtau=c["dtau"], steps=c["steps"], model=model)
        net.renormalize()
        s, b = n.measured_rhos(net, dt, d)
        return [np.asarray(b[k]) for k in sorted(b)]

    plain = C.als_solve
    spy = SimpleNamespace(als_solve=lambda *a: (calls.append(1), plain(*a))[1])
    ext._C_cutensor = spy
    sys.modules["acetn.evolution._extensions._C_cutensor"] = spy
    try:
        want = go("torch", 0)
        check(not calls, "the torch backend uses the C++ solver")
        got = go("cutensor", 0)
        bonds = 2 * nx * ny
        check(len(calls) == 2 * bonds * c["steps"] or len(calls) == bonds * c["steps"] or len(calls) > 0, "the cutensor backend does not use the C++ solver")
    finally:
        ext._C_cutensor = C
        sys.modules["acetn.evolution._extensions._C_cutensor"] = C
    probes = [go("torch", 1e-12) for _ in range(2)]
    spread = max(np.abs(x - y).max() for p in probes for x, y in zip(p, want))
    e = max(np.abs(x - y).max() for x, y in zip(got, want))
    if spread > 1e-5:
        return None
    check(e <= 100 * spread + 1e-6, "bond states differ by %.1e between the backends (%.1e for perturbed tensors)", e, spread)
    return [c["method"], "cell=%dx%d" % (nx, ny), "D=%d" % D, dt, "gauge=%s" % c["gauge"], "niter=%d" % c["niter"]]


COMMON = dict(seed=seeds, dtype=dtypes, nD=st.integers(1, 6), d=st.integers(1, 3), b=st.integers(1, 8),
              norm=st.sampled_from(["full", "graded", "low", "one", "indefinite", "eye", "skewed"]), scale=st.sampled_from([0, 0, -3, 3]),
              target=st.sampled_from(["random", "decaying", "representable"]))
LEGS = [Leg("solve", case(**COMMON, niter=st.one_of(st.integers(0, 8), st.sampled_from([30, 100])), tol=st.sampled_from([0.0, 1e-12, 1e-6, 1e-3, 1e-2, 0.1, 1.0, 1e9]),
                          near=st.one_of(st.none(), st.tuples(st.integers(3, 6), st.sampled_from([0, 0, 0.97, 1.03, 0.8, 1.25]))),
                          method=st.sampled_from(["cholesky", "pinv"]), epsilon=st.sampled_from([1e-12, 1e-6, 1e-2, 0.3, 0.0]), lay=st.tuples(*[st.integers(0, 3)] * 5)), run, 1600, 30000),
        Leg("reject", case(**COMMON, niter=st.integers(0, 3), name=st.sampled_from(["", "Cholesky", "svd", "pinv ", "qr"])), run_reject, 40, 400),
        Leg("network", case(seed=seeds, dtype=double, nx=st.integers(2, 3), ny=st.integers(2, 2), D=st.integers(2, 3), steps=st.integers(1, 2), niter=st.sampled_from([1, 3, 10, 100]),
                            tol=st.sampled_from([1e-15, 1e-6]), method=st.sampled_from(["cholesky", "pinv"]), gauge=st.booleans(), dtau=st.sampled_from([0.02, 0.1])), run_network, 40, 800)]
