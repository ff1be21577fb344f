"""C11: bond updates are exact when no truncation is needed."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, double, case
from vlib import net as n
import numpy as np
import scipy.linalg
import torch
from acetn.evolution.gate import Gate
from acetn.evolution.full_update import FullUpdater

RULE = ("random pairs of tensors with a bond of limited rank and gates of matching operator rank (products, exponentials of a (x) b, "
        "generic gates), so that the result fits the bond dimension; full updates in random environments, and whole evolve() steps of "
        "both update types compared through the state of the finite torus. Non-trivial: bond dimension above one, or a site of "
        "dimension above one, with an environment of condition number below the limit.")
ASSUMPTIONS = ["single precision uses als_epsilon=1e-6 (the default 1e-12 is below its rounding)",
               "environments of condition number up to 1e6 (double) and 1e2 (single precision) of the norm of the pair; the regularization of the "
               "solver (1e-12) limits the accuracy otherwise"]


def involution(r, d, cplx):
    u = n.unitary(r, d, cplx)
    return u @ np.diag([1.0 if i % 2 == 0 else -1.0 for i in range(d)]) @ u.conj().T


def ham(r, kind, d, cplx):
    """Two-site Hamiltonian and the operator Schmidt rank of its exponential."""
    if kind == "product":
        return np.kron(n.herm(r, d, cplx), np.eye(d)) + np.kron(np.eye(d), n.herm(r, d, cplx)), 1
    if kind == "ab":
        a, b = involution(r, d, cplx), involution(r, d, cplx)
        w = r.normal(size=2)
        return r.choice([-1, 1]) * np.kron(a, b) + w[0] * np.kron(a, np.eye(d)) + w[1] * np.kron(np.eye(d), b), 2
    return n.herm(r, d * d, cplx), d * d


def limit_rank(r, A1, A2, k, rank, cplx):
    """Give the bond leg of both tensors a subspace of the given dimension, differently on both ends."""
    D = A1.shape[0]
    if rank >= D:
        return A1, A2
    p = n.randn(r, (D, rank), cplx) @ n.randn(r, (rank, D), cplx)
    A1 = np.moveaxis(np.tensordot(p, A1, (1, k)), 0, k)
    return n.nrm(A1), A2


def run_full(c):
    nx, ny, d, D, dt, kind = c["nx"], c["ny"], c["d"], c["D"], c["dtype"], c["gate"]
    cplx, r = n.is_c(dt), n.gen(c["seed"])
    torch.manual_seed(c["seed"] % 1000)
    h, gr = ham(r, kind, d, cplx)
    if gr > D and kind != "product":
        kind, (h, gr) = "product", ham(r, "product", d, cplx)
    rank = D // gr
    ref = n.random_psd_network(r, nx, ny, d, D, c["m"], 4 * D * D, cplx)
    net = n.make(nx, ny, d, D, 8, dt, evolution={"use_gauge_fix": c["gauge"], "als_method": c["method"], "als_niter": c["niter"],
                                              **({"als_epsilon": 1e-6} if n.is_single(dt) else {})})
    B = sorted(net.bond_list, key=tuple)
    b = B[c["bond"] % len(B)]
    s1, s2, k = b
    A1, A2 = limit_rank(r, ref[s1][0], ref[s2][0], k, rank, cplx)
    ref[s1], ref[s2] = (A1,) + ref[s1][1:], (A2,) + ref[s2][1:]
    if c["env"] == "mixed":
        # not Hermitian and not positive
        for s in (s1, s2):
            for t in ref[s][1] + ref[s][2]:
                t += 0.01 * np.abs(t).max() * n.randn(r, t.shape, cplx)
    n.load_network(net, ref, dt)
    a1, a2 = n.pair_frame(n.N(net[s1]["A"]), n.N(net[s2]["A"]), k)
    (q1, r1), (q2, r2) = n.split_first(a1), n.split_second(a2)
    nn = n.ref_norm({s: (None, [n.N(x) for x in net[s]["C"]], [n.N(x) for x in net[s]["E"]]) for s in (s1, s2)}, s1, s2, k, q1, q2)
    nD = nn.shape[0]
    nn = nn.reshape(nD * nD, nD * nD)
    w = np.linalg.eigvalsh((nn + nn.conj().T) / 2)
    cond = abs(w).max() / abs(w).min()
    if c["env"] == "mixed":
        cond *= 10
    if cond > (1e2 if n.is_single(dt) else 1e6) or not np.isfinite(cond):
        return None
    dtau = c["dtau"]
    gate = Gate(n.FreeModel(dt, d, two=lambda q: h), dtau, net.bond_list, net.site_list)
    before = n.snapshot(net)
    upd = FullUpdater(net, gate, net.config.evolution)
    b1, b2 = upd.tensor_update(net[s1].bond_permute(k), net[s2].bond_permute(k), b)
    check(n.same(n.snapshot(net), before), "tensor_update changed the network itself")
    inv = [(i - k) % 4 for i in range(4)] + [4]
    B1, B2 = n.pair_frame(n.N(b1).transpose(inv), n.N(b2).transpose(inv), k)
    check(np.all(np.isfinite(B1)) and np.all(np.isfinite(B2)), "result is not finite")
    for x in (b1, b2):
        check(abs(float(x.norm()) - 1) < 1e-5, "norm of the result is %s", float(x.norm()))
    want = n.ein("abcdp,cefgq->abdefgpq", a1, a2)
    g = scipy.linalg.expm(-dtau * h)
    want = (want.reshape(-1, d * d) @ g.T).reshape(want.shape)
    got = n.ein("abcdp,cefgq->abdefgpq", B1, B2)
    e = n.ray_dist(want, got) if cplx else n.dist(want, got)
    tol = (1e-3 if n.is_single(dt) else 1e-8) * max(cond, 10)
    check(e <= tol, "the updated pair is %.2e away from gate times pair (condition %.0e)", e, cond)
    if D > 1:
        return [kind, "D=%d" % D, "k=%d" % k, c["env"], c["method"], "gauge" if c["gauge"] else "nogauge", dt]


full_case = case(nx=st.sampled_from([2, 3, 2, 3, 4]), ny=st.sampled_from([2, 3, 2, 3, 4]), d=st.sampled_from([2, 3, 2]), D=st.sampled_from([2, 4, 3, 1]), m=st.integers(1, 2), bond=st.integers(0, 31),
                 gate=st.sampled_from(["ab", "product", "generic"]), dtau=st.sampled_from([0.01, 0.1, 0.5, 1.0]), env=st.sampled_from(["psd", "mixed"]),
                 gauge=st.booleans(), method=st.sampled_from(["cholesky", "pinv"]), niter=st.sampled_from([100, 3, 20]), dtype=dtypes_mostly_double, seed=seeds)


def run_reduced(c):
    """The update of the reduced tensors for a norm tensor that is a product of two graded ones, as in a weakly entangled environment."""
    nD, d, dt = c["nD"], c["d"], c["dtype"]
    nD = max(nD, -(-c["D"] // d))
    cplx, r = n.is_c(dt), n.gen(c["seed"])
    single = n.is_single(dt)
    kind, D = c["gate"], c["D"]
    h, gr = ham(r, kind, d, cplx)
    if gr > D and kind != "product":
        h, gr = ham(r, "product", d, cplx)
    span = c["span"] * (0.4 if single else 1)
    share = r.random()
    G = []
    for f in (share, 1 - share):
        u = n.unitary(r, nD, cplx)
        w = 10.0 ** -(span * f * np.concatenate([[0, 1], r.random(nD)])[:nD])
        G.append((u * w) @ u.conj().T)
    N = n.ein("yY,xX->yxYX", *G) * 10.0 ** c["scale"]
    net = n.make(2, 2, d, D, 4, dt, evolution={"use_gauge_fix": True, "als_method": c["method"], "als_niter": c["niter"], **({"als_epsilon": 1e-6} if single else {})})
    b = net.bond_list[c["bond"]]
    rank = max(1, min(D // gr, nD * d))
    a1, a2 = n.randn(r, (nD, D, d), cplx), n.randn(r, (nD, D, d), cplx)
    if rank < D:
        a1 = n.ein("yup,uv->yvp", a1, n.randn(r, (D, rank), cplx) @ n.randn(r, (rank, D), cplx))
    gate = Gate(n.FreeModel(dt, d, two=lambda q: h), c["dtau"], net.bond_list, net.site_list)
    want = n.ein("yup,xuq->yxpq", a1, a2)
    want = (want.reshape(-1, d * d) @ scipy.linalg.expm(-c["dtau"] * h).T).reshape(want.shape)
    got = FullUpdater(net, gate, net.config.evolution).update_reduced_tensors(n.T(a1, dt), n.T(a2, dt), n.T(N, dt), gate[b])
    got = n.ein("yup,xuq->yxpq", *[n.N(x) for x in got])
    check(np.isfinite(got).all(), "result is not finite")
    e = n.ray_dist(want, got) if cplx else n.dist(want, got)
    tol = (1e-3 if single else 1e-9) + 10 ** span * (1e-6 if single else 1e-14)
    check(e <= tol, "the updated pair is %.2e away from gate times pair (condition 1e%.0f)", e, span)
    if D > 1:
        return [kind, "D=%d" % D, c["method"], "condition 1e%d" % round(span), dt]


reduced_case = case(seed=seeds, dtype=dtypes_mostly_double, nD=st.integers(1, 6), d=st.integers(2, 3), D=st.sampled_from([2, 3, 4]), gate=st.sampled_from(["ab", "product", "generic"]),
                    dtau=st.sampled_from([0.0, 0.01, 0.3]), span=st.sampled_from([10.0, 9.0, 6.0, 2.0]), scale=st.sampled_from([0, 1, 3]), bond=st.integers(0, 7),
                    method=st.sampled_from(["cholesky", "pinv"]), niter=st.sampled_from([100, 3]))


def run_evolve(c):
    nx, ny, d, D, dt = c["nx"], c["ny"], 2, c["D"], c["dtype"]
    if nx * ny > 6:
        D = 2
    elif nx * ny > 4 and D > 3:
        nx = ny = 2
    cplx, r = n.is_c(dt), n.gen(c["seed"])
    torch.manual_seed(c["seed"] % 1000)
    net = n.make(nx, ny, d, D, c["chi"], dt, ctmrg={"steps": 4, "svd_type": c["svd"], "projectors": c["proj"]},
                 evolution={"update_type": c["upd"], "use_gauge_fix": c["gauge"], "als_method": c["method"]})
    B = sorted(net.bond_list, key=tuple)
    tb = B[c["bond"] % len(B)]
    A = n.gapped_state(r, nx, ny, d, D, 0.5 if c["upd"] == "full" else 1.0, cplx)
    steps = 2 if D == 4 and c["gate"] == "ab" else 1
    h, gr = ham(r, c["gate"], d, cplx)
    if gr**steps > D:
        h, gr = ham(r, "product", d, cplx)
    A[tb.s1], A[tb.s2] = limit_rank(r, A[tb.s1], A[tb.s2], tb.k, D // gr**steps, cplx)
    fields = {s: n.herm(r, d, cplx) if r.random() < 0.6 else None for s in net.site_list} if c["fields"] else {s: None for s in net.site_list}
    if gr > 1:
        fields[tb.s1] = fields[tb.s2] = None    # would raise the operator rank of the gate
    dtau = c["dtau"]
    model = n.FreeModel(dt, d, two=lambda q: h if tuple(q) == tuple(tb) else np.zeros((d * d, d * d)), one=lambda s: fields[s])
    n.set_A(net, A, dt)
    S = n.sites(nx, ny)
    psi = n.torus_state(n.get_A(net), nx, ny)
    order = list(net.bond_list)
    scale = 1.0
    for i in range(steps):
        for b in order:
            f1, f2 = (np.zeros((d, d)) if fields[s] is None else fields[s] / 4 for s in (b.s1, b.s2))
            hb = np.kron(f1, np.eye(d)) + np.kron(np.eye(d), f2) + (h if tuple(b) == tuple(tb) else 0)
            p0 = np.linalg.norm(psi)
            psi = n.apply_two(psi, scipy.linalg.expm(-dtau * hb), S.index(b.s1), S.index(b.s2))
        order = order[::-1]
    # the torus vector of a random network can nearly vanish
    net.evolve(dtau=dtau, steps=steps, model=model)
    got = n.get_A(net)
    gs = n.torus_state(got, nx, ny)
    contrast = np.linalg.norm(gs) / np.prod([np.linalg.norm(a) for a in got.values()])
    e = n.ray_dist(psi, gs)
    if not np.isfinite(e):
        check(False, "the state is not finite")
    if contrast < 1e-4:
        return None
    check(e <= c.get("tol", 1e-5), "evolving %d step(s) with a gate on bond %s changes the torus state by %.2e (D=%d)", steps, tuple(tb), e, D)
    return [c["upd"], c["gate"], "D=%d" % D, "steps=%d" % steps, "cell=%dx%d" % (nx, ny), dt]


evolve_case = case(nx=st.sampled_from([2, 3]), ny=st.sampled_from([2, 3]), D=st.sampled_from([2, 4, 3]), chi=st.sampled_from([4, 8]), bond=st.integers(0, 17), gate=st.sampled_from(["ab", "product"]), fields=st.booleans(),
                   dtau=st.sampled_from([0.02, 0.1, 0.4]), upd=st.sampled_from(["full", "simple", "simple"]), gauge=st.booleans(), method=st.sampled_from(["cholesky", "pinv"]), svd=st.sampled_from(["rsvd", "full-rank"]),
                   proj=st.sampled_from(["half-system", "full-system"]), dtype=double, seed=seeds)

LEGS = [Leg("reduced", reduced_case, run_reduced, 400, 10000),
        Leg("full", full_case, run_full, 300, 8000), Leg("evolve", evolve_case, run_evolve, 120, 4000)]
