"""C01: a directional move absorbs exactly its column or row when nothing has to be truncated."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, double, case
from vlib import net as n
import numpy as np
import torch
from acetn.ipeps.bond import Bond
from acetn.evolution.gate import Gate
from acetn.evolution.fast_full_update import FastFullUpdater
from acetn.renormalization.directional_mover import DirectionalMover

RULE = ("random site, corner and edge tensors (no symmetry, boundary legs of equal or unequal size) on nx x ny cells; one move in "
        "a generated direction and column, or a generated sequence of moves; open boundary segments of 1 to 3 sites before and "
        "after are contracted with numpy and compared. Cases in which the reference says the environment is numerically singular "
        "are trivial. Non-trivial: bond dimension or boundary dimension above 1.")
ASSUMPTIONS = ["the environment's singular values spread over less than 1e7 (double) or 1e3 (single precision)"]


def quarter(site, m):
    """Rows: leg c of E0 and leg r of the site; columns: leg h of E3 and leg d of the site (frame m)."""
    A, C, E = n.frame(site, m)
    t = n.ein("ab,bcuU->acuU", C[0], E[0])
    t = n.ein("acuU,halL->chuUlL", t, E[3])
    t = n.ein("chuUlL,lurdp->chULrdp", t, A)
    t = n.ein("chULrdp,LURDp->crRhdD", t, A.conj())
    s = t.shape
    return t.reshape(s[0] * s[1] * s[2], s[3] * s[4] * s[5])


def cut_spread(net, x, y, nx, ny, k, full):
    """Singular value spread of the contraction the projectors of cut (x, y) are computed from, and the cut's size."""
    right, up = n.DIRS[(k + 2) % 4], n.DIRS[(k + 1) % 4]
    at = lambda i, j: ((x + i * right[0] - j * up[0]) % nx, (y + i * right[1] - j * up[1]) % ny)
    Q1, Q4 = quarter(net[at(0, 0)], k), quarter(net[at(0, 1)], k + 3)
    dim = Q1.shape[1]
    if full:
        Q2, Q3 = quarter(net[at(1, 0)], k + 1), quarter(net[at(1, 1)], k + 2)
        M = Q2 @ Q1 @ Q4 @ Q3
    else:
        M = Q1 @ Q4
    s = np.linalg.svd(M, compute_uv=False)
    if len(s) < dim or s[dim - 1] <= 0:
        return np.inf, dim
    return s[0] / s[dim - 1], dim


def segment_old(net, line, k):
    """Boundary and the sites of `line` (ordered along leg 1 of the frame), legs: end, (r R) per site, start."""
    t = None
    for i, s in enumerate(line):
        A, C, E = n.frame(net[s], k)
        if i == 0:
            t = n.ein("fgxX,gh->fhxX", E[2], C[3])
            t = t.reshape((t.shape[0], 1) + t.shape[1:])
        t = n.ein("fwhxX,halL->fwaxXlL", t, E[3])
        t = n.ein("fwaxXlL,lurxp->fwaXLurp", t, A)
        t = n.ein("fwaXLurp,LURXp->fwrRauU", t, A.conj())
        f, w, r, R, a, u, U = t.shape
        t = t.reshape(f, w * r * R, a, u, U)
        if i == len(line) - 1:
            t = n.ein("fwauU,ab->fwbuU", t, C[0])
            t = n.ein("fwbuU,bcuU->fwc", t, E[0])
    return t


def segment_new(net, line, k):
    t = None
    for i, s in enumerate(line):
        A, C, E = n.frame(net[s], k)
        if i == 0:
            t = C[3][:, None, :]
        t = n.ein("fwh,halL->fwlLa", t, E[3])
        f, w, l, L, a = t.shape
        t = t.reshape(f, w * l * L, a)
        if i == len(line) - 1:
            t = n.ein("fwa,ab->fwb", t, C[0])
    return t


MOVES = ["left_move", "up_move", "right_move", "down_move"]


def do_move(c, net, mover, k, idx, tol, lim):
    """Returns False when the environment is singular."""
    nx, ny = c["nx"], c["ny"]
    pos = idx % (nx if k in (0, 2) else ny)
    col = [(pos, y) for y in range(ny)] if k in (0, 2) else [(x, pos) for x in range(nx)]
    ref = n.snapshot(net)
    full = c["proj"] == "full-system"
    for s in col:
        spread, dim = cut_spread(ref, s[0], s[1], nx, ny, k, full)
        if not spread < lim:
            return False
        if dim > c["chi"]:
            return False
    getattr(mover, MOVES[k])(net, pos)
    new = n.snapshot(net)
    right, up = n.DIRS[(k + 2) % 4], n.DIRS[(k + 1) % 4]
    shift = lambda s, v, m=1: ((s[0] + m * v[0]) % nx, (s[1] + m * v[1]) % ny)
    target = {shift(s, right) for s in col}
    for s in ref:
        check(np.array_equal(ref[s][0], new[s][0]), "move %s of %d changed the site tensor of %s", MOVES[k], pos, s)
        for i in range(4):
            if not (s in target and i in ((k + 3) % 4, k)):
                check(ref[s][1][i].shape == new[s][1][i].shape and np.array_equal(ref[s][1][i], new[s][1][i]), "move %s of %d changed corner %d of %s", MOVES[k], pos, i, s)
            if not (s in target and i == (k + 3) % 4):
                check(ref[s][2][i].shape == new[s][2][i].shape and np.array_equal(ref[s][2][i], new[s][2][i]), "move %s of %d changed edge %d of %s", MOVES[k], pos, i, s)
    for start in col:
        for L in range(1, c["L"] + 1):
            line = [shift(start, up, i) for i in range(L)]
            a = segment_old(ref, line, k)
            b = segment_new(new, [shift(s, right) for s in line], k)
            check(a.shape == b.shape, "%s of %d: segment %s has legs %s instead of %s", MOVES[k], pos, line, b.shape, a.shape)
            d = n.dist(a, b)
            check(d <= tol, "%s of %d: segment of %d sites from %s differs by %.1e", MOVES[k], pos, L, start, d)
    return True


def build(c, r):
    dt, cplx = c["dtype"], n.is_c(c["dtype"])
    cut = 1e-5 if n.is_single(dt) else 1e-12
    net = n.make(c["nx"], c["ny"], c["d"], c["D"], c["chi"], dt,
                 ctmrg={"projectors": c["proj"], "svd_type": c["svd"], "svd_cutoff": cut})
    if c.get("unequal"):
        dims = n.boundary_dims(r, c["nx"], c["ny"], c["m"])
    else:
        dims = {s: [c["m"]] * 8 for s in net.site_list}
    pos = c.get("positive", False)
    for s in net.site_list:
        dd = dims[s]
        net[s]["A"] = n.T(n.nrm(n.randn(r, (c["D"],) * 4 + (c["d"],), cplx)), dt)
        C = [n.randn(r, (dd[2 * i], dd[2 * i + 1]), cplx) for i in range(4)]
        E = [n.randn(r, (dd[2 * i + 1], dd[(2 * i + 2) % 8], c["D"], c["D"]), cplx) for i in range(4)]
        n.set_env(net, s, [n.nrm(x) for x in C], [n.nrm(x) for x in E], dt)
    return net


def run_move(c):
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    net = build(c, r)
    single = n.is_single(c["dtype"])
    mover = DirectionalMover(net.config.ctmrg)
    ok = do_move(c, net, mover, c["k"], c["idx"], 2e-2 if single else 1e-5, 1e3 if single else 1e7)
    if ok and (c["D"] > 1 or c["m"] > 1):
        return ["k=%d" % c["k"], c["proj"] + "," + c["svd"], "dtype=" + c["dtype"], "cell=%dx%d" % (c["nx"], c["ny"]), "unequal" if c["unequal"] else "equal"]


proj = st.sampled_from(["half-system", "full-system"])
svd = st.sampled_from(["full-rank", "rsvd"])
cells = st.sampled_from([1, 2, 2, 3, 3, 2, 3, 4, 5])
move_case = st.one_of(
    case(nx=cells, ny=cells, d=st.integers(1, 3), D=st.sampled_from([2, 2, 1]), m=st.sampled_from([2, 3, 1]), unequal=st.just(False),
         extra=st.integers(0, 3), k=st.integers(0, 3), idx=st.integers(0, 4), L=st.sampled_from([3, 2, 1]), proj=proj, svd=svd, dtype=dtypes_mostly_double, seed=seeds),
    case(nx=cells, ny=cells, d=st.integers(1, 3), D=st.sampled_from([1, 2]), m=st.sampled_from([4, 3, 5]), unequal=st.just(True),
         extra=st.integers(0, 3), k=st.integers(0, 3), idx=st.integers(0, 4), L=st.sampled_from([3, 2, 1]), proj=proj, svd=svd, dtype=double, seed=seeds),
    case(nx=cells, ny=cells, d=st.integers(1, 2), D=st.sampled_from([3, 1]), m=st.sampled_from([2, 1]), unequal=st.just(False),
         extra=st.integers(0, 3), k=st.integers(0, 3), idx=st.integers(0, 4), L=st.sampled_from([2, 1]), proj=proj, svd=svd, dtype=double, seed=seeds),
).map(lambda c: {**c, "chi": c["m"] * c["D"]**2 + c["extra"]})


def run_seq(c):
    """Several moves one after the other, in any directions, with chi large enough for all of them."""
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    net = build({**c, "unequal": False}, r)
    mover = DirectionalMover(net.config.ctmrg)
    done = 0
    for k, idx in c["moves"]:
        if not do_move(c, net, mover, k, idx, 1e-5, 1e7):
            break
        done += 1
    if done >= 2:
        return ["moves=%d" % done, c["proj"] + "," + c["svd"], "dtype=" + c["dtype"]]


seq_case = case(nx=cells, ny=cells, d=st.integers(1, 3), D=st.sampled_from([1, 2, 2]), m=st.sampled_from([1, 2]), chi=st.just(32), L=st.just(2),
                moves=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 4)), min_size=2, max_size=4), proj=proj, svd=svd, dtype=double, seed=seeds)


def run_absorb(c):
    """After a bond was updated both of its columns (or rows) are absorbed, whichever end the bond is given from."""
    nx, ny, k, dt = c["nx"], c["ny"], c["k"], c["dtype"]
    if not hasattr(FastFullUpdater, "absorb_bond"):
        return None
    nets = []
    for _ in range(2):
        torch.manual_seed(c["seed"] % 1000)
        nets.append(build(c, n.gen(c["seed"])))
    ref, net = nets
    s1 = (c["idx"] % nx, c["idx"] // 3 % ny)
    s2 = ((s1[0] + n.DIRS[k][0]) % nx, (s1[1] + n.DIRS[k][1]) % ny)
    mover = DirectionalMover(ref.config.ctmrg)
    a = 0 if k in (0, 2) else 1
    moves = [((k + 2) % 4, s1[a]), (k, s2[a])]
    for m, pos in moves:
        if not do_move(c, ref, mover, m, pos, 1e-5, 1e7):
            return None
    gate = Gate(n.FreeModel(dt, c["d"], two=lambda b: np.zeros((c["d"]**2,) * 2)), 0.1, net.bond_list, net.site_list)
    FastFullUpdater(net, gate, net.config.evolution).absorb_bond(Bond(s1, s2, k))
    x, y = n.snapshot(ref), n.snapshot(net)
    for s in x:
        for m in (k, (k + 2) % 4):
            up = n.DIRS[(m + 1) % 4]
            for L in (1, 2):
                line = [((s[0] + i * up[0]) % nx, (s[1] + i * up[1]) % ny) for i in range(L)]
                p, q = segment_new(x, line, m), segment_new(y, line, m)
                check(p.shape == q.shape, "absorbing bond %s-%s: boundary %d of %s has legs %s instead of %s", s1, s2, m, line, q.shape, p.shape)
                d = n.dist(p, q)
                check(d <= 1e-5, "absorbing bond %s-%s, k=%d: boundary %d of %s differs by %.1e from the two moves", s1, s2, k, m, line, d)
    if c["D"] > 1 or c["m"] > 1:
        return ["k=%d" % k, "cell=%dx%d" % (nx, ny), dt]


absorb_case = case(nx=cells, ny=cells, d=st.integers(1, 2), D=st.sampled_from([1, 2, 2]), m=st.sampled_from([1, 2]), unequal=st.just(False), chi=st.just(32), L=st.just(1), k=st.integers(0, 3),
                   idx=st.integers(0, 8), proj=st.just("half-system"), svd=svd, dtype=double, seed=seeds).filter(lambda c: c["nx"] > 1 if c["k"] in (0, 2) else c["ny"] > 1)

LEGS = [Leg("move", move_case, run_move, 2400, 20000), Leg("sequence", seq_case, run_seq, 600, 5000), Leg("absorb", absorb_case, run_absorb, 400, 4000)]
