"""C04: boundary tensors stay consistent, bounded by chi and normalized through any history."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, case
from vlib import net as n
import numpy as np
import torch

RULE = ("histories of 2 to 7 operations on cells of 1x1 to 4x4 sites: changing chi up and down, renormalizing a number of sweeps (with "
        "either projector type), evolving with either update, and assigning new site tensors of any scale; the structure of the boundary "
        "is examined after every operation. Non-trivial: the history contains a renormalization and at least one other kind of operation.")
ASSUMPTIONS = ["cells of at least two sites per direction where the history evolves", "single precision uses svd_cutoff=1e-5 and als_epsilon=1e-6"]


def structure(net, c, swept, chi, what):
    nx, ny, D = c["nx"], c["ny"], c["D"]
    ring = {}
    for s in net.site_list:
        C, E, A = net[s]["C"], net[s]["E"], net[s]["A"]
        check(tuple(A.shape) == (D, D, D, D, c["d"]), "%s: site tensor of %s has shape %s", what, s, tuple(A.shape))
        check(len(C) == 4 and len(E) == 4, "%s: %d corners, %d edges at %s", what, len(C), len(E), s)
        legs = []
        for k in range(4):
            check(C[k].dim() == 2 and E[k].dim() == 4 and tuple(E[k].shape[2:]) == (D, D), "%s: site %s, shapes %s %s", what, s, tuple(C[k].shape), tuple(E[k].shape))
            check(C[k].shape[1] == E[k].shape[0], "%s: site %s: corner %d %s does not fit edge %d %s", what, s, k, tuple(C[k].shape), k, tuple(E[k].shape))
            check(E[k].shape[1] == C[(k + 1) % 4].shape[0], "%s: site %s: edge %d does not fit corner %d", what, s, k, (k + 1) % 4)
            legs += [C[k].shape[0], C[k].shape[1]]
            if swept:
                for t, name in ((C[k], "corner"), (E[k], "edge")):
                    check(max(t.shape[:2]) <= chi, "%s: site %s: %s %d has bonds %s, chi is %d", what, s, name, k, tuple(t.shape[:2]), chi)
                    check(bool(torch.isfinite(t).all()), "%s: site %s: %s %d is not finite", what, s, name, k)
                    check(abs(float(t.norm()) - 1) < (1e-5 if n.is_single(c["dtype"]) else 1e-12), "%s: site %s: %s %d has norm %.6g", what, s, name, k, float(t.norm()))
                    check(t.dtype == n.TD[c["dtype"]], "%s: dtype %s", what, t.dtype)
        ring[s] = legs
    for (x, y) in net.site_list:
        X, Y = ((x + 1) % nx, y), (x, (y + 1) % ny)
        a, b, c_, d, e, f, g, h = ring[x, y]
        check(c_ == ring[X][1] and f == ring[X][6], "%s: boundary legs of %s and its right neighbour: %s %s", what, (x, y), ring[x, y], ring[X])
        check(d == ring[Y][4] and a == ring[Y][7], "%s: boundary legs of %s and its upper neighbour: %s %s", what, (x, y), ring[x, y], ring[Y])


def run(c):
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    nx, ny, d, D, dt = c["nx"], c["ny"], c["d"], c["D"], c["dtype"]
    cplx, single = n.is_c(dt), n.is_single(dt)
    net = n.make(nx, ny, d, D, c["chi"], dt, ctmrg={"steps": 1, "svd_type": c["svd"], "projectors": c["proj"], **({"svd_cutoff": 1e-5} if single else {})},
                 evolution={"update_type": c["upd"], "use_gauge_fix": c["gauge"], **({"als_epsilon": 1e-6} if single else {})})

    def fresh(eps, scale):
        A = n.gapped_state(r, nx, ny, d, D, eps, cplx)
        n.set_A(net, {s: a * 10.0 ** scale for s, a in A.items()}, dt, env=False)
    fresh(0.3, 0)
    for s in net.site_list:
        net[s].initialize_corner_tensors()
        net[s].initialize_edge_tensors()
    chi, swept, kinds = c["chi"], False, set()
    structure(net, c, False, chi, "at the start")
    H = {tuple(b): n.herm(r, d * d, cplx) for b in net.bond_list}
    model = n.FreeModel(dt, d, two=lambda b: H[tuple(b)])
    for i, (op, v) in enumerate(c["ops"]):
        what = "after operation %d (%s %s)" % (i + 1, op, v)
        if op == "chi":
            chi = [1, 2, 3, 4, 6, 9, 12][v]
            net.set_chi(chi)
            check(net.dims["chi"] == chi, "set_chi(%d) left %s", chi, net.dims["chi"])
            kinds.add("chi")
            # the tensors keep their sizes until the next sweep
            structure(net, c, False, chi, what)
            swept = False
            continue
        if op == "renormalize":
            net.config.ctmrg.steps = 1 + v % 3
            before = {s: n.N(net[s]["A"]).copy() for s in net.site_list}
            net.renormalize()
            check(all(np.array_equal(before[s], n.N(net[s]["A"])) for s in before), "%s: renormalize changed a site tensor", what)
            swept = True
            kinds.add("renormalize")
        elif op == "evolve" and nx > 1 and ny > 1:
            net.config.ctmrg.steps = 1 + v % 2
            net.evolve([0.01, 0.1, 0.05][v % 3], v % 3, model)
            swept = True
            kinds.add("evolve")
        elif op == "assign":
            fresh([0.1, 0.3, 1.0][v % 3], [0, 3, -3][v % 3])
            kinds.add("assign")
        elif op == "projectors":
            net.config.ctmrg.projectors = ["half-system", "full-system"][v % 2]
        structure(net, c, swept, chi, what)
        if swept:
            check(all(bool(torch.isfinite(net[s]["A"]).all()) for s in net.site_list), "%s: site tensors are not finite", what)
    if len(kinds) > 1 and kinds & {"renormalize", "evolve"}:
        return [k for k in sorted(kinds)] + ["dtype=" + dt, "cell=%dx%d" % (nx, ny), "D=%d" % D, c["svd"]]


op = st.tuples(st.sampled_from(["renormalize", "chi", "evolve", "renormalize", "assign", "projectors"]), st.integers(0, 6)).map(list)
cases = case(nx=st.integers(1, 4), ny=st.integers(1, 4), d=st.integers(1, 3), D=st.integers(1, 3), chi=st.sampled_from([4, 1, 2, 9, 12, 6]),
             ops=st.lists(op, min_size=2, max_size=7), svd=st.sampled_from(["full-rank", "rsvd"]), proj=st.sampled_from(["half-system", "full-system"]),
             upd=st.sampled_from(["full", "simple"]), gauge=st.booleans(), dtype=dtypes_mostly_double, seed=seeds)

LEGS = [Leg("history", cases, run, 300, 12000)]
