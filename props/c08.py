"""C08: observables follow translations, rotations, reflections and complex conjugation of the lattice."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, double, case
from vlib import net as n
import numpy as np
import torch

RULE = ("random networks of short correlation length, all sites different, mapped by a random sequence of translations, quarter turns, "
        "reflections and conjugation of the unit cell; the one- and two-site states after renormalization of the mapped network are compared with "
        "the mapped states. Complex conjugation holds also without convergence, on arbitrary networks, and is checked so. "
        "Non-trivial: bond dimension above 1 and at least one operation that is not the identity.")
ASSUMPTIONS = ["gapped states, converged renormalization", "half-system projectors with rsvd resolve the boundary to about 1e-4 only"]
STEP = {0: (-1, 0), 1: (0, 1), 2: (1, 0), 3: (0, -1)}


class Cell:
    """A network and the map of original sites and directions to the present ones."""
    def __init__(self, A, nx, ny):
        self.A, self.nx, self.ny = dict(A), nx, ny
        self.site = {s: s for s in A}
        self.dir = {k: k for k in range(4)}
        self.conj = False

    def apply(self, nx, ny, f, g):
        """Site s moves to f(s) (mod the new cell); direction k becomes direction g[k]."""
        w = lambda s: (f(s)[0] % nx, f(s)[1] % ny)
        inv = {v: k for k, v in g.items()}
        self.A = {w(s): a.transpose([inv[j] for j in range(4)] + [4]) for s, a in self.A.items()}
        self.site = {o: w(s) for o, s in self.site.items()}
        self.dir = {o: g[k] for o, k in self.dir.items()}
        self.nx, self.ny = nx, ny

    def op(self, name, v):
        nx, ny = self.nx, self.ny
        ident = {k: k for k in range(4)}
        if name == "translate":
            self.apply(nx, ny, lambda s: (s[0] + 1 + v % 3, s[1] + v // 3), ident)
        elif name == "rotate":
            self.apply(ny, nx, lambda s: (-s[1], s[0]), {0: 3, 3: 2, 2: 1, 1: 0})
        elif name == "reflect-x":
            self.apply(nx, ny, lambda s: (-s[0], s[1]), {0: 2, 2: 0, 1: 1, 3: 3})
        elif name == "reflect-diagonal":
            self.apply(ny, nx, lambda s: (s[1], s[0]), {2: 1, 1: 2, 0: 3, 3: 0})
        elif name == "conjugate":
            self.A = {s: a.conj() for s, a in self.A.items()}
            self.conj = not self.conj


def measure(c, A, nx, ny, ctm):
    torch.manual_seed(c["seed"] % 1000)
    net = n.make(nx, ny, c["d"], c["D"], c["chi"], c["dtype"], ctmrg=ctm)
    n.set_A(net, A, c["dtype"])
    net.renormalize()
    return n.measured_rhos(net, c["dtype"], c["d"])


def run(c):
    r = n.gen(c["seed"])
    nx, ny, d, D = c["nx"], c["ny"], c["d"], c["D"]
    cplx = n.is_c(c["dtype"])
    only_conj = c["random"]
    if only_conj:
        A = {s: n.nrm(n.randn(r, (D, D, D, D, d), cplx) + 0.5 * r.random((D, D, D, D, d))) for s in n.sites(nx, ny)}
        ctm = {"steps": 2, "svd_type": "full-rank", "projectors": c["proj"]}
        ops = [["conjugate", 0]]
        tol = 1e-6
    else:
        A = n.gapped_state(r, nx, ny, d, D, c["eps"] / 100, cplx)
        ctm = {"steps": 12, "svd_type": c["svd"], "projectors": c["proj"]}
        ops = c["ops"]
        tol = 3e-3 if (c["svd"], c["proj"]) == ("rsvd", "half-system") else 2e-5
    m = Cell(A, nx, ny)
    for name, v in ops:
        m.op(name, v)
    sr, br = measure(c, A, nx, ny, ctm)
    sr2, br2 = measure(c, m.A, m.nx, m.ny, ctm)
    what = " ".join(o for o, _ in ops)
    cj = np.conj if m.conj else (lambda x: x)
    if only_conj:
        e = max([np.abs(sr2[m.site[s]] - np.conj(sr[s])).max() for s in sr] + [np.abs(br2[b] - np.conj(br[b])).max() for b in br])
        if e > tol:
            # singular values that coincide at the truncation make the result depend on rounding: not decidable
            q, q2 = measure(c, {s: x * (1 + 1e-13 * r.standard_normal(x.shape)) for s, x in A.items()}, nx, ny, ctm)
            if max([np.abs(q[k] - sr[k]).max() for k in sr] + [np.abs(q2[k] - br[k]).max() for k in br]) > 1e-8:
                return None
    for s, rho in sr.items():
        e = np.abs(sr2[m.site[s]] - cj(rho)).max()
        check(e <= tol, "%s: the state of site %s differs by %.1e", what, s, e)
    for (s1, s2, k), rho in br.items():
        t1, t2, q = m.site[s1], m.site[s2], m.dir[k]
        rho = rho.reshape(d, d, d, d)
        if q in (0, 3):
            t1, t2, q, rho = t2, t1, (q + 2) % 4, rho.transpose(1, 0, 3, 2)
        check((t1, t2, q) in br2, "%s: bond %s is missing in the mapped network", what, (t1, t2, q))
        e = np.abs(br2[t1, t2, q] - cj(rho.reshape(d * d, d * d))).max()
        check(e <= tol, "%s: the state of bond %s-%s k=%d differs by %.1e", what, s1, s2, k, e)
    if D > 1:
        return sorted({o for o, _ in ops}) + [c["proj"], c["svd"], "cell=%dx%d" % (nx, ny), "D=%d" % D, c["dtype"]]


op = st.tuples(st.sampled_from(["translate", "rotate", "reflect-x", "reflect-diagonal", "conjugate"]), st.integers(0, 8)).map(list)
cases = case(nx=st.integers(1, 4), ny=st.integers(1, 4), d=st.integers(2, 2), D=st.integers(1, 3), chi=st.sampled_from([12, 16]), eps=st.integers(5, 18), random=st.sampled_from([False, False, True]),
             svd=st.sampled_from(["full-rank", "rsvd"]), proj=st.sampled_from(["half-system", "full-system"]), ops=st.lists(op, min_size=1, max_size=3), dtype=double, seed=seeds)

LEGS = [Leg("symmetry", cases, run, 140, 5000)]
