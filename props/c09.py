"""C09: the bond list is exactly the periodic square lattice."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, double, case
from vlib import net as n
import os, shutil, tempfile
import numpy as np
import torch
from acetn.ipeps import Ipeps
from acetn.ipeps.tensor_network import TensorNetwork
from acetn.model.model import Model

RULE = ("cells of 1x1 to 6x6 (evolution from 2x2) and random histories of copy, to, save, load, evolve, renormalize and construction "
        "from another network; the site and bond lists are compared with an independent coordinate model after every step; one "
        "generated bond is entangled (directly or by evolving) and correlations must appear on exactly that bond. Non-trivial: "
        "more than one site and (histories) at least one operation.")
ASSUMPTIONS = []
NAMES = {0: "-x", 1: "+y", 2: "+x", 3: "-y"}


def expected(nx, ny):
    b = set()
    for x in range(nx):
        for y in range(ny):
            b.add(((x, y), ((x + 1) % nx, y), 2))
            b.add(((x, y), (x, (y + 1) % ny), 1))
    return b


def verify(net, nx, ny, what):
    S = [tuple(s) for s in net.site_list]
    check(sorted(S) == sorted(n.sites(nx, ny)), "%s: sites %s", what, S)
    B = [tuple(b) for b in net.bond_list]
    check(len(B) == 2 * nx * ny and len(set(B)) == len(B), "%s: %d bonds, %d distinct", what, len(B), len(set(B)))
    B = [(tuple(a), tuple(b), k) for a, b, k in B]
    check(set(B) == expected(nx, ny), "%s: wrong bonds %s, missing %s", what, sorted(set(B) - expected(nx, ny)), sorted(expected(nx, ny) - set(B)))
    for b in net.bond_list:
        k = b.k
        check(Model.bond_direction(b) == NAMES[k], "%s: bond_direction(%s) = %s", what, b, Model.bond_direction(b))
        check(((b.s1[0] + n.DIRS[k][0]) % nx, (b.s1[1] + n.DIRS[k][1]) % ny) == b.s2, "%s: bond %s does not lead along its direction", what, b)
    for s in S:
        check(net[s]["A"] is not None, "%s: no tensor at %s", what, s)


def run_history(c):
    torch.manual_seed(1)
    nx, ny, dt = c["nx"], c["ny"], c["dtype"]
    mk = lambda: n.make(nx, ny, 2, 1, 2, dt, ctmrg={"steps": 1}, evolution={"update_type": c["upd"]}, model={"name": "ising", "params": {"jz": 1.0, "hx": 0.5}})
    net = mk()
    verify(net, nx, ny, "fresh network")
    tmp = tempfile.mkdtemp(prefix="verif-c09-")
    done = []
    try:
        for op in c["ops"]:
            if op == "copy":
                cp = net.copy()
                verify(cp, nx, ny, "copy after %s" % done)
                net2 = Ipeps(n.config(nx, ny, 2, 1, 2, dt, {"steps": 1}, {"update_type": c["upd"]}, {"name": "ising", "params": {"jz": 1.0, "hx": 0.5}}), ipeps=cp)
                verify(net2, nx, ny, "network from a copy after %s" % done)
                net = net2
            elif op == "to":
                verify(net.to(dtype=torch.complex64), nx, ny, "converted network after %s" % done)
            elif op == "saveload":
                f = os.path.join(tmp, "s.pt")
                net.save(f)
                net = mk()
                net.load(f)
            elif op == "evolve" and nx > 1 and ny > 1:
                net.evolve(dtau=0.05, steps=1)
            elif op == "evolve2" and nx > 1 and ny > 1:
                net.evolve(dtau=0.05, steps=2)
            elif op == "renormalize":
                net.renormalize()
            elif op == "measure":
                net.measure()
            else:
                continue
            done.append(op)
            verify(net, nx, ny, "after %s" % done)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if nx * ny > 1 and done:
        return ["cell=%dx%d" % (nx, ny)] + sorted(set(done))


dims6 = st.sampled_from([2, 3, 4, 5, 6, 1, 3])
hist_case = case(nx=dims6, ny=dims6, dtype=double, upd=st.sampled_from(["simple", "full"]),
                 ops=st.lists(st.sampled_from(["copy", "to", "saveload", "evolve", "evolve2", "renormalize", "measure"]), min_size=1, max_size=4))


def run_pair(c):
    """One entangled bond: correlations on exactly that bond."""
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    nx, ny, dt, cplx = c["nx"], c["ny"], c["dtype"], n.is_c(c["dtype"])
    net = n.make(nx, ny, 2, 2, 8, dt, ctmrg={"steps": 2 + max(nx, ny), "svd_type": "full-rank"}, evolution={"update_type": c["upd"]})
    B = net.bond_list
    target = tuple(sorted(B, key=tuple)[c["bond"] % len(B)])
    s1, s2, k = target
    v = {s: n.nrm(n.randn(r, (2,), cplx)) for s in net.site_list}
    A = {}
    for s in net.site_list:
        a = np.zeros((2,) * 4 + (2,), complex)
        a[0, 0, 0, 0] = v[s]
        A[s] = a
    if c["how"] == "direct":
        psi = n.nrm(n.randn(r, (2, 2), cplx))
        for s, leg in ((s1, k), (s2, (k + 2) % 4)):
            a = np.zeros((2,) * 4 + (2,), complex)
            m = psi.T if s == s1 else np.eye(2)
            a = np.moveaxis(a, leg, 0)
            a[:, 0, 0, 0, :] = m
            A[s] = np.moveaxis(a, 0, leg)
        # psi[p, q] = sum_i A1[i, p] A2[i, q]
        n.set_A(net, A, dt)
        net.renormalize()
    else:
        # a Schmidt-rank 2 gate, as diagonal interactions in a random basis
        u1, u2 = n.unitary(r, 2, cplx), n.unitary(r, 2, cplx)
        w = [float(x) for x in r.normal(size=2)]
        Z = np.diag([1.0, -1.0])
        h = np.kron(u1 @ Z @ u1.conj().T, u2 @ Z @ u2.conj().T) * 2.0 + w[0] * np.kron(u1 @ Z @ u1.conj().T, np.eye(2)) + w[1] * np.kron(np.eye(2), u2 @ Z @ u2.conj().T)
        model = n.FreeModel(dt, 2, two=lambda b: h if tuple(b) == target else np.zeros((4, 4)))
        n.set_A(net, A, dt)
        net.evolve(dtau=0.3, steps=1, model=model)
        import scipy.linalg
        psi = n.nrm((scipy.linalg.expm(-0.3 * h) @ np.kron(v[s1], v[s2])).reshape(2, 2))
    sr, br = n.measured_rhos(net, dt, 2)
    one = {s: np.outer(v[s], v[s].conj()) for s in net.site_list}
    one[s1] = psi @ psi.conj().T
    one[s2] = psi.T @ psi.conj()
    tol = 1e-5
    for s in net.site_list:
        check(np.abs(sr[s] - one[s]).max() <= tol, "state of site %s is off by %.1e with bond %s entangled", s, np.abs(sr[s] - one[s]).max(), target)
    for b in net.bond_list:
        e = np.outer(psi.ravel(), psi.ravel().conj()) if tuple(b) == target else np.kron(one[b.s1], one[b.s2])
        d = np.abs(br[tuple(b)] - e).max()
        check(d <= tol, "bond %s is off by %.1e with bond %s entangled", b, d, target)
    return ["cell=%dx%d" % (nx, ny), c["how"], "k=%d" % k, c["upd"]]


pair_case = case(nx=st.sampled_from([2, 3, 4]), ny=st.sampled_from([2, 3, 4]), bond=st.integers(0, 31), how=st.sampled_from(["direct", "evolve"]),
                 upd=st.sampled_from(["simple", "full"]), dtype=double, seed=seeds)

LEGS = [Leg("history", hist_case, run_history, 220, 6000), Leg("pair", pair_case, run_pair, 80, 3000)]
