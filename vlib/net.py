"""Building networks of the code under test from generated cases, and dense numpy references."""
from . import core
import types
import numpy as np
import torch
from acetn.ipeps import Ipeps
from acetn.ipeps.bond import Bond
from acetn.model.model import Model

TD = {"float64": torch.float64, "float32": torch.float32, "complex128": torch.complex128, "complex64": torch.complex64}
DIRS = {0: (-1, 0), 1: (0, 1), 2: (1, 0), 3: (0, -1)}


def is_c(dt):
    return dt.startswith("complex")


def is_single(dt):
    return dt in ("float32", "complex64")


def eps_of(dt):
    return 1.2e-7 if is_single(dt) else 2.3e-16


def gen(seed):
    return np.random.Generator(np.random.PCG64(seed))


def randn(r, shape, cplx):
    x = r.standard_normal(shape)
    return x + 1j * r.standard_normal(shape) if cplx else x


def herm(r, n, cplx):
    x = randn(r, (n, n), cplx)
    return (x + x.conj().T) / 2


def unitary(r, n, cplx):
    q, t = np.linalg.qr(randn(r, (n, n), cplx))
    return q * (np.diag(t) / np.abs(np.diag(t)))


def T(x, dt):
    x = np.asarray(x)
    return torch.tensor(x if is_c(dt) or not np.iscomplexobj(x) else x.real).to(TD[dt])


def N(t):
    return t.detach().resolve_conj().resolve_neg().cpu().numpy().astype(np.complex128)


def config(nx, ny, d, D, chi, dt, ctmrg=None, evolution=None, model=None):
    c = {"dtype": dt, "device": "cpu", "TN": {"nx": nx, "ny": ny, "dims": {"phys": d, "bond": D, "chi": chi}},
         "ctmrg": {"disable_progressbar": True, **(ctmrg or {})},
         "evolution": {"disable_progressbar": True, **(evolution or {})}}
    if model is not None:
        c["model"] = model
    return c


def make(nx, ny, d, D, chi, dt, ctmrg=None, evolution=None, model=None):
    return Ipeps(config(nx, ny, d, D, chi, dt, ctmrg, evolution, model))


def sites(nx, ny):
    return [(x, y) for x in range(nx) for y in range(ny)]


def set_A(net, A, dt, env=True):
    """Give every site the tensor A[site] and (optionally) the default boundary tensors made from it."""
    for s, a in A.items():
        net[s]["A"] = T(a, dt)
        if env:
            net[s].initialize_corner_tensors()
            net[s].initialize_edge_tensors()
    net.site_states_initialized = True


def get_A(net):
    return {s: N(net[s]["A"]) for s in net.site_list}


def snapshot(net):
    """All tensors of a network as numpy copies."""
    return {s: (N(net[s]["A"]).copy(), [N(c).copy() for c in net[s]["C"]], [N(e).copy() for e in net[s]["E"]]) for s in net.site_list}


def same(a, b, tol=0.0):
    if a.keys() != b.keys():
        return False
    for s in a:
        for x, y in zip([a[s][0]] + a[s][1] + a[s][2], [b[s][0]] + b[s][1] + b[s][2]):
            if x.shape != y.shape or not np.all(np.abs(x - y) <= tol):
                return False
    return True


# ---------------------------------------------------------------- models

class FreeModel(Model):
    """A model whose operators are given as dictionaries or functions."""
    def __init__(self, dt, dim, two=None, one=None, oneobs=None, twoobs=None, init=None, params=None):
        super().__init__(types.SimpleNamespace(name="free", params=params or {}, dtype=TD[dt], device=torch.device("cpu"), dim=dim))
        self._dt, self._two, self._one, self._oneobs, self._twoobs, self._init = dt, two, one, oneobs, twoobs, init

    def _op(self, o):
        return o if o is None or isinstance(o, torch.Tensor) or hasattr(o, "mat") else T(o, self._dt)

    def initial_site_state(self, site):
        return self._init(site) if self._init is not None else super().initial_site_state(site)

    def one_site_hamiltonian(self, site=None):
        return self._op(self._one(site)) if self._one is not None else None

    def two_site_hamiltonian(self, bond=None):
        if self._two is None:
            return torch.zeros(self.dim**2, self.dim**2, dtype=self.dtype)
        return self._op(self._two(bond))

    def one_site_observables(self, site=None):
        return {k: self._op(v) for k, v in self._oneobs(site).items()} if self._oneobs is not None else {}

    def two_site_observables(self, bond=None):
        return {k: self._op(v) for k, v in self._twoobs(bond).items()} if self._twoobs is not None else {}


def unit(n, a, b, val=1.0):
    m = np.zeros((n, n), dtype=complex)
    m[a, b] = val
    return m


def measured_rhos(net, dt, d, which="both"):
    """Every normalised one- and two-site density matrix, reconstructed only from measure().

    Measures each matrix unit (times 1 and, for complex types, times i) on one site or bond and zero elsewhere.
    """
    cplx = is_c(dt)
    S = list(net.site_list)
    B = list(net.bond_list)
    vals = [(1.0, "r")] + ([(1j, "i")] if cplx else [])

    def oneobs(site):
        i = S.index(tuple(site))
        o = {}
        for j in range(len(S)):
            for a in range(d):
                for b in range(d):
                    for v, t in vals:
                        o["o%d_%d_%d_%s" % (j, a, b, t)] = unit(d, a, b, v) if i == j else np.zeros((d, d))
        return o

    def twoobs(bond):
        i = B.index(bond)
        o = {}
        for j in range(len(B)):
            for a in range(d * d):
                for b in range(d * d):
                    for v, t in vals:
                        o["t%d_%d_%d_%s" % (j, a, b, t)] = unit(d * d, a, b, v) if i == j else np.zeros((d * d, d * d))
        return o
    m = FreeModel(dt, d, oneobs=oneobs if which in ("both", "site") else None, twoobs=twoobs if which in ("both", "bond") else None)
    r = net.measure(m)
    r = {k: complex(v).real for k, v in r.items()}
    sr, br = {}, {}
    if which in ("both", "site"):
        for j, s in enumerate(S):
            rho = np.zeros((d, d), dtype=complex)
            for a in range(d):
                for b in range(d):
                    # Tr(rho E_ab) = rho_ba
                    rho[b, a] = r["o%d_%d_%d_r" % (j, a, b)] * len(S)
                    if cplx:
                        rho[b, a] += -1j * r["o%d_%d_%d_i" % (j, a, b)] * len(S)
            sr[s] = rho
    if which in ("both", "bond"):
        n = d * d
        for j, bd in enumerate(B):
            rho = np.zeros((n, n), dtype=complex)
            for a in range(n):
                for b in range(n):
                    rho[b, a] = r["t%d_%d_%d_r" % (j, a, b)] * len(B)
                    if cplx:
                        rho[b, a] += -1j * r["t%d_%d_%d_i" % (j, a, b)] * len(B)
            br[(bd.s1, bd.s2, bd.k)] = rho
    return sr, br


# ---------------------------------------------------------------- frames and dense references

def frame_A(A, m):
    """Legs l,u,r,d of the rotated frame are legs m, m+1, m+2, m+3 of the tensor."""
    return A.transpose([(i + m) % 4 for i in range(4)] + [4])


def frame(site, m):
    A, C, E = site
    return frame_A(A, m) if A is not None else None, [C[(i + m) % 4] for i in range(4)], [E[(i + m) % 4] for i in range(4)]


def ein(expr, *ops):
    return np.einsum(expr, *ops, optimize="greedy")


def ref_site_rho(net, site):
    """Unnormalised density matrix rho[p, P] = psi_p psi*_P of one site, contracted with its boundary tensors."""
    A, C, E = net[site]
    left = ein("gh,halL,ab->gblL", C[3], E[3], C[0])
    left = ein("gblL,bcuU->gclLuU", left, E[0])
    left = ein("gclLuU,lurxp->gcLUrxp", left, A)
    left = ein("gcLUrxp,LURXP->gcrxpRXP", left, A.conj())
    right = ein("cd,derR,ef->cfrR", C[1], E[1], C[2])
    right = ein("cfrR,fgxX->cgrRxX", right, E[2])
    return ein("gcrxpRXP,cgrRxX->pP", left, right)


def ref_bond_rho(net, s1, s2, k):
    """Unnormalised rho[(p q), (P Q)] of the bond from s1 along direction k to s2."""
    m = (k + 2) % 4
    A1, C1, E1 = frame(net[s1], m)
    A2, C2, E2 = frame(net[s2], m)
    L = ein("ij,jalL,ab->iblL", C1[3], E1[3], C1[0])
    L = ein("iblL,bcuU->iclLuU", L, E1[0])
    L = ein("iclLuU,lurxp->icLUrxp", L, A1)
    L = ein("icLUrxp,LURXP->icrxpRXP", L, A1.conj())
    L = ein("icrxpRXP,hixX->hcrRpP", L, E1[2])
    R = ein("de,efrR,fg->dgrR", C2[1], E2[1], C2[2])
    R = ein("dgrR,cduU->cgrRuU", R, E2[0])
    R = ein("cgrRuU,lurxq->cgRUlxq", R, A2)
    R = ein("cgRUlxq,LURXQ->cglxqLXQ", R, A2.conj())
    R = ein("cglxqLXQ,ghxX->chlLqQ", R, E2[2])
    rho = ein("hcrRpP,chrRqQ->pqPQ", L, R)
    d = A1.shape[4]
    return rho.reshape(d * d, d * d)


def psd_env(r, D, chis, S, cplx):
    """Corner and edge tensors whose contraction is a positive environment: each is a sum over S of ket x bra.

    chis[i]: (ket) dimension m of the i-th of the 8 boundary legs in clockwise order starting between E3 and C0;
    the leg has dimension m*m.
    """
    C, E = [], []
    for i in range(4):
        a, b = chis[2 * i], chis[2 * i + 1]
        c = randn(r, (S, a, b), cplx)
        C.append(np.einsum("sab,sAB->aAbB", c, c.conj()).reshape(a * a, b * b))
        a, b = chis[2 * i + 1], chis[(2 * i + 2) % 8]
        e = randn(r, (S, a, b, D), cplx)
        E.append(np.einsum("sabx,sABX->aAbBxX", e, e.conj()).reshape(a * a, b * b, D, D))
    return [c / np.linalg.norm(c) for c in C], [e / np.linalg.norm(e) for e in E]


def set_env(net, site, C, E, dt):
    net[site]["C"] = [T(c, dt) for c in C]
    net[site]["E"] = [T(e, dt) for e in E]


def nrm(x):
    return x / np.linalg.norm(x)


def dist(x, y):
    """Distance of two tensors up to a positive factor."""
    return float(np.linalg.norm(nrm(x) - nrm(y)))


def ray_dist(x, y):
    """Distance of two vectors up to a complex factor."""
    x, y = nrm(x).ravel(), nrm(y).ravel()
    o = np.vdot(x, y)
    return float(np.linalg.norm(y - x * o))


def boundary_dims(r, nx, ny, mmax):
    """Random boundary leg sizes, consistent between neighbouring sites; returns site -> 8 sizes (clockwise)."""
    h0, h2, v1, v3 = (r.integers(1, mmax + 1, size=(nx, ny)) for _ in range(4))
    out = {}
    for x, y in sites(nx, ny):
        X, Y = (x + 1) % nx, (y + 1) % ny
        out[x, y] = [int(i) for i in (v3[x, Y], h0[x, y], h0[X, y], v1[x, Y], v1[x, y], h2[X, y], h2[x, y], v3[x, y])]
    return out


def random_psd_network(r, nx, ny, d, D, mmax, S, cplx):
    """site -> (A, C, E) with arbitrary tensors and positive boundary tensors of consistent, unequal sizes."""
    dims = boundary_dims(r, nx, ny, mmax)
    out = {}
    for s in sites(nx, ny):
        C, E = psd_env(r, D, dims[s], S, cplx)
        out[s] = (nrm(randn(r, (D, D, D, D, d), cplx)), C, E)
    return out


def load_network(net, ref, dt):
    for s, (A, C, E) in ref.items():
        net[s]["A"] = T(A, dt)
        set_env(net, s, C, E, dt)
    net.site_states_initialized = True


def gapped_state(r, nx, ny, d, D, eps, cplx):
    """Random product state plus entangling terms of relative size eps: short correlation length."""
    A = {}
    for s in sites(nx, ny):
        a = randn(r, (D, D, D, D, d), cplx)
        a = eps * a / np.linalg.norm(a) * np.sqrt(D**4) * 0.5
        v = nrm(randn(r, (d,), cplx))
        a[0, 0, 0, 0] += v
        A[s] = a / np.linalg.norm(a)
    return A


# ---------------------------------------------------------------- bond updates

def pair_frame(A1, A2, k):
    """The two tensors of a bond with legs l, u, r, d in the frame where the bond is the r leg of the first one."""
    m = (k + 2) % 4
    return frame_A(A1, m), frame_A(A2, m)


def split_first(a):
    """a[l,u,r,d,p] = sum_y q[l,u,d,y] R[y,r,p]"""
    D, d = a.shape[0], a.shape[4]
    q, t = np.linalg.qr(a.transpose(0, 1, 3, 2, 4).reshape(D**3, D * d))
    return q.reshape(D, D, D, -1), t.reshape(-1, D, d)


def split_second(a):
    """a[l,u,r,d,p] = sum_x q[u,r,d,x] R[x,l,p]"""
    D, d = a.shape[0], a.shape[4]
    q, t = np.linalg.qr(a.transpose(1, 2, 3, 0, 4).reshape(D**3, D * d))
    return q.reshape(D, D, D, -1), t.reshape(-1, D, d)


def ref_norm(net, s1, s2, k, q1, q2):
    """Norm of the reduced tensors: N[(y x), (Y X)], so that <b|a> = sum a[yx] N[yx, YX] conj(b[YX])."""
    m = (k + 2) % 4
    _, C1, E1 = frame(net[s1], m)
    _, C2, E2 = frame(net[s2], m)
    L = ein("ij,jalL,ab->iblL", C1[3], E1[3], C1[0])
    L = ein("iblL,bcuU->iclLuU", L, E1[0])
    L = ein("iclLuU,ludy->icLUdy", L, q1)
    L = ein("icLUdy,LUDY->icdyDY", L, q1.conj())
    L = ein("icdyDY,hidD->hcyY", L, E1[2])
    R = ein("de,efrR,fg->dgrR", C2[1], E2[1], C2[2])
    R = ein("dgrR,cduU->cgrRuU", R, E2[0])
    R = ein("cgrRuU,urDx->cgRUDx", R, q2)
    R = ein("cgRUDx,URMX->cgDMxX", R, q2.conj())
    R = ein("cgDMxX,ghDM->chxX", R, E2[2])
    return ein("hcyY,chxX->yxYX", L, R)


def torus_state(A, nx, ny):
    """State vector of the finite nx x ny torus, indices in the order of sites()."""
    ops, sub = [], []
    S = sites(nx, ny)
    d = next(iter(A.values())).shape[4]
    lab = {}

    def idx(key):
        return lab.setdefault(key, len(lab))
    for x, y in S:
        l, dn = idx(("h", (x - 1) % nx, y)), idx(("v", x, (y - 1) % ny))
        rr, u = idx(("h", x, y)), idx(("v", x, y))
        ops += [A[x, y], [l, u, rr, dn, idx(("p", x, y))]]
    out = [lab["p", x, y] for x, y in S]
    return np.einsum(*ops, out, optimize="greedy").reshape((d,) * len(S))


def apply_two(psi, g, i, j):
    """Apply the (d*d, d*d) matrix g to axes i, j of psi."""
    d = psi.shape[0]
    psi = np.moveaxis(psi, (i, j), (0, 1))
    sh = psi.shape
    psi = (g @ psi.reshape(d * d, -1)).reshape(sh)
    return np.moveaxis(psi, (0, 1), (i, j))


def apply_one(psi, g, i):
    return np.moveaxis(np.tensordot(g, psi, (1, i)), 0, i)
