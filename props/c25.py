"""C25: evolution continues from the existing state."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, double, case
from vlib import net as n
import os, shutil, tempfile
import numpy as np
import scipy.linalg
import torch
from acetn.ipeps import Ipeps
from acetn.model.model import Model
from acetn.model.pauli_matrix import pauli_matrices

RULE = ("histories over up to three networks: evolving under site-dependent fields (updates are exact), changing model parameters, models and "
        "chi, renormalizing, measuring, saving and loading, copying and building networks from other networks; a model holds the site tensors every "
        "network should have, and the measured states and energy are compared with it at the end and after every evolution. A second leg splits "
        "evolutions with exactly representable interactions into consecutive calls. Non-trivial: at least two evolutions, one of them on a "
        "network that already has a state.")
ASSUMPTIONS = ["cells of at least two sites per direction", "bond dimension 1 or short correlation length (gapped states) for bond dimension 2"]


class Rotor(Model):
    """A field in the x-z plane that depends on the site, the parameters and the class."""
    w = 0.0

    def initial_site_state(self, site):
        t = 0.3 + 0.7 * site[0] + 1.1 * site[1] + self.w
        return [float(np.cos(t)), float(np.sin(t))]

    def one_site_observables(self, site):
        X, Y, Z, I = pauli_matrices(self.dtype, self.device)
        return {"x": X, "z": Z}

    def one_site_hamiltonian(self, site):
        X, Y, Z, I = pauli_matrices(self.dtype, self.device)
        return self.params["a"] * X + self.params["b"] * (1 + 0.5 * site[0] - 0.25 * site[1] + self.w) * Z

    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)


class Rotor2(Rotor):
    w = 0.8


CLS = [Rotor, Rotor2]
SX, SZ = np.array([[0, 1], [1, 0.0]]), np.diag([1.0, -1.0])


def field(w, p, s):
    return p["a"] * SX + p["b"] * (1 + 0.5 * s[0] - 0.25 * s[1] + w) * SZ


class Ref:
    """Expected content of one network."""
    def __init__(self, A, fresh, cls, params, chi):
        self.A, self.fresh, self.cls, self.params, self.chi = A, fresh, cls, dict(params), chi


def site_states(A, c):
    """One-site states of the tensors A: exact for bond dimension 1, otherwise from an independent renormalization."""
    if c["D"] == 1:
        return {s: np.outer(v := n.nrm(a.ravel()), v.conj()) for s, a in A.items()}
    net = n.make(c["nx"], c["ny"], 2, c["D"], 10, c["dtype"], ctmrg={"steps": 12, "svd_type": "full-rank"})
    n.set_A(net, {s: n.nrm(a) for s, a in A.items()}, c["dtype"])
    net.renormalize()
    return n.measured_rhos(net, c["dtype"], 2, which="site")[0]


def run(c):
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    nx, ny, D, dt = c["nx"], c["ny"], c["D"], c["dtype"]
    cplx = n.is_c(dt)
    S = n.sites(nx, ny)
    tol = 1e-7 if D == 1 else 2e-4
    steps = 8 if D > 1 else 2
    cfg = n.config(nx, ny, 2, D, 8, dt, ctmrg={"steps": steps, "svd_type": "full-rank"}, evolution={"update_type": c["upd"]})
    p0 = {"a": 0.4, "b": -0.7}

    def new(src=None):
        net = Ipeps(cfg, ipeps=src)
        net.set_model(CLS[0], p0, name="verif_c25")
        return net
    nets, refs = [], []

    def put(net, ref):
        if len(nets) < 3:
            nets.append(net)
            refs.append(ref)
        else:
            nets[-1], refs[-1] = net, ref
    put(new(), Ref(None, True, 0, p0, 8))
    refs[0].A = n.get_A(nets[0])
    tmp = tempfile.mkdtemp(prefix="verif-c25-")
    file = None
    log, tags, cont, evos = [], set(), 0, 0

    def verify(i, what):
        net, ref = nets[i], refs[i]
        want = site_states(ref.A, c)
        got, _ = n.measured_rhos(net, dt, 2, which="site")
        for s in S:
            e = np.abs(got[s] - want[s]).max()
            check(e <= tol, "after %s: network %d: state of site %s is off by %.1e", what, i, s, e)
        m = {k: complex(v).real for k, v in net.measure().items()}
        en = np.mean([np.trace(want[s] @ field(CLS[ref.cls].w, ref.params, s)).real for s in S])
        check(abs(m["Energy"] - en) <= 10 * tol, "after %s: network %d: energy %.8f, expected %.8f", what, i, m["Energy"], en)
        check(net.dims["chi"] == ref.chi, "after %s: network %d: chi is %s", what, i, net.dims["chi"])
    try:
        for op, i, v in c["ops"]:
            i %= len(nets)
            net, ref = nets[i], refs[i]
            log.append((op, i, v))
            if op in ("evolve", "evolve-instance"):
                dtau, k = [0.05, 0.1, 0.2, 0.05][v % 4], [1, 2, 3, 0][v % 4]
                kw = {}
                cls, params = ref.cls, ref.params
                if op == "evolve-instance":
                    cls, params = 1 - ref.cls, {"a": 0.3, "b": 0.2}
                    import types
                    kw["model"] = CLS[cls](types.SimpleNamespace(name="x", params=params, dtype=n.TD[dt], device=torch.device("cpu"), dim=2))
                evos += 1
                if ref.fresh:
                    net.evolve(dtau, 0, **kw)
                    got = n.get_A(net)
                    if k == 0:
                        before = got
                    for s in S:
                        t = 0.3 + 0.7 * s[0] + 1.1 * s[1] + CLS[cls].w
                        w = np.zeros_like(got[s])
                        w[0, 0, 0, 0] = [np.cos(t), np.sin(t)]
                        check(np.linalg.norm(got[s] - w) <= 0.15, "after %s: the first evolve does not start from the model's state at %s", log, s)
                    ref.A, ref.fresh = got, False
                    if D > 1 and c["strong"]:
                        # replace the (nearly product) tensors by entangled ones
                        ref.A = n.gapped_state(r, nx, ny, 2, D, 0.15, cplx)
                        for s in S:
                            net[s]["A"] = n.T(ref.A[s], dt)
                        tags.add("assigned")
                else:
                    cont += 1
                if k:
                    net.evolve(dtau, k, **kw)
                    for s in S:
                        g = scipy.linalg.expm(-dtau * k * field(CLS[cls].w, params, s))
                        ref.A[s] = n.nrm(np.einsum("lurdp,qp->lurdq", ref.A[s], g))
                else:
                    before = n.get_A(net)
                    net.evolve(dtau, 0, **kw)
                    check(all(np.array_equal(before[s], x) for s, x in n.get_A(net).items()), "after %s: evolving by zero steps changed the site tensors", log)
                tags.add(op)
                verify(i, log)
            elif op == "params":
                key, val = "ab"[v % 2], [0.9, -0.3, 0.1, 1.4, 0.6][v % 5]
                net.set_model_params(**{key: val})
                ref.params[key] = val
                tags.add(op)
            elif op == "model":
                ref.cls, ref.params = v % 2, {"a": 0.5 - 0.1 * v, "b": 0.2}
                net.set_model(CLS[ref.cls], ref.params, name="verif_c25_%d" % (v % 2))
                tags.add(op)
            elif op == "chi":
                ref.chi = [6, 8, 9, 12][v % 4] if D > 1 else [1, 2, 4][v % 3]
                net.set_chi(ref.chi)
                tags.add(op)
            elif op == "renormalize":
                net.renormalize()
            elif op == "measure":
                net.measure()
            elif op == "save":
                net.save(os.path.join(tmp, "f.pt"))
                file = {s: a.copy() for s, a in n.get_A(net).items()}
            elif op == "load" and file is not None:
                target = new()
                target.load(os.path.join(tmp, "f.pt"))
                put(target, Ref(file, False, 0, p0, 8))
                file = {s: a.copy() for s, a in file.items()}
                tags.add(op)
            elif op in ("supply", "copy", "to"):
                if op == "supply":
                    target = new(net)
                elif op == "copy":
                    target = new(net.copy())
                else:
                    target = new(net.to(dtype=n.TD[dt]))
                put(target, Ref({s: a.copy() for s, a in n.get_A(net).items()}, False, 0, p0, 8))
                tags.add(op)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if evos >= 2 and cont:
        return sorted(tags) + ["D=%d" % D, c["upd"], "dtype=" + dt]


op = st.tuples(st.sampled_from(["evolve", "params", "evolve", "supply", "evolve", "save", "load", "copy", "to", "model", "chi", "evolve-instance", "renormalize", "measure"]),
               st.integers(0, 2), st.integers(0, 9)).map(list)
cases = case(nx=st.integers(2, 3), ny=st.integers(2, 3), D=st.sampled_from([1, 1, 1, 1, 2]), upd=st.sampled_from(["full", "simple"]), dtype=double, strong=st.booleans(),
             ops=st.lists(op, min_size=3, max_size=9), seed=seeds)


def run_split(c):
    """One call, or several calls: the same state when the updates are exact."""
    r = n.gen(c["seed"])
    nx, ny, D, dt, d = c["nx"], c["ny"], 2, c["dtype"], 2
    cplx = n.is_c(dt)
    free = set(n.sites(nx, ny))
    H = {}
    proto = n.make(nx, ny, d, D, 4, dt)
    bonds = sorted(tuple(b) for b in proto.bond_list)
    for i in r.permutation(len(bonds)):
        s1, s2, k = bonds[i]
        if len(H) < c["pairs"] and s1 in free and s2 in free:
            free -= {s1, s2}
            H[bonds[i]] = n.herm(r, 4, cplx)
    F = {s: n.herm(r, d, cplx) for s in n.sites(nx, ny)}
    v = {s: n.nrm(n.randn(r, (d,), cplx)) for s in n.sites(nx, ny)}
    A = {}
    for s in v:
        A[s] = np.zeros((D,) * 4 + (d,), complex)
        A[s][0, 0, 0, 0] = v[s]
    dtau, res = c["dtau"], []
    for parts in ([sum(c["parts"])], c["parts"]):
        torch.manual_seed(c["seed"] % 1000)
        net = n.make(nx, ny, d, D, 4, dt, ctmrg={"steps": 2 + max(nx, ny), "svd_type": "full-rank"}, evolution={"update_type": c["upd"]})
        n.set_A(net, A, dt)
        model = n.FreeModel(dt, d, two=lambda b: H.get(tuple(b), np.zeros((4, 4))), one=lambda s: F[tuple(s)], init=lambda s: [1.0, 0.0])
        for i, k in enumerate(parts):
            net.evolve(dtau, k, model=model)
            if i + 1 < len(parts) and c["between"] == "measure":
                net.measure(model)
            elif i + 1 < len(parts) and c["between"] == "renormalize":
                net.renormalize()
            elif i + 1 < len(parts) and c["between"] == "chi":
                net.set_chi(5 + i)
        res.append(n.measured_rhos(net, dt, d))
    for a, b in zip(res[0], res[1]):
        e = max(np.abs(a[k] - b[k]).max() for k in a)
        check(e <= 1e-6, "evolving by %s steps in one call and in several calls differs by %.1e", c["parts"], e)
    if H and sum(x > 0 for x in c["parts"]) > 1:
        return [c["upd"], c["between"], "parts=%d" % len(c["parts"])]


split = case(nx=st.integers(2, 3), ny=st.integers(2, 3), pairs=st.integers(1, 4), upd=st.sampled_from(["full", "simple"]), dtau=st.sampled_from([0.02, 0.1]),
             parts=st.lists(st.integers(0, 3), min_size=2, max_size=3), between=st.sampled_from(["nothing", "measure", "renormalize", "chi"]), dtype=double, seed=seeds)

LEGS = [Leg("history", cases, run, 220, 8000), Leg("split", split, run_split, 60, 2000)]
