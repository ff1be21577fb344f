"""C24: networks start in the requested product state."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, case
from vlib import net as n
import types
import numpy as np
import torch
from acetn.model.model import Model

RULE = ("random site-dependent product states (dense, sparse and unnormalized amplitudes, lists, arrays or tensors, complex for complex types) "
        "given by a model instance, a model class or a built-in model, for every small bond and physical dimension; the tensors and the "
        "measured one-site states after evolve(steps=0) are compared with them. Non-trivial: at least two basis states have weight in some site, "
        "or the states differ between sites.")
ASSUMPTIONS = ["amplitudes of a site have norm at least 0.5 (the noise has size 0.01 in absolute units)"]


def verify(net, want, c, what):
    d, D = c["d"], c["D"]
    for s, v in want.items():
        a = n.N(net[s]["A"])
        check(a.shape == (D, D, D, D, d) and net[s]["A"].dtype == n.TD[c["dtype"]], "%s: site tensor %s %s", what, a.shape, net[s]["A"].dtype)
        check(abs(np.linalg.norm(a) - 1) <= (1e-5 if n.is_single(c["dtype"]) else 1e-12), "%s: site tensor of %s has norm %.8g", what, s, np.linalg.norm(a))
        w = np.zeros_like(a)
        w[0, 0, 0, 0] = v
        # the tensor is (w + noise) / norm with the norm of order |v|: bound the noise entry by entry
        scale = np.vdot(w, a) / np.linalg.norm(v) ** 2
        check(scale.real > 0 and abs(scale.imag) <= 0.05 * scale.real, "%s: overlap of site %s with the requested state is %s", what, s, scale)
        rest = np.abs(a / scale - w).max()
        check(rest <= 0.013 * (1 + np.sqrt(d) * np.abs(v).max() / np.linalg.norm(v)), "%s: site tensor of %s deviates by %.3f from the requested amplitudes", what, s, rest)
    net.config.ctmrg.steps = 4
    net.renormalize()
    sr, _ = n.measured_rhos(net, c["dtype"], d, which="site")
    # every virtual sum and every neighbour adds noise; bound the deviation of the amplitude vector
    noise = 0.01 * (1 + 4 * (D - 1)) * np.sqrt(d)
    for s, v in want.items():
        e = np.abs(sr[s] - np.outer(v, v.conj()) / np.linalg.norm(v) ** 2).max()
        check(e <= 2.5 * noise / np.linalg.norm(v), "%s: measured state of site %s deviates by %.3f from the requested state", what, s, e)


def run(c):
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    nx, ny, d, D, dt = c["nx"], c["ny"], c["d"], c["D"], c["dtype"]
    cplx = n.is_c(dt)
    v = {}
    for s in n.sites(nx, ny):
        x = n.randn(r, (d,), cplx)
        if c["amp"] == "basis":
            x = np.eye(d)[r.integers(0, d)] * (1.0 if not cplx else 1.0 + 0j)
        elif c["amp"] == "sparse":
            x = x * (r.random(d) < 0.5)
            x[r.integers(0, d)] += 1.0
        elif c["amp"] == "uniform" and v:
            x = v[0, 0]
        x = n.nrm(x) if c["norm"] == 1 or np.linalg.norm(x) < 0.5 else x
        v[s] = x * (c["norm"] if c["norm"] != 0 else 1)
    two = n.herm(r, d * d, cplx)

    def init(site):
        x = v[tuple(site)]
        if c["form"] == "list":
            return [complex(y) if cplx else float(np.real(y)) for y in x]
        return n.T(x, dt)
    how = c["how"]
    evo = {"update_type": c["upd"]}
    ct = {"steps": c["steps"], "svd_cutoff": 1e-5 if n.is_single(dt) else 1e-12}
    inst = n.FreeModel(dt, d, two=lambda b: two, init=init)
    if how == "instance":
        net = n.make(nx, ny, d, D, 4, dt, ctmrg=ct, evolution=evo)
        want0 = {s: np.eye(d)[0] for s in v}
        verify(net, want0, c, "new network")
        net.config.ctmrg.steps = c["steps"]
        net.evolve(dtau=0.1, steps=0, model=inst)
    else:
        class M(Model):
            def initial_site_state(self, site):
                return init(site)

            def two_site_hamiltonian(self, bond):
                return n.T(two, dt)
        net = n.make(nx, ny, d, D, 4, dt, ctmrg=ct, evolution=evo)
        if how == "renormalized":
            net.renormalize()
        net.set_model(M, {}, name="verif_c24")
        if how == "chi":
            net.set_chi(3)
        net.evolve(dtau=0.1, steps=0)
    verify(net, v, c, "after the first evolve")
    if d > 1 and (c["amp"] != "basis" or nx * ny > 1):
        return ["D=%d" % D, "d=%d" % d, "dtype=" + dt, how, "amp=" + c["amp"], "norm=%s" % c["norm"], c["form"]]


cases = case(nx=st.integers(1, 3), ny=st.integers(1, 3), d=st.integers(1, 5), D=st.integers(1, 4), upd=st.sampled_from(["full", "simple"]),
             amp=st.sampled_from(["dense", "basis", "sparse", "uniform"]), norm=st.sampled_from([1, 0, 3]), form=st.sampled_from(["list", "tensor"]),
             how=st.sampled_from(["instance", "class", "renormalized", "chi"]), steps=st.integers(0, 3), dtype=dtypes_mostly_double, seed=seeds)


def run_builtin(c):
    """The built-in models: the documented initial states."""
    torch.manual_seed(c["seed"] % 1000)
    d = 2
    net = n.make(c["nx"], c["ny"], d, c["D"], 4, c["dtype"], ctmrg={"steps": 2}, model={"name": c["name"], "params": {"J": 1.0, "hx": 0.5, "jz": 1.0, "hz": 0.3}})
    net.evolve(dtau=0.1, steps=0)
    model = net.create_model()
    want = {}
    for s in net.site_list:
        x = np.array([complex(y) for y in model.initial_site_state(s)])
        if c["name"] == "heisenberg":
            e = np.array([1, 0]) if (s[0] + s[1]) % 2 == 0 else np.array([0, 1])
            o = e[::-1]
            check(np.array_equal(np.abs(x), e) or np.array_equal(np.abs(x), o), "Heisenberg initial state of %s is %s", s, x)
        want[s] = np.concatenate([x, np.zeros(d - len(x))])
    if c["name"] == "heisenberg":
        for (s1, s2, k) in net.bond_list:
            if (c["nx"] % 2 == 0 or k != 2) and (c["ny"] % 2 == 0 or k != 1):
                check(abs(np.vdot(want[s1], want[s2])) < 1e-12, "Heisenberg initial state is not staggered on bond %s-%s", s1, s2)
    verify(net, want, {**c, "d": d}, "after the first evolve")
    return [c["name"], "D=%d" % c["D"], "cell=%dx%d" % (c["nx"], c["ny"])]


builtin = case(nx=st.integers(1, 4), ny=st.integers(1, 4), D=st.integers(1, 3), name=st.sampled_from(["heisenberg", "ising"]),
               dtype=st.sampled_from(["float64", "complex128"]), seed=seeds)


def run_default(c):
    """A model that does not say which state to start from: the first basis state on every site."""
    torch.manual_seed(c["seed"] % 1000)
    d, D, dt = c["d"], c["D"], c["dtype"]
    two = n.herm(n.gen(c["seed"]), d * d, n.is_c(dt))

    class M(Model):
        def two_site_hamiltonian(self, bond):
            return n.T(two, dt)
    net = n.make(c["nx"], c["ny"], d, D, 4, dt, ctmrg={"steps": c["steps"], "svd_cutoff": 1e-5 if n.is_single(dt) else 1e-12}, evolution={"update_type": c["upd"]})
    if c["before"]:
        net.renormalize()
    net.set_model(M, {}, name="verif_c24")
    model = net.create_model()
    want = {s: np.eye(d)[0] for s in n.sites(c["nx"], c["ny"])}
    for s in want:
        x = [complex(y) for y in model.initial_site_state(s)]
        check(len(x) == d and np.array_equal(np.array(x), want[s]), "default initial state of %s for dimension %d is %s", s, d, x)
    net.evolve(dtau=0.1, steps=0)
    verify(net, want, c, "after the first evolve with the default state")
    if d > 1:
        return ["D=%d" % D, "d=%d" % d, "dtype=" + dt, "before=%s" % c["before"]]


default = case(nx=st.integers(1, 3), ny=st.integers(1, 3), d=st.integers(1, 5), D=st.integers(1, 3), upd=st.sampled_from(["full", "simple"]),
               before=st.booleans(), steps=st.integers(0, 3), dtype=dtypes_mostly_double, seed=seeds)

LEGS = [Leg("product", cases, run, 320, 10000), Leg("default", default, run_default, 60, 1500), Leg("builtin", builtin, run_builtin, 40, 1000)]
