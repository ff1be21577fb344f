"""C19: networks, copies, models and configurations are independent."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, case
from vlib import net as n
import copy, os, shutil, tempfile
import numpy as np
import torch
from acetn.ipeps import Ipeps
from acetn.ipeps.tensor_network import TensorNetwork
from acetn.model.model import Model

RULE = ("generated histories over up to five networks (made from two shared config dictionaries, from other networks, by copy() and "
        "to()): setting and changing tensors, chi, models and parameters, renormalizing, evolving, measuring, saving, loading. After "
        "every step all networks are compared with an isolated model of each; a step that computes is compared with the "
        "same step on a network built separately with the same contents. Non-trivial: at least two networks and one changing step.")
ASSUMPTIONS = ["complex networks are not converted to real ones", "full-rank SVDs, so that computing steps are deterministic"]


class TagModel(Model):
    """Measures which class and parameters it was made with."""
    number = 0.0

    def one_site_hamiltonian(self, site=None):
        return n.T(np.eye(self.dim) * self.number, "float64").to(self.dtype)

    def two_site_hamiltonian(self, bond=None):
        h = np.zeros((self.dim**2, self.dim**2))
        h[0, 0] = self.params.get("g", 0.0)
        return n.T(h, "float64").to(self.dtype)

    def one_site_observables(self, site=None):
        return {k: n.T(np.eye(self.dim) * v, "float64").to(self.dtype) for k, v in [("class", self.number), ("g", self.params.get("g", 0.0)), ("h", self.params.get("h", 0.0))]}


CLASSES = [type("Tag%d" % i, (TagModel,), {"number": float(i + 1)}) for i in range(3)]


class Rec:
    """What a network should be."""
    def __init__(self, kind, net, dt, chi, snap, cls=None, params=None, upd="simple"):
        self.kind, self.net, self.dt, self.chi, self.snap, self.cls, self.params, self.upd = kind, net, dt, chi, snap, cls, params or {}, upd
        self.order = list(net.bond_list)


def cast(snap, dt):
    f = lambda x: n.N(torch.tensor(x if n.is_c(dt) else x.real).to(n.TD[dt]))
    return {s: (f(a), [f(x) for x in C], [f(x) for x in E]) for s, (a, C, E) in snap.items()}


def make_config(c, i, dt):
    return {"dtype": dt, "device": "cpu", "TN": {"nx": c["nx"], "ny": c["ny"], "dims": {"phys": 2, "bond": c["D"], "chi": c["chi"]}},
            "ctmrg": {"steps": 1, "svd_type": "full-rank", "svd_cutoff": 1e-5 if n.is_single(dt) else 1e-9, "disable_progressbar": True},
            "evolution": {"update_type": ["simple", "full"][i % 2] if c["nx"] > 1 and c["ny"] > 1 else "simple", "disable_progressbar": True},
            "model": {"name": "ising", "params": {"jz": 1.0 + i, "hx": 0.5, "g": 0.25 * i}}}


def run(c):
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    cfgs = [make_config(c, i, dt) for i, dt in enumerate(c["dtypes"])]
    cfgs0 = copy.deepcopy(cfgs)
    user_params = []
    R = []
    tmp = tempfile.mkdtemp(prefix="verif-c19-")
    done, tags, changes = [], set(), 0
    files = {}

    def isolated(rec):
        cfg = copy.deepcopy(cfgs0[rec.cfg])
        cfg["TN"]["dims"]["chi"] = rec.chi
        cfg["dtype"] = rec.dt
        net = Ipeps(cfg)
        for s in net.site_list:     # clones keep the memory layout
            net[s]["A"] = rec.net[s]["A"].clone()
            net[s]["C"] = [x.clone() for x in rec.net[s]["C"]]
            net[s]["E"] = [x.clone() for x in rec.net[s]["E"]]
        net.bond_list = list(rec.order)     # evolution alternates the order
        net.site_states_initialized = True
        if rec.cls is not None:
            net.set_model(CLASSES[rec.cls], dict(rec.params), name="isolated")
        else:
            for k, v in rec.params.items():
                net.set_model_params(**{k: v})
        return net

    def new(kind, net, dt, chi, cfg, cls=None, params=None):
        rec = Rec(kind, net, dt, chi, n.snapshot(net), cls, params)
        rec.cfg = cfg
        R.append(rec)
        return rec
    try:
        for op, i, j in c["ops"]:
            if op == "new" or not R:
                if len(R) >= 5:
                    continue
                k = i % len(cfgs)
                net = Ipeps(cfgs[k])
                new("ipeps", net, c["dtypes"][k], c["chi"], k, None, cfgs0[k]["model"]["params"])
                op = "new"
            else:
                a = R[i % len(R)]
                dt = a.dt
                if op in ("copy", "to", "from"):
                    if len(R) >= 5:
                        continue
                    if op == "copy":
                        net, dt2, chi = a.net.copy(), dt, a.chi
                    elif op == "to":
                        dt2 = c["dtypes"][j % len(c["dtypes"])]
                        if n.is_c(dt) and not n.is_c(dt2):
                            continue
                        net, chi = a.net.to(dtype=n.TD[dt2]), a.chi
                    else:
                        k = j % len(cfgs)
                        dt2, chi = c["dtypes"][k], c["chi"]
                        if n.is_c(dt) and not n.is_c(dt2):
                            continue
                        net = Ipeps(cfgs[k], ipeps=a.net)
                    want = cast(a.snap, dt2)
                    check(n.same(n.snapshot(net), want), "%s after %s: the new network does not have the contents of the old one", op, done)
                    if op == "from":
                        rec = new("ipeps", net, dt2, chi, k, None, cfgs0[k]["model"]["params"])
                    else:
                        rec = new("tn", net, dt2, chi, a.cfg)
                elif op == "setA":
                    s = a.net.site_list[j % len(a.net.site_list)]
                    x = n.nrm(n.randn(r, (c["D"],) * 4 + (2,), n.is_c(dt)))
                    t = n.T(x, dt)
                    a.net[s]["A"] = t
                    t.zero_()           # the network keeps its own tensor
                    a.snap[s] = (n.N(n.T(x, dt)), a.snap[s][1], a.snap[s][2])
                    if j % 2:
                        reset_env(a)
                elif op == "inplace":
                    with torch.inference_mode():
                        for s in a.net.site_list:
                            for t in [a.net[s]["A"]] + list(a.net[s]["C"]) + list(a.net[s]["E"]):
                                t.mul_(1.25)
                    a.snap = n.snapshot(a.net)
                elif op == "swap":
                    # exchange the SiteTensor objects of two sites
                    s, t = a.net.site_list[0], a.net.site_list[j % len(a.net.site_list)]
                    if n.same({0: (a.snap[s][0], [], [])}, {0: (a.snap[t][0], [], [])}):
                        continue
                    x, y = a.net[s].copy(), a.net[t].copy()
                    a.net[s], a.net[t] = y, x
                    a.snap[s], a.snap[t] = a.snap[t], a.snap[s]
                    reset_env(a)
                elif op == "sitecopy":
                    # the copy of a site takes its place, the original changes afterwards
                    s = a.net.site_list[j % len(a.net.site_list)]
                    old = a.net[s]
                    a.net[s] = old.copy() if j % 2 else old.to()
                    with torch.inference_mode():
                        for t in [old["A"]] + list(old["C"]) + list(old["E"]):
                            t.mul_(3.0)
                        old["C"][0] = old["C"][1]
                elif op == "chi" and a.kind == "ipeps":
                    a.chi = 2 + j % 3
                    a.net.set_chi(a.chi)
                elif op == "model" and a.kind == "ipeps":
                    p = {"g": float(j % 4) / 4, "h": float(j % 3)}
                    # the same name on purpose, unless j says otherwise
                    name = [None, "shared", "MyModel"][j // 3 % 3]
                    a.net.set_model(CLASSES[j % 3], p, name=name)
                    user_params.append((p, dict(p)))
                    a.cls, a.params = j % 3, dict(p)
                elif op == "params" and a.kind == "ipeps":
                    v = float(j % 5) / 4
                    a.net.set_model_params(g=v)
                    a.params = {**a.params, "g": v}
                elif op == "userparams":
                    # the user changes a dictionary given before
                    for p, p0 in user_params:
                        check(p == p0, "after %s: a parameter dictionary given to set_model was modified: %s", done, p)
                        p["g"] = p0["g"] = 77.0
                elif op == "usercfg":
                    cf = cfgs[j % len(cfgs)]
                    check(cf == cfgs0[j % len(cfgs)], "after %s: the configuration dictionary was modified: %s", done, cf)
                    cf["TN"]["dims"]["chi"] += 1
                    cf["model"]["params"]["hx"] += 1.0
                    check_all(R, done, c)
                    cf["TN"]["dims"]["chi"] -= 1
                    cf["model"]["params"]["hx"] -= 1.0
                elif op in ("renormalize", "evolve") and a.kind == "ipeps":
                    if op == "evolve" and (c["nx"] < 2 or c["ny"] < 2):
                        continue
                    iso = isolated(a)
                    if not a.net.site_states_initialized:
                        if op == "evolve":
                            # starts from the model's product state, with random noise
                            iso.site_states_initialized = False
                    for net in (iso, a.net):
                        torch.manual_seed(c["seed"] % 999)
                        net.renormalize() if op == "renormalize" else net.evolve(dtau=0.05, steps=1)
                    if op == "renormalize":
                        check(all(np.array_equal(n.N(a.net[s]["A"]), a.snap[s][0]) for s in a.snap), "renormalize of network %d after %s changed a site tensor", i % len(R), done)
                    x, y = (n.measured_rhos(net, dt, 2) for net in (iso, a.net))
                    d = max(np.abs(u[k] - v[k]).max() for u, v in zip(x, y) for k in u)
                    check(d <= (1e-3 if n.is_single(dt) else 1e-5), "%s of network %d after %s differs from the same network on its own by %.1e in a local state", op, i % len(R), done, d)
                    a.snap = n.snapshot(a.net)
                    a.order = list(a.net.bond_list)
                elif op == "measure" and a.kind == "ipeps":
                    x, y = a.net.measure(), isolated(a).measure()
                    check(x.keys() == y.keys() and all(abs(complex(x[k]) - complex(y[k])) <= (1e-4 if n.is_single(dt) else 1e-9) for k in x), "measure() of network %d after %s: %s, on its own %s", i % len(R), done, x, y)
                    if a.cls is not None:
                        for k, v in (("class", a.cls + 1.0), ("g", a.params["g"]), ("h", a.params["h"])):
                            check(abs(complex(x[k]) - v) < 1e-4, "after %s: network %d measures %s=%s instead of %s", done, i % len(R), k, x[k], v)
                elif op == "save":
                    TensorNetwork.save(a.net, os.path.join(tmp, "f%d" % (j % 2)))
                    files[j % 2] = (dict(a.snap), a.dt)
                elif op == "load":
                    if j % 2 not in files or (n.is_c(files[j % 2][1]) and not n.is_c(dt)):
                        continue
                    a.net.load(os.path.join(tmp, "f%d" % (j % 2)))
                    a.snap = cast(files[j % 2][0], dt)
                else:
                    continue
                if op not in ("measure", "save", "usercfg", "userparams"):
                    changes += 1
            tags.add(op)
            done.append((op, i, j))
            check_all(R, done, c)
            check(cfgs == cfgs0, "after %s: the configuration dictionary was modified: %s", done, cfgs)
            for p, p0 in user_params:
                check(p == p0, "after %s: a parameter dictionary given to set_model was modified: %s", done, p)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if len(R) > 1 and changes:
        return sorted(tags) + ["networks=%d" % len(R)]


def reset_env(a):
    """New boundary tensors for the whole network, made from its site tensors."""
    for s in a.net.site_list:
        a.net[s].initialize_corner_tensors()
        a.net[s].initialize_edge_tensors()
    got = n.snapshot(a.net)
    a.snap = {s: (a.snap[s][0], got[s][1], got[s][2]) for s in got}


def check_all(R, done, c):
    for k, a in enumerate(R):
        check(n.same(n.snapshot(a.net), a.snap), "after %s: network %d (%s) has other tensors than its own operations gave it", done, k, a.kind)
        check(a.net.dims == {"phys": 2, "bond": c["D"], "chi": a.chi}, "after %s: network %d has dims %s instead of chi=%s", done, k, a.net.dims, a.chi)
        check(a.net.dtype == n.TD[a.dt] and all(a.net[s]["A"].dtype == n.TD[a.dt] for s in a.net.site_list), "after %s: network %d has the wrong dtype", done, k)
        check([tuple(b) for b in a.net.bond_list] == [tuple(b) for b in a.order], "after %s: the bonds of network %d are visited in another order", done, k)
        if a.kind == "ipeps":
            m = a.net.create_model() if hasattr(a.net, "create_model") else None
            if m is not None:
                want = CLASSES[a.cls] if a.cls is not None else None
                check(m.params == a.params, "after %s: network %d has parameters %s instead of %s", done, k, m.params, a.params)
                check(type(m) is want if want else type(m).__name__ == "IsingModel", "after %s: network %d has the model %s", done, k, type(m))


cell = st.sampled_from([2, 1, 2, 3])
op = st.tuples(st.sampled_from(["new", "from", "copy", "setA", "evolve", "inplace", "chi", "model", "params", "measure", "renormalize", "to", "new",
                                "save", "load", "swap", "sitecopy", "userparams", "usercfg", "model", "measure"]), st.integers(0, 4), st.integers(0, 11))
cases = case(nx=cell, ny=cell, D=st.integers(1, 2), chi=st.integers(2, 4),
             dtypes=st.lists(st.sampled_from(["float64", "complex128", "float64", "float32"]), min_size=1, max_size=2),
             ops=st.lists(op, min_size=3, max_size=14).map(lambda o: [("new", 0, 0), ("new", 1, 0)] + o), seed=seeds)

LEGS = [Leg("history", cases, run, 500, 12000)]
