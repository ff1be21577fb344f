"""C18: saving and loading round-trips the network, with no side effects."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, case
from vlib import net as n
import os, shutil, tempfile
import numpy as np
import torch
from acetn.ipeps.tensor_network import TensorNetwork
from acetn.model.model import Model

RULE = ("random networks with random boundary tensors of unequal sizes; generated histories of changing, saving, loading (also in "
        "another data type, also under the default file name) and evolving several networks and files, compared with a model that "
        "holds the expected tensors of every network and file. Non-trivial: at least one load follows a save.")
ASSUMPTIONS = ["files are written to a temporary directory", "complex files are not loaded into real networks"]


def cast(snap, dt):
    f = lambda x: n.N(torch.tensor(x if n.is_c(dt) else x.real).to(n.TD[dt]))
    return {s: (f(a), [f(x) for x in C], [f(x) for x in E]) for s, (a, C, E) in snap.items()}


def fill(net, r, c, dt):
    ref = n.random_psd_network(r, c["nx"], c["ny"], c["d"], c["D"], c["m"], 2, n.is_c(dt))
    n.load_network(net, ref, dt)


def verify(net, want, dt, what):
    got = n.snapshot(net)
    check(got.keys() == want.keys(), "%s: sites %s", what, sorted(got))
    for s in want:
        for name, x, y in [("A", got[s][0], want[s][0])] + [("C%d" % i, got[s][1][i], want[s][1][i]) for i in range(4)] + [("E%d" % i, got[s][2][i], want[s][2][i]) for i in range(4)]:
            check(x.shape == y.shape and np.array_equal(x, y), "%s: tensor %s of site %s differs", what, name, s)
        for t in [net[s]["A"]] + list(net[s]["C"]) + list(net[s]["E"]):
            check(t.dtype == n.TD[dt], "%s: tensor of dtype %s instead of %s", what, t.dtype, dt)


def run(c):
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    dts = c["dtypes"]
    upd = {"update_type": "simple"}
    chi = lambda dt: c["m"] ** 2 + dts.index(dt)       # networks of different data types are configured differently
    mk = lambda dt: n.make(c["nx"], c["ny"], c["d"], c["D"], chi(dt), dt, ctmrg={"steps": 1 + dts.index(dt)}, evolution=upd)
    h = n.herm(r, c["d"] ** 2, False)
    models = {dt: n.FreeModel(dt, c["d"], two=lambda b: h) for dt in dts}
    obs = {dt: n.FreeModel(dt, c["d"], two=lambda b: h, oneobs=lambda s: {"o": np.diag(np.arange(c["d"]) + 1.0)}) for dt in dts}
    nets = [mk(dt) for dt in dts]
    for net, dt in zip(nets, dts):
        fill(net, r, c, dt)
    want = [n.snapshot(net) for net in nets]
    files = {}
    tmp = tempfile.mkdtemp(prefix="verif-c18-")
    cwd = os.getcwd()
    os.chdir(tmp)
    tags = set()
    done = []
    try:
        for op, i, f in c["ops"]:
            i %= len(nets)
            net, dt = nets[i], dts[i]
            path = os.path.join(tmp, "file%d.pt" % f)
            done.append((op, i, f))
            if op == "save":
                net.save(path)
                files[f] = (want[i], dt, net)
            elif op == "savedefault":
                net.save()
                check(os.path.exists(os.path.join(tmp, "ipeps.pt")), "save() without a name wrote no ipeps.pt")
                shutil.move(os.path.join(tmp, "ipeps.pt"), path)
                files[f] = (want[i], dt, net)
            elif op == "savecopy":
                TensorNetwork.save(net.copy(), path)
                files[f] = (want[i], dt, None)
            elif op in ("load", "loadfresh"):
                if f not in files or (n.is_c(files[f][1]) and not n.is_c(dt)):
                    continue
                if op == "loadfresh":
                    nets[i] = net = mk(dt)
                net.load(path)
                want[i] = cast(files[f][0], dt)
                tags.add("load" if dt == files[f][1] else "load-converted")
                tags.add("D=%d" % c["D"])
            elif op == "inplace":
                # changing the tensors themselves must not reach any other network or file
                with torch.inference_mode():
                    for s in net.site_list:
                        for t in [net[s]["A"]] + list(net[s]["C"]) + list(net[s]["E"]):
                            t.mul_(1.5)
                want[i] = n.snapshot(net)
            elif op == "evolve" and c["nx"] > 1 and c["ny"] > 1:
                if not files:
                    continue
                net.evolve(dtau=0.05, steps=1, model=models[dt])
                want[i] = n.snapshot(net)
            elif op == "setmodel":
                # a model class as a user defines it in a script or function: it is not part of what is saved
                class Local(Model):
                    def two_site_hamiltonian(self, bond):
                        return n.T(h, dt)
                net.set_model(Local, {"g": 0.5})
            elif op == "evolve0":
                # an initialized network keeps its site tensors
                net.evolve(dtau=0.1, steps=0, model=models[dt])
                got = n.snapshot(net)
                for s in got:
                    check(np.array_equal(got[s][0], want[i][s][0]), "after %s: evolve(steps=0) replaced the loaded site tensor of %s", done, s)
                want[i] = got
            elif op == "measure":
                if f in files and (dt == files[f][1]):
                    other = mk(dt)
                    other.load(path)
                    a = {k: complex(x) for k, x in other.measure(obs[dt]).items()}
                    src = mk(dt)
                    for s, (A, C, E) in files[f][0].items():
                        src[s]["A"] = n.T(A, dt)
                        n.set_env(src, s, C, E, dt)
                    b = {k: complex(x) for k, x in src.measure(obs[dt]).items()}
                    check(a.keys() == b.keys() and all(abs(a[k] - b[k]) <= (1e-4 if n.is_single(dt) else 1e-10) * (1 + abs(b[k])) for k in a), "after %s: measurements of the loaded network %s, of the saved one %s", done, a, b)
            for j, w in enumerate(want):
                verify(nets[j], w, dts[j], "network %d after %s" % (j, done))
                check(nets[j].dims == {"phys": c["d"], "bond": c["D"], "chi": chi(dts[j])} and nets[j].dtype == n.TD[dts[j]] and nets[j].config.ctmrg.steps == 1 + dts.index(dts[j]),
                      "after %s: network %d is configured with %s, %s, %d sweeps", done, j, nets[j].dims, nets[j].dtype, nets[j].config.ctmrg.steps)
            for g, (w, fdt, _) in files.items():
                t = mk(fdt)
                t.load(os.path.join(tmp, "file%d.pt" % g))
                verify(t, w, fdt, "file %d after %s" % (g, done))
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    if tags:
        return sorted(tags) + ["dtype=" + x for x in sorted(set(dts))] + ["cell=%dx%d" % (c["nx"], c["ny"])]


def run_twin(c):
    """A network that is saved now and then goes exactly the way of its twin that is not."""
    r = n.gen(c["seed"])
    dt = c["dt"]
    d = c["d"]
    cplx = n.is_c(dt)
    two, vec = n.herm(r, d * d, cplx), {s: n.randn(r, (d,), False) for s in n.sites(c["nx"], c["ny"])}
    model = n.FreeModel(dt, d, two=lambda b: two, init=lambda s: [float(x) for x in vec[s]])
    obs = n.FreeModel(dt, d, two=lambda b: two, oneobs=lambda s: {"o": np.diag(np.arange(d) + 1.0)})
    full = c["nx"] > 1 and c["ny"] > 1

    def one(save):
        seeded = lambda k: torch.manual_seed(c["seed"] % 1000 + k)
        seeded(0)
        net = n.make(c["nx"], c["ny"], d, c["D"], c["chi"], dt, ctmrg={"steps": c["steps"]}, evolution={"update_type": c["update"]})
        out = []
        try:
            walk(net, save, seeded, out)
        except torch.linalg.LinAlgError:   # a numerically singular single-precision problem: for both or for none
            out.append([1.0])
        return out

    def walk(net, save, seeded, out):
        for k, (op, x) in enumerate(c["ops"]):
            if save and x & 1:
                net.save(save)
                if x & 2:
                    net.save(save)
            seeded(k + 1)
            if op == "evolve0":
                net.evolve(dtau=0.05, steps=0, model=model)
            elif op == "evolve1" and full:
                net.evolve(dtau=0.05, steps=1, model=model)
            elif op == "renormalize":
                net.renormalize()
            elif op == "chi":
                net.set_chi(c["chi"] + x)
            elif op == "measure":
                m = net.measure(obs)
                out.append([complex(m[q]) for q in sorted(m)])
            elif op == "fill":
                g = n.gen(c["seed"] + 17 * k)
                for s in net.site_list:
                    net[s]["A"] = n.T(n.randn(g, tuple(net[s]["A"].shape), cplx), dt)
                    net[s].initialize_corner_tensors()
                    net[s].initialize_edge_tensors()
            out.append((n.snapshot(net), dict(net.dims), [tuple(s) for s in net.site_list], len(net.bond_list), net.dtype, str(net.device)))

    tmp = tempfile.mkdtemp(prefix="verif-c18-")
    try:
        a, b = one(os.path.join(tmp, "f.pt")), one(None)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    tol = 1e-3 if n.is_single(dt) else 1e-7
    check(len(a) == len(b), "%s: with saving it ended after %d records, without after %d", c["ops"], len(a), len(b))
    for k, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, list):
            check(isinstance(y, list) and len(x) == len(y) and np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True), "record %d of %s: measurements %s with saving, %s without", k, c["ops"], x, y)
            continue
        check(x[1:] == y[1:], "record %d of %s: attributes %s with saving, %s without", k, c["ops"], x[1:], y[1:])
        for s in y[0]:
            for name, p, q in [("A", x[0][s][0], y[0][s][0])] + [("C%d" % i, x[0][s][1][i], y[0][s][1][i]) for i in range(4)] + [("E%d" % i, x[0][s][2][i], y[0][s][2][i]) for i in range(4)]:
                check(p.shape == q.shape and np.allclose(p, q, rtol=tol, atol=tol, equal_nan=True), "record %d of %s: tensor %s of site %s differs from the one of the twin that is never saved", k, c["ops"], name, s)
    saved = [op for op, x in c["ops"] if x & 1]
    if saved:
        return ["saved-before-%s" % op for op in sorted(set(saved))] + ["dtype=" + dt, "update=" + c["update"]]


cell = st.sampled_from([1, 2, 3, 2])
op = st.tuples(st.sampled_from(["save", "load", "inplace", "load", "save", "savedefault", "savecopy", "loadfresh", "evolve", "evolve0", "measure", "setmodel"]), st.integers(0, 1), st.integers(0, 1))
cases = case(nx=cell, ny=cell, d=st.integers(1, 3), D=st.integers(1, 3), m=st.integers(1, 2),
             dtypes=st.lists(st.sampled_from(["float64", "complex128", "float32", "complex64"]), min_size=1, max_size=2),
             ops=st.lists(op, min_size=2, max_size=7).map(lambda o: [("save",) + tuple(o[0][1:])] + o), seed=seeds)

twin_op = st.tuples(st.sampled_from(["evolve0", "evolve1", "evolve1", "renormalize", "chi", "measure", "fill"]), st.integers(0, 3))
twin_cases = case(nx=st.sampled_from([1, 2, 2, 3]), ny=st.sampled_from([1, 2, 2, 3]), d=st.integers(1, 3), D=st.integers(1, 2), chi=st.integers(2, 8), steps=st.integers(0, 2),
                  dt=st.sampled_from(["float64", "complex128", "float32", "complex64"]), update=st.sampled_from(["simple", "full"]), ops=st.lists(twin_op, min_size=1, max_size=4), seed=seeds)

LEGS = [Leg("history", cases, run, 500, 12000), Leg("twin", twin_cases, run_twin, 300, 6000)]
