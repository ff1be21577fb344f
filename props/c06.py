"""C06: measured averages are traces with the right weights."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, case
from vlib import net as n
import numpy as np
import torch

RULE = ("random networks with positive boundary tensors and models with random site- and bond-dependent operators in every accepted "
        "form; measure() is compared with averages computed from densely contracted density matrices, and with itself after linear "
        "recombination of operators and rescaling of tensors. Non-trivial: physical dimension above 1 and at least two sites or D above 1.")
ASSUMPTIONS = ["one- and two-site observables have distinct names, and every site (bond) defines the same names, as the code requires"]


class Op:
    def __init__(self, mat):
        self.mat = mat


def run(c):
    r = n.gen(c["seed"])
    dt, cplx, d, D = c["dtype"], n.is_c(c["dtype"]), c["d"], c["D"]
    nx, ny = c["nx"], c["ny"]
    ref = n.random_psd_network(r, nx, ny, d, D, c["m"], c["S"], cplx)
    net = n.make(nx, ny, d, D, c["m"] ** 2, dt)
    n.load_network(net, ref, dt)
    ref = n.snapshot(net)
    tol = 5e-4 if n.is_single(dt) else 1e-9
    rs = {}
    for s in net.site_list:
        x = n.ref_site_rho(ref, s)
        rs[s] = x / np.trace(x).real
    rb = {}
    for b in net.bond_list:
        x = n.ref_bond_rho(ref, b.s1, b.s2, b.k)
        rb[b] = x / np.trace(x).real
    rnd = lambda k: n.herm(r, k, cplx) if c["herm"] else n.randn(r, (k, k), cplx)
    h1 = {s: (rnd(d) if r.integers(0, 4) < c["fields"] else None) for s in net.site_list}
    h2 = {b: rnd(d * d) for b in net.bond_list}
    n1, n2 = c["n1"], c["n2"]
    o1 = {s: {"a%d" % i: rnd(d) for i in range(n1)} for s in net.site_list}
    o2 = {b: {"b%d" % i: rnd(d * d) for i in range(n2)} for b in net.bond_list}
    al, be = (float(x) for x in r.normal(size=2))
    for s in o1:
        if n1 >= 2:
            o1[s]["lin"] = al * o1[s]["a0"] + be * o1[s]["a1"]
        o1[s]["one"] = np.eye(d)
    for b in o2:
        if n2 >= 2:
            o2[b]["lin2"] = al * o2[b]["b0"] + be * o2[b]["b1"]
        o2[b]["one2"] = np.eye(d * d)
        # a one-site operator on either end of the bond
        o2[b]["left"], o2[b]["right"] = np.kron(o1[b.s1].get("a0", np.eye(d)), np.eye(d)), np.kron(np.eye(d), o1[b.s2].get("a0", np.eye(d)))

    def wrap(x, form, two):
        if x is None:
            return None
        t = n.T(x, dt)
        if two and form in ("four", "matfour"):
            t = t.reshape(d, d, d, d)
        return Op(t) if form in ("mat", "matfour") else t

    def model(scale=1.0):
        f = c["form"]
        return n.FreeModel(dt, d, one=None if c["no_one"] else (lambda s: wrap(h1[tuple(s)], "mat" if f in ("mat", "matfour") else "t", False)),
                           two=lambda b: wrap(h2[b], f, True),
                           oneobs=(lambda s: {k: wrap(v, "mat" if f in ("mat", "matfour") else "t", False) for k, v in o1[tuple(s)].items()}) if c["obs1"] else None,
                           twoobs=(lambda b: {k: wrap(v, f, True) for k, v in o2[b].items()}) if c["obs2"] else None)
    tr = lambda rho, o: float(np.trace(rho @ o).real)
    got = {k: complex(v) for k, v in net.measure(model()).items()}
    want = {}
    E = 0.0 if c["no_one"] else sum(tr(rs[s], h1[s]) for s in rs if h1[s] is not None)
    want["Energy"] = (E + sum(tr(rb[b], h2[b]) for b in rb)) / len(rs)
    if c["obs1"]:
        for k in o1[(0, 0)]:
            want[k] = np.mean([tr(rs[s], o1[s][k]) for s in rs])
    if c["obs2"]:
        for k in o2[net.bond_list[0]]:
            want[k] = np.mean([tr(rb[b], o2[b][k]) for b in rb])
    check(set(got) == set(want), "measured %s instead of %s", sorted(got), sorted(want))

    def compare(got, what):
        for k in want:
            check(abs(got[k] - want[k]) <= tol * (1 + abs(want[k])) * (5 if k == "Energy" else 1) * d, "%s%s = %s, expected %.9g", what, k, got[k], want[k])
    compare(got, "")
    if c["obs1"]:
        check(abs(got["one"] - 1) <= tol, "identity measures %s", got["one"])
        if c["herm"] and n1:
            lo = np.mean([np.linalg.eigvalsh(o1[s]["a0"])[0] for s in rs])
            hi = np.mean([np.linalg.eigvalsh(o1[s]["a0"])[-1] for s in rs])
            check(lo - tol * 5 <= got["a0"].real <= hi + tol * 5, "average %s outside the spectral range [%.6g, %.6g]", got["a0"], lo, hi)
    if c["obs2"]:
        check(abs(got["one2"] - 1) <= tol, "two-site identity measures %s", got["one2"])
    if c["rescale"]:
        for s in net.site_list:
            z = complex(r.normal(), r.normal() if cplx else 0) * 10.0 ** r.integers(-2, 3)
            net[s]["A"] = n.T(ref[s][0] * z, dt)
            f = lambda: 10.0 ** float(r.uniform(-2, 2))
            n.set_env(net, s, [x * f() for x in ref[s][1]], [x * f() for x in ref[s][2]], dt)
        compare({k: complex(v) for k, v in net.measure(model()).items()}, "after rescaling tensors: ")
    if d > 1 and (nx * ny > 1 or D > 1):
        return ["dtype=" + dt, "form=" + c["form"], "cell=%dx%d" % (nx, ny), "d=%d" % d] + (["no one-site"] if c["no_one"] else ["fields=%d" % c["fields"]])


cases = case(nx=st.sampled_from([2, 3, 1, 2, 2, 3, 1, 4]), ny=st.sampled_from([2, 3, 1, 2, 2, 3, 1, 4]), d=st.sampled_from([2, 2, 3, 4, 1]), D=st.sampled_from([2, 1, 3]), m=st.integers(1, 2), S=st.integers(1, 3),
             n1=st.integers(0, 3), n2=st.integers(0, 3), obs1=st.sampled_from([True, True, False]), obs2=st.sampled_from([True, True, False]), herm=st.sampled_from([True, True, False]),
             fields=st.sampled_from([2, 4, 1, 0]), no_one=st.sampled_from([False, False, False, True]), form=st.sampled_from(["tensor", "mat", "four", "matfour"]), rescale=st.booleans(),
             dtype=dtypes_mostly_double, seed=seeds).filter(lambda c: c["D"] < 3 or c["m"] * c["d"] <= 6)

LEGS = [Leg("averages", cases, run, 700, 20000)]
