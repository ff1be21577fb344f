"""C10: Trotter gates are exp(-dtau*h) with every term exactly once."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, case
from vlib import net as n
import types
import numpy as np
import torch
import scipy.linalg
from acetn.evolution.gate import Gate

RULE = ("models with random site- and bond-dependent Hamiltonians (some sites without a one-site term; tensors in matrix or "
        "four-index form or objects with a matrix; cached or freshly built); all gates are compared with scipy matrix "
        "exponentials, with several models built in between. Non-trivial: more than one bond and physical dimension above 1.")
ASSUMPTIONS = []


class Op:
    def __init__(self, mat):
        self.mat = mat


def make_model(c, r, which):
    d, dt, cplx = c["d"], c["dtype"], n.is_c(c["dtype"])
    m = c["models"][which]
    S = n.sites(c["nx"], c["ny"])
    rnd = (lambda k: n.herm(r, k, cplx)) if m["herm"] else (lambda k: n.randn(r, (k, k), cplx) / k)
    h1 = {s: (rnd(d) if r.integers(0, 4) < m["fields"] else None) for s in S}
    h2 = {}
    for s in S:
        for k in (1, 2):
            t = ((s[0] + n.DIRS[k][0]) % c["nx"], (s[1] + n.DIRS[k][1]) % c["ny"])
            h2[(s, t, k)] = rnd(d * d) * (0 if r.integers(0, 6) == 0 else 1)

    def wrap(x, two):
        if x is None:
            return None
        t = n.T(x, dt)
        if two and m["form"] == "four":
            t = t.reshape(d, d, d, d)
        return Op(t) if m["form"] == "mat" else t
    c1 = {s: wrap(x, False) for s, x in h1.items()}
    c2 = {b: wrap(x, True) for b, x in h2.items()}
    if m["cached"]:
        one, two = (lambda s: c1[tuple(s)]), (lambda b: c2[tuple(b)])
    else:
        one, two = (lambda s: wrap(h1[tuple(s)], False)), (lambda b: wrap(h2[tuple(b)], True))
    if m["no_one"]:
        one, h1 = None, {s: None for s in S}
    return n.FreeModel(dt, d, two=two, one=one), h1, h2, c1, c2


def mat(o):
    return n.N(o.mat if hasattr(o, "mat") else o)


def run_gates(c):
    r = n.gen(c["seed"])
    d, dt = c["d"], c["dtype"]
    net = n.make(c["nx"], c["ny"], d, 1, 4, dt)
    ms = [make_model(c, r, i) for i in range(len(c["models"]))]
    gates = []
    for i, dtau in c["builds"]:
        i %= len(ms)
        gates.append((i, dtau, Gate(ms[i][0], dtau, net.bond_list, net.site_list)))
    tol = 3e-5 if n.is_single(dt) else 1e-11
    I = np.eye(d)
    for i, dtau, g in gates:
        _, h1, h2, c1, c2 = ms[i]
        total, logs = 0, 0
        for b in net.bond_list:
            h = h2[(b.s1, b.s2, b.k)].astype(complex)
            if h1[b.s1] is not None:
                h = h + 0.25 * np.kron(h1[b.s1], I)
            if h1[b.s2] is not None:
                h = h + 0.25 * np.kron(I, h1[b.s2])
            e = scipy.linalg.expm(-dtau * h)
            got = n.N(g[b]).reshape(d * d, d * d)
            check(g[b].dtype == n.TD[dt], "gate of dtype %s", g[b].dtype)
            err = np.abs(got - e).max() / np.abs(e).max()
            check(err <= tol, "gate of %s (model %d, dtau %g) is off by %.1e", b, i, dtau, err)
    for _, h1, h2, c1, c2 in ms:
        for s in h1:
            if h1[s] is not None:
                check(np.abs(mat(c1[s]) - n.N(n.T(h1[s], dt))).max() == 0, "one-site operator of %s was modified", s)
        for b in h2:
            check(np.abs(mat(c2[b]).reshape(d * d, d * d) - n.N(n.T(h2[b], dt))).max() == 0, "two-site operator of %s was modified", b)
    if d > 1 and c["nx"] * c["ny"] > 1:
        return ["dtype=" + dt, "d=%d" % d, "models=%d" % len(ms)] + sorted({m["form"] for m in c["models"]}) + sorted({"cached" if m["cached"] else "fresh" for m in c["models"]})


model_s = st.fixed_dictionaries(dict(fields=st.sampled_from([2, 4, 1, 0]), form=st.sampled_from(["tensor", "mat", "four"]),
                                     cached=st.booleans(), herm=st.sampled_from([True, True, False]), no_one=st.sampled_from([False, False, False, True])))
gates_case = case(nx=st.integers(1, 3), ny=st.integers(1, 3), d=st.sampled_from([2, 3, 2, 4, 1]), dtype=dtypes_mostly_double,
                  models=st.lists(model_s, min_size=1, max_size=3),
                  builds=st.lists(st.tuples(st.integers(0, 2), st.sampled_from([0.01, 0.1, 0.5, 1e-4, 0.0, 2.0, -0.1, 1])), min_size=1, max_size=4), seed=seeds)


def run_evolve(c):
    """End to end: with bond dimension 1 and only one-site terms, evolving applies every field exactly once per step."""
    torch.manual_seed(c["seed"] % 1000)
    r = n.gen(c["seed"])
    d, dt, cplx = c["d"], c["dtype"], n.is_c(c["dtype"])
    net = n.make(c["nx"], c["ny"], d, 1, 2, dt, ctmrg={"steps": 1}, evolution={"update_type": c["upd"]})
    h1 = {s: (n.herm(r, d, cplx) if r.integers(0, 4) < c["fields"] else None) for s in net.site_list}
    # two-site terms which are sums of one-site terms of the same, commuting kind: equivalent to extra fields
    ab = {}
    for b in net.bond_list:
        f = [float(x) for x in r.normal(size=2)]
        ab[b] = f if c["bonds"] else [0.0, 0.0]
    I = np.eye(d)
    hh = lambda s: h1[s] if h1[s] is not None else np.zeros((d, d))
    model = n.FreeModel(dt, d, one=lambda s: h1[tuple(s)],
                        two=lambda b: ab[b][0] * np.kron(hh(b.s1), I) + ab[b][1] * np.kron(I, hh(b.s2)))
    A = {s: n.nrm(n.randn(r, (1, 1, 1, 1, d), cplx)) for s in net.site_list}
    n.set_A(net, A, dt)
    net.evolve(dtau=c["dtau"], steps=c["steps"], model=model)
    tol = 2e-4 if n.is_single(dt) else 1e-8
    for s in net.site_list:
        w = 1.0 + sum(ab[b][0] for b in net.bond_list if b.s1 == s) + sum(ab[b][1] for b in net.bond_list if b.s2 == s)
        e = scipy.linalg.expm(-c["dtau"] * c["steps"] * w * hh(s)) @ A[s].ravel()
        dd = n.ray_dist(e, n.N(net[s]["A"]).ravel())
        check(dd <= tol, "site %s: state differs from exp(-n*dtau*h) by %.1e (field terms: %s)", s, dd, [t for t in h1 if h1[t] is not None])
    if c["steps"] and c["fields"]:
        return [c["upd"], "dtype=" + dt, "fields=%d" % c["fields"], "cell=%dx%d" % (c["nx"], c["ny"])]


evolve_case = case(nx=st.integers(2, 4), ny=st.integers(2, 4), d=st.integers(2, 3), dtype=dtypes_mostly_double, upd=st.sampled_from(["simple", "full"]),
                   fields=st.sampled_from([2, 4, 1, 3]), bonds=st.booleans(), dtau=st.sampled_from([0.1, 0.02, 0.3, -0.1]), steps=st.sampled_from([1, 2, 3]), seed=seeds)

LEGS = [Leg("gates", gates_case, run_gates, 1000, 30000), Leg("evolve", evolve_case, run_evolve, 160, 3000)]
