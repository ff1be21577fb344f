"""C17: operator algebra equals the true Pauli algebra."""
from vlib.core import Leg, check
from vlib.strat import st, seeds, dtypes_mostly_double, case
from vlib import net as n
import numpy as np
import torch
from acetn.model.pauli_matrix import pauli_matrices, PauliMatrix
from acetn.model.model_factory import model_factory

RULE = ("random expression trees over X, Y, Z, I (products, sums, differences, negation, scalar factors on either side, division, "
        "in-place forms) evaluated with the code and with complex matrices; built-in models for random parameters. Non-trivial: "
        "the expression has at least one product and two operators.")
ASSUMPTIONS = ["with real data types all terms of a sum have the same parity of the number of Y factors (others have no real matrix)"]
P = {"X": np.array([[0, 1], [1, 0]], complex), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]).astype(complex), "I": np.eye(2, dtype=complex)}
scalars = st.sampled_from([2.0, -1.0, 0.25, 3, -2, 0.5, 1.5, -0.125, 1, 0.0])


@st.composite
def expr(draw, nq, par, depth):
    """Expression on nq qubits with Y parity par."""
    ops = []
    if nq == 1:
        ops += ["leaf"] * 2
    if nq > 1:
        ops += ["mul"] * 4 + ["imul"]
    if depth > 0:
        ops += ["add", "sub", "neg", "lscale", "rscale", "div", "iscale", "iadd", "isub", "idiv"]
    op = draw(st.sampled_from(ops))
    if op == "leaf":
        return draw(st.sampled_from(["Y"] if par else ["X", "Z", "I"]))
    if op in ("mul", "imul"):
        a = draw(st.integers(1, nq - 1))
        pa = draw(st.integers(0, 1))
        return [op, draw(expr(a, pa, depth - 1)), draw(expr(nq - a, (par - pa) % 2, depth - 1))]
    if op in ("add", "sub", "iadd", "isub"):
        return [op, draw(expr(nq, par, depth - 1)), draw(expr(nq, par, depth - 1))]
    if op == "neg":
        return [op, draw(expr(nq, par, depth - 1))]
    x = draw(scalars)
    if op in ("div", "idiv") and x == 0:
        x = 4.0
    return [op, x, draw(expr(nq, par, depth - 1))]


def reference(e):
    if isinstance(e, str):
        return P[e]
    if e[0] in ("mul", "imul"):
        return np.kron(reference(e[1]), reference(e[2]))
    if e[0] in ("add", "iadd"):
        return reference(e[1]) + reference(e[2])
    if e[0] in ("sub", "isub"):
        return reference(e[1]) - reference(e[2])
    if e[0] == "neg":
        return -reference(e[1])
    if e[0] in ("div", "idiv"):
        return reference(e[2]) / e[1]
    return e[1] * reference(e[2])


def imaginary(e):
    """Every scalar factor times 1j."""
    if isinstance(e, str):
        return e
    return [e[0]] + [1j * x if isinstance(x, (int, float)) else imaginary(x) for x in e[1:]]


def scalar(x, c):
    """The factor as a number of another library."""
    k = c.get("kind", "plain")
    if k == "numpy":
        return np.float64(x) if isinstance(x, float) else np.int64(x)
    if k == "numpy32":
        return np.float32(x)
    if k == "torch":
        return torch.tensor(float(x), dtype=torch.float64)
    return x


def evaluate(e, base, log, c):
    """The expression with the code's operators; log collects (object, matrix copy) to detect modified operands."""
    if isinstance(e, str):
        v = base[e]
    else:
        op = e[0]
        if op in ("mul", "add", "sub", "imul", "iadd", "isub"):
            a, b = evaluate(e[1], base, log, c), evaluate(e[2], base, log, c)
            if op == "mul":
                v = a * b
            elif op == "imul":
                # the documented result of the in-place product of two operators is its matrix
                v, w = a, a * b
                v *= b
                m = v if isinstance(v, torch.Tensor) else v.mat
                check(torch.equal(m, w.mat), "in-place product %s differs from the plain one %s", m.tolist(), w.mat.tolist())
                v = w
            elif op == "add":
                v = a + b
            elif op == "sub":
                v = a - b
            elif op == "iadd":
                v = a
                v += b
            else:
                v = a
                v -= b
        elif op == "neg":
            v = -evaluate(e[1], base, log, c)
        else:
            a = evaluate(e[2], base, log, c)
            x = scalar(e[1], c)
            if op == "lscale":
                v = x * a
            elif op == "rscale":
                v = a * x
            elif op == "div":
                v = a / x
            elif op == "idiv":
                v = a
                v /= x
            else:
                v = a
                v *= x
    log.append((v, v.mat.clone()))
    return v


def leaves(e):
    return e if isinstance(e, str) else "".join(leaves(x) for x in e[1:] if isinstance(x, (str, list, tuple)))


def run_expr(c):
    dt = c["dtype"]
    e = imaginary(c["expr"]) if c.get("kind") == "complex" and n.is_c(dt) else c["expr"]
    base = dict(zip("XYZI", pauli_matrices(n.TD[dt], torch.device("cpu"))))
    log = []
    v = evaluate(e, base, log, c)
    check(isinstance(v, PauliMatrix), "result is a %s", type(v))
    for o, m in log:
        check(o.mat.shape == m.shape and torch.equal(o.mat, m), "an operand was modified by a later operation")
    for x in (1, 0.5, "a", None):
        for f in (lambda: v + x, lambda: v - x, lambda: x + v, lambda: x - v):
            try:
                y = f()
            except Exception:
                continue
            check(y is not None, "the sum or difference of an operator and %r is None", x)
    ref = reference(e)
    if not n.is_c(dt) and c["par"]:
        ref = ref / 1j
    check(v.mat.dtype == n.TD[dt], "result has dtype %s", v.mat.dtype)
    got = n.N(v.mat)
    check(got.shape == ref.shape, "shape %s instead of %s", got.shape, ref.shape)
    tol = (1e-4 if n.is_single(dt) else 1e-11) * max(1.0, np.abs(ref).max())
    check(np.abs(got - ref).max() <= tol, "matrix differs by %.3g: got %s expected %s", np.abs(got - ref).max(), got.real.tolist() if not n.is_c(dt) else got.tolist(), ref.tolist())
    l = leaves(e)
    if c["nq"] >= 2 and len(l) >= 2:
        return ["dtype=" + dt, "qubits=%d" % c["nq"], "Y=%d" % min(l.count("Y"), 4), "odd" if c["par"] else "even", "kind=" + c.get("kind", "plain")]


@st.composite
def expr_case(draw):
    nq, par = draw(st.sampled_from([2, 3, 1, 2, 4])), draw(st.sampled_from([0, 0, 1]))
    return {"nq": nq, "par": par, "kind": draw(st.sampled_from(["plain", "plain", "numpy", "numpy32", "torch", "complex"])), "dtype": draw(dtypes_mostly_double), "expr": draw(expr(nq, par, draw(st.integers(1, 4))))}


def run_models(c):
    dt = c["dtype"]
    par = dict(c["params"])
    cfg = {"name": c["name"]}
    if c["name"] == "ising":
        par.setdefault("jz", 1.5), par.setdefault("hx", -0.75)
    if par or c["give_empty"]:
        cfg["params"] = par
    net = n.make(2, 2, 2, 1, 2, dt, model=cfg)
    if c["later"] is not None:
        key = "J" if c["name"] == "heisenberg" else "hx"
        net.set_model_params(**{key: c["later"]})
        par[key] = c["later"]
    m = model_factory.create(net.config.model)
    X, Y, Z, I = P["X"], P["Y"], P["Z"], P["I"]
    kr = np.kron
    tol = 1e-5 if n.is_single(dt) else 1e-12
    rng = n.gen(c["seed"])
    A = {s: n.randn(rng, (1, 1, 1, 1, 2), n.is_c(dt)) for s in net.site_list}
    n.set_A(net, A, dt)
    vec = {s: n.nrm(A[s].ravel()) for s in A}
    energy = 0
    if c["name"] == "heisenberg":
        J = par.get("J", 1.0)
        h2, h1 = 0.25 * J * (kr(X, X) + kr(Y, Y) + kr(Z, Z)), 0 * X
    else:
        h2, h1 = -par["jz"] * kr(Z, Z), -par["hx"] * X
    for b in net.bond_list:
        h = m.two_site_hamiltonian(b)
        h = n.N(h.mat if hasattr(h, "mat") else h)
        check(np.abs(h - h2).max() <= tol * max(1, np.abs(h2).max()), "two-site Hamiltonian of %s with %s: %s", c["name"], par, h.tolist())
        v = kr(vec[b.s1], vec[b.s2])
        energy += np.vdot(v, h2 @ v).real
    for s in net.site_list:
        h = m.one_site_hamiltonian(s)
        h = n.N(h.mat if hasattr(h, "mat") else h) if h is not None else 0 * X
        check(np.abs(h - h1).max() <= tol * max(1, np.abs(h1).max()), "one-site Hamiltonian of %s with %s: %s", c["name"], par, h.tolist())
        energy += np.vdot(vec[s], h1 @ vec[s]).real
        sg = -1 if c["name"] == "heisenberg" and sum(s) % 2 else 1
        o = {k: n.N(x.mat) for k, x in m.one_site_observables(s).items()}
        check(np.abs(o["sx"] - sg * X).max() <= tol and np.abs(o["sz"] - sg * Z).max() <= tol, "observables of %s at %s", c["name"], s)
        state = m.initial_site_state(s)
        want = [0, 1] if c["name"] == "heisenberg" and sum(s) % 2 else [1, 0]
        check(list(state) == want, "initial state of %s at %s: %s", c["name"], s, state)
    got = net.measure()
    sz = np.mean([(-1 if c["name"] == "heisenberg" and sum(s) % 2 else 1) * np.vdot(vec[s], Z @ vec[s]).real for s in net.site_list])
    tol *= 100
    e = float(complex(got["Energy"]).real)
    check(abs(e - energy / 4) <= tol * max(1, abs(energy)), "energy of a product state %.8g, expected %.8g (%s)", e, energy / 4, par)
    check(abs(complex(got["sz"]).real - sz) <= tol, "sz of a product state %s, expected %s", got["sz"], sz)
    return [c["name"], "dtype=" + dt, "default" if not c["params"] else "given"]


vals = st.sampled_from([1.0, 0.5, -1.25, 2.0, 3.1, 0.0, 2, -1])
model_case = st.one_of(
    case(name=st.just("heisenberg"), params=st.one_of(st.just({}), case(J=vals)), give_empty=st.booleans(), later=st.one_of(st.none(), vals), dtype=dtypes_mostly_double, seed=seeds),
    case(name=st.just("ising"), params=case(jz=vals, hx=vals), give_empty=st.booleans(), later=st.one_of(st.none(), vals), dtype=dtypes_mostly_double, seed=seeds))

LEGS = [Leg("expressions", expr_case(), run_expr, 3000, 100000), Leg("models", model_case, run_models, 240, 6000)]
