"""Hamiltonian matrix = weighted sum of the observables."""
import numpy as np
from oranssi.circuit_tools import get_hamiltonian_matrix
from . import qm, ref


def check(case, ctx):
    n, specs, ct = case["n"], case["obs"], case["ct"]
    co = case["co"]
    if ct == "mixed":
        co = [{"int": lambda v: int(round(v)), "float": float, "npf": np.float64, "complex": lambda v: complex(v, 1 - v),
               "npi": lambda v: np.int64(round(v))}[t](v) for t, v in co]
    elif co is not None and ct != "int":
        co = [c * case.get("scale", 1.0) for c in co]
    if ct == "np":
        arg = np.array(co, dtype=float)
    elif ct == "tuple":
        arg = tuple(co)
    elif ct == "complex":
        co = [complex(c, -c / 2) for c in co]
        arg = list(co)
    else:
        arg = None if co is None else list(co)
    obs = [qm.obs(o) for o in specs]
    want = ref.ham(specs, n, co)
    args = (n, obs) if arg is None else (n, obs, arg)
    got = ctx.sut("get_hamiltonian_matrix", get_hamiltonian_matrix, *args)
    tol = 1e-11 * max([1.0 if co is None else np.abs(co).max()] + [np.abs(want).max()]) if specs else 0.0
    ctx.close(got, want, "Hamiltonian matrix", tol)
    ctx.require(len(obs) == len(specs), "the observable list was changed")
    if arg is not None:
        ctx.require(list(arg) == list(co), "the coefficients were changed")
    if case["again"]:
        got[...] = 3.0
        if arg is None:
            again = ctx.sut("get_hamiltonian_matrix", get_hamiltonian_matrix, n, obs, coeffs=None)
        else:
            again = ctx.sut("get_hamiltonian_matrix", get_hamiltonian_matrix, nqubits=n, observables=obs, coeffs=arg)
        ctx.close(again, want, "Hamiltonian matrix, second call", tol)
    ctx.mark(len(specs) >= 2)
    ctx.label("n%d" % n, "coeffs-%s" % ct, "m%d" % len(specs))
