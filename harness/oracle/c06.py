"""Parameter shift on operators: i[rho, O] for any involution O."""
import numpy as np
from oranssi.circuit_tools import param_shift_comm
from . import ref


def check(case, ctx):
    n = case["n"]
    d = 2 ** n
    if case["o"]["k"] == "word":
        O = ref.word(case["o"]["w"])
    else:
        V = ref.haar(case["o"]["s"], d)
        O = (V * np.where(np.arange(d) < case["o"]["m"], 1.0, -1.0)) @ V.conj().T
    k, s = case["rho"]["k"], case["rho"]["s"]
    V = ref.haar(s + 1, d)
    if k == "pure":
        rho = np.outer(V[:, 0], V[:, 0].conj())
    elif k == "mixed":
        p = np.random.RandomState(s).dirichlet(np.ones(d))
        rho = (V * p) @ V.conj().T
    elif k == "basis":
        rho = np.zeros((d, d), dtype=complex)
        rho[s % d, s % d] = 1
    elif k == "real":
        rho = np.random.RandomState(s).randn(d, d).astype(complex)
    else:
        rho = ref.cmat({"k": "gin", "n": n, "s": s})
    sc = case["rho"].get("scale", 1.0)
    rho = rho * sc
    lay = case.get("lay")
    if lay == "F":
        rho = np.asfortranarray(rho)
    elif lay == "ro":
        rho.setflags(write=False)
    elif lay == "f" and not np.any(rho.imag):
        rho = rho.real.copy()
        ctx.label("real-dtype")
    memo = {}

    def rot(t):
        g = ref.prot(O, t / 2)
        return g.real.copy() if lay == "f" and not np.any(g.imag) else g

    def gate(t):
        if case["cache"]:
            if t not in memo:
                memo[t] = rot(t)
            return memo[t]
        return rot(t)

    keep = rho.copy()
    for r in range(2):
        got = ctx.sut("param_shift_comm", param_shift_comm, rho, gate)
        ctx.close(got, 1j * (keep @ O - O @ keep), "commutator by parameter shift", 1e-9 * sc)
        ctx.require(np.array_equal(rho, keep), "rho was changed")
    for t, m in memo.items():
        ctx.close(m, ref.prot(O, t / 2), "a gate matrix was changed", 1e-12)
    ctx.mark(np.abs(keep @ O - O @ keep).max() > 1e-6 * sc)
    ctx.label("n%d" % n, k, case["o"]["k"])
