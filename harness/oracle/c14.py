"""Parameter-shift optimizer = gradient descent on the circuit parameters."""
import copy
import numpy as np
from pennylane import numpy as pnp
from oranssi.optimizers import parameter_shift_optimizer
from . import qm, ref


def flat(p):
    return [float(x) for x in np.asarray(p, dtype=float).ravel()]


def check(case, ctx):
    n, m = case["n"], len(case["params"])
    gates = case["gates"]
    H = ref.ham(case["obs"], n)
    obs = [qm.obs(o) for o in case["obs"]]
    shape = case["shape"]
    if shape == "nested":
        params = [[x] for x in case["params"]]
    elif shape == "pnp":
        params = pnp.array(case["params"], requires_grad=True)
    else:
        params = list(case["params"])

    class View(object):
        def __init__(self, p):
            self.p = p

        def __getitem__(self, i):
            return self.p[i][0] if shape == "nested" else self.p[i]

    def circuit(params, **kwargs):
        for g in gates:
            qm.apply_gate(g, View(params))

    def E(p):
        return ref.energy(ref.circuit_matrix(gates, n, p), H)

    def grad(p):
        h, out = 2e-3, []
        for i in range(m):
            def f(t):
                q = list(p)
                q[i] += t
                return E(q)
            out.append((45 * (f(h) - f(-h)) - 9 * (f(2 * h) - f(-2 * h)) + (f(3 * h) - f(-3 * h))) / (60 * h))
        return np.array(out)

    keep = copy.deepcopy(params)
    kw = {k: case[k] for k in ("eta", "nsteps", "tol") if case[k] is not None}
    eta = 0.1 if case["eta"] is None else case["eta"]
    nsteps = 40 if case["nsteps"] is None else case["nsteps"]
    res = ctx.sut("parameter_shift_optimizer", parameter_shift_optimizer, circuit, params, obs, qm.device(n), return_params=True,
                  return_state=case["state"], **kw)
    costs, ps = res[0], res[-1]
    ctx.require(flat(params) == flat(keep), "the caller's parameters were changed")
    ctx.require(len(ps) == len(costs) and 2 <= len(costs) <= nsteps + 1, "%d costs, %d parameter records, nsteps %d" % (
        len(costs), len(ps), nsteps))
    ctx.close(flat(ps[0]), flat(keep), "first parameter record", 1e-12)
    big, size = 0.0, max(1.0, float(np.abs(H).max()) / 10)
    for k in range(len(costs)):
        p = flat(ps[k])
        ctx.require(len(p) == m, "parameter record %d has %d entries" % (k, len(p)))
        ctx.close(float(costs[k]), E(p), "cost %d" % k, 1e-8 * size)
        if case["state"]:
            ctx.close(res[1][k], ref.circuit_matrix(gates, n, p)[:, 0], "state %d" % k, 1e-8)
        if k + 1 < len(costs):
            g = grad(p)
            big = max(big, np.abs(g).max())
            ctx.close(flat(ps[k + 1]), np.array(p) - eta * g, "parameters after step %d" % (k + 1), 1e-7 * size)
    ctx.mark(big > 1e-4 and eta > 0)
    ctx.label("n%d" % n, "m%d" % m, shape, "steps%d" % (len(costs) - 1))
