"""Exact optimizer: every step is the Riemannian gradient flow step."""
import numpy as np
from oranssi.optimizers import exact_lie_optimizer
from . import qm, ref


def flow_step(psi, obs, eta):
    """Unitary of one step from state psi: exp(eta/2 [rho, O]) for each observable in turn."""
    d = len(psi)
    W = np.eye(d, dtype=complex)
    for O in obs:
        rho = np.outer(psi, psi.conj())
        V = ref.expmh(1j * (rho @ O - O @ rho), eta / 2)
        W = V @ W
        psi = V @ psi
    return W, psi


def kwargs_of(case, **extra):
    kw = {k: case[k] for k in ("eta", "nsteps", "tol") if case.get(k) is not None}
    kw.update(extra)
    return kw


def check(case, ctx):
    n = case["n"]
    dev = qm.device(n)
    obs = [qm.obs(o) for o in case["obs"]]
    O = [ref.obs_full(o, n) for o in case["obs"]]
    H = sum(O)
    eta = 0.1 if case["eta"] is None else case["eta"]
    circ = qm.state_circuit(case["gates"])
    kw = kwargs_of(case)
    costs, states, U = ctx.sut("exact_lie_optimizer", exact_lie_optimizer, circ, [], obs, dev, return_state=True,
                               return_unitary=True, **kw)
    ctx.require(len(costs) == len(states), "%d costs but %d states" % (len(costs), len(states)))
    nsteps = 40 if case["nsteps"] is None else case["nsteps"]
    ctx.require(2 <= len(costs) <= nsteps + 1, "%d costs for %d steps" % (len(costs), nsteps))
    U0 = ref.circuit_matrix(case["gates"], n)
    ctx.close(states[0], U0[:, 0], "initial state", 1e-9)
    ctx.close(costs[0], ref.energy(U0, H), "initial cost", 1e-9)
    W = U0
    for k in range(len(states) - 1):
        V, psi = flow_step(np.asarray(states[k]), O, eta)
        W = V @ W
        ctx.close(states[k + 1], psi, "state after step %d" % (k + 1), 1e-8)
        ctx.close(costs[k + 1], ref.energy(psi, H), "cost after step %d" % (k + 1), 1e-8)
    ctx.close(U, W, "final unitary", 1e-7)
    ctx.mark(np.abs(np.asarray(states[-1]) - np.asarray(states[0])).max() > 1e-6)
    # the trajectory does not depend on what is asked to be returned
    rs, ru = case["flags"]
    res = ctx.sut("exact_lie_optimizer", exact_lie_optimizer, circ, [], obs, dev, return_state=rs, return_unitary=ru, **kw)
    c2 = res[0] if (rs or ru) else res
    ctx.close(c2, costs, "costs with return_state=%s, return_unitary=%s" % (rs, ru), 1e-9)
    if rs:
        ctx.close(res[1], states, "states", 1e-9)
    if ru:
        ctx.close(res[-1], U, "unitary", 1e-9)
    ctx.label("n%d" % n, "m%d" % len(obs), "steps%d" % min(40, 10 * ((len(costs) - 1) // 10)),
              "eta0" if eta == 0 else "eta1" if eta == 1 else "eta")
