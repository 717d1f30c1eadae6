"""Descent."""
import itertools as it
import numpy as np
from oranssi import opt_tools as T
from oranssi.optimizers import approximate_lie_optimizer, exact_lie_optimizer, parameter_shift_optimizer
from . import qm, ref


def check(case, ctx):
    n = case["n"]
    dev = qm.device(n)
    obs = [qm.obs(o) for o in case["obs"]]
    O = [ref.obs_full(o, n) for o in case["obs"]]
    H = sum(O)
    ctx.label(case["mode"], "n%d" % n)
    if case["mode"] == "exact":
        eta = case["eta"]
        c = ctx.sut("exact_lie_optimizer", exact_lie_optimizer, qm.state_circuit(case["gates"]), [], obs, dev, eta=eta,
                    nsteps=case["nsteps"], tol=case["tol"])
        c = [float(x) for x in c]
        for k in range(len(c) - 1):
            x = min(1.0, max(-1.0, c[k]))
            s = np.sqrt(1 - x * x)
            ctx.close(c[k + 1], x * np.cos(eta * s) - s * np.sin(eta * s), "cost after step %d" % (k + 1), 1e-7)
            ctx.require(c[k + 1] <= c[k] + 1e-9, "cost rose from %r to %r" % (c[k], c[k + 1]))
        ctx.mark(c[0] - c[-1] > 1e-4)
        return
    if case["mode"] == "spectrum":
        w = np.linalg.eigvalsh(H)
        kw = dict(eta=case["eta"], nsteps=case["nsteps"], tol=case["tol"])
        if case["which"] == "exact":
            c = ctx.sut("exact", exact_lie_optimizer, qm.state_circuit(case["gates"]), [], obs, dev, **kw)
        elif case["which"] == "approx":
            layers = [T.LocalLieAlgebraLayer(dev, obs, 1, eta=case["eta"])]
            if n % 2 == 0:
                layers.append(T.LocalLieAlgebraLayer(dev, obs, 2, eta=case["eta"]))
            c = ctx.sut("approx", approximate_lie_optimizer, qm.state_circuit(case["gates"]), [], obs, dev, layers=layers, **kw)
        else:
            def circ(params, **k):
                for g in case["gates"]:
                    qm.apply_gate(g)
                for q in range(n):
                    qm.apply_gate({"g": "RY", "q": [q], "a": [["p", q, 1.0]]}, params)
            c = ctx.sut("ps", parameter_shift_optimizer, circ, [0.1 + 0.3 * q for q in range(n)], obs, dev, **kw)
        for k, x in enumerate(c):
            ctx.require(w[0] - 1e-8 <= float(x) <= w[-1] + 1e-8, "cost %r at step %d outside the spectrum [%r, %r]" % (
                float(x), k, w[0], w[-1]))
        ctx.mark(max(c) - min(c) > 1e-4)
        return
    eta, kind = case["eta"], case["kind"]
    U = ref.unitary(case["u"], n)
    psi = U[:, 0]
    if kind == "stochastic":
        L = ctx.sut("layer", T.StochasticLieAlgebraLayer, dev, obs, eta=eta)
    elif kind == "custom":
        L = ctx.sut("layer", T.CustomDirectionLieAlgebraLayer, dev, obs, None, eta=eta, trotterize=case["trotter"])
    else:
        L = ctx.sut("layer", T.LocalLieAlgebraLayer, dev, obs, int(kind[-1]), eta=eta, trotterize=case["trotter"])
    U1 = ctx.sut("layer step", L, U.copy())
    if kind == "stochastic":
        P = [ref.full_word(str(L.current_direction), [int(q) for q in L.current_qubits], n)]
    else:
        sizes = {"custom": [1, 2], "local1": [1], "local2": [2]}[kind]
        P = list(ref.su_tables(n, [s for s in sizes if s <= n]).values())
    om = np.array([[ref.omega(psi, p, o) for o in O] for p in P])
    pred = eta / 2 ** n * float(np.sum(om.sum(axis=1) ** 2))
    s = eta / 2 ** n * float(np.abs(om).sum())
    bound = 4 * np.linalg.norm(H, 2) * s * s * np.exp(2 * s)
    dE = ref.energy(U1, H) - ref.energy(U, H)
    ctx.require(abs(dE + pred) <= bound + 1e-9, "%s layer changed the energy by %r, predicted %r +- %r" % (kind, dE, -pred, bound))
    ctx.label(kind)
    ctx.mark(pred > 1e-7 and bound < pred)
