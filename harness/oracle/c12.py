"""Stopping rule and perturbation bookkeeping."""
import numpy as np
from oranssi import opt_tools as T
from oranssi.optimizers import approximate_lie_optimizer, exact_lie_optimizer, parameter_shift_optimizer
from . import qm, ref
from .script import ScriptLayer


def stalled(a, b, tol):
    """None when the decision is too close to call."""
    d, lim = abs(a - b), tol + 1e-5 * abs(b)
    if abs(d - lim) <= 1e-12 and d != 0.0:
        return None
    return d <= lim


def check(case, ctx):
    mode, tol, eta = case["mode"], case["tol"], case["eta"]
    nsteps = case["nsteps"]
    kw = {"eta": eta}
    if nsteps is not None:
        kw["nsteps"] = nsteps
    else:
        nsteps = 40
    if case["give_tol"]:
        kw["tol"] = tol
    else:
        tol = 1e-3
    per = case["perturb"]
    perts = None
    if mode == "script":
        import pennylane as qml
        dev = qm.device(1)
        obs = [qml.PauliZ(0)]
        L = ScriptLayer(dev, obs, 1, [ref.ry(a) for a in case["angles"]])
        circ = qm.state_circuit([{"g": "RY", "q": [0], "a": [0.4]}])
        first, back = 9, 5
        costs, perts = ctx.sut("approximate_lie_optimizer", approximate_lie_optimizer, circ, [], obs, dev, layers=[L],
                               perturb=per, return_perturbations=True, **kw)
        want = [np.cos(0.4)] + [np.cos(case["angles"][k % len(case["angles"])]) for k in range(len(costs) - 1)]
        ctx.close(costs, want, "costs of the scripted run", 1e-9)
    else:
        n = case["n"]
        dev = qm.device(n)
        obs = [qm.obs(o) for o in case["obs"]]
        if mode == "exact":
            first, back = 4, 1
            circ = qm.state_circuit(case["gates"])
            if per:
                costs, perts = ctx.sut("exact_lie_optimizer", exact_lie_optimizer, circ, [], obs, dev, perturbation=True,
                                       return_perturbations=True, **kw)
            else:
                costs = ctx.sut("exact_lie_optimizer", exact_lie_optimizer, circ, [], obs, dev, **kw)
        elif mode == "ps":
            first, back, per = 3, 1, False

            def circ(params, **k):
                for g in case["gates"]:
                    qm.apply_gate(g)
                for q in range(n):
                    qm.apply_gate({"g": "RY", "q": [q], "a": [["p", q, 1.0]]}, params)
            costs = ctx.sut("parameter_shift_optimizer", parameter_shift_optimizer, circ, [0.1 + 0.2 * q for q in range(n)], obs,
                            dev, **kw)
        else:
            first, back = 9, 5
            layers = [T.LocalLieAlgebraLayer(dev, obs, 1, eta=eta)]
            costs, perts = ctx.sut("approximate_lie_optimizer", approximate_lie_optimizer, qm.state_circuit(case["gates"]), [],
                                   obs, dev, layers=layers, perturb=per, return_perturbations=True, **kw)
    c = [float(x) for x in costs]
    steps = len(c) - 1
    ctx.require(1 <= steps <= nsteps, "%d steps taken with nsteps=%d" % (steps, nsteps))
    dec = {}
    for k in range(first, steps):
        dec[k] = False if tol is None else stalled(c[k + 1], c[k + 1 - back], tol)
    early = any(stalled(c[k + 1], c[k], tol or 0.0) for k in range(min(first, steps)))
    ctx.label(mode, "perturb" if per else "stop", "tol-none" if tol is None else "tol", "early-stall" if early else "no-early-stall")
    if per:
        ctx.require(steps == nsteps, "a perturbed run stopped after %d of %d steps" % (steps, nsteps))
        got = [int(x) for x in perts]
        ctx.require(got == sorted(set(got)), "perturbed steps not increasing: %s" % got)
        for k in range(steps):
            d = dec.get(k, False)
            if d is None:
                continue
            ctx.require((k in got) == d, "step %d: stalled=%s but perturbed=%s (costs %s)" % (k, d, k in got, c[max(0, k - 5):k + 2]))
        ctx.require(all(0 <= k < steps for k in got), "perturbed steps out of range: %s" % got)
        ctx.mark(bool(got) or early)
        return
    if perts is not None:
        ctx.require(len(perts) == 0, "perturbations recorded without perturbing: %s" % perts)
    for k in range(first, steps - 1):
        ctx.require(dec[k] is not True, "the run went on after a stall at step %d (costs %s)" % (k, c[max(0, k - 5):k + 2]))
    if steps < nsteps:
        last = steps - 1
        ctx.require(last >= first, "stopped after %d steps, before a stall may count" % steps)
        ctx.require(dec[last] is not False, "stopped at step %d without a stall (costs %s)" % (last, c[max(0, last - 5):]))
        ctx.label("stopped-early")
    ctx.mark(steps < nsteps or early)
