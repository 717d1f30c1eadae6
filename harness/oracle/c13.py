"""Returned records agree with each other."""
import numpy as np
from oranssi import opt_tools as T
from oranssi.optimizers import approximate_lie_optimizer, exact_lie_optimizer, parameter_shift_optimizer
from . import qm, ref
from .script import ScriptLayer


def make_layer(kind, dev, obs, n, eta, seed=0):
    if kind == "local1":
        return T.LocalLieAlgebraLayer(dev, obs, 1, eta=eta)
    if kind == "local2":
        return T.LocalLieAlgebraLayer(dev, obs, 2, eta=eta)
    if kind == "custom":
        return T.CustomDirectionLieAlgebraLayer(dev, obs, ["X", "Y"] + (["ZZ"] if n > 1 else []), eta=eta)
    if kind == "stochastic":
        return T.StochasticLieAlgebraLayer(dev, obs, eta=eta)
    if kind == "squared":
        return T.SquaredLieAlgebraLayer(dev, obs, eta=eta)
    if kind == "su8":
        return T.SU8_AlgebraLayer(dev, obs, eta=eta)
    if kind == "zass":
        return T.ZassenhausLayer(dev, obs, eta=eta, ratio=(1, 2))
    if kind == "script":
        us = [ref.haar(seed + i, 2 ** n) for i in range(3)] + [np.eye(2 ** n, dtype=complex)] * 2
        return ScriptLayer(dev, obs, n, us, "mul", states=["a", "b", None])
    raise ValueError(kind)


def unpack(ctx, res, names, flags):
    """names[0] is always returned; the others in order when their switch is on."""
    if not any(flags):
        return {names[0]: res}
    want = 1 + sum(flags)
    ctx.require(isinstance(res, tuple) and len(res) == want, "expected a tuple of %d records, got %s" % (want, type(res)))
    out = {names[0]: res[0]}
    i = 1
    for nm, f in zip(names[1:], flags):
        if f:
            out[nm] = res[i]
            i += 1
    return out


def check(case, ctx):
    n, opt, flags = case["n"], case["opt"], case["flags"]
    dev = qm.device(n)
    obs = [qm.obs(o) for o in case["obs"]]
    H = ref.ham(case["obs"], n)
    kw = {"eta": case["eta"], "nsteps": case["nsteps"], "tol": case["tol"]}
    nsteps = case["nsteps"]
    ctx.label(opt, "flags%d" % sum(flags))
    if opt == "ps":
        names = ["cost", "state", "params"]
        res = ctx.sut("parameter_shift_optimizer", parameter_shift_optimizer, qm.void_circuit(case["gates"]), list(case["params"]),
                      obs, dev, return_state=flags[0], return_params=flags[1], **kw)
        r = unpack(ctx, res, names, flags)
        c = [float(x) for x in r["cost"]]
        ctx.close(c[0], ref.energy(ref.circuit_matrix(case["gates"], n, case["params"]), H), "initial cost", 1e-8)
        if "params" in r:
            ctx.require(len(r["params"]) == len(c), "%d parameter records, %d costs" % (len(r["params"]), len(c)))
            ctx.close(r["params"][0], case["params"], "initial parameters", 1e-12)
        for k in range(len(c)):
            psi = None
            if "params" in r:
                psi = ref.circuit_matrix(case["gates"], n, [float(x) for x in r["params"][k]])[:, 0]
                ctx.close(c[k], ref.energy(psi, H), "cost %d against the parameters" % k, 1e-8)
            if "state" in r:
                s = np.asarray(r["state"][k])
                ctx.close(c[k], ref.energy(s, H), "cost %d against the state" % k, 1e-8)
                if psi is not None:
                    ctx.close(s, psi, "state %d against the parameters" % k, 1e-8)
        if "state" in r:
            ctx.require(len(r["state"]) == len(c), "%d states, %d costs" % (len(r["state"]), len(c)))
        ctx.mark(sum(flags) == 2 and len(c) > 2)
        return
    U0 = ref.circuit_matrix(case["gates"], n)
    if opt == "exact":
        names = ["cost", "state", "perturb", "unitary"]
        fs, fp, fu = flags
        per = case["perturb"] or fp
        res = ctx.sut("exact_lie_optimizer", exact_lie_optimizer, qm.state_circuit(case["gates"]), [], obs, dev, return_state=fs,
                      perturbation=per, return_perturbations=fp, return_unitary=fu, **kw)
        r = unpack(ctx, res, names, flags)
        c = [float(x) for x in r["cost"]]
        if fs:
            ctx.require(len(r["state"]) == len(c), "%d states, %d costs" % (len(r["state"]), len(c)))
            ctx.close(r["state"][0], U0[:, 0], "initial state", 1e-8)
            for k in range(len(c)):
                s = np.asarray(r["state"][k])
                ctx.close(np.linalg.norm(s), 1.0, "norm of state %d" % k, 1e-8)
                ctx.close(c[k], ref.energy(s, H), "cost %d against the state" % k, 1e-8)
        ctx.close(c[0], ref.energy(U0, H), "initial cost", 1e-8)
        if fu:
            U = np.asarray(r["unitary"])
            ctx.unitary(U, "returned unitary")
            last_perturbed = per and (not fp or (len(c) - 2) in [int(x) for x in r["perturb"]])
            if not last_perturbed:
                ctx.close(c[-1], ref.energy(U, H), "final cost against the unitary", 1e-8)
                if fs:
                    ctx.close(U[:, 0], r["state"][-1], "final state against the unitary", 1e-8)
        if per:
            ctx.require(len(c) == nsteps + 1, "perturbed run took %d of %d steps" % (len(c) - 1, nsteps))
        ctx.mark(sum(flags) >= 2 and len(c) > 2)
        return
    names = ["cost", "state", "omegas", "unitary", "gates", "perturb", "zass"]
    fs, fo, fu, fg, fp, fz = flags
    layers = [make_layer(k, dev, obs, n, case["eta"], case["rng"] + i) for i, k in enumerate(case["layers"])]
    res = ctx.sut("approximate_lie_optimizer", approximate_lie_optimizer, qm.state_circuit(case["gates"]), [], obs, dev,
                  layers=layers, return_state=fs, return_omegas=fo, return_unitary=fu, return_gates=fg, return_perturbations=fp,
                  return_zassenhaus=fz, perturb=case["perturb"], **kw)
    r = unpack(ctx, res, names, flags)
    c = [float(x) for x in r["cost"]]
    steps = len(c) - 1
    ctx.close(c[0], ref.energy(U0, H), "initial cost", 1e-8)
    if fu:
        us = r["unitary"]
        ctx.require(len(us) == steps + 1, "%d unitaries, %d costs" % (len(us), len(c)))
        ctx.close(us[0], U0, "initial unitary", 1e-8)
        for k, U in enumerate(us):
            ctx.unitary(U, "unitary %d" % k)
            ctx.close(c[k], ref.energy(np.asarray(U), H), "cost %d against the unitary" % k, 1e-8)
    if fs:
        ctx.require(len(r["state"]) == steps + 1, "%d states, %d costs" % (len(r["state"]), len(c)))
        for k in range(steps + 1):
            s = np.asarray(r["state"][k])
            ctx.close(np.linalg.norm(s), 1.0, "norm of state %d" % k, 1e-7)
            ctx.close(c[k], ref.energy(s, H), "cost %d against the state" % k, 1e-8)
            if fu:
                ctx.close(s, np.asarray(us[k])[:, 0], "state %d against the unitary" % k, 1e-8)
    if fo:
        ctx.require(len(r["omegas"]) == steps, "%d gradient tables, %d steps" % (len(r["omegas"]), steps))
        for k in range(steps):
            tab = r["omegas"][k]
            ctx.require(set(tab) == set(ref.all_words(n)), "gradient table keys")
            psi = np.asarray(us[k + 1])[:, 0] if fu else np.asarray(r["state"][k + 1]) if fs else None
            if psi is None:
                continue
            for w in ref.all_words(n)[k % 3::3]:
                ctx.close(tab[w], ref.omega(psi, ref.word(w), H) / 2 ** n, "gradient %s after step %d" % (w, k), 1e-8)
    if fg:
        ctx.require(isinstance(r["gates"], list) and len(r["gates"]) <= steps, "gate record %r" % (r["gates"],))
    if fp:
        ctx.require(all(0 <= int(k) < steps for k in r["perturb"]), "perturbed steps %s" % (r["perturb"],))
        ctx.require(case["perturb"] or not len(r["perturb"]), "perturbations without perturbing")
    if fz:
        ctx.require(len(r["zass"]) == steps, "%d phases, %d steps" % (len(r["zass"]), steps))
        count = {}
        for k in range(steps):
            i = k % len(layers)
            j = count.get(i, 0)
            count[i] = j + 1
            kind = case["layers"][i]
            want = {"zass": ["su4", "su8", "su8"][j % 3], "script": ["a", "b", None][j % 3]}.get(kind)
            ctx.require(r["zass"][k] == want, "phase recorded at step %d is %r, the layer was in %r" % (k, r["zass"][k], want))
    ctx.label(*["layer-" + k for k in case["layers"]])
    ctx.mark(sum(flags) >= 2 and steps >= 2)
