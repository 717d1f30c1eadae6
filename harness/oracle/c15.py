"""Approximate optimizer: applies its layers in turn to the current unitary; perturbations are small rotations."""
import copy
import numpy as np
from oranssi.optimizers import approximate_lie_optimizer
from . import qm, ref
from .c13 import make_layer
from .script import ScriptAdapt, ScriptLayer


def check(case, ctx):
    n = case["n"]
    d = 2 ** n
    dev = qm.device(n)
    obs = [qm.obs(o) for o in case["obs"]]
    circ = qm.state_circuit(case["gates"])
    U0 = ref.circuit_matrix(case["gates"], n)
    kw = dict(nsteps=case["nsteps"], tol=case["tol"], eta=case["eta"])
    ctx.label(case["mode"], "n%d" % n)
    if case["mode"] == "real":
        mk = lambda: [make_layer(k, dev, obs, n, case["leta"]) for k in case["layers"]]
        layers, fresh = mk(), mk()
        costs, us = ctx.sut("approximate_lie_optimizer", approximate_lie_optimizer, circ, [], obs, dev, layers=layers,
                            return_unitary=True, **kw)
        U = np.asarray(us[0])
        ctx.close(U, U0, "initial unitary", 1e-9)
        for k in range(len(us) - 1):
            V = ctx.sut("layer", fresh[k % len(fresh)], np.array(us[k]))
            ctx.close(us[k + 1], V, "unitary after step %d against applying layer %d by hand" % (k + 1, k % len(fresh)), 1e-8)
        ctx.mark(len(us) - 1 > len(layers) >= 2)
        ctx.label(*["layer-" + k for k in case["layers"]])
        return
    log = []
    pool = []
    for i, kind in enumerate(case["kinds"]):
        us = [ref.haar(s + 17 * i, d) for s in case["us"]]
        if kind == "adapt":
            pool.append(ScriptAdapt(dev, obs, n, us, name=i, log=log))
        elif kind == "eye":
            pool.append(ScriptLayer(dev, obs, n, [np.eye(d, dtype=complex)], "mul", name=i, log=log))
        else:
            pool.append(ScriptLayer(dev, obs, n, us, kind, name=i, log=log))
        # reprs are printed by the optimizer
        pool[-1].name = "layer%d" % i
    layers = [pool[j % len(pool)] for j in case["order"]]
    given = list(layers)
    p0 = list(case["params"])
    keep = copy.deepcopy(p0)
    costs, us, perts = ctx.sut("approximate_lie_optimizer", approximate_lie_optimizer, circ, p0, obs, dev, layers=layers,
                               return_unitary=True, perturb=case["perturb"], return_perturbations=True, **kw)
    steps = len(costs) - 1
    ctx.require(layers == given, "the list of layers was changed")
    ctx.require(p0 == keep, "the caller's parameters were changed")
    ctx.require(len(log) == steps, "%d layer calls for %d recorded steps" % (len(log), steps))
    got = [int(k) for k in perts]
    prev = U0
    params = keep
    for k in range(steps):
        rec = log[k]
        want = given[k % len(given)].name
        ctx.require(rec[0] == want, "step %d called %s, expected %s (round robin)" % (k, rec[0], want))
        uin, uout = rec[1], rec[2]
        V = uin @ prev.conj().T
        if k > 0 and (k - 1) in got:
            ctx.label("perturbed")
            ctx.mark()
            ctx.close(V.imag, np.zeros((d, d)), "the perturbation is not a real rotation", 1e-7)
            ctx.unitary(V, "perturbation")
            ctx.require(np.linalg.norm(V - np.eye(d), 2) <= case["eta"] * 1.5 + 1e-7, "the perturbation is not small: %r for eta %r" % (
                np.linalg.norm(V - np.eye(d), 2), case["eta"]))
            ctx.require(case["eta"] == 0 or d == 1 or np.abs(V - np.eye(d)).max() > 1e-7, "the perturbation does nothing")
        else:
            ctx.close(uin, prev, "unitary given to the layer at step %d" % k, 1e-9)
        ctx.close(us[k + 1], uout, "unitary recorded after step %d" % k, 1e-12)
        if len(rec) == 5:
            ctx.label("adaptive")
            ctx.require(list(rec[3]["params"]) == list(params), "adaptive layer got parameters %s, expected %s" % (
                rec[3]["params"], params))
            ctx.require(callable(rec[3].get("optimizer")), "adaptive layer got no optimizer")
            params = rec[4]
        prev = uout
    ctx.mark(len(set(case["order"])) >= 2 and steps > len(layers))
