"""One local layer call equals the product of exponentials of the local gradients."""
import itertools as it

import numpy as np
from oranssi.opt_tools import LocalLieAlgebraLayer
from . import qm, ref


def product(U, groups, obs, eta, n, trotter):
    """groups: list of lists of full Pauli matrices, one exponential per group (one per Pauli when trotterized)."""
    psi = U[:, 0]
    V = U
    gmax = 0.0
    for O in obs:
        for g in groups:
            w = [ref.omega(psi, P, O) for P in g]
            gmax = max([gmax] + [abs(x) for x in w])
            if trotter:
                for x, P in zip(w, g):
                    V = ref.prot(P, eta / 2 ** n * x) @ V
            elif g:
                V = ref.expmh(sum(x * P for x, P in zip(w, g)), eta / 2 ** n) @ V
    return V, gmax


def scale(case):
    return max([1.0] + [o["m"].get("scale", 1.0) for o in case["obs"] if o.get("t") == "H"])


def run(case, ctx, layer, groups, trotter, n):
    obs = [ref.obs_full(o, n) for o in case["obs"]]
    U = ref.unitary(case["U"], n)
    eta = 0.1 if case["eta"] is None else case["eta"]
    sc = scale(case)
    gm = 0.0
    calls = 0
    feed = ref.Feed(case)
    for s in ["call"] + case["steps"] + (["call"] if case["steps"] and case["steps"][-1] != "call" else []):
        if s != "call":
            ctx.sut("set_eta", layer.set_eta, s)
            eta = s
            continue
        U0 = U.copy()
        arg = feed(U)
        V = ctx.sut("layer call", layer, arg)
        ctx.require(np.array_equal(arg, U0), "the layer changed the unitary it was given")
        V = np.array(V)
        ctx.require(V.shape == U.shape, "result shape %s" % (V.shape,))
        if sc > 1e6:
            if case["check"]:
                ctx.unitary(V, "step with the unitary check on", 1e-6)
                ctx.label("projected")
            return 1.0 if case["check"] else 0.0, eta
        want, g = product(U, groups, obs, eta, n, trotter)
        gm = max(gm, g if eta > 0 else 0.0)
        ctx.close(V, want, "call %d (eta %g)" % (calls, eta), 1e-8 * max(1.0, sc))
        ctx.unitary(V, "call %d" % calls, 1e-8 * max(1.0, sc))
        U = np.array(want)
        calls += 1
    ctx.label("calls%d" % calls)
    return gm, eta


def check(case, ctx):
    n, loc = case["n"], case["loc"]
    dev = qm.device(n)
    kw = {"trotterize": case["trotter"], "unitary_error_check": case["check"]}
    for k, v in (("eta", case["eta"]), ("stride", case["stride"]), ("directions", case["dirs"])):
        if v is not None:
            kw[k] = list(v) if isinstance(v, list) else v
    layer = ctx.sut("constructor", LocalLieAlgebraLayer, dev, [qm.obs(o) for o in case["obs"]], loc, **kw)
    words = [w for w in ref.all_words(loc, "XYZ") if case["dirs"] is None or w in case["dirs"]]
    groups = [[ref.full_word(w, qs, n) for w in words] for qs in it.combinations(range(n), loc)]
    gm, eta = run(case, ctx, layer, groups, case["trotter"], n)
    ctx.label("loc%d" % loc, "trotter" if case["trotter"] else "exact", "filtered" if case["dirs"] else "all")
    ctx.mark(gm > 1e-6 and n >= 2)
