"""Direction names and printed form of the layers."""
import itertools as it

import numpy as np
from oranssi import opt_tools as T
from . import qm, ref

W = [None] + [["".join(w) for w in it.product("XYZ", repeat=k)] for k in (1, 2, 3)]
CLS = {"stochastic": T.StochasticLieAlgebraLayer, "squared": T.SquaredLieAlgebraLayer, "adapt": T.AdaptVQELayer,
       "su8": T.SU8_AlgebraLayer, "zass": T.ZassenhausLayer, "zass2": T.ZassenhausLayerV2}


def make(s, dev, obs):
    kw = dict(s["kw"])
    d = None if s["dirs"] is None else list(s["dirs"])
    if s["t"] in ("local1", "local2"):
        if d is not None:
            kw["directions"] = d
        return T.LocalLieAlgebraLayer(dev, obs, int(s["t"][-1]), **kw)
    if s["t"] == "custom":
        return T.CustomDirectionLieAlgebraLayer(dev, obs, d, **kw)
    return CLS[s["t"]](dev, obs, **kw)


def expected(s, n):
    """(direction names, names in the printed form)"""
    t, d = s["t"], s["dirs"]
    if t in ("local1", "local2"):
        r = [w for w in W[int(t[-1])] if d is None or w in d]
        return r, r
    if t == "custom":
        r = [(w,) + q for k in (1, 2) for w in W[k] if d is None or w in d for q in it.combinations(range(n), k)]
        return r, [k[0] for k in r]
    if t in ("stochastic", "squared", "adapt"):
        return W[1] + W[2], W[1] + W[2]
    if t == "su8":
        return W[1] + W[2] + W[3], W[1] + W[2] + W[3]
    return [W[1], W[2], W[3]], None


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x if isinstance(x, str) else int(x)


def show(s, layer, n, ctx):
    names, printed = expected(s, n)
    got = plain(ctx.sut("get_lie_algebra_directions_strings of " + s["t"], layer.get_lie_algebra_directions_strings))
    ctx.require(got == plain(names), "%s reports the directions %s, it was built for %s" % (s["t"], got, plain(names)))
    txt = ctx.sut("printed form of " + s["t"], repr, layer)
    ctx.require(isinstance(txt, str) and txt.count("directions ->") == 1, "printed form %r" % (txt,))
    head, tail = txt.split("directions ->")
    if printed is not None:
        ctx.require([x.strip() for x in tail.split(",") if x.strip()] == printed, "%s prints the directions %r, expected %s" % (
            s["t"], tail, printed))
    dim = {"local1": 2, "local2": 4, "adapt": None}.get(s["t"], 2 ** n)
    ctx.require(dim is None or "SU(%d)" % dim in head, "%s on %d qubits prints %r" % (s["t"], n, head))
    cells = [c.strip() for c in head.split("|")]
    flag = s["kw"].get("trotterize", False)
    ctx.require(cells[-2] in (("1", "True") if flag else ("0", "False")), "%s with trotterize=%s prints %r" % (s["t"], flag, head))
    if s["t"] in ("local1", "local2"):
        ctx.require(cells[-3] == str(s["kw"].get("stride", 0)), "stride %s is printed in %r" % (s["kw"].get("stride", 0), head))


def check(case, ctx):
    n = case["n"]
    dev = qm.device(n)
    obs = [qm.obs(o) for o in case["obs"]]
    ls = [(s, ctx.sut("constructor " + s["t"], make, s, dev, obs)) for s in case["layers"]]
    for s, l in ls:
        show(s, l, n, ctx)
        ctx.label(s["t"], "subset" if s["dirs"] else "all")
    U = ref.unitary(case["U"], n)
    steps = 0
    for op, i, v in case["ops"]:
        s, l = ls[i % len(ls)]
        if op == "eta":
            ctx.sut("set_eta", l.set_eta, v)
        elif op == "call" and s["t"] not in ("adapt", "zass2"):
            V = np.array(ctx.sut("call " + s["t"], l, U.copy()))
            if np.all(np.isfinite(V)):
                U = V
            steps += 1
        for s, l in ls:
            show(s, l, n, ctx)
    ctx.label("n%d" % n, "steps%d" % min(steps, 3))
    ctx.mark(steps > 0 or any(s["dirs"] for s in case["layers"]))
