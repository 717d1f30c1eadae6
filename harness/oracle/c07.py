"""Riemannian gradient table over all 4^n Pauli words."""
import numpy as np
from oranssi import opt_tools as T
from oranssi.circuit_tools import get_all_su_n_directions
from . import qm, ref


def make(via, dev, obs, n):
    if via == "fn":
        return None
    if via == "base":
        return T.LieLayer(dev, obs, n)
    if via == "local1":
        return T.LocalLieAlgebraLayer(dev, obs, 1)
    if via == "local2":
        return T.LocalLieAlgebraLayer(dev, obs, 2)
    if via == "custom":
        return T.CustomDirectionLieAlgebraLayer(dev, obs, ["X", "ZZ"] if n > 1 else ["X"])
    cls = {"stochastic": T.StochasticLieAlgebraLayer, "squared": T.SquaredLieAlgebraLayer, "adapt": T.AdaptVQELayer,
           "su8": T.SU8_AlgebraLayer, "zass": T.ZassenhausLayer}[via]
    return cls(dev, obs)


def check(case, ctx):
    n = case["n"]
    dev = qm.device(n)
    obs = [qm.obs(o) for o in case["obs"]]
    H = ref.ham(case["obs"], n)
    layer = ctx.sut("layer " + case["via"], make, case["via"], dev, obs, n)
    buf = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for spec in case["us"]:
        U = ref.unitary(spec, n)
        keep = U.copy()
        if case.get("same"):
            buf[...] = U        # one array that holds one unitary after the other
            U = buf
        if layer is None:
            got = ctx.sut("get_all_su_n_directions", get_all_su_n_directions, U, obs, dev)
        else:
            got = ctx.sut("get_lie_algebra_directions", layer.get_lie_algebra_directions, U)
        words = ref.all_words(n)
        ctx.require(set(got.keys()) == set(words) and len(got) == len(words), "keys are not the 4^n Pauli words")
        psi = keep[:, 0]
        Hpsi = H @ psi
        big = 0.0
        for w in words:
            want = 2 * np.vdot(psi, ref.word(w) @ Hpsi).imag / 2 ** n
            big = max(big, abs(want))
            ctx.close(got[w], want, "gradient component %s" % w, 1e-9)
        if case["fd"]:
            # the component is minus the energy derivative along exp(-i t P), divided by 2^n
            w = words[case["rng"] % len(words)]
            h = 1e-3
            P = ref.word(w)

            def E(t):
                return ref.energy((ref.prot(P, t) if w != "I" * n else np.exp(-1j * t) * np.eye(2 ** n)) @ keep, H)
            d = (8 * (E(h) - E(-h)) - (E(2 * h) - E(-2 * h))) / (12 * h)
            ctx.close(got[w], -d / 2 ** n, "derivative along %s" % w, 1e-7)
        ctx.require(np.array_equal(U, keep), "the unitary was changed")
        for w in words:
            got[w] = 5.0        # what the caller does with a table must not show in later ones
        ctx.mark(big > 1e-6)
    ctx.label("n%d" % n, case["via"], "m%d" % len(obs))
