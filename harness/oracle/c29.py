"""Invalid options are refused with an assertion, valid ones accepted."""
import copy

import numpy as np
import pennylane as qml
from oranssi import circuit_tools as ct, opt_tools as T
from oranssi.optimizers import approximate_lie_optimizer, exact_lie_optimizer, parameter_shift_optimizer
from oranssi.pauli import Pauli, PauliMonomial, PauliSum
from . import qm

NUM = {"nan": float("nan"), "inf": float("inf")}


class Spy(T.LieLayer):
    """Counts its calls."""
    def __init__(self, dev, obs, n):
        super().__init__(dev, obs, n)
        self.calls = 0

    def __call__(self, u, *a, **k):
        self.calls += 1
        return u

    def __repr__(self):
        return "spy"


def build(kind, dev, obs, kw):
    kw = dict(kw)
    if kind in ("local1", "local2"):
        return T.LocalLieAlgebraLayer(dev, obs, int(kind[-1]), **kw)
    if kind == "custom":
        return T.CustomDirectionLieAlgebraLayer(dev, obs, kw.pop("dirs", ["X"]), **kw)
    cls = {"stochastic": T.StochasticLieAlgebraLayer, "squared": T.SquaredLieAlgebraLayer, "adapt": T.AdaptVQELayer,
           "su8": T.SU8_AlgebraLayer, "zass": T.ZassenhausLayer, "zass2": T.ZassenhausLayerV2}[kind]
    return cls(dev, obs, **kw)


def state(params, **kw):
    qml.RY(0.4, wires=0)
    return qml.state()


def expval(params, **kw):
    qml.RY(0.4, wires=0)
    return qml.expval(qml.PauliZ(0))


def nothing(params, **kw):
    qml.RY(params[0] if len(params) else 0.4, wires=0)


def special(what, ctx, n):
    dev = qm.device(n)
    obs = [qml.PauliX(0)]
    R = ctx.rejects
    spy = Spy(dev, obs, n)
    if what.startswith("circuit-"):
        _, o, c = what.split("-")
        circ = {"state": state, "expval": expval, "none": nothing}[c]
        if o == "ps":
            R(what, parameter_shift_optimizer, circ, [0.3], obs, dev, nsteps=1, exc_type_=AttributeError)
        elif o == "exact":
            R(what, exact_lie_optimizer, circ, [], obs, dev, nsteps=1)
        else:
            R(what, approximate_lie_optimizer, circ, [], obs, dev, layers=[spy], nsteps=1)
            ctx.require(spy.calls == 0, "a layer was called although the circuit is invalid")
    elif what.startswith("layers-"):
        lay = {"tuple": (spy,), "single": spy, "object": [spy, "layer"], "class": [Spy]}[what[7:]]
        R(what, approximate_lie_optimizer, state, [], obs, dev, layers=lay, nsteps=1)
        ctx.require(spy.calls == 0, "a layer was called although the list is invalid")
    elif what.startswith("locality-"):
        v = {"0": 0, "3": 3, "none": None}[what[9:]]
        R(what, T.LocalLieAlgebraLayer, dev, obs, v)
    elif what.startswith("local2-odd"):
        R(what, T.LocalLieAlgebraLayer, qm.device(5 if what.endswith("5") else 3), obs, 2)
    elif what in ("su8-2", "su8-1"):
        R(what, T.SU8_AlgebraLayer, qm.device(int(what[-1])), obs)
    elif what == "zass-2":
        R(what, T.ZassenhausLayer, qm.device(2), obs)
    elif what == "custom-dirs":
        R(what, T.CustomDirectionLieAlgebraLayer, qm.device(2), obs, ["X", "Q"])
    elif what == "custom-dirs2":
        R(what, T.CustomDirectionLieAlgebraLayer, qm.device(3), obs, ["XXX"])
    elif what == "kw-state":
        R(what, qml.QNode(ct.circuit_state_from_unitary, dev))
    elif what == "kw-obs":
        R(what, qml.QNode(ct.circuit_observable_from_unitary, dev), unitary=np.eye(2 ** n))
    elif what == "kw-obs2":
        R(what, qml.QNode(ct.circuit_observable_from_unitary, dev), observable=qml.PauliX(0))
    elif what == "pauli-alpha":
        R(what, Pauli, -1, "X")
    elif what == "pauli-alphaf":
        R(what, Pauli, 1.0, "X")
    elif what == "pauli-gamma":
        R(what, Pauli, 0, "Q")
    elif what == "pauli-gammai":
        R(what, Pauli, 0, 4)
    elif what == "pauli-gammaf":
        R(what, Pauli, 0, 1.0)
    elif what == "pauli-coeff":
        R(what, Pauli, 0, "X", coeff="2")
    elif what == "pauli-coeffs":
        R(what, Pauli, 0, "X", coeff=[1.0])
    elif what == "mono-dup":
        R(what, PauliMonomial, [Pauli(0, "X"), Pauli(1, "Y"), Pauli(0, "Z")])
    elif what == "mono-type":
        R(what, PauliMonomial, [Pauli(0, "X"), "Y"])
    elif what == "sum-len":
        R(what, PauliSum, [PauliMonomial([Pauli(0, "X")]), PauliMonomial([Pauli(0, "X"), Pauli(1, "Y")])])
    elif what == "sum-type":
        R(what, PauliSum, [PauliMonomial([Pauli(0, "X")]), Pauli(0, "X")])
    elif what == "sum-scalar":
        s = PauliSum([PauliMonomial([Pauli(0, "X")])])
        R(what, s.scalar_mul, "2")
        ctx.close(complex(s[0].coeff), 1.0, "coefficient after a refused scaling", 0.0)
    elif what in ("comm-type", "commutes-type"):
        m = PauliMonomial([Pauli(0, "X")])
        R(what, m.commutator if what == "comm-type" else m.commutes_with, Pauli(0, "Y"))
    elif what == "wires-big":
        R(what, ct.get_full_operator, np.eye(2), (n,), n)
    elif what == "wires-count":
        R(what, ct.get_full_operator, np.eye(4), (0,), n)
    elif what == "abstract-call":
        R(what, T.LieLayer(dev, obs, n), np.eye(2 ** n), exc_type_=NotImplementedError)
    elif what == "abstract-repr":
        R(what, repr, T.LieLayer(dev, obs, n), exc_type_=NotImplementedError)
    else:
        raise ValueError(what)


def check(case, ctx):
    n = case["n"]
    if case["k"] == "special":
        ctx.label("special")
        special(case["what"], ctx, n)
        ctx.mark()
        return
    bad = case.get("bad")
    kw = dict((k, NUM.get(v, v) if isinstance(v, str) and k in ("eta", "tol") else copy.deepcopy(v)) for k, v in case["kw"].items())
    if not bad and kw.get("return_perturbations") is True and case["t"] == "exact":
        kw["perturbation"] = True
    t = case["t"]
    what = "%s(%s)" % (t, kw)
    ctx.label(t, "bad-" + bad if bad else "good")
    if case["k"] == "layer":
        m = 2 if t == "local2" else 3 if t in ("su8", "zass") else max(n, 2) if t in ("adapt", "zass2") else n
        args = (t, qm.device(m), [qml.PauliZ(0), qml.PauliX(m - 1)], kw)
        if bad:
            ctx.rejects(what, build, *args)
        else:
            layer = ctx.sut(what, build, *args)
            if kw.get("eta") is not None:
                ctx.close(float(layer.eta), kw["eta"], "step size of the layer", 0.0)
    else:
        dev = qm.device(n)
        obs = [qml.PauliZ(0), qml.PauliX(n - 1)]
        spy = Spy(dev, obs, n)
        p = [0.3]
        f = {"ps": (parameter_shift_optimizer, nothing, {}), "exact": (exact_lie_optimizer, state, {}),
             "approx": (approximate_lie_optimizer, state, {"layers": [spy]})}[t]
        call = lambda: f[0](f[1], p, obs, dev, **dict(f[2], **kw))
        if bad:
            ctx.rejects(what, call)
            ctx.require(spy.calls == 0, "%s: a layer was called before the option was refused" % what)
        else:
            ctx.sut(what, call)
        ctx.require(p == [0.3], "the caller's parameters were changed")
    ctx.mark(bool(bad and len(kw) > 1) or kw.get("eta") in (0.0, 1.0) or kw.get("tol") == 0.0 or kw.get("nsteps") == 1)
