"""Circuits built from a unitary: U|0> and <0|U+ O U|0>."""
import numpy as np
import pennylane as qml
from oranssi.circuit_tools import circuit_observable_from_unitary, circuit_state_from_unitary
from . import qm, ref


def check(case, ctx):
    n = case["n"]
    dev = qm.device(n)
    sq = qml.QNode(circuit_state_from_unitary, dev)
    oq = qml.QNode(circuit_observable_from_unitary, dev)
    feed = ref.Feed(case)
    for s in case["steps"]:
        if s["fresh"]:
            sq = qml.QNode(circuit_state_from_unitary, dev)
            oq = qml.QNode(circuit_observable_from_unitary, dev)
        U = feed(ref.unitary(s["u"], n))
        keep = U.copy()
        psi = keep[:, 0]
        if s["which"] != "obs":
            ctx.close(ctx.sut("state circuit", sq, unitary=U), psi, "state of the unitary's circuit", 1e-9)
        if s["which"] != "state":
            O = ref.obs_full(s["o"], n)
            ctx.close(ctx.sut("observable circuit", oq, unitary=U, observable=qm.obs(s["o"])),
                      np.vdot(psi, O @ psi).real, "expectation value", 1e-8)
        ctx.require(np.array_equal(U, keep), "the unitary was changed")
        ctx.mark(np.max(np.abs(psi)) < 1 - 1e-6)
        ctx.label("n%d" % n, s["u"]["k"], "obs-" + s["o"].get("t", "P"))
    m = case["missing"]
    if m:
        ctx.label("missing")
        U = np.eye(2 ** n, dtype=complex)
        if m == "s":
            ctx.rejects("state circuit without unitary", qml.QNode(circuit_state_from_unitary, dev))
        elif m == "u":
            ctx.rejects("observable circuit without unitary", qml.QNode(circuit_observable_from_unitary, dev),
                        observable=qml.PauliX(0))
        elif m == "o":
            ctx.rejects("observable circuit without observable", qml.QNode(circuit_observable_from_unitary, dev),
                        unitary=U)
        else:
            ctx.rejects("observable circuit without anything", qml.QNode(circuit_observable_from_unitary, dev))
