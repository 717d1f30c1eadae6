"""Builds PennyLane objects from case specs."""
import numpy as np
import pennylane as qml

from . import ref

_DEV = {}


def device(n):
    return qml.device("default.qubit", wires=n)


_P1 = {"X": qml.PauliX, "Y": qml.PauliY, "Z": qml.PauliZ, "I": qml.Identity}


def obs(o):
    t = o.get("t", "P")
    if t == "P":
        r = _P1[o["w"][0]](wires=o["q"][0])
        for c, q in zip(o["w"][1:], o["q"][1:]):
            r = r @ _P1[c](wires=q)
        return r
    if t == "H":
        return qml.Hermitian(ref.herm(o["m"]), wires=list(o["q"]))
    if t == "Had":
        return qml.Hadamard(wires=o["q"][0])
    if t == "T":
        r = obs(o["f"][0])
        for f in o["f"][1:]:
            r = r @ obs(f)
        return r
    raise ValueError(t)


def apply_gate(g, params=None):
    name = g["g"]
    a = [ref.angle_value(x, params) for x in g.get("a", [])]
    q = list(g["q"])
    if name == "PauliRot":
        op = qml.PauliRot(a[0], g["w"], wires=q)
    elif name == "QubitUnitary":
        op = qml.QubitUnitary(ref.haar(g["s"], 2 ** len(q)), wires=q)
    elif name == "ControlledQubitUnitary":
        op = qml.ControlledQubitUnitary(ref.haar(g["s"], 2 ** (len(q) - 1)), control_wires=q[:1], wires=q[1:])
    elif name == "DiagonalQubitUnitary":
        op = qml.DiagonalQubitUnitary(np.exp(1j * np.arange(2 ** len(q)) * g["t"]), wires=q)
    elif name == "MultiControlledX":
        op = qml.MultiControlledX(control_wires=q[:-1], wires=q[-1], control_values=g["v"])
    else:
        cls = getattr(qml, name)
        op = cls(*a, wires=q if len(q) > 1 else q[0])
    if g.get("inv"):
        op.inv()


def state_circuit(gates):
    def circuit(params, **kwargs):
        for g in gates:
            apply_gate(g, params)
        return qml.state()
    return circuit


def void_circuit(gates):
    def circuit(params, **kwargs):
        for g in gates:
            apply_gate(g, params)
    return circuit
