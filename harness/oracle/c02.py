"""Gate extraction: the extracted gates multiply to the circuit's unitary."""
import numpy as np
import pennylane as qml
from pennylane import numpy as pnp
from oranssi.circuit_tools import get_full_operator, get_ops_from_qnode
from . import qm, ref


def check(case, ctx):
    n, gates = case["n"], case["gates"]
    ret = case["ret"] if isinstance(case["ret"], dict) else {"k": "state"}

    def make(gates):
        def circuit(params, **kwargs):
            for g in gates:
                qm.apply_gate(g, params)
            k = ret["k"]
            if k == "state":
                return qml.state()
            if k == "probs":
                return qml.probs(wires=list(ret["q"]))
            out = [(qml.var if k == "var" else qml.expval)(qm.obs(o)) for o in ret["obs"]]
            return out[0] if k != "several" else tuple(out)
        return circuit
    circuit = make(gates)

    conv = {"list": list, "tuple": tuple, "np": np.array, "pnp": lambda p: pnp.array(p)}[case["ptype"]]
    dev = qm.device(n)
    out = []
    plan = [(circuit, gates, p) for p in case["params"]]
    if case.get("other"):
        # a second circuit on the same device, at the same parameters
        plan.append((make(case["other"]), case["other"], case["params"][-1]))
        plan.append((circuit, gates, case["params"][0]))
    for c, gs, p in plan:
        pp = conv(p)
        ops, wires = ctx.sut("get_ops_from_qnode", get_ops_from_qnode, c, pp, dev)
        ctx.require(len(ops) == len(wires), "%d operators but %d wire lists" % (len(ops), len(wires)))
        ctx.require([float(x) for x in pp] == list(p), "the parameters were changed")
        out.append((c, gs, p, ops, wires))
    for c, gs, p, ops, wires in out:
        want = ref.circuit_matrix(gs, n, p)
        U, V = np.eye(2 ** n, dtype=complex), np.eye(2 ** n, dtype=complex)
        for op, w in zip(ops, wires):
            w = [int(x) for x in w]
            ctx.require(np.shape(op) == (2 ** len(w),) * 2, "operator of shape %s on wires %s" % (np.shape(op), w))
            U = ref.embed(np.array(op, dtype=complex), w, n) @ U
            V = ctx.sut("get_full_operator", get_full_operator, op, tuple(w), n) @ V
        ctx.close(U, want, "product of the extracted gates", 1e-9)
        ctx.close(V, want, "product of the promoted extracted gates", 1e-9)
        if ret["k"] == "state":
            st = qml.QNode(c, qm.device(n))(conv(p))
            ctx.close(V[:, 0], st, "state of the extracted circuit against PennyLane", 1e-9)
    used = [set(g["q"]) for g in gates]
    ctx.mark(any(used[i] & used[i + 1] for i in range(len(used) - 1)))
    ctx.label("n%d" % n, ret["k"], case["ptype"], *["g:" + g["g"] for g in gates])
    if any(g.get("inv") for g in gates):
        ctx.label("inverse")
    if len(case["params"]) > 1:
        ctx.label("reused")
