"""Promotion of a local operator to the full space, against kron + axis permutation."""
import numpy as np
import pennylane as qml
from oranssi.circuit_tools import get_full_operator
from . import ref


def layout(m, how):
    if how == "F":
        return np.asfortranarray(m)
    if how == "T":
        return np.ascontiguousarray(m.T).T
    if how == "stride":
        big = np.zeros((2 * m.shape[0], 2 * m.shape[1]), dtype=complex)
        big[::2, ::2] = m
        return big[::2, ::2]
    if how == "real":
        return np.ascontiguousarray(m.real)
    return np.ascontiguousarray(m)


def container(q, how):
    q = [int(x) for x in q]
    return {"tuple": lambda: tuple(q), "list": lambda: list(q), "wires": lambda: qml.wires.Wires(q),
            "array": lambda: np.array(q)}[how]()


def check(case, ctx):
    done = []
    for it in case["items"]:
        n, q = it["n"], it["q"]
        m = layout(ref.cmat(it["op"]), it["lay"])
        keep = m.copy()
        w = container(q, it["cont"])
        got = ctx.sut("get_full_operator", get_full_operator, m, w, n)
        want = ref.embed(keep, q, n)
        tol = 1e-10 * np.abs(want).max()
        ctx.close(got, want, "promotion to wires %s of %d qubits" % (q, n), tol)
        ctx.require(np.array_equal(m, keep), "the local operator was changed")
        ctx.require([int(x) for x in w] == list(q), "the wires were changed")
        if len(q) < n or q != sorted(q):
            ctx.mark()
        ctx.label("k%d" % len(q), "n%d" % n, it["lay"], it["cont"], "ordered" if q == sorted(q) else "unordered")
        snap = np.array(got)
        done.append((it, m, w, np.array(want), got, snap))
    # results are independent of each other and of what callers do with them
    for it, m, w, want, got, snap in done:
        ctx.close(got, snap, "an earlier result changed", 0.0)
        got[...] = 7.0
    for it, m, w, want, got, snap in done:
        again = ctx.sut("get_full_operator", get_full_operator, m, w, it["n"])
        ctx.close(again, want, "second promotion with the same input", 1e-10 * np.abs(want).max())
    b = case["bad"]
    if b:
        ctx.label("bad-" + b["bad"])
        ctx.rejects("get_full_operator with %s" % b, get_full_operator, np.eye(2 ** b["k"], dtype=complex),
                    tuple(b["q"]), b["n"])
