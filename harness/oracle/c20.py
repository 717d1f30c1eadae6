"""Commuting layers: one direction, disjoint qubits, near-steepest words, unitary and record agree."""
import numpy as np
import pennylane as qml
from oranssi.opt_tools import SquaredLieAlgebraLayer
from oranssi.optimizers import parameter_shift_optimizer
from . import qm, ref
from .c19 import find_word, line_step


def commuting(case, ctx, layer, U, H, n, table, prev, known, real, what, feed):
    """One commuting call; prev is the word of the last ordinary call (None if there was none)."""
    seen = {}

    def stub(circuit, params, observables, device, **kw):
        seen["n"] = seen.get("n", 0) + 1
        Hs = sum(ref.embed(o.matrix, o.wires.labels, n) for o in observables)
        ctx.close(Hs, H, "%s: Hamiltonian given to the optimizer" % what, 1e-9)
        final = np.array([case["angles"][i % len(case["angles"])] + 0.3 * i for i in range(len(params))])

        def state(p):
            circuit(p)
            return qml.state()
        qn = qml.QNode(state, device)
        seen["states"] = [(list(final), np.array(qn(list(final)))), ([0.0] * len(params), np.array(qn([0.0] * len(params))))]
        records = [np.array(params), np.array(params) * 0 + 9.0, final]
        return [ref.energy(np.array(qn(list(x))), H) for x in records], records

    arg = feed(U.copy())
    res = ctx.sut(what, layer, arg, commute=True, optimizer=parameter_shift_optimizer if real else stub)
    ctx.require(np.array_equal(arg, U), "%s changed the unitary it was given" % what)
    ctx.require(isinstance(res, tuple) and len(res) == 2, "%s: result %s" % (what, type(res)))
    V, gates = np.array(res[0]), res[1]
    ctx.require(len(gates) >= 1, "%s: no rotation returned" % what)
    psi = U[:, 0]
    w = dict((k, abs(ref.omega(psi, P, H))) for k, P in table.items() if k != prev)
    top = max(w.values())
    lo, hi = 0.95e-3 + 0.9e-5 * top, 1.05e-3 + 1.1e-5 * top
    keys = []
    for g in gates:
        k = (str(g[0][0]),) + tuple(int(q) for q in g[0][1:])
        keys.append(k)
        ctx.require(k in table, "%s: unknown rotation %s" % (what, k))
        ctx.require(k != prev, "%s: rotation %s was that of the ordinary call before" % (what, k))
    words = set(k[0] for k in keys)
    ctx.require(len(words) == 1, "%s: several directions in one layer: %s" % (what, keys))
    qubits = [q for k in keys for q in k[1:]]
    ctx.require(len(set(qubits)) == len(qubits), "%s: rotations overlap: %s" % (what, keys))
    # with an unidentified previous word one word of the table is unknowingly excluded: the bound drops to the second value
    vals = sorted(w.values(), reverse=True)
    bound = top if known else vals[min(1, len(vals) - 1)]
    for k in keys:
        ctx.require(w[k] >= bound - hi, "%s: rotation %s has gradient %g, the largest is %g" % (what, k, w[k], bound))
    word = list(words)[0]
    cand = [k for k in w if k[0] == word and w[k] >= top - hi]
    sure = [k for k in cand if w[k] >= top - lo]
    cq = [q for k in cand for q in k[1:]]
    if known and len(sure) == len(cand):
        if len(set(cq)) == len(cq):
            ctx.require(sorted(keys) == sorted(cand), "%s: tied words %s do not overlap, layer has %s" % (what, cand, keys))
        else:
            ctx.label("overlapping")
            ctx.mark()
    W = U
    for k, g in zip(keys, gates):
        W = ref.prot(table[k], float(g[1]) / 2) @ W
    ctx.close(V, W, "%s: unitary against the returned rotations" % what, 1e-8)
    if not real:
        ctx.require(seen.get("n") == 1, "%s: the optimizer was called %s times" % (what, seen.get("n")))
        final, st = seen["states"][0]
        ctx.require(len(final) == len(keys), "%s: %d parameters for %d rotations" % (what, len(final), len(keys)))
        ctx.close([float(g[1]) for g in gates], final, "%s: returned angles against the optimizer's last parameters" % what, 1e-12)
        ctx.close(st, V[:, 0], "%s: circuit given to the optimizer against the returned unitary" % what, 1e-8)
        ctx.close(seen["states"][1][1], psi, "%s: circuit given to the optimizer at zero angles" % what, 1e-8)
    ctx.label("size%d" % len(keys), "letters%d" % len(word))
    ctx.mark(len(keys) > 1)
    return V


def check(case, ctx):
    n = case["n"]
    dev = qm.device(n)
    obs = [qm.obs(o) for o in case["obs"]]
    H = ref.ham(case["obs"], n)
    U = U0 = ref.unitary(case["U"], n)
    layer = ctx.sut("constructor", SquaredLieAlgebraLayer, dev, obs)
    table = ref.su_tables(n, (1, 2))
    prev, known = None, True
    ctx.label("real" if case["real"] else "stub", "n%d" % n)
    kinds = []
    feed = ref.Feed(case)
    for i, (kind, src) in enumerate(case["calls"]):
        if src == "again":
            U = U0
        elif src != "chain":
            U = ref.unitary(src, n)
        what = "call %d (%s)" % (i, kind)
        if kind == "plain":
            V = np.array(ctx.sut(what, layer, feed(U.copy())))
            prev, _ = line_step(ctx, U, V, table, H, n, prev, what, second=not known)
            known = prev is not None
        else:
            V = commuting(case, ctx, layer, U, H, n, table, prev, known, case["real"], what, feed)
        kinds.append(kind)
        U0, U = U, V
    if len(kinds) > 1:
        ctx.label("history")
    if any(kinds[j] == "comm" for j in range(len(kinds) - 1)):
        ctx.label("after-commuting")
