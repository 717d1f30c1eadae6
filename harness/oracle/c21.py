"""Adaptive VQE layer: grows one steepest group per call, circuit and records agree, caller's data untouched."""
import copy
import itertools as it

import numpy as np
import pennylane as qml
from oranssi.opt_tools import AdaptVQELayer
from oranssi.optimizers import approximate_lie_optimizer
from . import qm, ref


def groups(n):
    out = {}
    for w in ref.all_words(1, "XYZ"):
        out[(w, "single")] = [(q,) for q in range(n)]
    for w in ref.all_words(2, "XYZ"):
        out[(w, "even")] = [(i, i + 1) for i in range(0, n - 1, 2)]
        out[(w, "odd")] = [(i, i + 1) for i in range(1, n - 1, 2)] + [(0, n - 1)]
    return out


def circuit_unitary(circuit, params, n):
    with qml.tape.QuantumTape() as tape:
        circuit(params)
    U = np.eye(2 ** n, dtype=complex)
    for op in tape.operations:
        U = ref.embed(op.matrix, op.wires.labels, n) @ U
    return U


def check_real(case, ctx, n, obs, H):
    dev = qm.device(n)
    layer = ctx.sut("constructor", AdaptVQELayer, dev, obs)
    gates = [{"g": "Hadamard", "q": [q], "a": []} for q in range(n)]
    k = 1 + len(case["steps"])
    params = []
    costs, us = ctx.sut("approximate_lie_optimizer", approximate_lie_optimizer, qm.state_circuit(gates), params, obs, dev,
                        layers=[layer], nsteps=k, return_unitary=True)
    ctx.require(params == [], "the caller's parameters were changed")
    ctx.require(len(costs) == len(us) == k + 1, "%d costs, %d unitaries for %d steps" % (len(costs), len(us), k))
    for c, U in zip(costs, us):
        ctx.unitary(U, "unitary")
        ctx.close(float(c), ref.energy(np.asarray(U), H), "cost against the unitary", 1e-8)
    ctx.label("real-optimizer")


def check(case, ctx):
    n = case["n"]
    dev = qm.device(n)
    obs = [qm.obs(o) for o in case["obs"]]
    H = ref.ham(case["obs"], n)
    ctx.label("n%d" % n)
    if case["real"]:
        return check_real(case, ctx, n, obs, H)
    layer = ctx.sut("constructor", AdaptVQELayer, dev, obs)
    G = groups(n)
    mats = dict((k, [ref.full_word(k[0], qs, n) for qs in v]) for k, v in G.items())
    hall = ref.circuit_matrix([{"g": "Hadamard", "q": [q], "a": []} for q in range(n)], n)
    cur, out, params, prev_word, before = ref.unitary(case["U"], n), None, [], None, hall
    seen = {}

    def stub(circuit, p, observables, device, **kw):
        seen["n"] = seen.get("n", 0) + 1
        seen["p"] = copy.deepcopy([list(x) for x in p])
        Hs = sum(ref.embed(o.matrix, o.wires.labels, n) for o in observables)
        ctx.close(Hs, H, "Hamiltonian given to the optimizer", 1e-9)
        L = len(p)
        old = [[float(y) for y in x] for x in p[:-1]]
        m = len(p[-1])
        a = case["angles"]
        final = [[a[(i * m + j) % len(a)] + 0.1 * i for j in range(m)] for i in range(L)]
        seen["zero"] = circuit_unitary(circuit, old + [[0.0] * m], n)
        seen["all0"] = circuit_unitary(circuit, [[0.0] * m for _ in range(L)], n)
        seen["unif"] = circuit_unitary(circuit, old + [[case["t"]] * m], n)
        seen["dist"] = [0.31 + 0.17 * j for j in range(m)]
        seen["distU"] = circuit_unitary(circuit, old + [seen["dist"]], n)
        seen["final"] = final
        seen["finalU"] = circuit_unitary(circuit, final, n)
        records = [np.array([list(x) for x in p]), np.array(final) * 0 + 5.0, np.array(final)]
        return [ref.energy(circuit_unitary(circuit, x.tolist(), n), H) for x in records], records

    calls = 0
    last = cur
    unique = False
    feed = ref.Feed(case)
    for s in ["first"] + case["steps"]:
        cur = cur if s == "first" else last if s == "same" else out if s == "chain" else ref.unitary(s, n)
        keep, pk = cur.copy(), copy.deepcopy(params)
        seen.clear()
        what = "call %d" % calls
        arg = feed(cur)
        res = ctx.sut(what, layer, arg, optimizer=stub, params=params)
        ctx.require(np.array_equal(arg, keep), "the layer changed the unitary it was given")
        ctx.require(params == pk, "%s changed the caller's parameters" % what)
        ctx.require(isinstance(res, tuple) and len(res) == 2, "result %s" % type(res))
        V, newp = np.array(res[0]), res[1]
        ctx.require(seen.get("n") == 1, "the optimizer was called %s times" % seen.get("n"))
        got = seen["p"]
        ctx.require(len(got) == len(pk) + 1, "%s: %d layers of parameters after %d" % (what, len(got), len(pk)))
        if pk:
            ctx.close(got[:-1], pk, "%s: parameters of the earlier layers" % what, 1e-12)
        ctx.require(len(got[-1]) == n, "%s: %d new parameters" % (what, len(got[-1])))
        ctx.close(newp, seen["final"], "%s: returned parameters" % what, 1e-12)
        ctx.close(V, seen["finalU"], "%s: returned unitary against the optimized circuit" % what, 1e-8)
        ctx.close(seen["zero"], before, "%s: circuit without the new layer" % what, 1e-8)
        ctx.close(seen["all0"], hall, "%s: circuit at zero parameters" % what, 1e-8)
        # which group was appended?
        R = seen["unif"] @ before.conj().T
        match = []
        for k, ms in mats.items():
            W = np.eye(2 ** n, dtype=complex)
            for P in ms:
                W = ref.prot(P, case["t"] / 2) @ W
            if np.abs(W - R).max() < 1e-7:
                match.append(k)
        ctx.require(match, "%s: the new layer is not one of the groups" % what)
        word = match[0][0]
        ctx.require(word != prev_word, "%s: direction %s again" % (what, word))
        psi = cur[:, 0]
        w = dict((k, sum(abs(ref.omega(psi, P, H)) for P in ms)) for k, ms in mats.items() if k[0] != prev_word)
        top = max(w.values())
        sc = max(1.0, np.abs(H).sum(axis=1).max())
        best = max(w[k] for k in match)
        ctx.require(best >= top - 1e-9 * sc, "%s: group %s has gradient %g, the steepest is %g (%s)" % (
            what, match, best, top, [k for k in w if w[k] >= top - 1e-9 * sc][:3]))
        unique = unique or (top > 1e-3 and sum(v > top - 1e-6 for v in w.values()) <= 2)
        # every rotation has a parameter of its own
        D = seen["distU"] @ before.conj().T
        ok = False
        for k in match:
            m = len(mats[k])
            nat = list(range(m)) if k[1] != "odd" else list(range(m - 1)) + [n - 1]
            for asg in it.chain([tuple(nat)], it.permutations(range(n), m)):
                W = np.eye(2 ** n, dtype=complex)
                for P, j in zip(mats[k], asg):
                    W = ref.prot(P, seen["dist"][j] / 2) @ W
                if np.abs(W - D).max() < 1e-7:
                    ok = True
                    break
            if ok:
                break
        ctx.require(ok, "%s: rotations of the new layer do not have one parameter each" % what)
        ctx.label("kind-" + match[0][1])
        last, out, before, params, prev_word = cur, V, V, [list(x) for x in newp], word
        calls += 1
    ctx.mark(calls >= 2 or (n >= 3 and unique))
