"""Alternating two-/three-qubit layer: schedule, line search, and commutator step."""
import itertools as it

import numpy as np
from oranssi.opt_tools import ZassenhausLayer, ZassenhausLayerV2
from scipy.optimize import minimize
from . import qm, ref
from .c19 import find_word, line_step


def check_v2(case, ctx, n, dev, obs, H, kw):
    layer = ctx.sut("constructor", ZassenhausLayerV2, dev, obs, **kw)
    eta = kw.get("eta", 0.1)
    U = ref.unitary(case["U"], n)
    HH = ref.embed(np.kron(ref.HAD, ref.HAD), [0, 1], n)
    names = [("X", (0,)), ("X", (1,)), ("ZZ", (0, 1)), ("YZ", (0, 1)), ("ZY", (0, 1))]
    i = -1
    for s in ["chain"] + case["steps"]:
        if isinstance(s, float):
            ctx.sut("set_eta", layer.set_eta, s)
            eta = s
            continue
        i += 1
        if isinstance(s, dict):
            U = ref.unitary(s, n)
        w = [ref.omega(U[:, 0], ref.full_word(a, q, n), H) for a, q in names]

        def cost(x):
            p = [-x[0], -x[1], -x[2], x[0] * x[2], x[1] * x[2]]
            return float(np.mean([(a - eta * b) ** 2 for a, b in zip(p, w)]))
        U0 = U.copy()
        V = np.asarray(ctx.sut("call %d" % i, layer, U))
        ctx.require(np.array_equal(U, U0), "the layer changed the unitary it was given")
        ctx.unitary(V, "call %d" % i)
        G = V @ HH.conj().T       # exp(-i z ZZ/2) RX(x0) RX(x1)
        fit = minimize(cost, x0=[0.1, 0.2, 0.3], method="Nelder-Mead")

        def family(x):
            return (ref.prot(ref.full_word("ZZ", (0, 1), n), x[2] / 2) @ ref.prot(ref.full_word("X", (0,), n), x[0] / 2)
                    @ ref.prot(ref.full_word("X", (1,), n), x[1] / 2))
        best = None
        # candidates around the optimum found by the reference minimization, refined from the matrix itself
        for x in [list(fit.x)] + [[a0, a1, z] for a0 in (0.5, -2.0) for a1 in (0.5, -2.0) for z in (0.5, -2.0)]:
            if best is not None and best.fun < 1e-8:
                break
            r = minimize(lambda y: float(np.sum(np.abs(family(y) - G) ** 2)), x0=x, method="BFGS", options={"gtol": 1e-10})
            if best is None or r.fun < best.fun:
                best = r
        ctx.require(best.fun < 1e-8, "call %d: the result is not exp(-izZZ/2) RX RX H H (distance %g)" % (i, best.fun))
        y = [(v + np.pi) % (2 * np.pi) - np.pi for v in best.x]
        x = min(([v + 2 * np.pi * k for v, k in zip(y, sh)] for sh in it.product((-1, 0, 1), repeat=3)), key=cost)
        ctx.require(cost(x) <= cost([0.1, 0.2, 0.3]) + 1e-6, "call %d: fit %g is worse than the starting point %g" % (
            i, cost(x), cost([0.1, 0.2, 0.3])))
        ctx.require(cost(x) <= fit.fun + 1e-3 * (1 + fit.fun), "call %d: fit to the gradient %g, reachable %g" % (i, cost(x), fit.fun))
        U = np.array(V)
    ctx.label("v2")
    ctx.mark(max(abs(v) for v in w) > 1e-3)


def check(case, ctx):
    n = case["n"]
    dev = qm.device(n)
    obs = [qm.obs(o) for o in case["obs"]]
    H = ref.ham(case["obs"], n)
    kw = {} if case["eta"] is None else {"eta": case["eta"]}
    if case["v2"]:
        return check_v2(case, ctx, n, dev, obs, H, kw)
    if case["ratio"] is not None:
        kw["ratio"] = tuple(case["ratio"])
    su2, su4 = case.get("su", [None, None])
    kw.update({k: v for k, v in (("add_su2", su2), ("add_su4", su4)) if v is not None})
    lengths = {3} | ({1} if su2 else set()) | ({2} if su4 else set())
    layer = ctx.sut("constructor", ZassenhausLayer, dev, obs, **kw)
    eta = kw.get("eta", 0.1)
    a, b = case["ratio"] or (1, 1)
    table = ref.su_tables(n, (1, 2) if su2 else (2,))
    U = ref.unitary(case["U"], n)
    A = theta = None
    moved = set()
    ctx.label("n%d" % n, "ratio%d%d" % (a, b), *((["su2"] if su2 else []) + (["su4"] if su4 else [])))
    feed = ref.Feed(case)
    i = -1
    for s in ["chain"] + case["steps"]:
        if isinstance(s, float):
            ctx.sut("set_eta", layer.set_eta, s)
            eta = s
            ctx.label("new-eta")
            continue
        i += 1
        if isinstance(s, dict):
            U = ref.unitary(s, n)
        phase = "su4" if i % (a + b) < a else "su8"
        U0 = U.copy()
        arg = feed(U)
        V = np.array(ctx.sut("call %d (%s)" % (i, phase), layer, arg))
        ctx.require(np.array_equal(arg, U0), "the layer changed the unitary it was given")
        ctx.unitary(V, "call %d" % i)
        psi = U[:, 0]
        if phase == "su4":
            A, drop = line_step(ctx, U, V, table, H, n, None, "call %d" % i)
            if A is not None:
                G = V @ U.conj().T
                theta = 2 * np.arctan2(-np.imag(np.trace(table[A] @ G)) / 2 ** n, np.real(np.trace(G)) / 2 ** n)
                if drop > 1e-6:
                    moved.add("su4")
        elif A is not None:
            G = V @ U.conj().T
            cand = {}
            for k, P in table.items():
                if len(set(k[1:]) & set(A[1:])) != 1:
                    continue
                C = table[A] @ P - P @ table[A]
                if np.abs(C).max() < 0.5 or len(set(k[1:]) | set(A[1:])) not in lengths:
                    continue
                # [A, B] = c * i * W with a three-qubit word W and c = +-2
                W = C / 2j
                pos = positive_word(A, k, n)
                sgn = float(np.real(np.trace(pos.conj().T @ W)) / 2 ** n)
                cand[k] = (ref.omega(psi, pos, H), 2.0 * sgn, abs(ref.omega(psi, P, H)))
            B = find_word(G, table, n, ctx, "call %d" % i, 1e-8)
            if B is None:
                # an angle below 1e-8 cannot come from a gradient above the threshold
                bad = [k for k, v in cand.items() if abs(v[0]) > 1.01e-3 and v[2] > 1e-9]
                ctx.require(not bad or abs(theta) < 2e-8, "call %d: no step although %s has a three-qubit gradient %g" % (
                    i, bad[:1], cand[bad[0]][0] if bad else 0))
                ctx.label("su8-noop")
                if any(abs(v[0]) > 0.99e-3 for v in cand.values()):
                    A = None      # borderline: the layer may have taken a step too small to see
            else:
                ctx.require(B in cand, "call %d: %s does not share exactly one qubit with %s or commutes with it" % (i, B, A))
                wab, c, wb = cand[B]
                ctx.require(abs(wab) > 0.99e-3, "call %d: %s leads to a three-qubit gradient of only %g" % (i, B, wab))
                if abs(theta) > 1e-4:
                    t = -eta / 2 ** n * (2 * wab / theta) / c
                    tol = 1e-6 * (1 + abs(t) / abs(theta))
                    if tol < 1e-3:
                        ctx.close(G, ref.prot(table[B], t), "call %d: angle along %s after %s" % (i, B, A), tol)
                        ctx.label("su8-angle")
                moved.add("su8")
                A = B
        U = np.array(V)
    ctx.label(*["moved-" + m for m in moved])
    ctx.mark(len(moved) == 2)


THIRD = {frozenset("XY"): "Z", frozenset("XZ"): "Y", frozenset("YZ"): "X"}


def positive_word(A, B, n):
    """The Pauli word proportional to A*B when A and B share one qubit with different letters."""
    la, lb = dict(zip(A[1:], A[0])), dict(zip(B[1:], B[0]))
    out = {}
    for q in set(la) | set(lb):
        out[q] = la[q] if q not in lb else lb[q] if q not in la else THIRD[frozenset(la[q] + lb[q])]
    qs = sorted(out)
    return ref.full_word([out[q] for q in qs], qs, n)
