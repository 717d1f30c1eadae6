"""Line searches: steepest allowed word, optimal angle, energy never up."""
import numpy as np
import pennylane as qml
from oranssi.circuit_tools import circuit_observable_from_unitary
from oranssi.opt_tools import SU8_AlgebraLayer, SquaredLieAlgebraLayer, rotosolve
from . import qm, ref


def optimum(psi, P, H):
    a, b, c = ref.line(psi, P, H)
    return a - np.hypot(b, c)


def find_word(G, table, n, ctx, what, thr=1e-6):
    """Key of the Pauli word P with G = x 1 - i y P, or None when G is the identity up to a sign."""
    d = 2 ** n
    x = np.trace(G) / d
    R = G - x * np.eye(d)
    if np.abs(R).max() < thr:
        return None
    for k, P in table.items():
        y = np.trace(P @ R) / d
        if abs(y) > thr / 10:
            ctx.close(R, y * P, "%s: not a rotation about a single Pauli word" % what, 1e-7)
            ctx.close(abs(x) ** 2 + abs(y) ** 2, 1.0, "%s: not a rotation" % what, 1e-7)
            ctx.close([x.imag, y.real], [0, 0], "%s: not of the form exp(-i t P)" % what, 1e-7)
            return k
    ctx.fail("%s: not a rotation about an allowed word" % what)


def line_step(ctx, U, V, table, H, n, prev, what, second=False, opt=True):
    """Check one line-search step U -> V among the words in table except prev.
    Returns (word or None, energy drop)."""
    V = np.asarray(V)
    ctx.unitary(V, what)
    psi = U[:, 0]
    sc = max(1.0, np.abs(H).sum(axis=1).max())
    w = dict((k, abs(ref.omega(psi, P, H))) for k, P in table.items() if k != prev)
    vals = sorted(w.values(), reverse=True)
    bound = vals[1 if second and len(vals) > 1 else 0]
    k = find_word(V @ U.conj().T, table, n, ctx, what)
    e0, e1 = ref.energy(U, H), ref.energy(V, H)
    ctx.require(e1 <= e0 + 1e-8 * sc, "%s: the energy went up from %.12g to %.12g" % (what, e0, e1))
    if k is None:
        ctx.require(bound <= 1e-4 * sc, "%s: no move although a gradient of size %g is available" % (what, bound))
        return None, 0.0
    ctx.require(k != prev, "%s: word %s was used by the call before" % (what, k))
    ctx.require(w[k] >= bound - 1e-9 * sc, "%s: word %s has gradient %g, the steepest is %g (%s)" % (
        what, k, w[k], bound, [q for q in w if w[q] >= bound - 1e-9 * sc][:4]))
    best = optimum(psi, table[k], H)
    ctx.require(abs(e1 - best) <= 1e-7 * sc, "%s along %s: energy %.12g, the minimum on the line is %.12g" % (what, k, e1, best))
    return k, e0 - e1


def check(case, ctx):
    n, mode = case["n"], case["mode"]
    dev = qm.device(n)
    obs = [qm.obs(o) for o in case["obs"]]
    H = ref.ham(case["obs"], n)
    sc = max(1.0, np.abs(H).sum(axis=1).max())
    U = ref.unitary(case["U"], n)
    ctx.label(mode, "n%d" % n)
    if mode == "rotosolve":
        P = ref.word(case["word"])
        qn = qml.QNode(circuit_observable_from_unitary, dev)
        U0, P0 = U.copy(), P.copy()
        k = n - case["word"].count("I")
        V, t = ctx.sut("rotosolve", rotosolve, P, obs, qn, U, k)
        ctx.require(np.array_equal(U, U0) and np.array_equal(P, P0), "rotosolve changed its arguments")
        ctx.close(V, ref.prot(P, float(t) / 2) @ U, "unitary against the returned angle", 1e-8)
        ctx.close(ref.energy(V, H), optimum(U[:, 0], P, H), "energy at the returned angle", 1e-7 * sc)
        ctx.label("weight%d" % k)
        ctx.mark(ref.energy(U, H) - ref.energy(V, H) > 1e-6)
        return
    kw = {} if case["eta"] is None else {"eta": case["eta"]}
    if mode == "squared":
        layer = ctx.sut("constructor", SquaredLieAlgebraLayer, dev, obs, **kw)
        table = ref.su_tables(n, (1, 2))
    else:
        for k, v in (("add_su2", case["su2"]), ("add_su4", case["su4"])):
            if v is not None:
                kw[k] = v
        layer = ctx.sut("constructor", SU8_AlgebraLayer, dev, obs, **kw)
        sizes = ([1] if case["su2"] is not False else []) + ([2] if case["su4"] is not False else []) + [3]
        table = ref.su_tables(n, sizes)
    prev, unknown = None, False
    last = U
    out = U
    feed = ref.Feed(case)
    for i, s in enumerate(["chain"] + case["steps"]):
        cur = out if s == "chain" else last if s == "same" else ref.unitary(s, n)
        keep = cur.copy()
        arg = feed(cur)
        V = np.array(ctx.sut("call %d" % i, layer, arg))
        ctx.require(np.array_equal(arg, keep), "the layer changed the unitary it was given")
        k, drop = line_step(ctx, cur, V, table, H, n, prev if mode == "squared" else None, "call %d" % i, unknown)
        if mode == "squared":
            prev, unknown = k, k is None
        ctx.mark(drop > 1e-6)
        if k is None:
            ctx.label("stationary")
        else:
            ctx.label("size%d" % len(k[0]))
        if s == "same":
            ctx.label("repeated")
        last, out = cur, V
