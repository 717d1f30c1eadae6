"""Stochastic layer: sweeps over qubits and words without replacement, and the step along the drawn word."""
import itertools as it

import numpy as np
from oranssi.opt_tools import AlgebraSU4, StochasticLieAlgebraLayer
from . import qm, ref
from .c16 import scale

W1 = list("XYZ")
W2 = ["".join(w) for w in it.product("XYZ", repeat=2)]


class Sweep(object):
    """What a draw may return: qubits unused in this sweep, words unused since the word list was last full."""

    def __init__(self, n, su2):
        self.n, self.all = n, (W1 if su2 else []) + W2
        self.used, self.left, self.wraps = set(), list(self.all), 0

    def step(self, ctx, word, qubits, what):
        word, qubits = str(word), [int(q) for q in qubits]
        if len(self.used) == self.n:
            self.used, self.wraps = set(), self.wraps + 1
        if not self.left:
            self.left = list(self.all)
        free = self.n - len(self.used)
        if free == 1 and not any(len(w) == 1 for w in self.left):
            self.left += W1
        ctx.require(word in self.left, "%s: word %s, left in this sweep: %s" % (what, word, self.left))
        ctx.require(len(word) == len(qubits) == len(set(qubits)), "%s: word %s on qubits %s" % (what, word, qubits))
        ctx.require(len(word) == 1 or free > 1, "%s: word %s with one qubit left" % (what, word))
        ctx.require(all(0 <= q < self.n for q in qubits), "%s: qubits %s" % (what, qubits))
        ctx.require(not self.used & set(qubits), "%s: qubits %s, already used in this sweep: %s" % (what, qubits, self.used))
        self.used |= set(qubits)
        self.left.remove(word)


def check_sampler(case, ctx):
    n = case["n"]
    alg = ctx.sut("constructor", AlgebraSU4, n, add_su2=case["su2"])
    model = Sweep(n, case["su2"])
    words, pairs = set(), set()
    for i in range(case["draws"]):
        word, qubits = ctx.sut("draw %d" % i, alg.get_random_direction_and_qubits)
        model.step(ctx, word, qubits, "draw %d" % i)
        key = (str(word),) + tuple(int(q) for q in qubits)
        words.add(key[0])
        pairs.add(frozenset(key[1:]))
        ctx.require(key in alg.full_paulis, "draw %d: no operator for %s" % (i, key))
        if i < 40:
            ctx.close(alg.full_paulis[key], ref.full_word(key[0], key[1:], n), "operator for %s" % (key,), 1e-12)
    if case["draws"] >= 600:
        ctx.label("long")
        ctx.require(n == 1 or words == set(model.all) | (words & set(W1)), "words never drawn: %s" % (set(model.all) - words))
        if n <= 4:
            for r in ((1, 2) if case["su2"] else (2,)):
                for qs in it.combinations(range(n), r):
                    ctx.require(frozenset(qs) in pairs, "qubits %s never drawn in %d draws" % (qs, case["draws"]))
    ctx.label("sampler", "n%d" % n)
    ctx.mark(model.wraps > 0 and n >= 2)


def check(case, ctx):
    if case["mode"] == "sampler":
        return check_sampler(case, ctx)
    n = case["n"]
    dev = qm.device(n)
    kw = {"unitary_error_check": case["check"]}
    if case["eta"] is not None:
        kw["eta"] = case["eta"]
    layer = ctx.sut("constructor", StochasticLieAlgebraLayer, dev, [qm.obs(o) for o in case["obs"]], **kw)
    obs = [ref.obs_full(o, n) for o in case["obs"]]
    U = ref.unitary(case["U"], n)
    eta = 0.1 if case["eta"] is None else case["eta"]
    sc = scale(case)
    model = Sweep(n, True)
    ctx.label("layer", "n%d" % n)
    feed = ref.Feed(case)
    for i, s in enumerate(case["steps"]):
        if s != "call":
            ctx.sut("set_eta", layer.set_eta, s)
            eta = s
            continue
        U0 = U.copy()
        arg = feed(U)
        V = np.array(ctx.sut("layer call", layer, arg))
        ctx.require(np.array_equal(arg, U0), "the layer changed the unitary it was given")
        word, qubits = str(layer.current_direction), [int(q) for q in layer.current_qubits]
        model.step(ctx, word, qubits, "call %d" % i)
        if sc > 1e6:
            if case["check"]:
                ctx.unitary(V, "step with the unitary check on", 1e-6)
                ctx.label("projected")
                a, _, b = np.linalg.svd(V)  # each factor may be off by 1e-8: do not let that build up over the calls
                U = a @ b
            continue
        P = ref.full_word(word, qubits, n)
        W = U
        for O in obs:
            W = ref.prot(P, eta / 2 ** n * ref.omega(U[:, 0], P, O)) @ W
        ctx.close(V, W, "call %d along %s on %s (eta %g)" % (i, word, qubits, eta), 1e-8 * sc)
        if np.abs(W - U).max() > 1e-6:
            ctx.label("moved")
        U = W
    ctx.mark(model.wraps > 0 and n >= 2)
