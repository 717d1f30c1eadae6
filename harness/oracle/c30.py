"""Layers and optimizers sharing a device do not influence each other; calls leave the caller's data alone."""
import copy

import numpy as np
from oranssi import opt_tools as T
from oranssi.optimizers import approximate_lie_optimizer, exact_lie_optimizer, parameter_shift_optimizer
from . import qm, ref, zygote
from .base import Ctx, Violation


def make(kind, dev, obs, n, eta, opt=0):
    """opt: three bits that switch options on and off."""
    kw = {}
    if opt & 1:
        kw["trotterize"] = True
    if opt & 2:
        kw["unitary_error_check"] = True
    if kind == "local1":
        if opt & 4:
            kw["directions"] = ["Z", "X"]
        return T.LocalLieAlgebraLayer(dev, obs, 1, eta=eta, **kw)
    if kind == "local2":
        if opt & 4:
            kw["directions"] = ["ZX", "YY", "XY"]
        return T.LocalLieAlgebraLayer(dev, obs, 2, eta=eta, **kw)
    if kind == "custom":
        return T.CustomDirectionLieAlgebraLayer(dev, obs, ["X", "Y"] + ([["ZZ"], ["YZ"]][opt >> 2] if n > 1 else []), eta=eta, **kw)
    if kind == "zass":
        return T.ZassenhausLayer(dev, obs, eta=eta, ratio=[(1, 2), (2, 1)][opt >> 2], **kw)
    if kind == "su8":
        return T.SU8_AlgebraLayer(dev, obs, eta=eta, add_su2=not opt & 4, **kw)
    cls = {"stochastic": T.StochasticLieAlgebraLayer, "squared": T.SquaredLieAlgebraLayer,
           "adapt": T.AdaptVQELayer, "zass2": T.ZassenhausLayerV2}[kind]
    return cls(dev, obs, eta=eta, **kw)


def stub(circuit, p, observables, device, **kw):
    final = [[0.2 + 0.1 * i + 0.05 * j for j in range(len(x))] for i, x in enumerate(p)]
    return [0.0, 0.1], [np.array([list(x) for x in p]), np.array(final)]


class World(object):
    """One device, one list of observables, and what happens on them."""

    def __init__(self, case, ctx):
        self.case, self.ctx, self.n = case, ctx, case["n"]
        self.dev = qm.device(self.n)
        self.specs = [case["obs"]] + ([case["obs2"]] if case.get("obs2") else [])
        self.lists = [[qm.obs(o) for o in s] for s in self.specs]
        self.obs = self.lists[0]
        self.layers, self.params = {}, {}
        self.held = []
        self.buf = np.zeros((2 ** self.n, 2 ** self.n), dtype=complex)

    def obs_of(self, i):
        return self.lists[i % len(self.lists)]

    def layer(self, i):
        if i not in self.layers:
            kind, eta, opt = (self.case["layers"][i] + [0])[:3]
            self.layers[i] = self.ctx.sut("constructor of %s" % kind, make, kind, self.dev, self.obs_of(i), self.n, eta, opt)
            self.params[i] = []
        return self.layers[i]

    def call(self, i, U, seed):
        ctx, kind = self.ctx, self.case["layers"][i][0]
        layer = self.layer(i)
        arg = self.buf          # the caller reuses one array for all its unitaries
        arg[...] = U
        np.random.seed(seed)
        if kind == "adapt":
            p = self.params[i]
            keep = copy.deepcopy(p)
            V, new = ctx.sut("call of %s" % kind, layer, arg, optimizer=stub, params=p)
            ctx.require(p == keep, "the layer changed the parameters it was given")
            self.params[i] = [[float(y) for y in x] for x in new]
        else:
            V = ctx.sut("call of %s" % kind, layer, arg)
        ctx.require(np.array_equal(arg, U), "a call of %s changed the unitary it was given" % kind)
        out = np.array(V)
        ctx.unitary(out, "result of %s" % kind)
        if isinstance(V, np.ndarray) and not np.may_share_memory(V, arg):
            self.held.append((V, out.copy()))
        arg[...] = 7.0
        return out

    def approx(self, i, k, seed):
        np.random.seed(seed)
        kw = {}
        c, us = self.ctx.sut("approximate_lie_optimizer", approximate_lie_optimizer, qm.state_circuit(self.case["gates"]), [], self.obs_of(i),
                             self.dev, layers=[self.layer(i)], nsteps=k, return_unitary=True, **kw)
        return [np.array([float(x) for x in c])] + [np.array(u) for u in us]

    def exact(self, eta, k):
        c, u = self.ctx.sut("exact_lie_optimizer", exact_lie_optimizer, qm.state_circuit(self.case["gates"]), [], self.obs, self.dev,
                            eta=eta, nsteps=k, return_unitary=True)
        return [np.array([float(x) for x in c]), np.array(u)]

    def ps(self, eta, k):
        gates = self.case["gates"] + [{"g": "RX", "q": [0], "a": [["p", 0, 1.0]]}, {"g": "RY", "q": [self.n - 1], "a": [["p", 1, 1.0]]}]
        c, p = self.ctx.sut("parameter_shift_optimizer", parameter_shift_optimizer, qm.void_circuit(gates), [0.4, -0.7], self.obs, self.dev,
                            eta=eta, nsteps=k, return_params=True)
        return [np.array([float(x) for x in c])] + [np.array(x, dtype=float) for x in p]

    def check_obs(self):
        for lst, specs in zip(self.lists, self.specs):
            for o, s in zip(lst, specs):
                self.ctx.require(list(o.wires.labels) == list(s["q"]), "the wires of an observable changed")
                self.ctx.close(o.matrix, ref.obs_matrix(s), "an observable changed", 0.0 if s.get("t", "P") == "P" else 1e-12)
            self.ctx.require(len(lst) == len(specs), "the list of observables changed")


def check(case, ctx):
    n = case["n"]
    W = World(case, ctx)
    m = len(case["layers"])
    for i in range(m):
        W.layer(i)
    cur = [ref.unitary(case["U"], n)] * m
    last = cur[0]
    log = dict((i, []) for i in range(m))
    runs = []
    turns, seteta = [], set()
    for op in case["ops"]:
        k = op[0]
        if k == "call":
            _, i, src, seed = op
            if case["layers"][i][0] == "adapt" and any(r[0] == "approx" for r in log[i]):
                continue
            U = cur[i] if src == "chain" else last if src == "foreign" else ref.unitary(src, n)
            V = W.call(i, U, seed)
            log[i].append(("call", np.array(U), seed, V.copy()))
            cur[i] = last = V
            turns.append(i)
            ctx.mark(i in seteta)
            ctx.label(case["layers"][i][0])
        elif k == "eta":
            _, i, eta = op
            ctx.sut("set_eta", W.layer(i).set_eta, eta)
            log[i].append(("eta", eta))
            seteta.add(i)
        elif k == "table":
            _, i, spec = op
            keep = ref.unitary(spec, n)
            U = W.buf
            U[...] = keep
            tab = ctx.sut("get_lie_algebra_directions", W.layer(i).get_lie_algebra_directions, U)
            ctx.require(np.array_equal(U, keep), "the gradient table changed the unitary")
            H = ref.ham(W.specs[i % len(W.specs)], n)
            for w in ref.all_words(n)[::3]:
                ctx.close(tab[w], ref.omega(keep[:, 0], ref.word(w), H) / 2 ** n, "gradient %s" % w, 1e-8)
        elif k == "approx":
            _, i, steps, seed = op
            if case["layers"][i][0] == "adapt" and log[i]:
                continue
            if case["layers"][i][0] == "adapt":
                steps = 1
            r = W.approx(i, steps, seed)
            log[i].append(("approx", steps, seed, r))
            turns.append(i)
        else:
            r = getattr(W, k)(op[1], op[2])
            runs.append((k, op[1], op[2], r))
        ctx.label("op-" + k)
    W.check_obs()
    for a, b in W.held:
        ctx.require(np.array_equal(a, b), "a result handed out earlier changed later")
    # the same histories, each alone, partly in a process in which nothing else has happened
    for i in range(m):
        if not log[i]:
            continue
        name = case["layers"][i][0]
        res = fresh(ctx, ("layer", case, i, [r[:-1] if r[0] != "eta" else r for r in log[i]]))
        for j, (r, s) in enumerate(zip(log[i], res)):
            if r[0] == "call":
                ctx.close(r[3], s[0], "call %d of %s among others against the same call alone" % (j, name), 1e-8)
                if s[1] is not None:
                    ctx.close(r[3], s[1], "call %d of %s against a new layer with the present step size" % (j, name), 1e-8)
            elif r[0] == "approx":
                ctx.require(len(r[3]) == len(s), "optimizer run over %s: number of records" % name)
                for x, y in zip(r[3], s):
                    ctx.close(x, y, "optimizer run over %s among others against the same run alone" % name, 1e-8)
    for k, eta, steps, r in runs:
        s = fresh(ctx, ("run", case, k, eta, steps))
        ctx.require(len(s) == len(r), "%s run: number of records" % k)
        for x, y in zip(r, s):
            ctx.close(x, y, "%s optimizer run among others against the same run alone" % k, 1e-8)
    ctx.mark(any(turns[j] == turns[j + 2] != turns[j + 1] for j in range(len(turns) - 2)))


def fresh(ctx, req):
    if not req[1].get("iso", True):
        return alone(req)
    kind, out = zygote.call(req)
    if kind == "Violation":
        raise Violation(out)
    if kind != "ok":
        raise RuntimeError("replay alone: %s %s" % (kind, out))
    return out


def alone(req):
    """Runs in a fresh process: one layer's history, or one optimizer run, by itself."""
    ctx, case = Ctx(), req[1]
    W = World(case, ctx)
    if req[0] == "run":
        return getattr(W, req[2])(req[3], req[4])
    i, out = req[2], []
    name, eta, opt = (case["layers"][i] + [0])[:3]
    for r in req[3]:
        if r[0] == "eta":
            W.layer(i).set_eta(r[1])
            eta = r[1]
            out.append(None)
        elif r[0] == "call":
            V = W.call(i, r[1], r[2])
            f = None
            if name in ("local1", "local2", "custom"):
                layer = ctx.sut("constructor", make, name, W.dev, W.obs_of(i), case["n"], eta, opt)
                f = np.array(ctx.sut("fresh layer", layer, np.array(r[1])))
            out.append((V, f))
        else:
            out.append(W.approx(i, r[1], r[2]))
    return out


zygote.start(alone)
