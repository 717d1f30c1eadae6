"""Operator tables of the local algebras."""
import itertools as it

import numpy as np
from oranssi.opt_tools import AlgebraSU2, AlgebraSU4, AlgebraSU8
from . import ref


def norm(k):
    return (str(k[0]),) + tuple(int(q) for q in k[1:])


def compare(ctx, alg, model, n, what):
    got = dict((norm(k), v) for k, v in alg.full_paulis.items())
    ctx.require(len(got) == len(alg.full_paulis), "%s: duplicate keys" % what)
    ctx.require(set(got) == set(model), "%s: missing %s, unexpected %s" % (
        what, sorted(set(model) - set(got))[:3], sorted(set(got) - set(model))[:3]))
    for k, m in got.items():
        m = np.asarray(m)
        ctx.require(m.shape == model[k].shape, "%s: shape of %s" % (what, k))
        ctx.require(np.abs(m - model[k]).max() < 1e-12, "%s: wrong operator for %s" % (what, k))


def check(case, ctx):
    n, kind = case["n"], case["kind"]
    su2, su4 = case["flags"]
    if kind == "su2":
        alg = ctx.sut("constructor", AlgebraSU2, n)
        sizes = [1]
    elif kind == "su4":
        alg = ctx.sut("constructor", AlgebraSU4, n, **({} if su2 is None else {"add_su2": su2}))
        sizes = ([1] if su2 else []) + [2]
    else:
        kw = {}
        if su2 is not None:
            kw["add_su2"] = su2
        if su4 is not None:
            kw["add_su4"] = su4
        alg = ctx.sut("constructor", AlgebraSU8, n, **kw)
        sizes = ([1] if su2 else []) + ([2] if su4 else []) + [3]
    words = [w for r in sizes for w in ref.all_words(r, "XYZ")]
    ctx.require([str(d) for d in alg.directions] == words, "directions %s" % (list(alg.directions),))
    model = {}
    for w in words:
        for qs in it.combinations(range(n), len(w)):
            model[(w,) + qs] = ref.full_word(w, qs, n)
    stray = set(norm(k) for k in alg.full_paulis) - set(model)
    ctx.require(not stray, "a new table contains %s" % sorted(stray)[:3])
    ctx.sut("get_all_directions_and_qubits", alg.get_all_directions_and_qubits)
    compare(ctx, alg, model, n, "full table")
    drawn = False
    count = 0
    for op in case["ops"]:
        if op[0] == "all":
            if drawn:
                continue
            ctx.sut("get_all_directions_and_qubits", alg.get_all_directions_and_qubits)
        elif op[0] == "add":
            if op[1] not in words:
                continue
            ctx.sut("add_pauli", alg.add_pauli, op[1], tuple(op[2]))
            model[(op[1],) + tuple(op[2])] = ref.full_word(op[1], op[2], n)
        else:
            if kind != "su4" or not su2:
                continue
            d, q = ctx.sut("get_random_direction_and_qubits", alg.get_random_direction_and_qubits)
            k = norm((d,) + tuple(q))
            ctx.require(k[0] in words, "drew %s" % (k,))
            model[k] = ref.full_word(k[0], k[1:], n)
            drawn = True
        count += 1
        compare(ctx, alg, model, n, "after %s" % op[0])
        ctx.label("op-" + op[0])
    ctx.require([str(d) for d in alg.directions] == words, "directions changed")
    ctx.label(kind, "n%d" % n, "flags%s%s" % (su2, su4))
    ctx.mark(n >= 3 and count >= 2)
