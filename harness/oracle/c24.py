"""Products and commutators of Pauli strings against matrices."""
import numpy as np
from . import ref
from .paulilib import CHR, coeff, make, make_pauli, matrix, number, snapshot, spec_matrix, words


def check(case, ctx):
    sites = case["sites"]
    # single operators
    p, q = [ctx.sut("Pauli", make_pauli, s) for s in case["p"]]
    a, b = case["p"]
    r = ctx.sut("Pauli product", lambda: p * q)
    want = coeff(a["c"])[1] * coeff(b["c"])[1] * ref.PAULI[a["g"]] @ ref.PAULI[b["g"]]
    ctx.require(int(r.alpha) == a["s"], "site of a product: %s" % r.alpha)
    ctx.close(number(r.coeff) * ref.PAULI[CHR[int(r.gamma)]], want, "%s * %s" % (a, b), 1e-9 * max(1.0, float(np.abs(want).max())))
    for o, s in ((p, a), (q, b)):
        ctx.require(int(o.alpha) == s["s"] and CHR[int(o.gamma)] == s["g"], "operand of a product changed")
        ctx.close(number(o.coeff), coeff(s["c"])[1], "coefficient of an operand", 0.0)
    other = dict(b, s=case["other"])
    ctx.rejects("product of operators on different sites", lambda: p * make_pauli(other))
    r = ctx.sut("Pauli.conj", p.conj)
    ctx.require(r is p and int(p.alpha) == a["s"] and CHR[int(p.gamma)] == a["g"], "conj of a single operator")
    ctx.close(number(p.coeff), np.conj(coeff(a["c"])[1]), "conj of a single operator", 1e-12)
    # strings
    pool = []
    for m in case["mons"]:
        obj = ctx.sut("PauliMonomial", make, m)
        mat = spec_matrix(m, sites)
        ctx.require(list(obj.locations) == sorted(x["s"] for x in m), "sites %s" % (obj.locations,))
        ctx.close(matrix(obj, sites), mat, "a new string", 1e-9 * max(1.0, float(np.abs(mat).max())))
        pool.append((obj, mat))
    base = len(pool)
    for op, i, j in case["ops"]:
        shift = 0 if j >= 8 or i % len(pool) != j % len(pool) else 1
        i, j = i % len(pool), (j + shift) % len(pool)
        (A, MA), (B, MB) = pool[i], pool[j]
        before = [snapshot(o) for o, _ in pool]
        if max(np.abs(MA).max(), np.abs(MB).max()) > 1e4:
            continue
        tol = 1e-9 * max(1.0, np.abs(MA).max() * np.abs(MB).max())
        if op == "mul":
            C, M = ctx.sut("product", lambda: A * B), MA @ MB
        elif op == "comm":
            C, M = ctx.sut("commutator", A.commutator, B), MA @ MB - MB @ MA
            if np.abs(M).max() < 1e-12:
                ctx.label("commuting")
        elif op == "commutes":
            got = ctx.sut("commutes_with", A.commutes_with, B)
            if case["exact"] and i < base and j < base:
                w = np.abs(MA @ MB - MB @ MA).max() < 1e-12
                ctx.require(bool(got) == w, "commutes_with says %s, the matrices say %s" % (got, w))
                ctx.label("commutes-%s" % w)
            C = None
        else:
            if i < base:
                C = ctx.sut("conj", A.conj)
                ctx.require(C is A, "conj returned another object")
                w = words(A)
                M = np.conj(number_from(MA, w, sites)) * ref.word([w.get(s, "I") for s in sites])
                ctx.close(matrix(A, sites), M, "conjugate", 1e-9 * max(1.0, float(np.abs(M).max())))
                pool[i] = (A, M)
                before[i] = snapshot(A)
            C = None
        after = [snapshot(o) for o, _ in pool]
        ctx.require(before == after, "%s changed one of its operands or another string" % op)
        if C is not None:
            ctx.require(list(C.locations) == sorted(words(C)), "sites of a result: %s" % (C.locations,))
            ctx.require(set(words(C)) <= set(sites), "sites of a result: %s" % (C.locations,))
            ctx.close(matrix(C, sites), M, op, tol)
            if set(A.locations) & set(B.locations):
                ctx.mark()
            if i >= base or j >= base:
                ctx.label("nested")
                ctx.mark()
            pool.append((C, M))
        ctx.label(op)
    # conjugates of results: last, because a result may share its operators with the strings it was made from
    for C, M in pool[base:]:
        for want in (np.conj(M.T), M):
            r = ctx.sut("conj of a result", C.conj)
            ctx.require(r is C, "conj returned another object")
            ctx.close(matrix(C, sites), want, "conjugate of a result", 1e-9 * max(1.0, np.abs(M).max()))
            ctx.label("conj-result")


def number_from(M, w, sites):
    P = ref.word([w.get(s, "I") for s in sites])
    return np.trace(P.conj().T @ M) / P.shape[0]
