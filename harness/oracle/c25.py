"""Sums of Pauli strings against matrices."""
import numpy as np
from oranssi.pauli import PauliSum
from . import ref
from .paulilib import make, matrix, snapshot, spec_matrix, words


def total(s, sites):
    out = np.zeros((2 ** len(sites),) * 2, dtype=complex)
    for m in s.pauli_sum:
        out = out + matrix(m, sites)
    return out


def check(case, ctx):
    sites = case["sites"]
    pool = []
    for spec in case["sums"]:
        mons = [ctx.sut("PauliMonomial", make, m) for m in spec]
        keep = [snapshot(m) for m in mons]
        s = ctx.sut("PauliSum", PauliSum, mons)
        ctx.require(keep == [snapshot(m) for m in mons], "building a sum changed the strings it was given")
        M = sum(spec_matrix(m, sites) for m in spec)
        ctx.close(total(s, sites), M, "new sum", 1e-9 * max(1.0, float(np.abs(M).max())))
        if len(s) < len(spec):
            ctx.label("merged")
        pool.append((s, M, None))
    nops, merged = 0, False
    for op in case["ops"]:
        i = op[1] % len(pool)
        A, MA = pool[i][:2]
        if op[0] == "scale":
            f = 1j if op[2] == "i" else op[2]
            ctx.sut("scalar_mul", A.scalar_mul, f)
            pool[i] = (A, MA * f, None)
        else:
            j = i if op[0] == "self" else op[2] % len(pool)
            B, MB = pool[j][:2]
            if max(np.abs(MA).max(), np.abs(MB).max()) > 1e5 or len(A) * len(B) > 80:
                continue
            kind = "sub" if op[0] == "self" else op[0]
            na, nb = len(A), len(B)
            if kind == "add":
                C, M, most = ctx.sut("sum", lambda: A + B), MA + MB, na + nb
            elif kind == "sub":
                C, M, most = ctx.sut("difference", lambda: A - B), MA - MB, na + nb
            else:
                C, M, most = ctx.sut("product", lambda: A * B), MA @ MB, na * nb
            ctx.close(total(C, sites), M, op[0], 1e-9 * max(1.0, np.abs(M).max(), np.abs(MA).max(), np.abs(MB).max()))
            if len(C) < most:
                merged = True
                ctx.label("merged")
            if kind != "mul" and all(complex(m.coeff).imag == 0 for S in (A, B) for m in S.pauli_sum):
                keys = [tuple(sorted(words(m).items())) for m in C.pauli_sum]
                ctx.require(len(set(keys)) == len(keys), "%s: the same string twice in %s" % (op[0], C.pauli_sum))
                if len(C) < most:
                    ctx.require(all(complex(m.coeff) != 0 for m in C.pauli_sum), "%s: a cancelled string was kept" % op[0])
            pool.append((C, M, None))
        nops += 1
        ctx.label(op[0])
        for s, M, _ in pool:
            ctx.close(total(s, sites), M, "a sum in the pool after %s" % op[0], 1e-9 * max(1.0, np.abs(M).max()))
    for k, (s, M, _) in enumerate(pool):
        ctx.require([id(x) for x in s.pauli_sum] == [id(s[i]) for i in range(len(s))], "indexing a sum")
    ctx.mark(nops >= 2 and merged)
