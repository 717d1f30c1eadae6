"""Operator norm sqrt(tr R+R)."""
import math

import numpy as np
from oranssi.utils import operator_2_norm
from . import ref


def build(case, s):
    a, b, k = case["a"], case["b"], case["kind"]
    rs = np.random.RandomState(s)
    M = rs.randn(a, b) + 1j * rs.randn(a, b)
    if k == "nil":
        M = np.triu(M, 1)
    elif k == "rank1":
        M = np.outer(M[:, 0], M[0])
    elif k == "unitary":
        M = ref.haar(s, a)
    elif k == "single":
        v = M[0, 0]
        M = np.zeros((a, b), dtype=complex)
        M[rs.randint(a), rs.randint(b)] = v
    elif k == "real":
        M = M.real.copy()
    elif k == "int":
        return rs.randint(-5, 6, size=(a, b))
    elif k == "herm":
        M = rs.randn(a, a) + 1j * rs.randn(a, a)
        M = M + M.conj().T
    M = M * case["scale"]
    return np.asfortranarray(M) if case["layout"] == "F" else np.ascontiguousarray(M.T).T if case["layout"] == "T" else M


def norm(ctx, R):
    keep = R.copy()
    r = ctx.sut("operator_2_norm", operator_2_norm, R)
    ctx.require(np.array_equal(R, keep), "the matrix was changed")
    ctx.require(np.ndim(r) == 0 and not np.iscomplexobj(r), "not a real scalar: %r" % (r,))
    return float(r)


def check(case, ctx):
    R, S = build(case, case["s"]), build(case, case["s"] + 1)
    x = norm(ctx, R)
    want = math.sqrt(math.fsum(float(abs(z)) ** 2 for z in R.ravel()))
    ctx.require(abs(x - want) <= 1e-9 * want, "norm %r, expected %r" % (x, want))
    t = 1e-9 * max(want, 1e-30)
    c = complex(*case["c"])
    ctx.require(abs(norm(ctx, c * R) - abs(c) * x) <= 1e-8 * abs(c) * want + 1e-300, "not homogeneous")
    ctx.require(norm(ctx, R + S) <= x + norm(ctx, S) + 10 * t + 1e-8 * want, "triangle inequality")
    ctx.require(abs(norm(ctx, R.conj().T) - x) <= 10 * t, "norm of the adjoint")
    U, V = ref.haar(case["s"] + 2, R.shape[0]), ref.haar(case["s"] + 3, R.shape[1])
    ctx.require(abs(norm(ctx, U @ R @ V) - x) <= 1e-8 * want, "not unitarily invariant")
    ctx.mark(np.iscomplexobj(R) and R.shape[0] > 1 and np.abs(R - np.diag(np.diag(R)) if R.shape[0] == R.shape[1] else R).max() > 0)
    ctx.label(case["kind"], "square" if R.shape[0] == R.shape[1] else "rect")
