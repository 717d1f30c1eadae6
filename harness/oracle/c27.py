"""Bloch-sphere conversions."""
import numpy as np
from oranssi.plot_utils import spherical_to_state, state_to_spherical
from . import ref

TWO = 2 * np.pi


def bloch(phi, theta):
    v = (np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta))
    return 0.5 * (ref.I2 + v[0] * ref.PAULI["X"] + v[1] * ref.PAULI["Y"] + v[2] * ref.PAULI["Z"])


def to_angles(ctx, rho, what):
    keep = rho.copy()
    res = ctx.sut("state_to_spherical", state_to_spherical, rho)
    ctx.require(np.array_equal(rho, keep), "the state was changed")
    phi, theta = float(res[0]), float(res[1])
    ctx.require(np.isfinite(phi) and np.isfinite(theta), "%s: angles %s" % (what, res))
    ctx.require(0 <= phi < TWO and 0 <= theta <= np.pi + 1e-9, "%s: angles %s out of range" % (what, res))
    x, y, z = [np.trace(rho @ ref.PAULI[c]).real for c in "XYZ"]
    ctx.close(np.cos(theta), np.clip(z, -1, 1), "%s: cos(theta)" % what, 1e-7)
    r = np.hypot(x, y)
    if r > 1e-6:
        want = np.arctan2(y, x) % TWO
        near = TWO - want < 1.1e-3
        d = abs((phi - want + np.pi) % TWO - np.pi)
        ctx.require(d < (1.1e-3 if near else 1e-6 + 1e-9 / r), "%s: phi %r, expected %r" % (what, phi, want))
        if near:
            ctx.label("wrap")
    return phi, theta, r


def check(case, ctx):
    k = case["k"]
    ctx.label(k)
    if k == "ang":
        for phi, theta in case["pts"]:
            rho = np.asarray(ctx.sut("spherical_to_state", spherical_to_state, phi, theta))
            ctx.close(rho, bloch(phi, theta), "state at phi=%r theta=%r" % (phi, theta), 1e-10)
            p, t, r = to_angles(ctx, rho, "angles of phi=%r theta=%r" % (phi, theta))
            back = np.asarray(ctx.sut("spherical_to_state", spherical_to_state, p, t))
            tol = 1e-7 if TWO - (phi % TWO) > 1.2e-3 else 1.2e-3
            if np.sin(theta) < 0 and TWO - ((phi + np.pi) % TWO) <= 1.2e-3:
                tol = 1.2e-3
            ctx.close(back, rho, "round trip from phi=%r theta=%r" % (phi, theta), tol)
            if 0 <= theta <= np.pi and 0 <= phi < TWO - 1.2e-3 and r > 1e-4:
                ctx.close([p, t], [phi, theta], "angles after a round trip", 1e-6)
            ctx.mark(r > 1e-3 or r < 1e-7)
        return
    if k == "vec":
        v = case["v"]
        psi = np.array([v[0] + 1j * v[1], v[2] + 1j * v[3]])
        psi = psi / np.linalg.norm(psi)
        rho = np.outer(psi, psi.conj())
    else:
        psi = ref.haar(case["s"], 2)[:, 0]
        m = case.get("m", 0.0)
        rho = (1 - m) * np.outer(psi, psi.conj()) + m * np.eye(2) / 2
    if k == "bad":
        ctx.rejects("state of trace %g" % case["f"], state_to_spherical, rho * case["f"])
        return
    p, t, r = to_angles(ctx, rho, "angles of a state")
    ctx.mark(r > 1e-3)
