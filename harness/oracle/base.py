"""Verdict helpers shared by the oracles."""
import numpy as np


class Violation(Exception):
    pass


class Ctx(object):
    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels.add(str(n))

    def mark(self, cond=True):
        if cond:
            self.nontrivial = True

    def fail(self, msg):
        raise Violation(msg)

    def require(self, cond, msg):
        if not cond:
            raise Violation(msg)

    def sut(self, what, fn, *a, **k):
        """Call the code under test on an input it must accept."""
        try:
            return fn(*a, **k)
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:
            raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:300]))

    def rejects(self, what, fn, *a, **k):
        """Call the code under test on an input it must reject with an AssertionError."""
        exc = k.pop("exc_type_", AssertionError)
        try:
            fn(*a, **k)
        except (MemoryError, KeyboardInterrupt):
            raise
        except exc:
            return
        except BaseException as e:
            raise Violation("%s: expected %s, got %s: %s" % (what, exc, type(e).__name__, str(e)[:300]))
        raise Violation("%s: accepted, expected %s" % (what, exc))

    def close(self, got, want, what, tol=1e-8):
        try:
            g = np.asarray(got, dtype=complex)
        except Exception as e:
            raise Violation("%s: not numeric (%s): %r" % (what, e, got))
        w = np.asarray(want, dtype=complex)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s" % (what, g.shape, w.shape))
        if g.size == 0:
            return
        d = np.abs(g - w)
        if not np.all(np.isfinite(d)):
            raise Violation("%s: not finite" % what)
        if d.max() > tol:
            i = np.unravel_index(int(np.argmax(d)), d.shape) if d.shape else ()
            raise Violation("%s: off by %.3g at %s (got %s, expected %s)" % (
                what, d.max(), tuple(int(x) for x in i), g[i], w[i]))

    def unitary(self, U, what, tol=1e-7):
        U = np.asarray(U)
        if U.ndim != 2 or U.shape[0] != U.shape[1]:
            raise Violation("%s: shape %s is not square" % (what, U.shape))
        self.close(U @ U.conj().T, np.eye(U.shape[0]), what + " is not unitary", tol)
