"""Plotted data against independently computed gradients."""
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from oranssi import plot_utils as pu
from . import qm, ref


def lines(ax):
    out = {}
    for l in ax.get_lines():
        out.setdefault(l.get_label(), []).append(np.asarray(l.get_ydata(), dtype=float))
    return out


def drawn(ax, phi, th, costs, ctx):
    """Every inner grid point lies in the filled contour of its cost and in no other one."""
    from matplotlib.path import Path
    bands = [[[Path(q) for q in p.to_polygons()] for p in c.get_paths()] for c in ax.collections]
    order = []
    for i in range(1, len(th) - 1):
        for j in range(1, len(phi) - 1):
            inside = [k for k, ps in enumerate(bands) if any(sum(q.contains_point((phi[j], th[i])) for q in p) % 2 for p in ps)]
            if len(inside) == 1:
                order.append((costs[i, j], inside[0]))
    order.sort()
    ctx.require(all(a[1] <= b[1] for a, b in zip(order, order[1:])), "the contours drawn at the grid points are not in the order of the costs: %s" % order)


def check(case, ctx):
    try:
        _check(case, ctx)
    finally:
        plt.close("all")


def _check(case, ctx):
    k, n = case["k"], case["n"]
    ctx.label(k)
    if k in ("landscape", "font"):
        a, b = case["shape"]
        rs = np.random.RandomState(case["s"])
        phi, th = np.sort(rs.rand(a) * 6), np.sort(rs.rand(b) * 3)
        fig, ax = plt.subplots()
        if k == "landscape":
            costs = rs.randn(b, a)
            ctx.sut("plot_bloch_sphere_2d", pu.plot_bloch_sphere_2d, phi, th, costs, ax, fig)
            ctx.require(ax.get_xlabel() == r"$\phi$" and ax.get_ylabel() == r"$\theta$", "axis labels")
            ctx.require(len(ax.collections) >= 1, "no contours drawn")
            ctx.require(len(fig.axes) == 2, "no colour bar")
            ctx.close(ax.get_xlim(), [phi[0], phi[-1]], "phi range", 1e-9)
            ctx.close(ax.get_ylim(), [th[0], th[-1]], "theta range", 1e-9)
            lo, hi = fig.axes[1].get_ylim()
            ctx.require(lo <= costs.min() + 1e-9 and hi >= costs.max() - 1e-9, "colour range (%g, %g) does not cover the costs (%g, %g)" % (
                lo, hi, costs.min(), costs.max()))
            drawn(ax, phi, th, costs, ctx)
            ctx.mark(a >= 3 and b >= 3)
        else:
            ax.plot(phi[:min(a, b)], th[:min(a, b)])
            ax.set_xlabel("a")
            ax.set_ylabel("b")
            ctx.sut("change_label_fontsize", pu.change_label_fontsize, ax, case["size"])
            items = [ax.xaxis.label, ax.yaxis.label] + ax.get_xticklabels() + ax.get_yticklabels()
            ctx.require(all(i.get_fontsize() == case["size"] for i in items), "label sizes %s" % [i.get_fontsize() for i in items])
            ctx.mark()
        return
    dev = qm.device(n)
    obs = [qm.obs(o) for o in case["obs"]]
    H = ref.ham(case["obs"], n)
    us = [ref.unitary(u, n) for u in case["us"]]
    words = ref.all_words(n)
    w = {}
    for word in words:
        P = ref.word(word)
        w[word] = np.array([ref.omega(U[:, 0], P, H) / 2 ** n for U in us])
    size = lambda i: sum(np.abs(w[x]) for x in words if x.count("I") == i)
    if k == "su16" or k == "su8":
        fig, ax = (ctx.sut("plot_su16_directions", pu.plot_su16_directions, n, us, obs, dev) if k == "su16" else
                   ctx.sut("plot_su8_directions", pu.plot_su8_directions, n, us, obs, dev))
        got = lines(ax)
        want = {"Min.": [np.zeros(len(us))]}
        for i in range(n):
            want[r"SU$(%d)$" % 2 ** (n - i)] = [size(i)]
        ctx.require(set(got) == set(want), "lines %s, expected %s" % (sorted(got), sorted(want)))
        for l in want:
            ctx.require(len(got[l]) == 1, "line %s drawn %d times" % (l, len(got[l])))
            ctx.close(got[l][0], want[l][0], "line %s" % l, 1e-8)
    elif k == "individual":
        fig, ax = ctx.sut("plot_su8_directions_individually", pu.plot_su8_directions_individually, us, obs, dev)
        got = lines(ax)
        for word in words:
            if word.count("I") == n:
                ctx.require(word not in got, "a line for the identity")
                continue
            big = np.abs(w[word]).max()
            if big > 1.1e-8:
                ctx.require(word in got, "no line for %s although its gradient reaches %g" % (word, big))
            if word in got:
                ctx.require(big > 0.9e-8, "a line for %s, whose gradient is zero" % word)
                ctx.close(got[word][0], w[word], "line %s" % word, 1e-8)
                ctx.require(len(got[word]) == 1, "line %s drawn twice" % word)
        ctx.require(set(got) <= set(words), "lines %s" % (set(got) - set(words)))
    else:
        fig, axs = ctx.sut("plot_su16_directions_separate", pu.plot_su16_directions_separate, n, us, obs, dev)
        for (r, c), i in (((0, 0), 3), ((0, 1), 2), ((1, 0), 1), ((1, 1), 0)):
            got = lines(axs[r, c])
            want = [x for x in words if x.count("I") == i]
            ctx.require(set(got) == set(want), "panel (%d, %d): lines %s" % (r, c, sorted(got)[:8]))
            for x in want:
                ctx.close(got[x][0], w[x], "line %s" % x, 1e-8)
    ctx.mark(len(us) >= 2 and max(np.abs(v).max() for v in w.values()) > 1e-6)
